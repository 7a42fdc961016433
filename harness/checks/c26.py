"""C26: flows and controls of linear-quadratic problems against the exact solution."""
import numpy as np

from lib import lqg
from lib.core import derive
from lib.problems import DT, Problem, flows, query, random_drift, to_np

RULE = ('random linear drifts (several kinds, time dependent ones too), diffusions, intervals, and quadratic, one-dimensional moving and '
        'linear path costs that bring up to a few units of information; both backends, all modes, both samplings, 1-3 dimensions; means and covariances of every '
        'flow at nine times, and the controls at three, against the closed form; non-trivial: all')
NEED = ['forward moments', 'constrained moments', 'true-drift moments', 'controls compared', 'problems with a path cost', 'problems without']
ASSUMPTIONS = ['targets within 1.2 standard deviations of where the weighted process ends; path costs of moderate strength']
SOFT = {'quick': 600, 'thorough': 2700}
CASE_TIMEOUT = 400


GROUP = 4
# several times the largest error seen: of the median over a group of problems, and of the median over the times of one problem
BOUNDS = {True: {'mean Z': (0.08, 0.2), 'spread Z': (0.05, 0.2), 'mean Ztr': (0.05, 0.15), 'spread Ztr': (0.02, 0.1), 'mean B': (0.15, 1.5),
                 'spread B': (0.12, 0.6), 'control': (0.35, 2.5)},
          False: {'mean Z': (0.3, 0.6), 'spread Z': (0.2, 0.45), 'mean Ztr': (0.06, 0.15), 'spread Ztr': (0.04, 0.1), 'mean B': (0.5, 1.2),
                  'spread B': (0.35, 0.8), 'control': (1.5, 5.0)}}


def cases(tier, seed):
    out, i = [], 0
    for rep in range({'quick': 1, 'thorough': 15}[tier]):
        for b in ('np', 'torch'):
            for mode in ('plain', 'rw', 'bridge'):
                for det in (True, False):
                    out.append({'backend': b, 'mode': mode, 'det': det, 'rep': rep, 'seed': derive(seed, 'c26', i)})
                    i += 1
    return out


def problem(rng, case):
    dim = case['dim']
    steps = int(rng.integers(60, 200))
    T, t1 = steps * DT, float([0.0, 0.0, 1.5, -1.0][rng.integers(4)])
    form = ['scalar', 'array', 'list', 'column'][rng.integers(4)]
    val = [round(float(rng.uniform(0.5, 1.2)), 3)] if form == 'scalar' else rng.uniform(0.5, 1.2, dim).round(3).tolist()
    G = (np.reshape(val, (-1,)) * np.ones(dim)) ** 2
    fs = random_drift(rng, dim, ('zero', 'const', 'ou', 'lin', 'tosc'))
    y1 = rng.normal(0, 0.7, dim).round(3)
    t = t1 + DT * np.arange(steps + 1)
    m, S = lqg.forward(fs, None, {}, dim, G, y1, t, case['det'])[-1]
    sd, s2 = np.sqrt(np.diag(S)), float(np.diag(S).mean())
    u = None
    if case['mode'] != 'plain':
        info = float(rng.uniform(0.3, 4.0 if dim < 3 else 2.0))
        kind = ['quad', 'tsin', 'lin'][rng.integers(3)]
        if kind == 'quad':
            u = dict(kind=kind, a=info / T / s2 / 2, c=(m + 0.7 * sd * rng.normal(size=dim)).round(3).tolist())
        elif kind == 'tsin':
            u = dict(kind=kind, a=info / T / s2 / 2, amp=float(sd[-1]), mid=float(m[-1]), w=round(float(rng.uniform(5, 40)), 2))
        else:
            u = dict(kind=kind, a=float(rng.choice([-1, 1])) * info / T / np.sqrt(s2))
        if rng.integers(4) == 0:
            u['row'] = True
        if rng.integers(4) == 0:
            u['offset'] = float([1e3, -1e5][rng.integers(2)])
    f2 = fs
    if case['mode'] == 'bridge':
        f2 = random_drift(rng, dim, ('zero', 'const', 'ou', 'lin', 'tosc'))
    m, S = lqg.forward(fs, u, {}, dim, G, y1, t, case['det'])[-1]
    v = rng.normal(size=dim)
    y2 = m + np.linalg.cholesky(S) @ (v / np.linalg.norm(v) * rng.uniform(0, 1.2))
    spec = dict(backend=case['backend'], dim=dim, N=300 if case['det'] else 400, M=[50, 70, 120][dim - 1], t1=t1, T=T, g={'form': form, 'val': val}, y1=y1.tolist(),
                y2=y2.tolist(), f=fs, mode=case['mode'], det=case['det'], seed=int(rng.integers(1 << 30)), yform='array')
    if case['mode'] != 'plain':
        spec['U'] = u
    if case['mode'] == 'bridge':
        spec['f_true'] = f2
    return spec, G


def errors(X, m, S):
    """distance of the means in standard deviations, and the largest log ratio of the spread in any direction"""
    L = np.linalg.inv(np.linalg.cholesky(S))
    y = L @ (X - m[:, None])
    C = y @ y.T / y.shape[1] - np.outer(y.mean(1), y.mean(1))
    return np.linalg.norm(y.mean(1)), np.abs(np.log(np.maximum(np.linalg.eigvalsh(C), 1e-12))).max() / 2


def run(case, ctx):
    """a group of problems: every one is bounded loosely, and the medians of the group tightly"""
    rng = np.random.default_rng(case['seed'])
    group = [one(rng, dict(case, dim=1 + (case['rep'] + j) % 3), ctx) for j in range(GROUP)]
    key = '%s %s %s' % (case['backend'], case['mode'], 'det' if case['det'] else 'sto')
    for stat, (tight, _) in BOUNDS[case['det']].items():
        if stat not in group[0]:
            continue
        e = [g[stat] for g in group]
        ctx.worst('group %s %s' % (stat, key), float(np.median(e)) / tight)
        ctx.require(np.median(e) < tight, 'the flows or controls of a group of linear-quadratic problems are not the exact ones', what=stat, errors=e,
                    median=np.median(e), allowed=tight, backend=case['backend'], mode=case['mode'], deterministic=case['det'])
        ctx.count('groups judged')


def one(rng, case, ctx):
    spec, G = problem(rng, case)
    p = Problem(spec)
    dim = p.dim
    with ctx.repo('building a controller for %s' % spec):
        c = p.build()
    F, t = flows(c), to_np(c.timegrid)
    k = t.size
    ext = {'y2': spec['y2'], 't2': p.t2}
    u = spec.get('U')
    ctx.count('problems with a path cost' if u else 'problems without')
    exact = {'Z': lqg.forward(spec['f'], u, ext, dim, G, p.y1, t, p.det), 'B': lqg.smooth(spec['f'], u, ext, dim, G, p.y1, p.y2, t)}
    if p.mode == 'bridge':
        exact['Ztr'] = lqg.forward(spec['f_true'], None, ext, dim, G, p.y1, t, p.det)
    info = dict(backend=p.backend, mode=p.mode, deterministic=p.det, dim=dim, k=k, cost=u and u['kind'], drift=spec['f']['kind'])
    names = {'Z': 'forward', 'B': 'constrained', 'Ztr': 'true-drift'}
    key = '%s %s %s' % (p.backend, p.mode, 'det' if p.det else 'sto')
    stats = {}
    for n, law in exact.items():
        err = []
        for q in np.arange(1, 10) / 10:
            i = int(round(q * (k - 1)))
            err.append(errors(F[n][:, :, i], *law[i]))
            ctx.require(np.isfinite(err[-1]).all(), 'the %s flow is not finite' % names[n], at=q, **info)
            ctx.count(names[n] + ' moments')
        for what, e in zip(('mean', 'spread'), np.array(err).T):
            stats['%s %s' % (what, n)] = np.median(e)
    fw = 'Ztr' if p.mode == 'bridge' else 'Z'
    rel = []
    for q in (0.25, 0.5, 0.75):
        i = int(round(q * (k - 1)))
        x = F['B'][:, :40, i].T.copy()
        us = []
        for r in range(4):
            p.seed_all(r)
            with ctx.repo('calculate_u at %d' % i):
                us.append(query(c, p.backend, x, i))
        want = lqg.control(exact['B'][i], exact[fw][i], x)
        L = np.linalg.cholesky(exact['B'][i][1])
        e, s = L.T @ (np.mean(us, 0) - want), L.T @ want
        rel.append(np.sqrt((e ** 2).sum(0).mean() / (1 + (s ** 2).sum(0).mean())))
        ctx.count('controls compared', x.shape[0])
    stats['control'] = np.median(rel)
    for stat, e in stats.items():
        loose = BOUNDS[p.det][stat][1]
        ctx.worst('one %s %s' % (stat, key), e / loose)
        ctx.require(e < loose, 'the flows or controls of a linear-quadratic problem are not the exact ones', what=stat, error=e, allowed=loose, spec=spec, **info)
    return stats
