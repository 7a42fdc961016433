"""C27: nonlinear problems with independent coordinates against the laws computed on a grid."""
import numpy as np

from lib.core import derive
from lib.exact1d import Line
from lib.problems import DT, Problem, drift, flows, path_cost, query, to_np

RULE = ('double wells, waves and time-dependent forces with path costs that bring up to a few units of information (barriers that split the cloud, '
        'wells, moving ones), 1-2 independent coordinates; both backends, all modes, both samplings; the whole law of every coordinate of every '
        'flow at nine times, and the controls at three, against Chapman-Kolmogorov sums on a grid; non-trivial: all')
NEED = ['forward laws', 'constrained laws', 'true-drift laws', 'controls compared', 'problems with a path cost', 'problems without', 'groups judged']
ASSUMPTIONS = ['targets between the 15 and 85 per cent quantiles of the forward flow']
SOFT = {'quick': 600, 'thorough': 2700}
CASE_TIMEOUT = 600
GROUP = 4
# several times the largest error seen: of the median over a group of problems, and of one problem
BOUNDS = {True: {'Z': (0.09, 0.2), 'Ztr': (0.08, 0.15), 'B': (0.12, 0.3), 'control': (0.25, 0.8)},
          False: {'Z': (0.17, 0.4), 'Ztr': (0.07, 0.12), 'B': (0.25, 0.6), 'control': (1.0, 2.0)}}


def cases(tier, seed):
    out, i = [], 0
    for rep in range({'quick': 1, 'thorough': 15}[tier]):
        for b in ('np', 'torch'):
            for mode in ('plain', 'rw', 'bridge'):
                for det in (True, False):
                    out.append({'backend': b, 'mode': mode, 'det': det, 'rep': rep, 'seed': derive(seed, 'c27', i)})
                    i += 1
    return out


def problem(rng, case):
    dim = case['dim']
    steps = int(rng.integers(80, 350 if case['backend'] == 'np' or case['mode'] == 'plain' else 200))
    T, t1 = steps * DT, float([0.0, 0.0, 1.5, -1.0][rng.integers(4)])
    g = rng.uniform(0.6, 1.5, dim).round(3)
    y1 = rng.uniform(-1, 1, dim).round(3)

    def force():
        return [{'kind': 'dw'}, {'kind': 'wave', 'a': round(float(rng.uniform(1, 4)), 2), 'b': round(float(rng.uniform(1, 4)), 2), 'w': round(float(rng.uniform(-20, 20)), 2)},
                {'kind': 'tosc', 'a': round(float(rng.uniform(0, 1.5)), 3), 'c': round(float(rng.uniform(1, 3)), 3), 'w': round(float(rng.uniform(5, 60)), 3)}][rng.integers(3)]
    fs, u = force(), None
    t = t1 + DT * np.arange(steps + 1)

    def lines(f, u, ft=None):
        """one coordinate after the other"""
        out = []
        for d in range(dim):
            out.append(Line(alone(f, d), cost(u, d), g[d], y1[d], t, alone(ft, d)))
        return out

    def alone(spec, d):
        if spec is None:
            return None
        if spec['kind'] == 'tosc':
            return lambda x, s: spec['c'] * np.cos(spec['w'] * s + d) - spec['a'] * x
        if spec['kind'] == 'bridge':
            return lambda x, s: (y2[d] - x) / (t1 + T - s + spec['soft'])
        return lambda x, s: drift(spec, 1, {})(x[None], s)[0]

    def cost(spec, d):
        if spec is None:
            return None
        if spec['kind'] == 'quad':
            return lambda x, s: -spec['a'] * (x - spec['c'][d]) ** 2
        acts_on = dim - 1 if spec['kind'] == 'tsin' else 0
        return (lambda x, s: path_cost(spec, 1, {})(x[None], s).ravel()) if d == acts_on else None
    ls = lines(fs, None)
    mid = np.array([(l.fw[-2] * l.x).sum() for l in ls])
    sd = np.array([np.sqrt((l.fw[-2] * (l.x - m) ** 2).sum()) for l, m in zip(ls, mid)])
    if case['mode'] != 'plain':
        info = float(rng.uniform(0.5, 3.0))
        kind = ['quad', 'tsin', 'wall', 'kill', 'strip'][rng.integers(5)] if dim == 1 else ['quad', 'tsin', 'lin'][rng.integers(3)]
        if kind == 'quad':
            u = dict(kind=kind, a=info / T / float(np.mean(sd ** 2)) / 2, c=(mid + 0.7 * sd * rng.normal(size=dim)).round(3).tolist())
        elif kind == 'tsin':
            u = dict(kind=kind, a=info / T / float(sd[-1] ** 2) / 2, amp=float(sd[-1]), mid=float(mid[-1]), w=round(float(rng.uniform(5, 40)), 2))
        elif kind == 'lin':
            u = dict(kind=kind, a=float(rng.choice([-1, 1])) * info / T / float(sd[0]))
        elif kind in ('kill', 'strip'):
            side, a = float(rng.choice([-1, 1])), float([300, 1000, 5000, 20000][rng.integers(4)])
            far = float(rng.uniform(0.8, 1.4) * sd[0])
            if kind == 'kill':
                u = dict(kind=kind, a=a, side=side, c=float(y1[0] + side * far), s=float(0.03 * sd[0]))
            else:
                u = dict(kind=kind, a=a, c=float(y1[0]), amp=float(0.5 * side * far), w=round(float(rng.uniform(5, 15)), 2), h=float(1.5 * sd[0]))
        else:
            u = dict(kind=kind, a=info / T, c=(mid + 0.5 * sd * rng.normal(size=1)).round(3).tolist(), s=round(float(rng.uniform(0.2, 0.5) * sd[0]), 4))
        if rng.integers(4) == 0:
            u['row'] = True
    ft = None
    if case['mode'] == 'bridge':
        ls = lines(fs, None)
        y2 = [float(np.interp(rng.uniform(0.15, 0.85), np.cumsum(l.fw[-2]), l.x)) for l in ls]
        if u and u['kind'] in ('kill', 'strip'):
            # the target is not in the forbidden region
            for q in rng.uniform(0.15, 0.85, 50):
                near = y2[0] + 0.25 * sd[0] * np.array([[-1.0, 0.0, 1.0]])
                if np.min(path_cost(u, 1, {})(near, t1 + T)) > -0.1 * u['a']:
                    break
                y2 = [float(np.interp(q, np.cumsum(ls[0].fw[-2]), ls[0].x))]
            else:
                u = None
        ft, fs = fs, {'kind': 'bridge', 'soft': 0.05}
        ls = lines(fs, u, ft)
    else:
        ls = lines(fs, u)
        y2 = [float(np.interp(rng.uniform(0.15, 0.85), np.cumsum(l.fw[-2]), l.x)) for l in ls]
    for l, y in zip(ls, y2):
        l.constrain(y)
    spec = dict(backend=case['backend'], dim=dim, N=300 if case['det'] else 400, M=[50, 70][dim - 1], t1=t1, T=T, g={'form': ['list', 'array', 'column'][rng.integers(3)], 'val': g.tolist()},
                y1=y1.tolist(), y2=y2, f=fs, mode=case['mode'], det=case['det'], seed=int(rng.integers(1 << 30)), yform='array')
    if u:
        spec['U'] = u
    if ft:
        spec['f_true'] = ft
    return spec, ls


def run(case, ctx):
    """a group of problems: every one is bounded loosely, and the medians of the group tightly"""
    rng = np.random.default_rng(case['seed'])
    group = [one(rng, dict(case, dim=1 + (case['rep'] + j) % 2), ctx) for j in range(GROUP)]
    key = '%s %s %s' % (case['backend'], case['mode'], 'det' if case['det'] else 'sto')
    for stat in group[0]:
        e = [g[stat] for g in group]
        tight = BOUNDS[case['det']][stat][0]
        ctx.worst('group %s %s' % (stat, key), float(np.median(e)) / tight)
        ctx.require(np.median(e) < tight, 'the flows or controls of a group of nonlinear problems are not the exact ones', what=stat, errors=e,
                    median=np.median(e), allowed=tight, backend=case['backend'], mode=case['mode'], deterministic=case['det'])
        ctx.count('groups judged')


def one(rng, case, ctx):
    spec, lines = problem(rng, case)
    p = Problem(spec)
    dim, u = p.dim, spec.get('U')
    with ctx.repo('building a controller for %s' % spec):
        c = p.build()
    F, t = flows(c), to_np(c.timegrid)
    k = t.size
    ctx.count('problems with a path cost' if u else 'problems without')
    info = dict(backend=p.backend, mode=p.mode, deterministic=p.det, dim=dim, k=k, cost=u and u['kind'], drift=spec['f']['kind'])
    ctx.require(k == lines[0].k, 'another number of times', **info)
    names = {'Z': 'forward', 'B': 'constrained', 'Ztr': 'true-drift'}
    key = '%s %s %s' % (p.backend, p.mode, 'det' if p.det else 'sto')
    stats = {}
    for n in F:
        err = []
        for q in np.arange(1, 10) / 10:
            i = int(round(q * (k - 1)))
            for d, l in enumerate(lines):
                err.append(l.distance(F[n][d, :, i], {'Z': l.fw, 'B': l.post, 'Ztr': l.true}[n][i]))
                ctx.count(names[n] + ' laws')
        ctx.require(np.isfinite(err).all(), 'the %s flow is not finite' % names[n], **info)
        stats[n] = float(np.median(err))
    rel = []
    for q in (0.25, 0.5, 0.75):
        i = int(round(q * (k - 1)))
        x = F['B'][:, :40, i].T.copy()
        us = []
        for r in range(4):
            p.seed_all(r)
            with ctx.repo('calculate_u at %d' % i):
                us.append(query(c, p.backend, x, i))
        sd = F['B'][:, :, i].std(1)[:, None]
        want = np.array([l.control(i, x[:, d]) for d, l in enumerate(lines)]) * sd
        e = np.mean(us, 0) * sd - want
        rel.append(float(np.sqrt((e ** 2).mean() / (1 + (want ** 2).mean()))))
        ctx.count('controls compared', x.size)
    stats['control'] = float(np.median(rel))
    for stat, e in stats.items():
        loose = BOUNDS[p.det][stat][1]
        ctx.worst('one %s %s' % (stat, key), e / loose)
        ctx.require(e < loose, 'the flows or controls of a nonlinear problem are not the exact ones', what=stat, error=e, allowed=loose, spec=spec, **info)
    return stats
