"""C03: every deterministic forward step, against the flow equation with reference scores."""
import numpy as np

from lib.core import derive
from lib.oracle import boxes
from lib.problems import DT, Problem, Recorder, flows, random_spec, to_np
from lib.steps import noise_tests, pair, pre_clouds, score_residual

RULE = ('random problems over backend, mode, drift, dimension, diffusion form, interval; in every step of every stored forward flow '
        'the score implied by the step is compared with the closed-form sparse estimator of the same cloud for freshly drawn '
        'inducing points, in units of the spread of that estimator; the first step is compared with Gaussian noise; '
        'non-trivial: at least 10 steps judged')
NEED = ['forward steps judged', 'first steps judged', 'noise values']
ASSUMPTIONS = ['the log-density gradient estimate is the documented sparse kernel estimate with inducing points uniform on the '
               'bounding box of the cloud and a lengthscale of twice the standard deviation']
SOFT = {'quick': 240, 'thorough': 3000}


def cases(tier, seed):
    out, i = [], 0
    reps = {'quick': 5, 'thorough': 120}[tier]
    for rep in range(reps):
        for dim, size in ((1, 's'), (2, 's'), (2, 'l'), (3, 'l'), (5, 's')):
            for backend in ('np', 'torch'):
                for mode in ('plain', 'rw', 'bridge'):
                    out.append({'kind': 'steps', 'backend': backend, 'mode': mode, 'dim': dim, 'size': size, 'rep': rep,
                                'seed': derive(seed, 'c03', i)})
                    i += 1
    out += [{'kind': 'steps', 'backend': b, 'mode': m, 'dim': d, 'size': 'x', 'rep': 'x', 'seed': derive(seed, 'c03x', b, m, r)}
            for r in range({'quick': 1, 'thorough': 6}[tier]) for b in ('np', 'torch') for m, d in (('plain', 2), ('rw', 1))]   # long runs
    for rep in range({'quick': 4, 'thorough': 60}[tier]):
        for backend in ('np', 'torch'):
            for mode in ('plain', 'bridge'):
                out.append({'kind': 'first', 'backend': backend, 'mode': mode, 'rep': rep, 'seed': derive(seed, 'c03f', i)})
                i += 1
    for backend in ('np', 'torch'):
        for what in ('matrix', 'function'):
            out.append({'kind': 'known', 'backend': backend, 'what': what, 'seed': 5})
    return out


def first_step(ctx, p, X, X1, f, t, name):
    """noise of the step that leaves the initial state"""
    drift = f(X[:, :, 0].copy(), t[0])
    eta = (X1 - X[:, :, 0] - DT * drift) / (p.gcol * np.sqrt(DT))
    noise_tests(ctx, eta, 'first step of %s' % name)
    ctx.count('first steps judged')
    ctx.stat('first ' + name, np.sum(eta ** 2), eta.size, np.sum(eta))
    return eta


def forward(ctx, p, X, pre, f, t, name, ddof, R=6):
    g2 = p.gcol ** 2
    dev2, spr2, dots, var, n = [], [], 0.0, 0.0, 0
    zmax, lim = 0.0, (15.0 if p.dim > 1 else 80.0)
    for i in range(2, t.size):
        x = X[:, :, i - 1]
        nxt = pre.get(i, X[:, :, i])
        imp = (f(x.copy(), t[i - 1]) - (nxt - x) / DT) * 2 / g2
        dev, spr, size, dot, sq, m = score_residual(ctx, imp, x, boxes(x), p.M, ctx.rng, R, ddof=ddof)
        spr = spr + 1e-7 * size
        z = dev / spr
        zmax = max(zmax, z)
        ctx.require(np.isfinite(z) and z < lim, 'forward step of %s does not follow drift minus half g^2 times the score' % name,
                    time_index=i, deviation=dev, spread_of_estimator=spr, score_size=size,
                    slope=dot / sq, backend=p.backend, mode=p.mode)
        n += 1
        dev2.append(z)
        dots += (dot - sq) / sq
    if n >= 8:
        med = float(np.median(dev2))
        ctx.require(med < (1.5 if p.dim > 1 else 2.2), 'forward steps of %s are farther from the flow equation than the estimator varies' % name,
                    median_z=med, steps=n, mean_slope=1 + dots / n, backend=p.backend, mode=p.mode)
        ctx.require(p.dim > 3 or n < 20 or abs(dots / n) < 0.02, 'forward steps of %s: the score enters with a wrong factor' % name,
                    mean_slope=1 + dots / n, steps=n, backend=p.backend, mode=p.mode)
        ctx.worst('median z dim%s %s' % ('1' if p.dim == 1 else '>1', name), med)
        ctx.worst('mean slope error dim%d' % p.dim, abs(dots / n))
    ctx.worst('max z dim%s' % ('1' if p.dim == 1 else '>1'), zmax)
    ctx.count('forward steps judged', n)
    ctx.count('forward steps of ' + name, n)


def run(case, ctx):
    if case['kind'] == 'known':
        return known(case, ctx)
    rng = np.random.default_rng(case['seed'])
    big = case.get('size') == 'l'
    if case['kind'] == 'first':
        spec = random_spec(rng, case['backend'], dim=int(rng.integers(1, 5)), N=1500 if case['mode'] == 'plain' else 150, M=10, steps=3,
                           mode=case['mode'], z=0.2)
    else:
        spec = random_spec(rng, case['backend'], dim=case['dim'], N=int(rng.integers(120, 200)) if big else int(rng.integers(50, 110)),
                           M=int(rng.integers(120, 220)) if big else int(rng.integers(30, 70)),
                           steps=int(rng.integers(1010, 1500)) if case.get('size') == 'x' else int(rng.integers(25, 45)), mode=case['mode'],
                           yform=['array', 'int'][rng.integers(4) // 2])
    p = Problem(spec)
    rec = Recorder()
    with ctx.repo('building a controller for %s' % spec):
        c = p.build(rec)
    F, t = flows(c), to_np(c.timegrid)
    ctx.require(F['Z'].shape == (p.dim, p.N, t.size) and np.isfinite(F['Z']).all(), 'forward flow is not a finite array over the grid')
    ddof = 1 if p.backend == 'torch' else 0
    pre = pre_clouds(p, rec, t)
    ctx.require(p.mode == 'plain' or all(i in pre for i in range(1, t.size)), 'path cost was not evaluated at every time but the first',
                missing=[i for i in range(1, t.size) if i not in pre])
    e1 = first_step(ctx, p, F['Z'], pre.get(1, F['Z'][:, :, 1]), p.f, t, 'Z')
    if p.mode == 'bridge':
        e2 = first_step(ctx, p, F['Ztr'], F['Ztr'][:, :, 1], p.f_true, t, 'Ztr')
        pair(ctx, e1.reshape(-1), e2.reshape(-1), 'first noise of Z and of Ztr')
    if case['kind'] == 'first':
        return
    forward(ctx, p, F['Z'], pre, p.f, t, 'Z', ddof)
    if p.mode == 'bridge':
        forward(ctx, p, F['Ztr'], {}, p.f_true, t, 'Ztr', ddof)


def known(case, ctx):
    """documented forms of g that are recorded as findings"""
    spec = random_spec(np.random.default_rng(3), case['backend'], dim=2, N=30, M=15, steps=6, z=0.3, gforms=('scalar',))
    p = Problem(spec)
    g = np.array([[0.5, 0.2], [0.0, 0.7]]) if case['what'] == 'matrix' else (lambda x, t: 0.5)
    ctx.count('oracle evaluations')
    try:
        c = p.build(g=g)
        F = flows(c)
        ok = np.isfinite(F['Z']).all() and np.isfinite(F['B']).all()
    except Exception:  # noqa: BLE001
        ok = False
    if not ok:
        ctx.known.append('g given as a %s is documented but not accepted by %s' % (
            case['what'], 'torched_DPFC' if case['backend'] == 'torch' else 'DPFC'))


def pooled(stats, events, tier):
    from scipy import stats as st
    out = []
    for name, (s2, n, s) in stats.items():
        p = 2 * min(st.chi2.cdf(s2, n), st.chi2.sf(s2, n))
        if p < 1e-10:
            out.append('%s: pooled noise variance ratio %.4f over %d values (p=%.1e)' % (name, s2 / n, n, p))
        if abs(s) / np.sqrt(n) > 6.5:
            out.append('%s: pooled noise mean %.4f over %d values' % (name, s / n, n))
    return out
