"""C02: endpoints, time grid, shape and finiteness of the stored flows."""
import numpy as np

from lib.core import derive
from lib.problems import DT, Problem, flows, random_spec, to_np

RULE = ('random problems over backend, mode (plain, reweighted, bridge), deterministic or stochastic sampling, dimension 1-6, '
        '2-2400 steps, starts at, before and after zero, lengths not a multiple of the step, all forms of g, y1 and y2 (whole numbers too), up to 1500 particles; '
        'a case is non-trivial when its flows were built and all their entries compared')
NEED = ['controllers built', 'positions examined', 'endpoints compared']
SOFT = {'quick': 150, 'thorough': 2400}


def cases(tier, seed):
    out = []
    n = {'quick': 240, 'thorough': 4000}[tier]
    i = 0
    for rep in range(max(1, n // 12)):
        for backend in ('np', 'torch'):
            for mode in ('plain', 'rw', 'bridge'):
                for det in (True, False):
                    out.append({'backend': backend, 'mode': mode, 'det': det, 'rep': rep, 'seed': derive(seed, 'c02', i)})
                    i += 1
    for r in range({'quick': 1, 'thorough': 20}[tier]):
        out += [{'backend': b, 'mode': m, 'det': d, 'rep': 'wide', 'seed': derive(seed, 'c02w', b, m, d, r)}
                for b in ('np', 'torch') for m in ('plain', 'rw', 'bridge') for d in (True, False)]
    out += [{'backend': b, 'mode': m, 'det': d, 'rep': 'xlong%d' % r, 'seed': derive(seed, 'c02x', b, m, d, r)} for r in range({'quick': 1, 'thorough': 8}[tier])
            for b in ('np', 'torch') for m, d in (('plain', True), ('bridge', r % 2 == 0))]
    if tier == 'quick':
        out += [{'backend': b, 'mode': m, 'det': d, 'rep': 'long', 'seed': derive(seed, 'c02l', b, m, d)}
                for b in ('np', 'torch') for m, d in (('plain', True), ('rw', True), ('plain', False))]
    else:
        out += [{'backend': b, 'mode': m, 'det': d, 'rep': 'long%d' % r, 'seed': derive(seed, 'c02l', b, m, d, r)}
                for r in range(6) for b in ('np', 'torch') for m in ('plain', 'rw', 'bridge') for d in (True, False)]
    return out


def spec_of(case):
    rng = np.random.default_rng(case['seed'])
    if str(case['rep']).startswith('long'):
        steps, N, M, dim = int(rng.integers(150, 400)), 40, 20, int(rng.integers(1, 4))
    elif str(case['rep']).startswith('xlong'):
        steps, N, M, dim = int(rng.integers(1010, 2400)), 24, 10, int(rng.integers(1, 3))
    elif case['rep'] == 'wide':
        steps, N, M, dim = int(rng.integers(4, 9)), int(rng.integers(300, 1500 if case['mode'] == 'plain' else 500)), 60, int(rng.integers(1, 4))
    else:
        steps = int([2, 3, 4, 5, 6, 7, 10, 15, 40, 90][rng.integers(10)])
        steps = steps + int(rng.integers(0, 4)) if steps > 7 else steps
        N, M, dim = int(rng.integers(12, 70)), int(rng.integers(8, 40)), int(rng.integers(1, 7))
    return random_spec(rng, case['backend'], dim=dim, N=N, M=M, steps=steps, mode=case['mode'], det=case['det'],
                       z=[0.3, 1.0, 1.5][rng.integers(3)],
                       yform=['array', 'list', 'int', 'intlist', 'tensor'][rng.integers(5 if case['backend'] == 'torch' else 4)])


def check_grid(ctx, p, t):
    ctx.require(t.ndim == 1 and t.size >= 2 and np.all(np.isfinite(t)), 'time grid is not a finite vector', shape=list(t.shape))
    tol = 1e-9 * (1 + abs(p.t1) + abs(p.t2))
    ctx.require(abs(t[0] - p.t1) < tol, 'the grid does not start at the initial time', first=t[0], t1=p.t1)
    ctx.require(np.max(np.abs(np.diff(t) - DT)) < tol, 'the grid does not advance in equal steps of 0.001',
                steps=[np.diff(t).min(), np.diff(t).max()])
    ctx.require(abs(t[-1] - p.t2) <= DT / 2 + tol, 'the grid does not end within half a step of the end time', last=t[-1], t2=p.t2)


def check_flow(ctx, p, name, X, k, start, end):
    ctx.require(X.shape == (p.dim, p.N, k), 'flow %s has the wrong shape' % name, shape=list(X.shape), expected=[p.dim, p.N, k])
    bad = ~np.isfinite(X)
    ctx.require(not bad.any(), 'flow %s is not finite' % name, times=np.where(bad.any((0, 1)))[0][:10])
    if start is not None:
        ctx.require(np.all(X[:, :, 0] == start[:, None]), 'flow %s does not start at the initial state' % name,
                    worst=np.abs(X[:, :, 0] - start[:, None]).max())
    if end is not None:
        ctx.require(np.all(X[:, :, -1] == end[:, None]), 'flow %s does not end at the target' % name,
                    worst=np.abs(X[:, :, -1] - end[:, None]).max())
    # a position of its own at every time: a time that was never filled in is constant over particles
    inner = X[:, :, 1:] if end is None else X[:, :, 1:-1]
    if inner.size:
        sd = inner.std(1)
        ctx.require(np.all(sd > 0), 'flow %s is not filled in at some time' % name, times=np.where((sd == 0).any(0))[0][:10] + 1)
    ctx.count('positions examined', X.size)
    ctx.count('endpoints compared', p.dim * p.N * ((start is not None) + (end is not None)))


def run(case, ctx):
    p = Problem(spec_of(case))
    with ctx.repo('building a controller for %s' % p.spec):
        c = p.build()
    ctx.count('controllers built')
    t = to_np(c.timegrid)
    check_grid(ctx, p, t)
    F = flows(c)
    k = t.size
    check_flow(ctx, p, 'Z', F['Z'], k, p.y1, None)
    check_flow(ctx, p, 'B', F['B'], k, p.y1, p.y2)
    if p.mode == 'bridge':
        ctx.require('Ztr' in F, 'no true-drift flow in bridge mode')
        check_flow(ctx, p, 'Ztr', F['Ztr'], k, p.y1, None)
        ctx.count('bridge flows')
    ctx.count('time points', k)
    ctx.count('%s %s %s' % (p.backend, p.mode, 'deterministic' if p.det else 'stochastic'))
