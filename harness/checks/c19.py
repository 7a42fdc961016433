"""C19: pairs of whole runs with the same random state, one in shifted, rescaled or later coordinates."""
import numpy as np

from lib.core import derive
from lib.problems import Problem, flows, is_tensor, query, random_spec, to_np

RULE = ('random problems over backend, mode, sampling and dimension; each run again with the same random state in coordinates that are '
        'shifted, rescaled by a power of two (1e-9 to 1e9; must agree to 1e-7), by any factor, per dimension (nothing reweighted), with the '
        'clock moved, and with all of these (must agree within a multiple of what a relative drift error of 1e-8 does to that very run, '
        'judged while that stays below 1e-3); flows, controls at all kinds of times and coverage compared; non-trivial: all')
NEED = ['time points judged', 'origin shifts', 'unit changes', 'unit changes per dimension', 'clock shifts', 'flows compared', 'controls compared']
SOFT = {'quick': 300, 'thorough': 2700}


def cases(tier, seed):
    out, i = [], 0
    for rep in range({'quick': 5, 'thorough': 80}[tier]):
        for b in ('np', 'torch'):
            for m in ('plain', 'rw', 'bridge'):
                for det in (True, False):
                    out.append({'backend': b, 'mode': m, 'det': det, 'dim': 1 + (i + rep) % 3, 'rep': rep, 'seed': derive(seed, 'c19', i)})
                    i += 1
    return out


def col(v, x):
    if is_tensor(x):
        import torch
        return torch.tensor(np.reshape(v, (-1, 1)), dtype=torch.float64)
    return np.reshape(v, (-1, 1))


def moved(fn, a, c, s, vector):
    """the callback in coordinates a*x + c and time t + s"""
    if fn is None:
        return None
    return (lambda x, t: fn((x - col(c, x)) / col(a, x), t - s) * (col(a, x) if vector else 1.0))


def noisy(fn, y1, g, rng):
    """the drift with an error of 1e-8 of the speed at which noise and score move the particles"""
    if fn is None:
        return None

    def f(x, t):
        s = np.maximum(to_np(x).std(1, keepdims=True), g * np.sqrt(0.001))
        e = 1e-8 * g ** 2 / s * rng.normal(size=tuple(x.shape))
        if is_tensor(x):
            import torch
            e = torch.tensor(e, dtype=torch.float64)
        return fn(x, t) + e
    return f


def amplified(err, name):
    """largest error per time, so far in the direction in which the flow was integrated"""
    e = err.max(axis=(0, 1))
    return np.maximum.accumulate(e[::-1])[::-1] if name == 'B' else np.maximum.accumulate(e)


def run(case, ctx):
    rng = np.random.default_rng(case['seed'])
    dim = case['dim']
    spec = random_spec(rng, case['backend'], dim=dim, N=int(rng.integers(30, 80)), M=int(rng.integers(20, 40)), steps=int(rng.integers(14, 45)),
                       mode=case['mode'], det=case['det'], t1=0.0, yform='array')
    spec['T'] = round(spec['T'] / 0.001) * 0.001 + 0.0002       # not on the boundary between two lengths of the grid
    p = Problem(spec)
    with ctx.repo('building'):
        c0 = p.build()
    F = flows(c0)
    k = F['Z'].shape[2]
    tis = sorted({1, 4, 6, k // 2, k - 8, k - 5, k - 2} & set(range(1, k - 1)))
    X = {ti: F['B'][:, :6, ti].T + 0.2 * F['B'][:, :, ti].std(1) * rng.normal(size=(6, dim)) for ti in tis}

    def ask(c, a=1.0, sh=0.0):
        us, cov = {}, {}
        for ti in tis:
            p.seed_all(21)
            us[ti] = query(c, p.backend, a * X[ti] + sh, ti)
            cov[ti] = [bool(c.check_if_covered(a * x + sh, ti)) for x in X[ti]]
        return us, cov
    with ctx.repo('queries'):
        ref, cov = ask(c0)
    spread = {n: F[n].std(axis=(1, 2), keepdims=True) + 1e-12 for n in F}
    # what small errors do to this very run
    base, ubase = {n: np.zeros(k) for n in F}, {ti: 0.0 for ti in tis}
    for j in range(2):
        r2 = np.random.default_rng(case['seed'] + 1 + j)
        over = {'f': noisy(p.f, p.y1, p.gcol, r2)}
        if p.mode == 'bridge':
            over['f_true'] = noisy(p.f_true, p.y1, p.gcol, r2)
        with ctx.repo('building with a slightly wrong drift'):
            c1 = p.build(**over)
            u1, _ = ask(c1)
        G = flows(c1)
        for n in F:
            base[n] = np.maximum(base[n], amplified(np.abs(G[n] - F[n]) / spread[n], n))
        for ti in tis:
            ubase[ti] = max(ubase[ti], np.abs(u1[ti] - ref[ti]).max() / np.abs(ref[ti]).max())
    one = np.ones(dim)
    trials = [('power of two', one * 2.0 ** int(rng.integers(-30, 31)), 0 * one, 0.0, 'unit changes'),
              ('units', one * 10 ** rng.uniform(-4, 4), 0 * one, 0.0, 'unit changes'),
              ('origin', one, rng.normal(size=dim) * [1, 30][rng.integers(2)], 0.0, 'origin shifts'),
              ('clock', one, 0 * one, float([1.0, -3.0, 7.5, 128.0][rng.integers(4)]), 'clock shifts')]
    if p.mode == 'plain':
        trials += [('powers of two', 2.0 ** rng.integers(-20, 21, dim), 0 * one, 0.0, 'unit changes per dimension'),
                   ('units per dimension', 10 ** rng.uniform(-2, 2, dim), 0 * one, 0.0, 'unit changes per dimension'),
                   ('everything', 10 ** rng.uniform(-2, 2, dim), rng.normal(size=dim), 2.0, 'unit changes per dimension')]
    else:
        trials += [('everything', one * 10 ** rng.uniform(-2, 2), rng.normal(size=dim), 2.0, 'unit changes')]
    for name, a, c, s, kind in trials:
        exact = name.startswith('power')
        info = dict(change=name, factors=a, shift=c, clock=s, backend=p.backend, mode=p.mode, deterministic=p.det, dim=dim, k=k)
        over = dict(t1=p.t1 + s, t2=p.t2 + s, y1=a * p.y1 + c, y2=a * p.y2 + c, f=moved(p.f, a, c, s, True),
                    g=(p.gcol * a.reshape(-1, 1)) if np.ptp(a) > 0 or p.gcol.size > 1 and np.ptp(p.gcol) > 0 else float(p.gcol[0, 0] * a[0]))
        if p.mode != 'plain':
            over['U'] = moved(p.U, a, c, s, False)
        if p.mode == 'bridge':
            over['f_true'] = moved(p.f_true, a, c, s, True)
        with ctx.repo('building (%s)' % info):
            c1 = p.build(**over)
        G = flows(c1)
        ctx.require(sorted(G) == sorted(F) and G['Z'].shape == F['Z'].shape, 'another number of times or flows', **info)
        # rounding of positions far from the origin, next to the smallest spread that matters (one noise step)
        far = 1.0 + np.abs(c / (a * p.gcol[:, 0] * np.sqrt(0.001))).max()
        for n in F:
            back = (G[n] - c.reshape(-1, 1, 1)) / a.reshape(-1, 1, 1)
            e = amplified(np.abs(back - F[n]) / spread[n], n)
            if exact:
                ctx.worst('flow error, ' + name, e.max())
                ctx.require(e.max() < 1e-7, 'flows depend on units', flow=n, error_in_spreads=e.max(), **info)
                judged = np.ones(k, bool)
            else:
                judged = base[n] < 1e-3
                ratio = (e / (base[n] * far + 1e-8))[judged].max()
                ctx.worst('flow error over allowance, ' + name, ratio / 20)
                ctx.require(ratio < 20, 'flows depend on units, origin or clock', flow=n, error_over_sensitivity=ratio,
                            error_in_spreads=e[judged].max(), **info)
            ctx.count('time points judged', judged.sum())
            ctx.count('time points too sensitive to judge', (~judged).sum())
            ctx.count('flows compared')
        with ctx.repo('queries (%s)' % info):
            us, cv = ask(c1, a, c)
        for ti in tis:
            e = np.abs(us[ti] * a.reshape(-1, 1) - ref[ti]).max() / np.abs(ref[ti]).max()
            if exact:
                ctx.worst('control error, ' + name, e)
                ctx.require(e < 1e-6, 'controls depend on units', error=e, ti=ti, **info)
                ctx.require(cv[ti] == cov[ti], 'coverage depends on units', ti=ti, **info)
            elif ubase[ti] < 1e-3:
                ratio = e / (ubase[ti] * far + 1e-8)
                ctx.worst('control error over allowance, ' + name, ratio / 20)
                ctx.require(ratio < 20, 'controls depend on units, origin or clock', error=e, error_over_sensitivity=ratio, ti=ti, **info)
            else:
                continue
            ctx.count('controls compared', us[ti].size)
        ctx.count(kind)
