"""C30: the force functions of a controller called on their own, with clouds, particle numbers and times of the caller's choice."""
import numpy as np

from checks.c17 import close
from lib.core import derive
from lib.oracle import boxes
from lib.problems import Lib, Problem, Recorder, flows, is_tensor, query, random_spec, to_np
from lib.steps import score_residual

RULE = ('random problems over backend, mode and sampling; the force functions are called with random clouds (Gaussian, two-humped, skewed, on many scales and '
        'offsets, 8 to 200 particles) and times, interleaved with queries and with each other; the implied score is compared with the closed-form '
        'sparse estimator of that cloud for fresh inducing points, in units of its spread; repeated with the same seed after other calls; and integrated '
        'with solvers of order two and four against the exact moments of linear diffusions; non-trivial: at least ten calls judged')
NEED = ['calls judged', 'calls with the true drift judged', 'clouds of another size', 'relabelled clouds', 'repetitions after other calls', 'integrations', 'callback calls matched']
SOFT = {'quick': 200, 'thorough': 2400}


def cases(tier, seed):
    out, i = [], 0
    for rep in range({'quick': 4, 'thorough': 80}[tier]):
        for b in ('np', 'torch'):
            for m in ('plain', 'rw', 'bridge'):
                out.append({'kind': 'calls', 'backend': b, 'mode': m, 'det': bool((rep + i) % 3), 'rep': rep, 'seed': derive(seed, 'c30', i)})
                i += 1
            out.append({'kind': 'ode', 'backend': b, 'mode': ('plain', 'bridge')[rep % 2], 'rep': rep, 'dim': 1 + rep % 3, 'seed': derive(seed, 'c30o', i)})
            i += 1
    return out


def cloud(rng, dim, n):
    kind = ('gauss', 'humps', 'skew', 'corr')[rng.integers(4)]
    x = rng.normal(size=(dim, n))
    if kind == 'humps':
        x = x * 0.5 + np.where(rng.integers(0, 2, n) > 0, 1.2, -1.2)
    if kind == 'skew':
        x = np.log1p(np.exp(1.5 * x))
    if kind == 'corr' and dim > 1:
        x = (np.eye(dim) + rng.normal(0, 0.4, (dim, dim))) @ x
    x = x * 10.0 ** rng.uniform(-2, 1.5, (dim, 1)) + rng.normal(0, 2, (dim, 1))
    order = (None, lambda: np.argsort(x[rng.integers(dim)]), lambda: np.argsort(np.abs(x[0] - x[0].mean())))[rng.integers(3)]
    return x if order is None else np.ascontiguousarray(x[:, order()])


def force(p, c, name, x, t, seed=None):
    if seed is not None:
        p.seed_all(seed)
    if p.backend == 'torch':
        import torch
        x = torch.tensor(np.array(x), dtype=torch.float64)
    else:
        x = np.array(x)
    return to_np(getattr(c, name)(x, t))


def calls(case, ctx):
    rng = np.random.default_rng(case['seed'])
    dim = int(rng.integers(1, 4))
    p = Problem(random_spec(rng, case['backend'], dim=dim, N=int(rng.integers(15, 40)), M=int(rng.integers(15, 40)), steps=14, mode=case['mode'], det=case['det'],
                            kinds=('ou', 'lin', 'tosc', 'const', 'zero')))
    rec = Recorder()
    with ctx.repo('building'):
        c = p.build(recorder=rec)
    ref = flows(c)
    ddof = 1 if p.backend == 'torch' else 0
    g2 = p.gcol ** 2
    names = ['f_seperate'] + (['f_seperate_true'] if p.mode == 'bridge' else [])
    rows, first = {n: [] for n in names}, None
    for it in range(24):
        name = names[it % len(names)]
        n = p.N if it % 4 == 0 else int(rng.integers(8, 200))
        x = cloud(rng, dim, n)
        t = float([p.t1, p.t2 - 1e-3, rng.uniform(p.t1, p.t2), p.t1 + 5.0 * rng.normal()][it % 4]) if p.mode != 'bridge' else float(rng.uniform(p.t1, p.t2))
        fn, cb = (p.f, 'f') if name == 'f_seperate' else (p.f_true, 'f_true')
        rec.events.clear()
        with ctx.repo('calling ' + name):
            F = force(p, c, name, x, t, seed=1000 + it)
        ctx.require(F.shape == x.shape and np.all(np.isfinite(F)), name + ' does not return one finite force for every particle and dimension',
                    shape=F.shape, cloud=x.shape, controller_particles=p.N, backend=p.backend)
        ev = list(rec.events)
        ctx.require(ev and all(e[0] == cb and e[1] == t and np.array_equal(e[2], x) for e in ev), name + ' evaluates something else than its drift at the cloud and time given',
                    events=[(e[0], e[1]) for e in ev], time=t)
        ctx.count('callback calls matched', len(ev))
        imp = (fn(x.copy(), t) - F) * 2 / g2
        # scale free: judge in units of each dimension's spread
        sc = x.std(1).reshape(-1, 1)
        y = x / sc
        dev, spr, size, dot, sq, m = score_residual(ctx, imp * sc, y, boxes(y), p.M, ctx.rng, 8, ddof=ddof)
        z = dev / (spr + 1e-7 * size + 1e-9 * np.abs(fn(x.copy(), t) * sc * 2 / g2).max())
        info = dict(deviation=dev, spread_of_estimator=spr, slope=dot / sq, particles=n, controller_particles=p.N, backend=p.backend, mode=p.mode, dim=dim)
        ctx.require(np.isfinite(z) and z < (30 if dim > 1 else 150), name + ' is not drift minus half g^2 times the score of the given cloud', z=z, **info)
        rows[name].append((z, (dot - sq) / sq))
        ctx.worst('max z dim%s' % ('1' if dim == 1 else '>1'), z)
        ctx.count('calls judged')
        ctx.count('calls with the true drift judged', name == 'f_seperate_true')
        ctx.count('clouds of another size', n != p.N)
        if it % 2:              # particles have no names
            perm = rng.permutation(n)
            with ctx.repo('calling ' + name):
                G = force(p, c, name, x[:, perm], t, seed=1000 + it)
            drift = fn(x.copy(), t)
            d = (np.abs(G - F[:, perm]).max(1) / np.abs(F - drift).max(1)).max()
            ctx.worst('relabelling', d)
            ctx.require(d < 1e-5, name + ' depends on the order of the particles', difference=d, **info)
            ctx.count('relabelled clouds')
        if it % 3 == 0:         # the same call after whatever came in between
            if first is not None:
                with ctx.repo('calling ' + first[0]):
                    again = force(p, c, first[0], first[1], first[2], seed=first[3])
                ctx.require(close(first[4], again), first[0] + ' depends on what was called before', difference=np.abs(first[4] - again).max(), backend=p.backend)
                ctx.count('repetitions after other calls')
            first = (name, x, t, 1000 + it, F)
        if it % 5 == 0:
            with ctx.repo('querying'):
                query(c, p.backend, ref['B'][:, :3, 7].T, int(rng.integers(1, 12)))
    for name, r in rows.items():
        r = np.array(r)
        med, slope = float(np.median(r[:, 0])), float(np.median(r[:, 1]))
        ctx.worst('median z dim%s' % ('1' if dim == 1 else '>1'), med)
        ctx.worst('median slope error', abs(slope))
        ctx.require(med < (1.8 if dim > 1 else 3), name + ' is farther from the force than the estimator varies', median_z=med, calls=len(r), backend=p.backend)
        ctx.require(abs(slope) < 0.12, name + ': the score enters with a wrong factor', slope=1 + slope, calls=len(r), backend=p.backend)
    now = flows(c)
    for n in ref:
        ctx.require(np.array_equal(ref[n], now[n]), 'calling the force functions changed a stored flow', flow=n, backend=p.backend)


def ode(case, ctx):
    """moments of a Gaussian cloud carried by the forces, against those of the linear diffusion"""
    rng = np.random.default_rng(case['seed'])
    dim = case['dim']
    a, b = rng.uniform(0.5, 2.0, dim).round(3), rng.normal(0, 0.7, dim).round(3)
    ou = {'kind': 'ou', 'a': a.tolist(), 'b': b.tolist()}
    p = Problem(random_spec(rng, case['backend'], dim=dim, N=20, M=60, steps=14, mode=case['mode'], kinds=('ou',)))
    p.gcol = rng.uniform(0.6, 1.4, (dim, 1)).round(3)
    from lib.problems import drift
    name, cb = ('f_seperate', 'f') if case['mode'] == 'plain' else ('f_seperate_true', 'f_true')
    fn = drift(ou, dim, {})
    with ctx.repo('building'):
        c = p.build(g=[float(v) for v in p.gcol[:, 0]], **{cb: fn})
    N, s0, m0 = 400, rng.uniform(0.5, 1.0, (dim, 1)), rng.normal(0, 1, (dim, 1))
    x = rng.normal(size=(dim, N))
    x = (x - x.mean(1, keepdims=True)) / x.std(1, keepdims=True)
    C = np.linalg.cholesky(np.cov(x, ddof=0).reshape(dim, dim))
    x = np.linalg.solve(C, x) * s0 + m0
    T, n, order = 0.6, 30, (2, 4)[case['rep'] // 2 % 2]
    h, t = T / n, p.t1
    p.seed_all()
    with ctx.repo('integrating ' + name):
        for i in range(n):
            k1 = force(p, c, name, x, t)
            if order == 2:
                x = x + h * force(p, c, name, x + h / 2 * k1, t + h / 2)
            else:
                k2 = force(p, c, name, x + h / 2 * k1, t + h / 2)
                k3 = force(p, c, name, x + h / 2 * k2, t + h / 2)
                x = x + h / 6 * (k1 + 2 * k2 + 2 * k3 + force(p, c, name, x + h * k3, t + h))
            t += h
    ctx.count('integrations')
    e = np.exp(-a * T).reshape(-1, 1)
    mean = b.reshape(-1, 1) + (m0 - b.reshape(-1, 1)) * e
    var = s0 ** 2 * e ** 2 + p.gcol ** 2 * (1 - e ** 2) / (2 * a.reshape(-1, 1))
    dm = np.abs(x.mean(1, keepdims=True) - mean) / np.sqrt(var)
    dv = np.abs(x.var(1, keepdims=True) / var - 1)
    ctx.worst('integrated mean dim%d' % dim, dm.max())
    ctx.worst('integrated variance dim%d' % dim, dv.max())
    ctx.require(np.isfinite(dm).all() and dm.max() < 0.01, name + ' integrated: wrong mean', error_in_spreads=dm.max(), backend=p.backend, order=order, dim=dim)
    co = np.cov(x, ddof=0).reshape(dim, dim) / np.sqrt(var @ var.T)
    off = np.abs(co - np.diag(np.diag(co))).max()
    ctx.worst('integrated correlation', off)
    ctx.require(off < 0.03, name + ' integrated: coordinates become correlated', correlation=off, backend=p.backend, order=order, dim=dim)
    ctx.require(dv.max() < 0.03, name + ' integrated: wrong variance', relative_error=dv.max(), backend=p.backend, order=order, dim=dim)


def run(case, ctx):
    (calls if case['kind'] == 'calls' else ode)(case, ctx)
