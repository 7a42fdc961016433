"""C04: every deterministic backward step, against the time-reversed flow equation with reference scores."""
import numpy as np

from lib.core import derive
from lib.oracle import boxes, score_draws
from lib.problems import DT, Problem, flows, random_spec, to_np
from lib.steps import noise_tests

RULE = ('random problems over backend, forward mode, drift, dimension, diffusion form, interval; in every backward step the '
        'combination of scores implied by the step is compared with the closed-form estimator of the stored clouds for freshly '
        'drawn inducing points in units of its own spread; the step that leaves the target is compared with Gaussian noise; '
        'non-trivial: at least 8 steps judged')
NEED = ['backward steps judged', 'target steps judged', 'noise values']
ASSUMPTIONS = ['inducing points uniform on the box common to both flows (numpy) or spanned by both (PyTorch; the forward '
               'flow alone when the constrained flow is one point); lengthscale twice the standard deviation']
SOFT = {'quick': 240, 'thorough': 3000}


def cases(tier, seed):
    out, i = [], 0
    for rep in range({'quick': 5, 'thorough': 120}[tier]):
        for dim, size in ((1, 's'), (2, 's'), (2, 'l'), (3, 'l'), (4, 's')):
            for backend in ('np', 'torch'):
                for mode in ('plain', 'rw', 'bridge'):
                    out.append({'kind': 'steps', 'backend': backend, 'mode': mode, 'dim': dim, 'size': size, 'rep': rep,
                                'seed': derive(seed, 'c04', i)})
                    i += 1
    out += [{'kind': 'steps', 'backend': b, 'mode': m, 'dim': d, 'size': 'x', 'rep': 'x', 'seed': derive(seed, 'c04x', b, m, r)}
            for r in range({'quick': 1, 'thorough': 6}[tier]) for b in ('np', 'torch') for m, d in (('plain', 2), ('rw', 1))]   # long runs
    for rep in range({'quick': 6, 'thorough': 80}[tier]):
        for backend in ('np', 'torch'):
            for mode in ('plain', 'bridge'):
                out.append({'kind': 'target', 'backend': backend, 'mode': mode, 'rep': rep, 'seed': derive(seed, 'c04t', i)})
                i += 1
    return out


def inducing_box(p, z, x):
    if p.backend == 'np':
        return boxes(z, x, how='inter')
    lo, hi = boxes(z, x, how='union')
    zlo, zhi = boxes(z)
    flat = x.min(1) == x.max(1)
    return np.where(flat, zlo, lo), np.where(flat, zhi, hi)


def target_step(ctx, p, F, t, ddof):
    """from the target: -f + g^2 score of the forward flow, plus fresh noise"""
    Z, B = F['Z'], F['B']
    r = t.size - 2
    x, z = B[:, :, r + 1], Z[:, :, r + 1]
    s = score_draws(z, inducing_box(p, z, x), p.M, ctx.rng, 12, q=x[:, :1], ddof=ddof)   # all particles are at one point
    m, sd = s.mean(0), s.std(0, ddof=1)
    v = p.gcol ** 2 * m - p.f(x.copy(), t[r + 1])
    eta = (B[:, :, r] - x - DT * v) / (p.gcol * np.sqrt(DT))
    # an error of the reference score moves all particles alike; it is part of the variance of the mean
    shift = (p.gcol * np.sqrt(DT) * sd)[:, 0]
    for d in range(p.dim):
        z_ = eta[d].mean() / np.sqrt(1 / p.N + 1.1 * shift[d] ** 2)
        ctx.require(abs(z_) < 7, 'the step that leaves the target has a wrong drift', dimension=d, z=z_, backend=p.backend,
                    mode=p.mode, drift_in_noise_units=float(DT * v[d, 0] / (p.gcol[d, 0] * np.sqrt(DT))))
        ctx.stat('target mean z2', z_ ** 2, 1)
        # strength of the score term in this observation, for the pooled test of its factor
        a = float(DT * (p.gcol ** 2 * m)[d, 0] / (p.gcol[d, 0] * np.sqrt(DT)))
        var = 1 / p.N + 1.1 * shift[d] ** 2
        ctx.stat('target score factor ' + p.backend, a * eta[d].mean() / var, a * a / var)
    noise_tests(ctx, (eta - eta.mean(1, keepdims=True)) * np.sqrt(p.N / (p.N - 1)), 'step from the target')
    ctx.count('target steps judged')


def run(case, ctx):
    rng = np.random.default_rng(case['seed'])
    big = case.get('size') == 'l'
    if case['kind'] == 'target':
        spec = random_spec(rng, case['backend'], dim=int(rng.integers(1, 4)), N=1200 if case['mode'] == 'plain' else 150, M=60,
                           steps=int(rng.integers(3, 12)), mode=case['mode'], z=2.0)
    else:
        spec = random_spec(rng, case['backend'], dim=case['dim'], N=int(rng.integers(120, 200)) if big else int(rng.integers(50, 110)),
                           M=int(rng.integers(120, 220)) if big else int(rng.integers(30, 70)),
                           steps=int(rng.integers(1010, 1500)) if case.get('size') == 'x' else int(rng.integers(25, 45)), mode=case['mode'],
                           yform=['array', 'int'][rng.integers(4) // 2])
    p = Problem(spec)
    with ctx.repo('building a controller for %s' % spec):
        c = p.build()
    F, t = flows(c), to_np(c.timegrid)
    Z, B, k = F['Z'], F['B'], t.size
    ctx.require(B.shape == (p.dim, p.N, k) and Z.shape == B.shape, 'flows do not have one position per particle and time')
    ctx.require(np.isfinite(Z).all() and np.isfinite(B).all(), 'flows are not finite')
    ddof = 1 if p.backend == 'torch' else 0
    target_step(ctx, p, F, t, ddof)
    if case['kind'] != 'target':
        backward(ctx, p, F, t, ddof, case['size'])


def backward(ctx, p, F, t, ddof, size):
    Z, B, k = F['Z'], F['B'], t.size
    g2, R = p.gcol ** 2, 6
    zs, slopes = [], []
    lim = 15.0 if p.dim > 1 else 80.0
    for r in range(k - 3, 0, -1):
        x, z = B[:, :, r + 1], Z[:, :, r + 1]
        box = inducing_box(p, z, x)
        if np.any(box[1] < box[0]):
            ctx.count('steps with disjoint flows, not judged')
            continue
        dz = score_draws(z, box, p.M, ctx.rng, R, q=x, ddof=ddof)
        db = score_draws(x, box, p.M, ctx.rng, R, ddof=ddof)
        d = g2 * (dz - 0.5 * db)
        m = d.mean(0)
        imp = (B[:, :, r] - x) / DT + p.f(x.copy(), t[r + 1])
        spr = np.sqrt(np.sum((d - m) ** 2) / (R - 1)) + 1e-7 * np.sqrt(np.sum(m ** 2))
        dev = np.sqrt(np.sum((imp - m) ** 2) / (1 + 1 / R))
        zv = dev / spr
        ctx.require(np.isfinite(zv) and zv < lim, 'backward step does not follow the time-reversed flow equation', time_index=r,
                    k=k, deviation=dev, spread_of_estimator=spr, size=np.sqrt(np.sum(m ** 2)), slope=np.sum(imp * m) / np.sum(m * m),
                    backend=p.backend, mode=p.mode)
        zs.append(zv)
        # factors of the two scores in this step
        a, b = (g2 * dz.mean(0)).ravel(), (g2 * db.mean(0)).ravel()
        sol = np.linalg.lstsq(np.stack([a, b], 1), imp.ravel(), rcond=None)[0]
        slopes.append(sol)
    n = len(zs)
    if n >= 8:
        med, sl = float(np.median(zs)), np.median(slopes, axis=0)
        ctx.worst('median z dim%s' % ('1' if p.dim == 1 else '>1'), med)
        ctx.worst('max z dim%s' % ('1' if p.dim == 1 else '>1'), max(zs))
        ctx.worst('factor errors dim%d %s' % (p.dim, size), max(abs(sl[0] - 1), abs(sl[1] + 0.5)))
        if p.dim == 1 or (size == 'l' and p.dim <= 3):
            ctx.require(max(abs(sl[0] - 1), abs(sl[1] + 0.5)) < 0.08, 'the scores enter the backward steps with wrong factors',
                        factors=sl, expected=[1, -0.5], steps=n, backend=p.backend, mode=p.mode)
        ctx.require(med < (1.5 if p.dim > 1 else 2.5), 'backward steps are farther from the flow equation than the estimator varies',
                    median_z=med, steps=n, factors=sl, backend=p.backend, mode=p.mode)
    ctx.count('backward steps judged', n)


def pooled(stats, events, tier):
    out = []
    for name, v in stats.items():
        if name.startswith('target score factor') and v[1] > 4:
            # mean noise in direction of the score term over its expected size if the term had been left out or doubled
            z = v[0] / np.sqrt(v[1])
            if abs(z) > 6.5:
                out.append('%s: the score term of the step from the target has factor %.2f instead of 1 (z=%.1f)' % (name, 1 + v[0] / v[1], z))
    return out
