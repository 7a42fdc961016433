"""C09: controls against score differences of the stored flows."""
import numpy as np

from lib.core import derive
from lib.oracle import boxes, sparse_score
from lib.problems import Problem, flows, query, random_spec, to_np

RULE = ('random problems over backend, mode, sampling and dimension; controls queried at particles, between, at the edge of and far '
        'outside the flows, one or many points, real or whole numbers, time indices of Python and numpy, at all times near the ends and at random ones; compared with the closed-form score '
        'difference for fresh inducing points in units of its spread (interior) or exactly (Gaussian ends); '
        'non-trivial: at least 6 queries judged')
NEED = ['interior queries judged', 'Gaussian queries judged', 'row independence comparisons', 'bridge queries', 'queries at whole numbers', 'queries with numpy integers as time index']
ASSUMPTIONS = ['inducing points uniform on the box common to both flows (numpy) or spanned by both (PyTorch), shared by both scores']
SOFT = {'quick': 240, 'thorough': 3000}


def cases(tier, seed):
    out, i = [], 0
    for rep in range({'quick': 7, 'thorough': 150}[tier]):
        for backend in ('np', 'torch'):
            for mode in ('plain', 'rw', 'bridge'):
                for dim in (1, 2, 3):
                    out.append({'backend': backend, 'mode': mode, 'dim': dim, 'det': (rep + dim) % 4 != 0, 'rep': rep,
                                'seed': derive(seed, 'c09', i)})
                    i += 1
    out += [{'backend': b, 'mode': m, 'dim': 2, 'det': True, 'rep': -1, 'seed': derive(seed, 'c09x', b, m, r)} for r in range({'quick': 1, 'thorough': 8}[tier])
            for b, m in (('np', 'plain'), ('np', 'bridge'), ('torch', 'plain'))]   # long runs
    return out


def points(rng, A, Bc, K, kind):
    both = np.concatenate([A, Bc], 1)
    m, s = both.mean(1, keepdims=True), both.std(1, keepdims=True)
    if kind == 'particles':
        return Bc[:, rng.integers(Bc.shape[1], size=K)].T.copy()
    if kind == 'inside':
        lo, hi = boxes(A, Bc, how='inter')
        return lo + (hi - lo) * rng.random((K, len(lo)))
    if kind == 'wide':
        return (m + 1.5 * s * rng.normal(size=(len(m), K))).T
    return (m + 40 * s * rng.choice([-1, 1], size=(len(m), K)) * (1 + rng.random((len(m), K)))).T


def run(case, ctx):
    rng = np.random.default_rng(case['seed'])
    long = case['rep'] < 0
    spec = random_spec(rng, case['backend'], dim=case['dim'], N=60 if long else int(rng.integers(80, 200)),
                       M=40 if long else int(rng.integers(50, 160)), steps=int(rng.integers(1010, 1300)) if long else int(rng.integers(14, 50)), mode=case['mode'], det=case['det'], yform='int' if case['rep'] % 4 == 2 else None)
    whole = case['rep'] % 4 == 2          # states and, for numpy, points in whole numbers
    p = Problem(spec)
    with ctx.repo('building a controller for %s' % spec):
        c = p.build()
    F, t = flows(c), to_np(c.timegrid)
    k = t.size
    fw = F['Ztr'] if p.mode == 'bridge' else F['Z']
    B = F['B']
    ddof = 1 if p.backend == 'torch' else 0
    R = 6
    zs, dots, wts = [], 0.0, 0.0
    tis = sorted({1, 2, 4, 5, 6, 7, k // 2, k - 7, k - 6, k - 5, k - 4, k - 2} | set(rng.integers(6, k - 5, 4).tolist()))
    for ti in tis:
        if not 1 <= ti <= k - 2:
            continue
        A, Bc = fw[:, :, ti], B[:, :, ti]
        for kind in ('particles', 'inside', 'wide', 'far'):
            K = int([1, 2, p.dim, 7, 30, 120][rng.integers(6)])
            x = points(rng, A, Bc, K, kind)
            if whole and kind == 'wide' and p.backend == 'np':
                x = np.round(x)
                ctx.count('queries at whole numbers')
            q = np.asfortranarray(x) if rng.integers(2) else x.copy()
            p.seed_all(int(case['seed']) % 100003 + ti)
            info = dict(time_index=int(ti), k=k, where=kind, backend=p.backend, mode=p.mode, dim=p.dim, points=K)
            tq = [int, np.int64, np.int32][(ti + K) % 3](ti)        # indices computed with numpy
            info['index'] = type(tq).__name__
            ctx.count('queries with numpy integers as time index', int(not isinstance(tq, int)))
            with ctx.repo('calculate_u (%s)' % info):
                u = to_np(c.calculate_u(q.astype(int), tq)) if whole and kind == 'wide' and p.backend == 'np' else query(c, p.backend, q, tq)
            ctx.require(u.shape == (p.dim, K), 'controls are not one row per dimension and one column per point', shape=list(u.shape), **info)
            if ti <= 5 or ti >= k - 5:
                ref = -(x.T - Bc.mean(1, keepdims=True)) / Bc.var(1, ddof=ddof, keepdims=True) + \
                    (x.T - A.mean(1, keepdims=True)) / A.var(1, ddof=ddof, keepdims=True)
                scale = np.abs(x.T - Bc.mean(1, keepdims=True)) / Bc.var(1, keepdims=True) + np.abs(x.T - A.mean(1, keepdims=True)) / A.var(1, keepdims=True)
                err = (np.abs(u - ref) / (scale + 1e-300)).max()
                ctx.require(err < 1e-8, 'control near the ends is not the difference of the Gaussian log-density gradients', error=err, **info)
                ctx.count('Gaussian queries judged')
            else:
                lo, hi = boxes(A, Bc, how='inter' if p.backend == 'np' else 'union')
                if np.any(hi < lo):
                    ctx.count('disjoint flows, not judged')
                    continue
                la, lb = 2 * A.std(1, ddof=ddof), 2 * Bc.std(1, ddof=ddof)
                d = []
                for _ in range(R):
                    S = lo + (hi - lo) * ctx.rng.random((p.M, p.dim))
                    d.append((sparse_score(Bc.T, S, lb, q=x) - sparse_score(A.T, S, la, q=x)).T)
                d = np.array(d)
                m = d.mean(0)
                if kind == 'far':
                    size = 1 / Bc.std(1).min() + 1 / A.std(1).min()
                    ctx.require(np.abs(u).max() <= np.abs(d).max() * 3 + 1e-6 * size, 'control far outside the flows is not the score difference',
                                largest=np.abs(u).max(), reference=np.abs(d).max(), **info)
                    ctx.count('far queries judged')
                else:
                    spr = np.sqrt(((d - m) ** 2).sum() / (R - 1)) + 1e-7 * np.sqrt((m ** 2).sum())
                    z = np.sqrt(((u - m) ** 2).sum() / (1 + 1 / R)) / spr
                    lim = (60 if p.dim == 1 else 15) * (4 if K < 3 else 1)
                    ctx.require(np.isfinite(z) and z < lim, 'control is not the score difference of the flows', deviations=z,
                                spread=spr, size=np.sqrt((m ** 2).sum()), slope=(u * m).sum() / (m * m).sum(), **info)
                    if K >= 7:
                        zs.append(z)
                        w = (m * m).sum() / spr ** 2
                        dots += min(w, 100.) * ((u - m) * m).sum() / (m * m).sum()
                        wts += min(w, 100.)
                    ctx.count('interior queries judged')
                    ctx.worst('max z dim%d%s' % (p.dim, ' few points' if K < 3 else ''), z)
                if p.mode == 'bridge':
                    ctx.count('bridge queries')
            # a point's control does not depend on what is queried with it
            if K > 1:
                j = int(rng.integers(K))
                others = x.copy()
                others[np.arange(K) != j] += 1e3 * (1 + np.abs(others).max())
                sub = np.concatenate([x[j:j + 1], points(rng, A, Bc, 3, 'wide')])
                for alt, at in ((x[j:j + 1].copy(), 0), (others, j), (sub, 0)):
                    p.seed_all(int(case['seed']) % 100003 + ti)
                    with ctx.repo('calculate_u (%s)' % info):
                        u1 = query(c, p.backend, alt, int(ti))
                    ref = np.abs(u[:, j]).max() + np.abs(u).max() * 1e-3 + (1 / Bc.std(1).min()) * 1e-3
                    ctx.require(np.abs(u1[:, at] - u[:, j]).max() < 1e-6 * ref, 'the control at a point depends on the other points of the query',
                                alone=u1[:, at], together=u[:, j], **info)
                    ctx.count('row independence comparisons')
    if len(zs) >= 6:
        med = float(np.median(zs))
        ctx.worst('median z dim%d' % p.dim, med)
        ctx.require(med < (2.5 if p.dim == 1 else 1.7), 'controls are farther from the score difference than the estimator varies', median_z=med,
                    queries=len(zs), backend=p.backend, mode=p.mode)
        ctx.worst('weighted slope error dim%d' % p.dim, abs(dots / wts))
    ctx.count('controllers built')
