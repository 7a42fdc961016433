"""C22: calls from several threads, forced to interleave, against what each call returns alone."""
import logging
import sys
import threading

import numpy as np

from checks import c03, c04
from lib.core import Violation, derive
from lib.oracle import boxes, sparse_score
from lib.points import cloud
from lib.problems import Problem, Recorder, flows, query, random_spec, to_np
from lib.steps import pre_clouds

RULE = ('4-8 threads released together, switching every microsecond, each making a random sequence of calls: estimators of both backends '
        '(evaluated, and one shared functional form), kernels and gradients on a shared kernel object, distances, transport maps, '
        'controls and coverage of shared controllers, also ones whose flows travel so far that no two times share a region; compared with the same calls made alone; controllers built in several threads '
        'at once, judged by the endpoint and step laws; non-trivial: calls of different threads overlapped in time')
NEED = ['concurrent calls compared', 'overlapping calls', 'concurrent builds judged', 'interior control queries', 'shared kernel calls']
SOFT = {'quick': 300, 'thorough': 2700}
CASE_TIMEOUT = 300
STALL = 60
THREADS = 2
JOBS = 5


def cases(tier, seed):
    out, i = [], 0
    for rep in range({'quick': 4, 'thorough': 60}[tier]):
        for kind in ('functions', 'functions', 'queries np', 'queries torch', 'queries np moving', 'queries torch moving', 'builds np', 'builds torch', 'builds both'):
            out.append({'kind': kind, 'rep': rep, 'threads': [4, 6, 8][(i + rep) % 3], 'seed': derive(seed, 'c22', i)})
            i += 1
    return out


def close(a, b):
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-7 * max(np.abs(b).max(), 1e-300)))


def race(ctx, threads, jobs):
    """jobs: one list of (name, callable, judge) per thread; all released together"""
    import time
    spans, errors = [], []
    gate = threading.Barrier(threads)
    old = sys.getswitchinterval()

    def work(j):
        gate.wait()
        for name, fn, judge in jobs[j]:
            t0 = time.perf_counter()
            try:
                r = fn()
            except Exception as e:  # noqa: BLE001
                import traceback
                errors.append('%s raised %s: %s %s' % (name, type(e).__name__, e, traceback.format_exc(limit=-4)))
                return
            spans.append((t0, time.perf_counter(), j))
            msg = judge(r)
            if msg:
                errors.append('%s called concurrently: %s' % (name, msg))
                return
    ts = [threading.Thread(target=work, args=(j,)) for j in range(threads)]
    sys.setswitchinterval(1e-6)
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    ev = sorted([(a, 1) for a, b, _ in spans] + [(b, -1) for a, b, _ in spans])
    n = top = over = 0
    for _, d in ev:
        over += d > 0 and n > 0
        n += d
        top = max(top, n)
    ctx.count('overlapping calls', over)
    ctx.worst('calls under way at once', top)
    ctx.count('concurrent calls compared', len(spans))
    ctx.count('oracle evaluations', len(spans))
    if errors:
        raise Violation(errors[0][:1500])


def run(case, ctx):
    kind = case['kind'].split()
    {'functions': functions, 'queries': queries, 'builds': builds}[kind[0]](case, ctx, *kind[1:])


def functions(case, ctx):
    import torch
    from DeterministicParticleFlowControl import kernels, reweighting, score_estimators as SE
    rng = np.random.default_rng(case['seed'])
    ten = lambda a: torch.tensor(a, dtype=torch.float64)
    pool = []
    dim = int(rng.integers(1, 4))
    shared_l = rng.uniform(0.5, 2, dim)
    kern = kernels.RBF(length_scale=shared_l, multil=True, signal_variance=1.2)
    kern1 = kernels.RBF(length_scale=1.1)
    for i in range(8):
        n, m = int(rng.integers(20, 160)), int(rng.integers(10, 50))
        if rng.integers(2):
            n, m = 90, 30      # equal sizes: a work space taken for one's own would fit
        x, z, q = cloud(rng, n, dim), cloud(rng, m, dim), cloud(rng, 25, dim)
        l1 = float(rng.uniform(0.5, 2))
        l = rng.uniform(0.5, 2, dim)
        X, Z, Q = ten(x), ten(z), ten(q)
        fn_np = SE.score_function_multid_seperate_all_dims(x, z, l=l, func_out=True)
        fn_1 = SE.score_function_multid_seperate(x, z, True, l=l, which_dim=dim)
        fn_t = SE.torched_score_function_multid_seperate_all_dims(X, Z, l=ten(l), func_out=True)

        def cd(x=x, z=z, n=n, m=m):
            o = np.full((n, m), -1.0)
            SE.my_cdist(x, z, o, 'euclidean')
            return o
        w = rng.dirichlet(np.ones(n))
        pool += [
            ('score_function_multid_seperate', lambda x=x, z=z, l=l: SE.score_function_multid_seperate(x, z, l=l, which_dim=1)),
            ('score_function_multid_seperate_old', lambda x=x, z=z, l=l: SE.score_function_multid_seperate_old(x, z, l=l, which_dim=1)),
            ('score_function_multid_seperate_all_dims', lambda x=x, z=z, l=l: SE.score_function_multid_seperate_all_dims(x, z, l=l)),
            ('all dimensions, one lengthscale', lambda x=x, z=z, l=l1: SE.score_function_multid_seperate_all_dims(x, z, l=l)),
            ('all dimensions, one lengthscale', lambda x=x, z=z, l=l1, q=q: SE.score_function_multid_seperate_all_dims(x, z, l=l, func_out=True)(q)),
            ('one dimension, one lengthscale', lambda x=x, z=z, l=l1: SE.score_function_multid_seperate(x, z, l=l, which_dim=1)),
            ('torched, one lengthscale', lambda X=X, Z=Z, l=l1: SE.torched_score_function_multid_seperate_all_dims(X, Z, l=l)),
            ('all_dims function', lambda f=fn_np, q=q: f(q)), ('one-dimension function', lambda f=fn_1, q=q: f(q)),
            ('torched function', lambda f=fn_t, Q=Q: f(Q)),
            ('torched_score_function', lambda X=X, Z=Z, l=l: SE.torched_score_function_multid_seperate_all_dims(X, Z, l=ten(l))),
            ('Kernel of a shared object', lambda X=X, Z=Z: kern.Kernel(X, Z)),
            ('gradient_X of a shared object', lambda X=X, Z=Z: kern.gradient_X(X, Z)),
            ('gradient_X of a shared object', lambda X=X, Z=Z: kern1.gradient_X(X, Z)),
            ('Kernel of a shared object', lambda x=x: kern1.Kernel(x)),
            ('my_cdist', cd),
            ('transport map', lambda x=x, w=w: x.T @ reweighting.reweight_optimal_transport_multidim(x, w)),
        ]
    with ctx.repo('calls made alone'):
        ref = [to_np(f()) for _, f in pool]
    jobs = []
    for j in range(case['threads']):
        order = rng.integers(len(pool), size={'quick': 150, 'thorough': 500}[ctx.tier])
        ctx.count('shared kernel calls', sum('shared' in pool[i][0] for i in order))
        jobs.append([(pool[i][0], pool[i][1], (lambda r, i=i: None if close(to_np(r), ref[i]) else
                                               'differs from the call made alone by %g' % np.abs(to_np(r) - ref[i]).max()
                                               if to_np(r).shape == ref[i].shape else 'has another shape')) for i in order])
    race(ctx, case['threads'], jobs)


def queries(case, ctx, backend, moving=None):
    rng = np.random.default_rng(case['seed'])
    ctrls = []
    for m in ('plain', 'bridge', 'rw') if not moving else ('plain',):
        # moving: a drift that carries the flows far within a few steps, so that queries at different times share no region
        spec = random_spec(rng, backend, dim=2, N=100, M=80, steps=int(rng.integers(30, 40)), mode=m, kinds=('const',), speed=80.0, glo=0.3, ghi=0.6) \
            if moving else random_spec(rng, backend, dim=int(rng.integers(2, 4)), N=100, M=80, steps=int(rng.integers(20, 30)), mode=m)
        p = Problem(spec)
        with ctx.repo('building'):
            c = p.build()
        ctrls.append((p, c, flows(c)))
    pool = []
    for p, c, F in ctrls:
        k = F['Z'].shape[2]
        fw, B = (F['Ztr'] if p.mode == 'bridge' else F['Z']), F['B']
        ddof = 1 if backend == 'torch' else 0
        for ti in (2, 4, k - 4, k - 2):
            for _ in range(3):
                x = B[:, rng.integers(B.shape[1], size=20), ti].T + 0.05 * rng.normal(size=(20, p.dim))
                ref = query(c, backend, x, ti)
                pool.append(('control near the ends', lambda c=c, x=x, ti=ti: query(c, backend, x, ti),
                             lambda r, ref=ref: None if close(r, ref) else 'differs from the call made alone by %g' % np.abs(r - ref).max()))
        for ti in (8, k // 2, k - 8) if not moving else range(7, k - 7):
            lo, hi = boxes(fw[:, :, ti], B[:, :, ti], how='inter')
            if np.any(hi <= lo):
                continue
            for _ in range(3):
                x = lo + (hi - lo) * rng.random((40, p.dim))
                blo, bhi = (lo, hi) if backend == 'np' else boxes(fw[:, :, ti], B[:, :, ti], how='union')
                d = []
                for _ in range(10):
                    S = blo + (bhi - blo) * rng.random((p.M, p.dim))
                    d.append((sparse_score(B[:, :, ti].T, S, 2 * B[:, :, ti].std(1, ddof=ddof), q=x) -
                              sparse_score(fw[:, :, ti].T, S, 2 * fw[:, :, ti].std(1, ddof=ddof), q=x)).T)
                d = np.array(d)
                m = d.mean(0)
                spr = np.sqrt(((d - m) ** 2).sum() / 9) + 1e-7 * np.sqrt((m ** 2).sum())

                def judge(r, m=m, spr=spr):
                    z = np.sqrt(((r - m) ** 2).sum()) / spr if r.shape == m.shape else np.inf
                    return None if z < 15 else 'control is not the score difference (%.1f spreads)' % z
                pool.append(('control', lambda c=c, x=x, ti=ti: query(c, backend, x, ti), judge))
            pts = [rng.uniform(lo - 0.3, hi + 0.3) for _ in range(4)]
            for x in pts:
                want = bool(np.all((x >= lo) & (x <= hi))) if p.mode != 'bridge' else None
                if want is None:
                    zl, zh = boxes(F['Z'][:, :, ti], B[:, :, ti], how='inter')
                    want = bool(np.all((x >= zl) & (x <= zh)))
                pool.append(('coverage', lambda c=c, x=x, ti=ti: bool(c.check_if_covered(x, ti)),
                             lambda r, want=want: None if r == want else 'wrong coverage'))
    jobs = []
    for j in range(case['threads']):
        order = rng.integers(len(pool), size={'quick': 100, 'thorough': 300}[ctx.tier])
        if moving:
            inner = [i for i, e in enumerate(pool) if e[0] == 'control']
            order = rng.choice(inner, size=2 * len(order))
        jobs.append([pool[i] for i in order])
        ctx.count('interior control queries', sum(pool[i][0] == 'control' for i in order))
    race(ctx, case['threads'], jobs)
    for p, c, F in ctrls:
        ctx.require(all(np.array_equal(F[n], flows(c)[n]) for n in F), 'concurrent queries changed the flows')


def builds(case, ctx, backend):
    rng = np.random.default_rng(case['seed'])
    n = 4
    same = random_spec(rng, 'np', dim=2, N=60, M=50, steps=22, mode='rw')
    probs = []
    for j in range(n):
        b = {'np': 'np', 'torch': 'torch', 'both': ['np', 'torch'][j % 2]}[backend]
        m = ['plain', 'rw', 'bridge', 'rw'][j]
        if j < 2:   # two of equal sizes
            probs.append(Problem(random_spec(rng, b, dim=2, N=60, M=50, steps=22, mode=m)))
        else:
            probs.append(Problem(random_spec(rng, b, dim=int(rng.integers(2, 4)), N=60, M=50, steps=int(rng.integers(18, 28)), mode=m)))
    recs = [Recorder() for _ in probs]
    built = [None] * n
    seeds = int(rng.integers(1 << 30))
    probs[0].seed_all(seeds)
    import torch
    torch.manual_seed(seeds)

    def one(j):
        p = probs[j]
        seed_all, p.seed_all = p.seed_all, lambda s=None: None      # one stream of random numbers for all
        built[j] = p.build(recs[j])
        p.seed_all = seed_all
        return j
    logging.disable(logging.CRITICAL)
    race(ctx, n, [[('building a %s controller (%s)' % (probs[j].backend, probs[j].mode), lambda j=j: one(j), lambda r: None)] for j in range(n)])
    noise = []
    for p, c, rec in zip(probs, built, recs):
        F, t = flows(c), to_np(c.timegrid)
        ctx.require(F['Z'].shape == (p.dim, p.N, t.size) == F['B'].shape and np.isfinite(F['Z']).all() and np.isfinite(F['B']).all(),
                    'flows of a concurrently built controller are not finite arrays over its grid', backend=p.backend, mode=p.mode)
        ctx.require(bool(np.all(F['Z'][:, :, 0] == p.y1[:, None]) and np.all(F['B'][:, :, -1] == p.y2[:, None]) and np.all(F['B'][:, :, 0] == p.y1[:, None])),
                    'flows of a concurrently built controller do not start and end at its states', backend=p.backend, mode=p.mode)
        ddof = 1 if p.backend == 'torch' else 0
        pre = pre_clouds(p, rec, t)
        noise.append(c03.first_step(ctx, p, F['Z'], pre.get(1, F['Z'][:, :, 1]), p.f, t, 'Z').reshape(-1))
        c03.forward(ctx, p, F['Z'], pre, p.f, t, 'Z', ddof)
        if p.mode == 'bridge':
            c03.forward(ctx, p, F['Ztr'], {}, p.f_true, t, 'Ztr', ddof)
        c04.backward(ctx, p, F, t, ddof, 's')
        ctx.count('concurrent builds judged')
    for a in range(n):
        for b in range(a):
            if probs[a].backend == probs[b].backend:
                ctx.require(np.intersect1d(np.round(noise[a], 9), np.round(noise[b], 9)).size == 0, 'concurrently built controllers share random numbers')
