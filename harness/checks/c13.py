"""C13: score estimates of large samples of known densities against the true gradient, Stein's identities, and symmetries."""
import numpy as np

from lib.core import derive
from lib.points import cloud
from lib.problems import to_np

RULE = ('accuracy: 4000 (and 200) samples of correlated Gaussians and Gaussian mixtures in 1-4 dimensions, every estimator of both backends, '
        'evaluated and functional, against the true gradient (error, factor per dimension, Stein identities, sign); symmetries: random '
        'clouds, reordered, shifted, rescaled (all or each coordinate), with coordinates exchanged, mirrored; non-trivial: all')
NEED = ['accuracy judged', 'Stein identities', 'convergence comparisons', 'reorderings', 'shifts', 'rescalings', 'coordinate permutations',
        'mirrorings', 'estimators']
SOFT = {'quick': 300, 'thorough': 2700}


def cases(tier, seed):
    out, i = [], 0
    for rep in range({'quick': 4, 'thorough': 50}[tier]):
        for kind in ('gauss', 'mix'):
            for dim in (1, 2, 3, 4):
                out.append({'kind': 'accuracy', 'density': kind, 'dim': dim, 'rep': rep, 'seed': derive(seed, 'c13', i)})
                i += 1
        for dim in (1, 2, 3, 5):
            for r in range(4):
                out.append({'kind': 'symmetry', 'dim': dim, 'rep': rep, 'sub': r, 'seed': derive(seed, 'c13s', i)})
                i += 1
    return out


def density(rng, dim, kind):
    if kind == 'gauss':
        while True:
            A = np.eye(dim) + 0.35 * rng.normal(size=(dim, dim))
            if np.linalg.cond(A) < 5:   # thinner ones need more than 100 inducing points
                break
        m, P = rng.normal(size=dim), np.linalg.inv(A @ A.T)
        return (lambda n, r: m + r.normal(size=(n, dim)) @ A.T), (lambda x: -(x - m) @ P)
    w, c, s = rng.uniform(.35, .65), rng.normal(size=dim), rng.uniform(.8, 1.2, dim)
    c = 1.1 * c / np.linalg.norm(c)

    def sample(n, r):
        return np.where((r.random(n) < w)[:, None], c, -c) + s * r.normal(size=(n, dim))

    def score(x):
        a, b = np.log(w) - .5 * (((x - c) / s) ** 2).sum(1), np.log(1 - w) - .5 * (((x + c) / s) ** 2).sum(1)
        p = 1 / (1 + np.exp(b - a))
        return -(p[:, None] * (x - c) + (1 - p)[:, None] * (x + c)) / s ** 2
    return sample, score


def estimators(dim, legacy=True):
    """name -> function of samples, inducing points, lengthscale and query points (None: at the samples)"""
    import torch
    from DeterministicParticleFlowControl import score_estimators as SE
    ten = lambda a: torch.tensor(np.array(a), dtype=torch.float64)

    def each(fn):
        def go(x, z, l, q):
            out = [getattr(SE, fn)(x, z, q is not None, l=l, which_dim=d + 1) for d in range(dim)]
            return np.stack([np.ravel(o if q is None else o(q)) for o in out], 1)
        return go

    def alld(x, z, l, q):
        o = SE.score_function_multid_seperate_all_dims(x, z, q is not None, l=l)
        return o if q is None else o(q)

    def torched(x, z, l, q):
        o = SE.torched_score_function_multid_seperate_all_dims(ten(x), ten(z), l=l if np.ndim(l) == 0 else ten(l), func_out=q is not None)
        return to_np(o if q is None else o(ten(q)))
    out = {'one dimension': each('score_function_multid_seperate'), 'all dimensions': alld, 'torch': torched}
    if legacy:
        out['legacy'] = each('score_function_multid_seperate_old')
    return out


def run(case, ctx):
    {'accuracy': accuracy, 'symmetry': symmetry}[case['kind']](case, ctx)


def accuracy(case, ctx):
    rng = np.random.default_rng(case['seed'])
    dim = case['dim']
    sample, score = density(rng, dim, case['density'])
    unit = 10.0 ** rng.uniform(-1, 1, dim)
    errs = {}
    for N in (200, 4000):
        x = sample(N, rng)
        z = rng.uniform(x.min(0), x.max(0), (100, dim))
        if N == 4000 and rng.integers(3) == 0:
            unit = np.full(dim, unit[0])
        t = score(x) / unit
        q = x[: 1000]
        l = 2 * x.std(0) * unit
        for name, est in estimators(dim).items():
            for form in ('evaluated', 'functional'):
                info = dict(estimator=name, form=form, N=N, dim=dim, density=case['density'])
                with ctx.repo('%s %s' % (name, form)):
                    v = np.array(est(x * unit, z * unit, l, None if form == 'evaluated' else q * unit))
                tt = t if form == 'evaluated' else t[:1000]
                xx = x if form == 'evaluated' else q
                ctx.require(v.shape == tt.shape and np.isfinite(v).all(), 'estimates are not finite, or of the wrong shape', shape=list(v.shape), **info)
                e = float((((v - tt) ** 2).sum(0) / (tt ** 2).sum(0)).max())
                errs[name, form, N] = e
                if N == 200:
                    continue
                slope = (v * tt).sum(0) / (tt ** 2).sum(0)
                ctx.worst('relative squared error dim%d' % dim, e)
                ctx.worst('factor error', np.abs(slope - 1).max())
                ctx.require(e < 0.25, 'estimate is far from the true gradient', relative_squared_error=e, factors=slope, **info)
                ctx.require(np.abs(slope - 1).max() < 0.18, 'estimate has the wrong scale in some dimension', factors=slope, **info)
                ctx.count('accuracy judged', v.size)
                if form == 'evaluated':
                    s = xx.std(0) * unit
                    y = (xx - xx.mean(0)) * unit
                    stein = (v.T @ y / N + np.eye(dim)) * s[:, None] / s[None, :]
                    m = np.abs(v.mean(0) * s).max()
                    ctx.worst('Stein identity error', np.abs(stein).max())
                    ctx.worst('mean of the score', m)
                    ctx.require(np.abs(stein).max() < (0.006 if dim < 3 else 0.05) and m < (0.002 if dim < 3 else 0.015), 'Stein identities violated', matrix=stein, mean=m, **info)
                    ctx.count('Stein identities', dim * (dim + 1))
    for (name, form, N), e in errs.items():
        if N == 200:
            ctx.count('convergence comparisons')
            ctx.stat('convergence', float(np.log(errs[name, form, 4000] / e)), 1)
            # a single small sample can be lucky in one dimension
            ctx.require(errs[name, form, 4000] < max(e, 0.06), 'more samples do not give a better estimate', small=e, large=errs[name, form, 4000],
                        estimator=name, form=form, dim=dim, density=case['density'])


def symmetry(case, ctx):
    rng = np.random.default_rng(case['seed'])
    dim = case['dim']
    N, M = int(rng.integers(30, 200)), int(rng.integers(10, 60))
    x, z, q = cloud(rng, N, dim), None, cloud(rng, 20, dim)
    z = rng.uniform(x.min(0), x.max(0), (M, dim))
    l = 2 * x.std(0) * rng.uniform(0.5, 1.5)
    for name, est in estimators(dim).items():
        forms = ['vector', 'scalar']
        for lform in forms:
            ll = l if lform == 'vector' else float(l.mean())
            for qq in (None, q):
                info = dict(estimator=name, lengthscale=lform, form='evaluated' if qq is None else 'functional', N=N, M=M, dim=dim)

                def call(x, z, l, q):
                    with ctx.repo('%s (%s)' % (name, info)):
                        return np.array(est(x, z, l, q))
                ref = call(x, z, ll, qq)
                nat = np.abs(ref).max(0) + 1 / l

                def expect(got, want, what, scale=1.0):
                    e = (np.abs(got - want) / (nat * scale)).max()
                    ctx.worst('error under ' + what, e)
                    ctx.require(got.shape == want.shape and e < 1e-5, 'estimate does not transform like a log-density gradient under ' + what, error=e, **info)
                pm, pn = rng.permutation(M), rng.permutation(N)
                expect(call(x, z[pm], ll, qq), ref, 'reordering of the inducing points')
                if qq is None:
                    expect(call(x[pn], z, ll, None), ref[pn], 'reordering of the samples')
                else:
                    expect(call(x[pn], z, ll, qq), ref, 'reordering of the samples')
                    pq = rng.permutation(len(qq))
                    expect(call(x, z, ll, qq[pq]), ref[pq], 'reordering of the queries')
                    expect(call(x, z, ll, qq[3:4]), ref[3:4], 'querying one point')
                    expect(call(x, z, ll, x), call(x, z, ll, None), 'evaluation through the function')
                ctx.count('reorderings', 3)
                c = rng.normal(size=dim) * [1, 10][rng.integers(2)] * x.std(0)
                expect(call(x + c, z + c, ll, None if qq is None else qq + c), ref, 'translation')
                # exactly representable: points on a lattice, moved far by a multiple of its spacing
                u = 2.0 ** np.round(np.log2(x.std(0)))
                rnd = lambda a: None if a is None else np.round(a / u * 2.0 ** 20) * u / 2.0 ** 20
                xl, zl, ql = rnd(x), rnd(z), rnd(qq)
                c = u * 2.0 ** rng.integers(4, 15, dim) * rng.choice([-1.0, 1.0], dim)
                expect(call(xl + c, zl + c, ll, None if qq is None else ql + c), call(xl, zl, ll, ql), 'translation far from the origin')
                ctx.count('shifts', 2)
                a = np.full(dim, 10.0 ** rng.uniform(-2, 2)) if lform == 'scalar' else 10.0 ** rng.uniform(-2, 2, dim)
                la = ll * (a if lform == 'vector' else a[0])
                expect(call(x * a, z * a, la, None if qq is None else qq * a) * a, ref, 'rescaling')
                ctx.count('rescalings')
                s = rng.choice([-1.0, 1.0], dim)
                expect(call(x * s, z * s, ll, None if qq is None else qq * s) * s, ref, 'mirroring')
                ctx.count('mirrorings')
                p = rng.permutation(dim)
                expect(call(x[:, p], z[:, p], ll[p] if lform == 'vector' else ll, None if qq is None else qq[:, p]), ref[:, p], 'permutation of the coordinates')
                ctx.count('coordinate permutations')
        ctx.count('estimators')


def pooled(stats, events, tier):
    s, n = stats.get('convergence', (0, 0))
    return [] if not n or s / n < -0.7 else ['twenty times more samples change the squared error by a factor of %.2f only' % np.exp(s / n)]
