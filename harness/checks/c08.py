"""C08: the particle transport map against the definition of an optimal coupling, with optimality certificates."""
import numpy as np

from lib.core import derive
from lib.oracle import emd_cost_exact

RULE = ('random sample sets (1-260 samples, to 700 in the thorough run, 1-6 dimensions; scales 1e-6 to 1e6, offsets, coinciding, collinear, clustered, gridded '
        'samples) times weights (uniform, nearly uniform, random, sparse with exact zeros, concentrated on one sample), as vector or '
        'column, in C or Fortran order; non-trivial: at least two samples')
NEED = ['maps examined', 'transport certificates', 'relabelled maps', 'equal-weight maps']
SOFT = {'quick': 200, 'thorough': 2400}
SHAPES = ('gauss', 'cluster', 'line', 'same', 'grid', 'dup', 'heavy')
WEIGHTS = ('uniform', 'near', 'random', 'sparse', 'one', 'exp', 'two')

def cases(tier, seed):
    out, i = [], 0
    for rep in range({'quick': 6, 'thorough': 120}[tier]):
        for s in SHAPES:
            for w in WEIGHTS:
                out.append({'shape': s, 'w': w, 'rep': rep, 'seed': derive(seed, 'c08', i)})
                i += 1
    return out

def samples(rng, kind, n, dim):
    if kind == 'gauss':
        x = rng.normal(size=(n, dim))
    elif kind == 'cluster':
        x = rng.normal(size=(n, dim)) * 0.01 + 3 * rng.normal(size=(3, dim))[rng.integers(3, size=n)]
    elif kind == 'line':
        x = rng.normal(size=(n, 1)) * rng.normal(size=(1, dim))
    elif kind == 'same':
        x = np.ones((n, dim)) * rng.normal(size=dim)
    elif kind == 'grid':
        x = rng.integers(-3, 4, size=(n, dim)).astype(float)
    elif kind == 'dup':
        x = np.repeat(rng.normal(size=((n + 1) // 2, dim)), 2, 0)[:n]
    else:
        x = rng.standard_cauchy(size=(n, dim))
    return x

def weights(rng, kind, n):
    if kind == 'uniform':
        return np.full(n, 1 / n)
    if kind == 'near':
        w = 1 + 1e-4 * rng.normal(size=n)
    elif kind == 'random':
        w = rng.random(n) + 1e-3
    elif kind == 'sparse':
        w = rng.random(n) * (rng.random(n) < 0.3)
        w[rng.integers(n)] += 0.5
    elif kind == 'one':
        w = np.zeros(n)
        w[rng.integers(n)] = 1.0
    elif kind == 'exp':
        w = np.exp(5 * rng.normal(size=n))
    else:
        w = np.zeros(n)
        w[rng.integers(n)] += 0.25
        w[rng.integers(n)] += 0.75
    return w / w.sum()

def run(case, ctx):
    from DeterministicParticleFlowControl.reweighting import reweight_optimal_transport_multidim as ot_map
    rng = np.random.default_rng(case['seed'])
    n = int([1, 2, 3, 5, 10, 30, 60, 100, 151, 200, 260][rng.integers(11)])
    if ctx.tier == 'thorough' and rng.integers(8) == 0:
        n = int([250, 400, 700][rng.integers(3)])
    dim = int(rng.integers(1, 7))
    scale = 10.0 ** rng.integers(-6, 7)
    off = [0.0, 0.0, 1.0, 100.0][rng.integers(4)]
    x = (samples(rng, case['shape'], n, dim) + off) * scale
    w = weights(rng, case['w'], n)
    form = ['vector', 'column', 'fortran', 'view'][rng.integers(4)]
    wa = w.copy() if form != 'column' else w.reshape(-1, 1).copy()
    xa = np.asfortranarray(x) if form == 'fortran' else (np.stack([x, x * 7], 1).reshape(n, 2, dim)[:, 0] if form == 'view' else x.copy())
    info = dict(n=n, dim=dim, scale=scale, form=form)
    with ctx.repo('reweight_optimal_transport_multidim(%s)' % info):
        T = ot_map(xa, wa)
    T = np.asarray(T)
    ctx.require(T.shape == (n, n) and np.isfinite(T).all(), 'the map is not a finite square matrix', shape=list(T.shape), **info)
    ctx.require(T.min() > -1e-9, 'the map has negative entries', least=T.min(), **info)
    ctx.require(np.abs(T.sum(0) - 1).max() < 1e-7, 'a column of the map does not sum to one', worst=np.abs(T.sum(0) - 1).max(), **info)
    ctx.require(np.abs(T.sum(1) - n * w).max() < 1e-7 * n, 'a row of the map does not sum to the number of samples times its weight',
                worst=np.abs(T.sum(1) - n * w).max(), **info)
    sd = np.abs(x - x.mean(0)).max() + 1e-300
    ctx.require(np.abs((x.T - x.mean(0)[:, None]) @ T @ np.full(n, 1 / n) - (x.T - x.mean(0)[:, None]) @ w).max() < 1e-6 * sd,
                'the transported samples do not have the weighted mean', **info)
    ctx.count('maps examined')
    D = ((x[:, None, :] - x[None, :, :]) ** 2).sum(2)     # squared distances
    mx = D.max()
    cost = float((T * D).sum()) / n
    if mx > 0 and n > 1:
        primal, dual, slack, _ = emd_cost_exact(w, np.full(n, 1 / n), D / mx)
        if abs(primal - dual) < 1e-7 and slack > -1e-7:
            ctx.count('transport certificates')

            ctx.require(cost / mx <= dual + 1e-8, 'the map costs more than optimal transport', cost=cost / mx, optimum=dual, **info)
            ctx.worst('excess cost', cost / mx - dual)
        else:
            ctx.count('certificates that failed')
    if case['w'] == 'uniform' and case['shape'] in ('gauss', 'cluster', 'heavy') and n > 1:
        ctx.require(np.abs(T - np.eye(n)).max() < 1e-7, 'equal weights do not give the identity', **info)
        ctx.count('equal-weight maps')
    if n > 1:
        perm = ctx.rng.permutation(n)
        with ctx.repo('reweight_optimal_transport_multidim, relabelled (%s)' % info):
            T2 = np.asarray(ot_map(x[perm].copy(), w[perm].copy()))
        c2 = float((T2 * D[np.ix_(perm, perm)]).sum()) / n
        ctx.require(abs(c2 - cost) <= 1e-8 * mx + 1e-300, 'relabelling the samples changes the transport cost', cost=cost, relabelled=c2, **info)
        ctx.require(np.abs(T2.sum(1) - n * w[perm]).max() < 1e-7 * n and np.abs(T2.sum(0) - 1).max() < 1e-7,
                    'marginals of the relabelled map are wrong', **info)
        if case['shape'] == 'gauss' and case['w'] in ('random', 'exp', 'near'):
            # the optimal coupling of generic samples is unique
            ctx.worst('relabelling difference', np.abs(T2 - T[np.ix_(perm, perm)]).max())
            ctx.require(np.abs(T2 - T[np.ix_(perm, perm)]).max() < 1e-6 * n, 'relabelling the samples does not relabel the map', **info)
        ctx.count('relabelled maps')
