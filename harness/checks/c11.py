"""C11: numpy score estimators against the closed form."""
import numpy as np

from lib.core import derive
from lib.oracle import sparse_score
from lib.points import estimator_problem, layout, length_form

RULE = ('random sample clouds (1-250 samples, 1-250 inducing points, 1-12 dimensions, real or whole numbers, scales 1e-3 to 1e3 per dimension, offsets), '
        'lengthscales as number, list, tuple or array, regularisation constants, memory layouts; evaluated and functional output of '
        'the four estimators for every selected dimension, repeated in the same arrays with other contents; non-trivial: more than one sample and inducing point')
NEED = ['estimates compared', 'functional outputs', 'evaluated outputs', 'scalar lengthscales', 'vector lengthscales', 'estimates from rewritten arrays', 'estimates from whole numbers', 'functionals evaluated again']
SOFT = {'quick': 200, 'thorough': 2400}


def cases(tier, seed):
    return [{'rep': i, 'seed': derive(seed, 'c11', i)} for i in range({'quick': 240, 'thorough': 6000}[tier])]


def natural(p):
    """smallest score that counts, per dimension: a tenth of an inverse lengthscale"""
    return 0.1 / np.broadcast_to(p['l'], (p['dim'],))


def singles():
    from DeterministicParticleFlowControl import score_estimators as SE
    from DeterministicParticleFlowControl.score_estimators import score
    return [(n, getattr(m, n)) for m, n in ((SE, 'score_function_multid_seperate'), (SE, 'score_function_multid_seperate_old'),
                                            (score, 'score_function_multid_seperate2'))]


def compare(ctx, got, ref, what, info, nat):
    got = np.asarray(got)
    ctx.require(got.shape == ref.shape, what + ': wrong shape', shape=list(got.shape), expected=list(ref.shape), **info)
    ctx.require(np.isfinite(got).all(), what + ': not finite', **info)
    err = (np.abs(got - ref).max(0) / (np.abs(ref).max(0) + nat)).max()
    ctx.worst('relative error', err)
    ctx.require(err < 2e-5, what + ' is not the regularised sparse estimate', relative_error=err, **info)
    ctx.count('estimates compared', ref.size)


def run(case, ctx):
    from DeterministicParticleFlowControl import score_estimators as SE
    rng = np.random.default_rng(case['seed'])
    p = estimator_problem(rng)
    forms = ['float', 'npfloat'] if p['scalar'] else ['list', 'tuple', 'array']
    l, form = length_form(rng, p, forms)
    x, z, q = layout(rng, p['x']), layout(rng, p['z']), layout(rng, p['q'])
    info = dict(N=p['N'], M=p['M'], dim=p['dim'], form=form, C=p['C'], K=len(p['q']))
    ctx.count('scalar lengthscales' if p['scalar'] else 'vector lengthscales')
    kw = {} if p['C'] == 0.001 and rng.integers(2) else {'C': p['C']}
    nat = natural(p)
    ref = sparse_score(p['x'], p['z'], p['l'], p['C'])
    refq = sparse_score(p['x'], p['z'], p['l'], p['C'], p['q'])
    with ctx.repo('score_function_multid_seperate_all_dims(%s)' % info):
        a = SE.score_function_multid_seperate_all_dims(x, z, l=l, **kw)
        fa = SE.score_function_multid_seperate_all_dims(x, z, func_out=True, l=l, **kw)
        aq, ax = fa(q), fa(x)
    compare(ctx, a, ref, 'all dimensions, evaluated', info, nat)
    compare(ctx, aq, refq, 'all dimensions, functional', info, nat)
    compare(ctx, ax, ref, 'all dimensions, functional at the samples', info, nat)
    ctx.count('functional outputs', 2)
    ctx.count('evaluated outputs')
    if p['whole']:
        ctx.count('estimates from whole numbers')
    for name, fn in singles():
        for d in range(p['dim']):
            with ctx.repo('%s(%s, which_dim=%d)' % (name, info, d + 1)):
                s = fn(x, z, False, l=l, which=1, which_dim=d + 1, kern='RBF', **kw)
                g = fn(x, z, func_out=True, l=l, which_dim=d + 1, **kw)
                sq, sx = g(q), g(x)
            for got, r, w in ((s, ref, 'evaluated'), (sq, refq, 'functional'), (sx, ref, 'functional at the samples')):
                got = np.asarray(got)
                ctx.require(got.size == r.shape[0], name + ': wrong size', shape=list(got.shape), **info)
                err = np.abs(got.ravel() - r[:, d]).max() / (np.abs(r[:, d]).max() + nat[d])
                ctx.worst('relative error', err)
                ctx.require(err < 2e-5, '%s, %s, is not the regularised sparse estimate' % (name, w), which_dim=d + 1, relative_error=err, **info)
                ctx.count('estimates compared', got.size)
            ctx.count('functional outputs', 2)
            ctx.count('evaluated outputs')
    # one functional at many sets of points, which share rows, sizes and even memory; results are kept meanwhile
    K, buf = len(p['q']), np.array(p['q'], float)
    d = int(rng.integers(p['dim']))
    name, fn = singles()[rng.integers(3)]
    with ctx.repo('functionals'):
        fs = [fa, fn(x, z, func_out=True, l=l, which_dim=d + 1, **kw)]
    kept = []
    for r in range(5):
        new = np.array(p['q'], float)
        if r:
            keep = [[], [0, -1], [0], list(range(0, K, 2)), [-1]][r]
            new += 0.3 * p['l'] * rng.normal(size=new.shape) * ~np.isin(np.arange(K), np.arange(K)[keep] if len(keep) else [])[:, None]
        if r == 3:
            new = new[:max(1, K // 2)]
        buf[:len(new)] = new
        want = sparse_score(p['x'], p['z'], p['l'], p['C'], new)
        for i, f in enumerate(fs):
            with ctx.repo('functional at other points'):
                raw = f([new.copy(), buf[:len(new)]][r % 2])
            got = np.array(raw, float)
            w, n = (want, nat) if i == 0 else (want[:, d:d + 1], nat[d:d + 1])
            err = (np.abs(got.reshape(w.shape) - w).max(0) / (np.abs(w).max(0) + n)).max()
            ctx.worst('relative error', err)
            ctx.require(err < 2e-5, 'functional evaluated at other points is not the sparse estimate', relative_error=err, evaluation=r, **info)
            kept.append((raw, got))
            ctx.count('functionals evaluated again')
    for raw, got in kept:
        ctx.require(np.array_equal(np.asarray(raw), got), 'values returned earlier were changed by a later evaluation', **info)
    # the same array objects with other contents: nothing of the first problem may survive
    p2 = dict(p)
    p2['x'] = p['x'][::-1] * rng.uniform(0.8, 1.2) + 0.1 * p['l'] * rng.normal(size=p['x'].shape)
    p2['z'] = p2['x'].min(0) + (p2['x'].max(0) - p2['x'].min(0) + 0.1 * p['l']) * rng.random(p['z'].shape)
    p2['q'] = p['q'][::-1] + 0.2 * p['l'] * rng.normal(size=p['q'].shape)
    p2['l'] = p['l'] * rng.uniform(0.8, 1.2)
    x, z, q, lb = np.array(p['x'], float), np.array(p['z'], float), np.array(p['q'], float), np.array(p['l'])
    for r in range(2):
        la = float(lb[0]) if p['scalar'] else lb
        with ctx.repo('repeated estimates in the same arrays'):
            got = [np.asarray(SE.score_function_multid_seperate_all_dims(x, z, l=la, **kw)),
                   np.asarray(SE.score_function_multid_seperate_all_dims(x, z, func_out=True, l=la, **kw)(q))]
            d = int(rng.integers(p['dim']))
            for name, fn in singles():
                got.append(np.ravel(fn(x, z, l=la, which_dim=d + 1, **kw)))
                got.append(np.ravel(fn(x, z, func_out=True, l=la, which_dim=d + 1, **kw)(q)))
        if r == 0:
            for a, k in ((x, 'x'), (z, 'z'), (q, 'q'), (lb, 'l')):
                a[...] = p2[k]
    e, eq = sparse_score(p2['x'], p2['z'], p2['l'], p['C']), sparse_score(p2['x'], p2['z'], p2['l'], p['C'], p2['q'])
    nat = natural(p2)
    for i, v in enumerate(got):
        w = (eq if i % 2 else e)
        if i >= 2:
            err = np.abs(v - w[:, d]).max() / (np.abs(w[:, d]).max() + nat[d])
        else:
            err = (np.abs(v - w).max(0) / (np.abs(w).max(0) + nat)).max()
        ctx.worst('relative error', err)
        ctx.require(err < 2e-5, 'estimate from arrays whose contents were replaced is not the sparse estimate', which=i, relative_error=err, **info)
    ctx.count('estimates from rewritten arrays', len(got))
