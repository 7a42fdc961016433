"""C12: the PyTorch estimator against the closed form and the numpy estimator, for all argument forms."""
import itertools

import numpy as np

from checks.c11 import natural
from lib.core import derive
from lib.oracle import sparse_score
from lib.points import estimator_problem, layout, length_form
from lib.problems import to_np

RULE = ('random estimator problems times argument forms: samples and inducing points as array (several layouts) or tensor, lengthscale '
        'as number, list, tuple, array, or tensor of 0, 1 or dim entries, queries as array or tensor, constant given or default, '
        'device none or cpu; repeated in the same tensors with other contents; non-trivial: more than one sample and inducing point')
NEED = ['estimates compared', 'functional outputs', 'evaluated outputs', 'scalar lengthscales', 'vector lengthscales', 'argument forms', 'estimates from rewritten tensors']
SOFT = {'quick': 200, 'thorough': 2400}


def cases(tier, seed):
    return [{'rep': i, 'seed': derive(seed, 'c12', i)} for i in range({'quick': 240, 'thorough': 6000}[tier])]


def run(case, ctx):
    import torch
    from DeterministicParticleFlowControl import score_estimators as SE
    rng = np.random.default_rng(case['seed'])
    p = estimator_problem(rng)
    if p['scalar'] and p['dim'] == 1:
        forms = ['float', 'npfloat', 'tensor0', 'tensor1', 'list', 'array', 'tuple']
    elif p['scalar']:
        forms = ['float', 'npfloat', 'tensor0', 'tensor1']
    else:
        forms = ['list', 'tuple', 'array', 'tensor']
    ctx.count('scalar lengthscales' if p['scalar'] else 'vector lengthscales')
    ref = sparse_score(p['x'], p['z'], p['l'], p['C'])
    refq = sparse_score(p['x'], p['z'], p['l'], p['C'], p['q'])
    nat = natural(p)
    ten = lambda a: torch.tensor(np.array(a), dtype=torch.float64)
    kw = {} if p['C'] == 0.001 and rng.integers(2) else {'C': p['C']}
    for fx, fz, fq in itertools.product(('array', 'tensor'), repeat=3):
        l, fl = length_form(rng, p, forms)
        x = layout(rng, p['x'], ['c', 'f', 'strided', 'ro'][rng.integers(4)]) if fx == 'array' else ten(p['x'])
        z = layout(rng, p['z'], ['c', 'f', 'strided', 'ro'][rng.integers(4)]) if fz == 'array' else ten(p['z'])
        q = layout(rng, p['q'], ['c', 'f', 'strided', 'ro'][rng.integers(4)]) if fq == 'array' else ten(p['q'])
        dev = [None, 'cpu'][rng.integers(2)]
        if fx == 'tensor' and rng.integers(2):
            x = x.t().contiguous().t()
        info = dict(N=p['N'], M=p['M'], dim=p['dim'], C=p['C'], samples=fx, inducing=fz, queries=fq, lengthscale=fl, device=dev)
        with ctx.repo('torched_score_function_multid_seperate_all_dims(%s)' % info):
            s = SE.torched_score_function_multid_seperate_all_dims(x, z, l=l, func_out=False, device=dev, **kw)
            g = SE.torched_score_function_multid_seperate_all_dims(x, z, l=l, func_out=True, kern='RBF', device=dev, **kw)
            sq, sx = g(q), g(x)
            got = [to_np(v) for v in (s, sq, sx)]
            types = [v.dtype for v in (s, sq, sx)]
        for v, r, w in zip(got, (ref, refq, ref), ('evaluated', 'functional', 'functional at the samples')):
            ctx.require(v.shape == r.shape, w + ' output has the wrong shape', shape=list(v.shape), expected=list(r.shape), **info)
            err = (np.abs(v - r).max(0) / (np.abs(r).max(0) + nat)).max()
            ctx.worst('relative error', err)
            ctx.require(err < 2e-5, w + ' output is not the sparse estimate', relative_error=err, **info)
            ctx.count('estimates compared', v.size)
        ctx.require(all(t == torch.float64 for t in types), 'output is not in double precision', types=[str(t) for t in types], **info)
        ctx.count('argument forms')
        ctx.count('functional outputs', 2)
        ctx.count('evaluated outputs')
    # the numpy estimator itself
    l = float(p['l'][0]) if p['scalar'] else np.array(p['l'])
    with ctx.repo('score_function_multid_seperate_all_dims'):
        n = SE.score_function_multid_seperate_all_dims(p['x'], p['z'], l=l, C=p['C'])
    err = (np.abs(n - got[0]).max(0) / (np.abs(ref).max(0) + nat)).max()
    ctx.require(err < 2e-5, 'the PyTorch and the numpy estimator differ', relative_error=err, N=p['N'], M=p['M'], dim=p['dim'])
    # the same tensor objects with other contents
    f = lambda a: torch.tensor(np.array(a), dtype=torch.float64)
    x, z, q, lb = f(p['x']), f(p['z']), f(p['q']), f(p['l'])
    la = float(p['l'][0]) if p['scalar'] else lb
    x2 = p['x'][::-1] * rng.uniform(0.8, 1.2) + 0.1 * p['l'] * rng.normal(size=p['x'].shape)
    z2 = x2.min(0) + (x2.max(0) - x2.min(0) + 0.1 * p['l']) * rng.random(p['z'].shape)
    q2 = p['q'][::-1] + 0.2 * p['l'] * rng.normal(size=p['q'].shape)
    l2 = p['l'] if p['scalar'] else p['l'] * rng.uniform(0.8, 1.2)
    for r in range(2):
        with ctx.repo('repeated estimates in the same tensors'):
            a = to_np(SE.torched_score_function_multid_seperate_all_dims(x, z, l=la, func_out=False, **kw))
            b = to_np(SE.torched_score_function_multid_seperate_all_dims(x, z, l=la, func_out=True, **kw)(q))
        if r == 0:
            for t, v in ((x, x2), (z, z2), (q, q2), (lb, l2)):
                t[...] = f(v)
    for v, w in ((a, sparse_score(x2, z2, l2, p['C'])), (b, sparse_score(x2, z2, l2, p['C'], q2))):
        err = (np.abs(v - w).max(0) / (np.abs(w).max(0) + nat)).max()
        ctx.worst('relative error', err)
        ctx.require(err < 2e-5, 'estimate from tensors whose contents were replaced is not the sparse estimate', relative_error=err, N=p['N'], M=p['M'], dim=p['dim'])
    ctx.count('estimates from rewritten tensors', 2)
