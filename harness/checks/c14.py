"""C14: histories of kernel and gradient calls on shared kernel objects against the closed form."""
import numpy as np

from lib.core import derive
from lib.points import cloud, layout
from lib.problems import to_np

RULE = ('random histories of 6-14 Kernel and gradient_X calls on 1-3 kernel objects (lengthscale number / 0-d / list / array / tensor, one or '
        'per dimension; variance 1e-3 to 1e3; device none / cpu), points as arrays of several layouts or tensors, 1-60 points, 1-6 '
        'dimensions, scales 1e-3 to 1e3, second set omitted / same / different / of other size, coinciding points, and arrays and tensors '
        'whose contents are overwritten between calls; '
        'non-trivial: at least two calls on one object')
NEED = ['kernel matrices', 'gradient arrays', 'one-set matrices', 'gradient after other points', 'per-dimension lengthscales', 'single lengthscales',
        'overwritten buffers', 'matrices kept to the end']
SOFT = {'quick': 200, 'thorough': 2400}


def cases(tier, seed):
    return [{'rep': i, 'seed': derive(seed, 'c14', i)} for i in range({'quick': 400, 'thorough': 12000}[tier])]


def closed(x, y, l, v):
    d = (x[:, None, :] - y[None, :, :]) / l
    k = v * np.exp(-0.5 * (d ** 2).sum(2))
    return k, d / l * k[:, :, None], (d ** 2).sum(2)


def run(case, ctx):
    import torch
    from DeterministicParticleFlowControl.kernels import RBF
    rng = np.random.default_rng(case['seed'])
    dim = int(rng.integers(1, 7))
    scale = 10.0 ** rng.uniform(-3, 3, dim) if rng.integers(2) else np.full(dim, 10.0 ** rng.uniform(-3, 3))
    off = scale * float([0, 0, 1, 20, 1e3][rng.integers(5)]) * rng.normal(size=dim)
    objs = []
    for _ in range(int(rng.integers(1, 4))):
        multil = bool(rng.integers(2))
        v = float([1.0, 10.0 ** rng.uniform(-3, 3)][rng.integers(2)])
        if multil:
            lv = scale * rng.uniform(0.3, 3, dim)
            form = ['list', 'array', 'tensor'][rng.integers(3)]
            arg = {'list': lambda: [float(a) for a in lv], 'array': lambda: np.array(lv), 'tensor': lambda: torch.tensor(lv, dtype=torch.float64)}[form]()
        else:
            one = float(scale.mean() * rng.uniform(0.3, 3))
            lv = np.full(dim, one)
            form = ['float', 'npfloat', 'tensor0', 'default'][rng.integers(4)]
            if form == 'default':
                lv = np.ones(dim)
            arg = {'float': lambda: one, 'npfloat': lambda: np.float64(one), 'tensor0': lambda: torch.tensor(one, dtype=torch.float64), 'default': lambda: 1.0}[form]()
        kw = {} if form == 'default' else {'length_scale': arg}
        if v != 1.0 or rng.integers(2):
            kw['signal_variance'] = v
        if rng.integers(2):
            kw['device'] = 'cpu'
        if multil or rng.integers(2):
            kw['multil'] = multil
        with ctx.repo('RBF(%s)' % {k: str(a) for k, a in kw.items()}):
            objs.append((RBF(**kw), lv, v, form))
        ctx.count('per-dimension lengthscales' if multil else 'single lengthscales')
    sets = []
    for _ in range(4):
        n = int([1, 2, 3, dim, 7, 20, 60][rng.integers(7)])
        sets.append(cloud(rng, n, dim) * scale + off)
    sets.append(sets[0].copy())
    # buffers that keep their identity while their contents change
    n = len(sets[0])
    bufs = [np.array(sets[0]), torch.tensor(sets[0], dtype=torch.float64), np.asfortranarray(sets[0]), np.full((2 * n, dim + 1), np.nan)[::2, 1:]]
    last, kept = {}, []
    for step in range(int(rng.integers(6, 15))):
        o = int(rng.integers(len(objs)))
        k, lv, v, form = objs[o]
        a = 0 if rng.integers(3) == 0 else int(rng.integers(len(sets)))
        b = [None, a, int(rng.integers(len(sets)))][rng.integers(3)]
        op = ['kernel', 'gradient'][rng.integers(2)]
        if rng.integers(2):
            sets[0][...] = cloud(rng, n, dim) * scale + off
        x, y = sets[a], sets[a if b is None else b]
        arg = lambda s: layout(rng, s, ['c', 'f', 'strided', 'ro'][rng.integers(4)]) if rng.integers(2) else torch.tensor(s, dtype=torch.float64)
        def arg2(s, i):
            if i or rng.integers(4) == 0:
                return arg(s)
            buf = bufs[rng.integers(len(bufs))]
            buf[...] = torch.from_numpy(np.ascontiguousarray(s)) if isinstance(buf, torch.Tensor) else s
            ctx.count('overwritten buffers')
            return buf
        ax = arg2(x, a)
        ay = None if b is None else ax if b == a and rng.integers(2) else arg2(y, b)
        info = dict(op=op, step=step, N=len(x), M=len(y), dim=dim, lengthscale=lv.tolist(), form=form, variance=v,
                    second='omitted' if b is None else type(ay).__name__)
        with ctx.repo('%s %s' % (op, info)):
            if op == 'kernel':
                raw = k.Kernel(ax) if b is None and rng.integers(2) else k.Kernel(ax, ay)
            else:
                raw = k.gradient_X(ax) if b is None and rng.integers(2) else k.gradient_X(ax, ay)
            got = to_np(raw).copy()
            kept.append((raw, got, dict(info, call=step)))
        K, G, d2 = closed(x, y, lv, v)
        if op == 'kernel':
            ctx.require(got.shape == K.shape, 'kernel matrix has the wrong shape', shape=list(got.shape), **info)
            err = np.abs(got - K).max() / v
            ctx.worst('kernel error', err)
            ctx.require(err < 1e-9, 'kernel matrix is not variance times exp(-d^2/2)', error=err, **info)
            ok = (K / v > 1e-200)
            if ok.any():
                with np.errstate(divide='ignore', invalid='ignore'):
                    lerr = (np.abs(np.log(got[ok] / v) + 0.5 * d2[ok]) / (1 + 0.5 * d2[ok])).max()
                ctx.worst('kernel exponent error', lerr)
                ctx.require(lerr < 1e-8, 'kernel matrix has the wrong exponent', error=lerr, **info)
            if b is None or b == a:
                ctx.require(np.abs(got - got.T).max() <= 1e-12 * v, 'kernel matrix is not symmetric', **info)
                ctx.require(np.abs(np.diag(got) - v).max() <= 1e-9 * v, 'kernel diagonal is not the variance', **info)
                ctx.require(np.linalg.eigvalsh((got + got.T) / 2).min() >= -1e-9 * v * len(x), 'kernel matrix is not positive semidefinite', **info)
                ctx.count('one-set matrices')
            ctx.count('kernel matrices')
        else:
            ctx.require(got.shape == G.shape, 'gradient array has the wrong shape', shape=list(got.shape), **info)
            err = (np.abs(got - G) * lv).max() / v
            ctx.worst('gradient error', err)
            ctx.require(err < 1e-9, 'gradient array is not the derivative of the kernel of these points', error=err, **info)
            big = np.abs(G) * lv / v > 1e-200
            if big.any():
                rel = (np.abs(got[big] / G[big] - 1) / (1 + 0.5 * np.repeat(d2[:, :, None], dim, 2)[big] + (np.abs(x).max() / np.abs(x[:, None] - y)[big]))).max()
                ctx.worst('gradient relative error', rel)
                ctx.require(rel < 1e-8, 'gradient entries are wrong', error=rel, **info)
            ctx.count('gradient arrays')
            if o in last and last[o] != (a, a if b is None else b):
                ctx.count('gradient after other points')
        last[o] = (a, a if b is None else b)
    for raw, got, info in kept:
        ctx.require(np.array_equal(to_np(raw), got), 'a matrix returned earlier was changed by a later call', **info)
        ctx.count('matrices kept to the end')
