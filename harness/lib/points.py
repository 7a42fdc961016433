"""Point sets and lengthscales for the estimators and kernels."""
import numpy as np


def cloud(rng, n, dim):
    kind = ['gauss', 'mix', 'skew', 'uniform', 'curve'][rng.integers(5)]
    if kind == 'gauss':
        x = rng.normal(size=(n, dim)) @ (np.eye(dim) + 0.4 * rng.normal(size=(dim, dim)))
    elif kind == 'mix':
        x = 0.5 * rng.normal(size=(n, dim)) + 2 * rng.choice([-1, 1], size=(n, 1))
    elif kind == 'skew':
        x = rng.gamma(2.0, size=(n, dim))
    elif kind == 'uniform':
        x = rng.uniform(-1, 1, size=(n, dim))
    else:
        a = rng.uniform(0, 2 * np.pi, n)
        x = np.stack([np.cos(a + d) for d in range(dim)], 1) + 0.1 * rng.normal(size=(n, dim))
    return x


def layout(rng, x, which=None):
    """the same values in another memory layout"""
    which = which or ['c', 'f', 'strided', 'rev', 'ro'][rng.integers(5)]
    n, d = x.shape
    if which == 'f':
        return np.asfortranarray(x)
    if which == 'strided':
        big = np.full((2 * n + 1, d + 2), np.nan if x.dtype.kind == 'f' else 77, dtype=x.dtype)
        big[1::2, 1:d + 1] = x
        return big[1::2, 1:d + 1]
    if which == 'rev':
        return np.ascontiguousarray(x[::-1])[::-1]
    x = np.array(x)
    if which == 'ro':
        x.setflags(write=False)
    return x


def estimator_problem(rng, small=False, dim=None):
    dim = dim or (int(rng.integers(1, 7)) if rng.integers(12) else int(rng.integers(7, 13)))
    N = int([1, 2, 3, 10, 40, 120, 250][rng.integers(7 if not small else 6)])
    M = int([1, 2, 5, 20, 60, 120][rng.integers(6 if not small else 5)])
    scale = 10.0 ** rng.uniform(-3, 3, dim) if rng.integers(2) else np.full(dim, 10.0 ** rng.uniform(-3, 3))
    off = scale * float([0, 0, 1, 30, 1e3, 1e4][rng.integers(6)]) * rng.normal(size=dim)
    x = cloud(rng, N, dim)
    lo, hi = x.min(0) - 0.1, x.max(0) + 0.1
    z = rng.uniform(lo, hi, size=(M, dim)) if rng.integers(3) else x[rng.integers(N, size=M)] + 0.01 * rng.normal(size=(M, dim))
    K = int([1, 2, 17, 60, dim, N, M, 400, 1500][rng.integers(9)])
    q = rng.uniform(lo - 1, hi + 1, size=(min(K, 60 if N * M > 5000 and K > 400 else K), dim))
    how = int(rng.integers(8))
    if how == 0:
        z, M = x.copy(), N                     # every sample is an inducing point
    elif how == 1:
        M = N                                  # as many inducing points as samples
        z = rng.uniform(lo, hi, size=(M, dim))
    elif how == 2 and M > 2:
        z[M // 2:] = z[:M - M // 2]            # repeated inducing points
    C = float([0.001, 0.001, 1e-4, 0.05, 1.0][rng.integers(5)])
    one = bool(np.all(scale == scale[0])) and rng.integers(2)
    mult = float(rng.choice([0.5, 1.0, 2.0, 3.0]))
    sd = x.std(0) + 0.2
    lv = mult * (np.full(dim, sd.mean()) if one else sd) * scale
    if rng.integers(8) == 0:                    # whole numbers
        scale, off = np.full(dim, 8.0), np.round(off / scale * 8)
        lv = np.maximum(1.0, np.round(mult * (np.full(dim, sd.mean()) if one else sd) * 8))
        r = lambda a: (np.round(a * scale) + off).astype(int)
        return dict(x=r(x), z=r(z), q=r(q), l=lv, C=C, scalar=bool(one), dim=dim, N=N, M=M, whole=True)
    return dict(x=x * scale + off, z=z * scale + off, q=q * scale + off, l=lv, C=C, scalar=bool(one), dim=dim, N=N, M=M, whole=False)


def length_form(rng, p, forms):
    """one lengthscale in one of several argument forms"""
    form = forms[rng.integers(len(forms))]
    l = p['l']
    if p['whole'] and form in ('float', 'npfloat', 'list', 'tuple', 'array'):
        l = l.astype(int)
        return {'float': int(l[0]), 'npfloat': np.int64(l[0]), 'list': [int(v) for v in l], 'tuple': tuple(int(v) for v in l), 'array': np.array(l)}[form], form
    if form == 'float':
        return float(l[0]), form
    if form == 'npfloat':
        return np.float64(l[0]), form
    if form == 'list':
        return [float(v) for v in l], form
    if form == 'tuple':
        return tuple(float(v) for v in l), form
    if form == 'array':
        return np.array(l), form
    import torch
    if form == 'tensor0':
        return torch.tensor(float(l[0]), dtype=torch.float64), form
    if form == 'tensor1':
        return torch.tensor([float(l[0])], dtype=torch.float64), form
    return torch.tensor(l, dtype=torch.float64), form
