"""Step-by-step residuals of the stored flows against the flow equations, with reference scores."""
import numpy as np
from scipy import stats as st

from .oracle import boxes, score_draws
from .problems import DT, flows, to_np


def grid_of(ctx, prob, ctrl):
    t = to_np(ctrl.timegrid)
    ctx.require(t.ndim == 1 and np.all(np.isfinite(t)), 'time grid is not a finite vector')
    return t


def pre_clouds(prob, rec, t):
    """clouds handed to the path cost, by time index"""
    out = {}
    for _, tt, x, _ in rec.of('U'):
        i = int(np.argmin(np.abs(t - tt)))
        out[i] = x
    return out


def score_residual(ctx, implied, cloud, box, M, rng, R, q=None, ddof=0):
    """distance of an implied score (dim x K) from the reference, in units of the reference's own spread"""
    d = score_draws(cloud, box, M, rng, R, q, ddof)
    m = d.mean(0)
    spread = np.sqrt(np.sum((d - m) ** 2) / (R - 1))
    dev = np.sqrt(np.sum((implied - m) ** 2)) / np.sqrt(1 + 1 / R)
    size = np.sqrt(np.sum(m ** 2))
    return dev, spread, size, float(np.sum(implied * m)), float(np.sum(m * m)), m


class Pool:
    """collects per-step residuals of one flow"""

    def __init__(self):
        self.rows = []

    def add(self, i, dev, spread, size, dot, sq):
        self.rows.append((i, dev, spread, size, dot, sq))

    def arr(self):
        return np.array(self.rows)


def noise_tests(ctx, eta, what, p=1e-10):
    """eta: dim x n (or dim x n x steps) supposed independent standard normal"""
    eta = np.asarray(eta, float)
    flat = eta.reshape(-1)
    n = flat.size
    ctx.require(np.all(np.isfinite(flat)), what + ': noise not finite')
    c2 = float(np.sum(flat ** 2))
    pv = 2 * min(st.chi2.cdf(c2, n), st.chi2.sf(c2, n))
    ctx.require(pv > p, what + ': variance of the noise is not squared diffusion times step', ratio=c2 / n, n=n, p=pv)
    z = flat.sum() / np.sqrt(n)
    ctx.require(2 * st.norm.sf(abs(z)) > p, what + ': mean of the noise is not zero', z=z, n=n)
    if n >= 20:
        pk = st.kstest(flat, 'norm').pvalue
        ctx.require(pk > p, what + ': noise is not Gaussian', p=pk, n=n)
    ctx.require(np.unique(flat).size == n, what + ': noise values repeat', n=n, distinct=int(np.unique(flat).size))
    for d in range(eta.shape[0]):
        e = eta[d].reshape(-1)
        c2 = float(np.sum(e ** 2))
        pv = 2 * min(st.chi2.cdf(c2, e.size), st.chi2.sf(c2, e.size))
        ctx.require(pv > p, what + ': noise variance of dimension %d' % d, ratio=c2 / e.size, n=e.size, p=pv)
        for d2 in range(d):
            pair(ctx, e, eta[d2].reshape(-1), what + ': noise of dimensions %d and %d' % (d, d2), p)
    ctx.count('noise values', n)


def pair(ctx, a, b, what, p=1e-10):
    """independence of two noise vectors: correlation of values and of squares"""
    n = a.size
    if n < 30:
        return
    for u, v, name in ((a, b, 'values'), (a * a - 1, b * b - 1, 'squares')):
        s = np.sqrt(np.sum(u * u) * np.sum(v * v))
        r = float(np.sum(u * v) / s) if s > 0 else 0.0
        # squares are heavy tailed: a generous threshold for them
        z = abs(r) * np.sqrt(n) / (1.0 if name == 'values' else 3.0)
        ctx.require(2 * st.norm.sf(z) > p, what + ' are correlated (%s)' % name, r=r, n=n)
