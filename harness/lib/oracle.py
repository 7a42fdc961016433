"""Reference computations, written from the documentation and independent of /repo."""
import numpy as np


def gauss_kernel(X, Y, l, var=1.0):
    X, Y = np.asarray(X, float), np.asarray(Y, float)
    l = np.broadcast_to(np.asarray(l, float), (X.shape[1],))
    d = (X[:, None, :] - Y[None, :, :]) / l
    return var * np.exp(-0.5 * np.sum(d * d, axis=2))


def sparse_score(X, Z, l, C=0.001, q=None):
    """score at the rows of q (default X), all dimensions: N x dim"""
    X, Z = np.asarray(X, float), np.asarray(Z, float)
    l = np.broadcast_to(np.asarray(l, float), (X.shape[1],))
    c = Z[0].copy()     # differences of near points are exact, so nothing is lost far from the origin
    X, Z, q = X - c, Z - c, None if q is None else np.asarray(q, float) - c
    Kxz = gauss_kernel(X, Z, l)
    Ks = gauss_kernel(Z, Z, l)
    # sum over the samples of d k(x, z)/d x
    b = -(Kxz.T @ X - Kxz.sum(0)[:, None] * Z) / l ** 2
    a = np.linalg.solve((C + 1e-3) * (Ks + 1e-3 * np.eye(len(Z))) + Kxz.T @ Kxz, b)
    Kq = Kxz if q is None else gauss_kernel(q, Z, l)
    return -Kq @ a


def boxes(*clouds, how='only'):
    """bounds per dimension of clouds (dim x N): of one, of the intersection or of the union"""
    lo = np.array([c.min(1) for c in clouds])
    hi = np.array([c.max(1) for c in clouds])
    if how == 'inter':
        return lo.max(0), hi.min(0)
    return lo.min(0), hi.max(0)


def score_draws(cloud, box, M, rng, R, q=None, ddof=0, C=0.001):
    """R reference scores (R x dim x K) of a cloud (dim x N), with fresh uniform inducing points each"""
    l = 2 * cloud.std(axis=1, ddof=ddof)
    lo, hi = box
    out = []
    for _ in range(R):
        S = lo + (hi - lo) * rng.random((M, len(lo)))
        out.append(sparse_score(cloud.T, S, l, C, None if q is None else q.T).T)
    return np.array(out)


def emd_cost_exact(w, b, M):
    """optimal transport cost with a certificate: potentials are checked for feasibility and zero gap"""
    import ot
    P, log = ot.emd(w, b, M, log=True, numItermax=10_000_000)
    u, v = log['u'], log['v']
    primal = float(np.sum(P * M))
    slack = float(np.min(M - u[:, None] - v[None, :]))
    dual = float(u @ w + v @ b)
    return primal, dual, slack, P


def weights_of(lnw):
    lnw = np.asarray(lnw, np.longdouble)
    w = np.exp(lnw - lnw.max())
    return np.asarray(w / w.sum(), float)
