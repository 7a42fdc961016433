"""Linear drifts and quadratic path costs: what theory says about the flows and the control, in closed form."""
import numpy as np

from .problems import DT


def affine(f, dim, ext, t):
    """A, b of the drift A x + b at time t"""
    kind = f['kind']
    if kind == 'zero':
        return np.zeros((dim, dim)), np.zeros(dim)
    if kind == 'const':
        return np.zeros((dim, dim)), np.array(f['c'], float)
    if kind == 'ou':
        a = np.array(f['a'], float)
        return -np.diag(a), a * np.array(f['b'], float)
    if kind == 'lin':
        return np.array(f['A'], float), np.zeros(dim)
    if kind == 'tosc':
        return -f['a'] * np.eye(dim), f['c'] * np.cos(f['w'] * t + np.arange(dim))
    if kind == 'bridge':
        s = ext['t2'] - t + f['soft']
        return -np.eye(dim) / s, np.array(ext['y2'], float) / s
    raise KeyError(kind)


def information(u, dim, t):
    """precision and information vector that a unit of time of the path cost u adds at time t"""
    P, h = np.zeros((dim, dim)), np.zeros(dim)
    if u is None:
        return P, h
    if u['kind'] == 'quad':
        P, h = 2 * u['a'] * np.eye(dim), 2 * u['a'] * np.array(u['c'], float)
    elif u['kind'] == 'tsin':
        c = u.get('mid', 0.0) + u['amp'] * np.sin(u['w'] * t)
        P[-1, -1], h[-1] = 2 * u['a'], 2 * u['a'] * c
    elif u['kind'] == 'lin':
        h[0] = u['a']
    else:
        raise KeyError(u['kind'])
    return P, h


def weigh(m, S, P, h):
    K = np.linalg.inv(S)
    V = np.linalg.inv(K + DT * P)
    return V @ (K @ m + DT * h), V


def forward(f, u, ext, dim, G, y1, t, det):
    """mean and covariance of the forward flow at all times; det: particles moved along the score, else with noise"""
    m, S, out = np.array(y1, float), np.zeros((dim, dim)), [(np.array(y1, float), np.zeros((dim, dim)))]
    for i in range(1, len(t)):
        A, b = affine(f, dim, ext, t[i - 1])
        F = np.eye(dim) + DT * A
        m = F @ m + DT * b
        if i == 1 or not det:
            S = F @ S @ F.T + DT * np.diag(G)
        else:
            F = F + 0.5 * DT * np.diag(G) @ np.linalg.inv(S)
            S = F @ S @ F.T
        m, S = weigh(m, S, *information(u, dim, t[i]))
        out.append((m, S))
    return out


def smooth(f, u, ext, dim, G, y1, y2, t):
    """mean and covariance of the optimally controlled process: the weighted chain, given that it ends at y2"""
    zero, Q = np.zeros((dim, dim)), DT * np.diag(G)
    k = len(t)
    filt, pred, Fs = [(np.array(y1, float), zero)], [None], []
    for i in range(1, k):
        A, b = affine(f, dim, ext, t[i - 1])
        F = np.eye(dim) + DT * A
        m, S = filt[-1]
        m, S = F @ m + DT * b, F @ S @ F.T + Q
        pred.append((m, S))
        Fs.append(F)
        filt.append(weigh(m, S, *information(u, dim, t[i])) if i < k - 1 else (m, S))
    out = [None] * k
    out[-1] = (np.array(y2, float), zero)
    for i in range(k - 2, -1, -1):
        m, S = filt[i]
        J = S @ Fs[i].T @ np.linalg.inv(pred[i + 1][1])
        out[i] = (m + J @ (out[i + 1][0] - pred[i + 1][0]), S + J @ (out[i + 1][1] - pred[i + 1][1]) @ J.T)
    return out


def control(q, r, x):
    """gradient of the log of the ratio of two Gaussians (mean, covariance) at the rows of x: dim x K"""
    return np.linalg.solve(r[1], x.T - r[0][:, None]) - np.linalg.solve(q[1], x.T - q[0][:, None])
