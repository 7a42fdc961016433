"""Problems whose coordinates do not act on each other: the exact laws of the flows and the control, on a grid per coordinate."""
import numpy as np

from .problems import DT


class Line:
    """one coordinate on a grid: drift f(x, t), path cost U(x, t) or None, diffusion g, from y1 to y2 along the times t"""

    def __init__(self, f, U, g, y1, t, f_true=None, n=600):
        self.g, self.t, self.k, self.y1, self.f, self.f_true = g, t, len(t), y1, f, f_true
        self.lo, self.hi = self.range(n)
        self.x = np.linspace(self.lo, self.hi, n)
        self.w = [self.weight(U, s) for s in t]
        self.fw = self.forward(f, self.w)
        self.true = self.forward(f_true, None) if f_true else None

    def range(self, n):
        """where any of the laws could be: paths of both drifts with noise, and a margin"""
        rng = np.random.default_rng(0)
        ends = [self.y1]
        for f in (self.f, self.f_true):
            if f is not None:
                x = np.full(400, float(self.y1))
                for s in self.t[:-1]:
                    x = x + DT * f(x, s) + self.g * np.sqrt(DT) * rng.normal(size=x.size)
                    ends += [x.min(), x.max()]
        w = max(ends) - min(ends)
        return min(ends) - 0.35 * w, max(ends) + 0.35 * w

    def weight(self, U, s):
        if U is None:
            return np.ones(self.x.size)
        u = U(self.x, s) * DT
        return np.exp(u - u.max())

    def kernel(self, f, s):
        """density of a step, from columns to rows"""
        v = f(self.x, s)
        key = (f, v[::50].tobytes())
        if getattr(self, 'key', None) != key:
            P = np.exp(-(self.x[:, None] - (self.x + DT * v)[None, :]) ** 2 / (2 * self.g ** 2 * DT))
            self.key, self.P = key, P / (np.sqrt(2 * np.pi * DT) * self.g) * (self.x[1] - self.x[0])
        return self.P

    def bell(self, m):
        return np.exp(-(self.x - m) ** 2 / (2 * self.g ** 2 * DT))

    def forward(self, f, w):
        out = [None] * self.k
        for i in range(1, self.k):
            a = self.bell(self.y1 + DT * f(np.array([float(self.y1)]), self.t[0])[0]) if i == 1 else self.kernel(f, self.t[i - 1]) @ out[i - 1]
            a = a * w[i] if w is not None else a
            out[i] = a / a.sum()
        return out

    def constrain(self, y2):
        """law of the weighted chain that ends in y2, and the gradient of its log ratio to the forward (or true) law"""
        h = [None] * self.k
        h[-2] = self.bell_to(y2)
        for i in range(self.k - 3, 0, -1):
            b = self.kernel(self.f, self.t[i]).T @ (h[i + 1] * self.w[i + 1])
            h[i] = b / b.max()
        self.post = [None] + [a * b / (a * b).sum() for a, b in zip(self.fw[1:-1], h[1:-1])] + [None]
        self.h = h

    def bell_to(self, y2):
        m = self.x + DT * self.f(self.x, self.t[-2])
        return np.exp(-(y2 - m) ** 2 / (2 * self.g ** 2 * DT))

    def control(self, i, at):
        tiny = 1e-290
        lr = np.log(self.h[i] + tiny) if self.true is None else np.log(self.post[i] + tiny) - np.log(self.true[i] + tiny)
        return np.interp(at, self.x, np.gradient(lr, self.x))

    def distance(self, sample, p):
        """mean distance between equal quantiles of a sample and a law, in standard deviations of the law"""
        q = (np.arange(sample.size) + 0.5) / sample.size
        m = (p * self.x).sum()
        sd = np.sqrt((p * (self.x - m) ** 2).sum())
        return np.abs(np.sort(sample) - np.interp(q, np.cumsum(p), self.x)).mean() / sd
