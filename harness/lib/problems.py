"""Control problems: JSON specifications, their drifts and path costs for both backends, recorded builds."""
import numpy as np

from .core import Inconclusive

DT = 0.001


def is_tensor(x):
    return type(x).__module__.split('.')[0] == 'torch'


class Lib:
    """the few array operations that drifts need, for numpy arrays and tensors alike"""

    @staticmethod
    def of(x):
        return TorchLib if is_tensor(x) else NumpyLib


class NumpyLib:
    sin, cos, exp, stack, zeros_like = np.sin, np.cos, np.exp, np.stack, np.zeros_like

    @staticmethod
    def arr(v, like):
        return np.asarray(v, dtype=float)

    @staticmethod
    def sum0(x):
        return np.sum(x, axis=0)


class TorchLib:
    @staticmethod
    def sin(x):
        return x.sin()

    cos = staticmethod(lambda x: x.cos())
    exp = staticmethod(lambda x: x.exp())
    zeros_like = staticmethod(lambda x: x * 0)

    @staticmethod
    def stack(xs):
        import torch
        return torch.stack(list(xs))

    @staticmethod
    def arr(v, like):
        import torch
        return torch.tensor(np.asarray(v, dtype=float), dtype=torch.float64, device=like.device)

    @staticmethod
    def sum0(x):
        return x.sum(0)


def drift(spec, dim, extra):
    """drift x(dim x N), t -> dim x N"""
    kind, p = spec['kind'], spec

    def f(x, t):
        L = Lib.of(x)
        t = float(t)
        if kind == 'zero':
            return x * 0.0
        if kind == 'const':
            return x * 0.0 + L.arr(np.reshape(p['c'], (-1, 1)), x)
        if kind == 'ou':
            return L.arr(np.reshape(p['a'], (-1, 1)), x) * (L.arr(np.reshape(p['b'], (-1, 1)), x) - x)
        if kind == 'lin':
            return L.arr(p['A'], x) @ x
        if kind == 'tosc':
            ph = np.arange(dim).reshape(-1, 1)
            return L.arr(p['c'] * np.cos(p['w'] * t + ph), x) - p['a'] * x
        if kind == 'lc':
            r2 = x[0] ** 2 + x[1] ** 2
            rest = [-x[d] for d in range(2, dim)]
            return L.stack([-x[1] + x[0] * (1 - r2), x[0] + x[1] * (1 - r2)] + rest)
        if kind == 'dw':
            return 4 * x - 4 * x ** 3 if not p.get('first') else L.stack([4 * x[0] - 4 * x[0] ** 3] + [-x[d] for d in range(1, dim)])
        if kind == 'wave':
            return p['a'] * L.sin(p['b'] * x + p['w'] * t)
        if kind == 'kur':
            om = np.reshape(p['om'], (-1, 1))
            s, c = L.sum0(L.sin(x)), L.sum0(L.cos(x))
            return L.arr(om, x) + p['k'] / dim * (L.cos(x) * s - L.sin(x) * c)
        if kind == 'bridge':
            return (L.arr(np.reshape(extra['y2'], (-1, 1)), x) - x) / (extra['t2'] - t + p['soft'])
        if kind == 'sum':
            out = 0
            for q in p['parts']:
                out = out + drift(q, dim, extra)(x, t)
            return out
        raise KeyError(kind)
    return f


def path_cost(spec, dim, extra):
    """path cost x(dim x N), t -> N"""
    if spec is None:
        return None
    kind, p = spec['kind'], spec

    def U(x, t):
        L = Lib.of(x)
        t = float(t)
        if kind == 'const':
            u = x[0] * 0.0 + p['c']
        elif kind == 'lin':
            u = p['a'] * x[0]
        elif kind == 'quad':
            u = -p['a'] * L.sum0((x - L.arr(np.reshape(p['c'], (-1, 1)), x)) ** 2)
        elif kind == 'tsin':
            u = -p['a'] * (x[dim - 1] - p.get('mid', 0.0) - p['amp'] * np.sin(p['w'] * t)) ** 2
        elif kind == 'wall':
            u = -p['a'] * L.exp(-L.sum0((x - L.arr(np.reshape(p['c'], (-1, 1)), x)) ** 2) / (2 * p['s'] ** 2))
        elif kind == 'kill':          # a steep wall beyond c
            z = (x[0] - p['c']) * (p['side'] / p['s'])
            u = -p['a'] / (1 + L.exp(-z))
        elif kind == 'strip':         # a corridor of half width h, moving
            z = x[0] - p['c'] - p['amp'] * np.sin(p['w'] * t)
            u = -p['a'] * (abs(z) > p['h'])
        else:
            raise KeyError(kind)
        u = u + p.get('offset', 0.0)
        return u.reshape(1, -1) if p.get('row') else u
    return U


class Recorder:
    """call events of the user callbacks: (name, time, copy of the positions, result)"""

    def __init__(self, keep=True):
        self.events, self.keep = [], keep

    def wrap(self, name, fn):
        if fn is None:
            return None

        def g(x, t):
            out = fn(x, t)
            self.events.append((name, float(t), to_np(x) if self.keep else None,
                                np.ravel(to_np(out)) if name == 'U' else None))
            return out
        return g

    def of(self, name):
        return [e for e in self.events if e[0] == name]


def to_np(x):
    if is_tensor(x):
        return x.detach().cpu().numpy().copy()
    return np.array(x, dtype=float)


class Problem:
    """spec keys: backend dim N M t1 T g{form,val} y1 y2 f f_true U mode(plain|rw|bridge) det seed forms"""

    def __init__(self, spec):
        self.spec = s = spec
        self.dim, self.N, self.M = s['dim'], s['N'], s['M']
        self.t1, self.t2 = s['t1'], s['t1'] + s['T']
        self.y1, self.y2 = np.array(s['y1'], float), np.array(s['y2'], float)
        ext = {'y2': s['y2'], 't2': self.t2}
        self.f = drift(s['f'], self.dim, ext)
        self.f_true = drift(s['f_true'], self.dim, ext) if s.get('f_true') else None
        self.U = path_cost(s.get('U'), self.dim, ext)
        self.mode, self.det, self.backend = s['mode'], s['det'], s['backend']
        self.gcol = np.broadcast_to(np.reshape(np.array(s['g']['val'], float), (-1, 1)), (self.dim, 1))
        self.k = int(np.floor((self.t2 + DT / 2 - self.t1) / DT - 1e-9)) + 1   # nominal number of times

    def g_arg(self):
        form, val = self.spec['g']['form'], self.spec['g']['val']
        return {'scalar': lambda: float(val[0]), 'int': lambda: int(val[0]), 'list': lambda: [float(v) for v in val],
                'array': lambda: np.array(val, float), 'column': lambda: np.array(val, float).reshape(-1, 1),
                'zerod': lambda: np.array(float(val[0]))}[form]()

    def y_arg(self, y):
        form = self.spec.get('yform', 'array')
        if form == 'tensor':
            import torch
            return torch.tensor(y, dtype=torch.float64)
        if form == 'list':
            return [float(v) for v in y]
        if form == 'int':
            return np.array(y).astype(int)
        if form == 'intlist':
            return [int(v) for v in y]
        return np.array(y, float)

    def seed_all(self, seed=None):
        seed = self.spec['seed'] if seed is None else seed
        np.random.seed(seed)
        if self.backend == 'torch':
            import torch
            torch.manual_seed(seed)

    def build(self, recorder=None, seed=None, **over):
        import DeterministicParticleFlowControl as D
        w = recorder.wrap if recorder else (lambda n, f: f)
        kw = dict(t1=self.t1, t2=self.t2, y1=self.y_arg(self.y1), y2=self.y_arg(self.y2), f=w('f', self.f),
                  g=self.g_arg(), N=self.N, M=self.M, deterministic=self.det)
        if self.mode != 'plain':
            kw.update(reweight=True, U=w('U', self.U))
        if self.mode == 'bridge':
            kw.update(brown_bridge=True, f_true=w('f_true', self.f_true))
        if self.backend == 'torch':
            kw['device'] = 'cpu'
        kw.update(over)
        self.seed_all(seed)
        cls = D.torched_DPFC if self.backend == 'torch' else D.DPFC
        return cls(**kw)

    def times(self, ctrl):
        return to_np(ctrl.timegrid)


def flows(ctrl):
    """numpy copies of the stored flows"""
    out = {'Z': to_np(ctrl.Z), 'B': to_np(ctrl.B)}
    if hasattr(ctrl, 'Ztr'):
        out['Ztr'] = to_np(ctrl.Ztr)
    return out


def query(ctrl, backend, x, ti):
    """controls at the rows of x, as an array"""
    if backend == 'torch':
        import torch
        return to_np(ctrl.calculate_u(torch.tensor(np.array(x, float), dtype=torch.float64), ti))
    return to_np(ctrl.calculate_u(np.array(x, float), ti))


# ----------------------------------------------------------------------------- generation

def random_drift(rng, dim, kinds=('zero', 'ou', 'lin', 'tosc', 'lc', 'dw', 'kur', 'const'), speed=1.0):
    kinds = [k for k in kinds if dim >= 2 or k not in ('lc', 'kur')]
    kind = kinds[rng.integers(len(kinds))]
    d = {'kind': kind}
    if kind == 'const':
        d['c'] = (speed * rng.normal(0, 1, dim)).round(3).tolist()
    if kind == 'ou':
        d.update(a=rng.uniform(0.3, 3, dim).round(3).tolist(), b=rng.normal(0, 0.5, dim).round(3).tolist())
    if kind == 'lin':
        A = rng.normal(0, 0.8, (dim, dim)) - 1.0 * np.eye(dim)
        d['A'] = A.round(3).tolist()
    if kind == 'tosc':
        d.update(a=round(float(rng.uniform(0, 1.5)), 3), c=round(float(rng.uniform(1, 3)), 3), w=round(float(rng.uniform(5, 60)), 3))
    if kind == 'dw':
        d['first'] = bool(rng.integers(2))
    if kind == 'kur':
        d.update(om=rng.normal(0, 1, dim).round(3).tolist(), k=round(float(rng.uniform(0.3, 2)), 3))
    return d


def reach(f, y1, t1, T, n=200):
    """end of the noise-free path (fourth order)"""
    x, h = np.array(y1, float).reshape(-1, 1), T / n
    for i in range(n):
        t = t1 + i * h
        a = f(x, t)
        b = f(x + h / 2 * a, t + h / 2)
        c = f(x + h / 2 * b, t + h / 2)
        d = f(x + h * c, t + h)
        x = x + h / 6 * (a + 2 * b + 2 * c + d)
    return x[:, 0]


def spread_end(f, y1, t1, T, g, rng, n=200, N=400):
    """mean and spread of the uncontrolled end positions (Euler, coarse): where targets are reachable"""
    x = np.repeat(np.array(y1, float).reshape(-1, 1), N, 1)
    h = T / n
    for i in range(n):
        x = x + h * f(x, t1 + i * h) + g * np.sqrt(h) * rng.normal(size=x.shape)
    return x.mean(1), x.std(1)


def random_spec(rng, backend='np', dim=None, N=None, M=None, steps=None, mode='plain', det=True, kinds=None, gforms=None,
                z=1.0, t1=None, ukinds=('quad', 'tsin', 'wall', 'lin'), strength=1.0, yform=None, glo=0.3, ghi=1.5, speed=1.0):
    dim = dim or int(rng.integers(1, 4))
    N = N or int(rng.integers(40, 120))
    M = M or int(rng.integers(20, 50))
    steps = steps or int(rng.integers(15, 80))
    if t1 is None:
        t1 = [0.0, 0.0, 1.0, -2.5, 0.37, 10.0, 0.00037, -1.23456, 100.00025][rng.integers(9)]
    T = steps * DT + (0 if rng.integers(2) else float(rng.uniform(-0.4, 0.4)) * DT)
    whole = str(yform).startswith('int')        # whole-numbered states: a problem on a larger scale
    if whole:
        glo, ghi, kinds = 1.5 / np.sqrt(T), 3 / np.sqrt(T), ('zero', 'ou', 'lin', 'tosc', 'const')
    gforms = gforms or (('scalar', 'list', 'array', 'column', 'zerod'))
    form = gforms[rng.integers(len(gforms))]
    if form in ('scalar', 'zerod', 'int'):
        val = [round(float(rng.uniform(glo, ghi)), 3)] if form != 'int' else [1]
    else:
        val = rng.uniform(glo, ghi, dim).round(3).tolist()
    y1 = rng.normal(0, 0.7, dim).round(3) if not whole else np.round(rng.normal(0, 2, dim))
    fs = random_drift(rng, dim, kinds, speed) if kinds else random_drift(rng, dim)
    f = drift(fs, dim, {})
    gcol = np.reshape(val, (-1, 1)) * np.ones((dim, 1))
    mean, sd = spread_end(f, y1, t1, T, gcol, np.random.default_rng(int(rng.integers(1 << 30))))
    v = rng.normal(size=dim)
    v = v / np.linalg.norm(v) * rng.uniform(0, z)
    y2 = mean + v * sd if not whole else np.round(mean + v * sd)
    spec = dict(backend=backend, dim=dim, N=N, M=M, t1=float(t1), T=float(T), g={'form': form, 'val': val}, y1=y1.tolist(),
                y2=y2.tolist(), f=fs, mode=mode, det=bool(det), seed=int(rng.integers(1 << 30)),
                yform=yform or ['array', 'array'][rng.integers(2)])   # other forms: C02, C16, C18
    if mode == 'bridge':
        spec['f_true'] = fs
        spec['f'] = {'kind': 'bridge', 'soft': 0.02}
    if mode != 'plain':
        spec['U'] = random_cost(rng, dim, mean, sd, ukinds, strength)
    return spec


def random_cost(rng, dim, mean, sd, ukinds, strength=1.0):
    kind = ukinds[rng.integers(len(ukinds))]
    u = {'kind': kind}
    s2 = float(np.mean(sd) ** 2)
    if kind == 'const':
        u['c'] = round(float(rng.normal(0, 10)), 3)
    if kind == 'lin':
        u['a'] = strength * round(float(rng.normal(0, 40) / np.sqrt(s2)), 3)
    if kind == 'quad':
        u.update(a=strength * round(float(rng.uniform(5, 60) / s2), 3), c=(mean + 0.7 * sd * rng.normal(size=dim)).round(3).tolist())
    if kind == 'tsin':
        u.update(a=strength * round(float(rng.uniform(5, 60) / s2), 3), amp=round(float(np.mean(sd)), 3), mid=round(float(mean[-1]), 4), w=round(float(rng.uniform(5, 60)), 2))
    if kind == 'wall':
        u.update(a=strength * round(float(rng.uniform(50, 300)), 3), c=(mean + 0.5 * sd * rng.normal(size=dim)).round(3).tolist(),
                 s=round(float(0.7 * np.mean(sd)), 4))
    if rng.integers(3) == 0:
        u['row'] = True
    return u
