"""C31: floating point traps and a finiteness monitor over runs of extreme but admissible problems."""
import contextlib
import warnings

import numpy as np

from lib.core import derive
from lib.points import estimator_problem
from lib.problems import Lib, Problem, flows, is_tensor, query, random_spec, to_np

RULE = ('random problems, each made extreme in one way (2-6 particles, one inducing point, more inducing points than particles, six dimensions, 2-4 steps, '
        'tiny or huge scales of the state, states up to 1e8 spreads from the origin, costs with huge offsets, forbidden regions (minus infinity or steep), '
        'queries very far away), run with numpy trapping division by zero, overflow and invalid operations, numerical warnings turned into errors, and a monitor '
        'of every PyTorch operation for values that are not finite; the same for estimators, kernels and transport maps; non-trivial: at least one run observed')
NEED = ['runs observed', 'queries observed', 'tensor operations observed', 'forbidden regions', 'particles in forbidden regions', 'few particles', 'few inducing points', 'short intervals',
        'estimators observed', 'transport maps observed']
SOFT = {'quick': 200, 'thorough': 2400}
HOW = ('particles', 'inducing', 'more inducing', 'six', 'short', 'tiny', 'huge', 'far', 'offset', 'forbidden', 'steep', 'queries')


def cases(tier, seed):
    out, i = [], 0
    for rep in range({'quick': 2, 'thorough': 200}[tier]):
        for b in ('np', 'torch'):
            for how in HOW:
                for m in ('plain', 'rw', 'bridge') if how not in ('offset', 'forbidden', 'steep') else ('rw', 'bridge'):
                    out.append({'kind': 'run', 'how': how, 'backend': b, 'mode': m, 'det': bool((rep + i + len(m)) % 2), 'rep': rep, 'seed': derive(seed, 'c31', i)})
                    i += 1
        for r in range(4):
            out.append({'kind': 'parts', 'rep': rep, 'seed': derive(seed, 'c31p', i)})
            i += 1
    return out


class Left(Exception):
    pass


@contextlib.contextmanager
def traps(ctx, bad, finite=True):
    """numpy traps, numerical warnings as errors, every tensor looked at"""
    stack = contextlib.ExitStack()
    with stack:
        stack.enter_context(np.errstate(divide='raise', over='raise', invalid='raise'))
        stack.enter_context(warnings.catch_warnings())
        warnings.simplefilter('ignore')
        for cat in (RuntimeWarning, np.exceptions.ComplexWarning):
            warnings.simplefilter('error', cat)
        try:
            from scipy.linalg import LinAlgWarning
            warnings.simplefilter('error', LinAlgWarning)
        except ImportError:
            pass
        try:
            import torch
            from torch.utils._python_dispatch import TorchDispatchMode
            from torch.utils._pytree import tree_leaves

            class Mode(TorchDispatchMode):
                def __torch_dispatch__(self, func, types, args=(), kwargs=None):
                    out = func(*args, **(kwargs or {}))
                    if 'empty' not in str(func):
                        for o in tree_leaves(out):
                            if isinstance(o, torch.Tensor) and o.is_floating_point():
                                ctx.count('tensor operations observed')
                                if finite and o.numel() and not bool(np.isfinite(o.detach().numpy()).all()):
                                    bad.append(str(func))
                    return out
            stack.enter_context(Mode())
        except ImportError:
            pass
        yield


def run_case(case, ctx):
    rng = np.random.default_rng(case['seed'])
    how = case['how']
    sp = dict(dim=int(rng.integers(1, 4)), N=int(rng.integers(20, 40)), M=int(rng.integers(8, 20)), steps=int(rng.integers(14, 24)), mode=case['mode'], det=case['det'],
              strength=0.2)
    if how == 'particles':
        sp['N'] = int(rng.integers(2, 7))
    if how == 'inducing':
        sp['M'] = int(rng.integers(1, 3))
    if how in ('particles', 'inducing', 'more inducing'):
        # undone by few particles, a force that grows like a cube may carry the last of them away
        sp['kinds'] = ('zero', 'ou', 'lin', 'tosc', 'const', 'kur')
    if how == 'more inducing':
        sp.update(N=int(rng.integers(5, 12)), M=int(rng.integers(20, 60)))
    if how == 'six':
        sp.update(dim=int(rng.integers(4, 7)), N=40)
    if how == 'short':
        sp['steps'] = int(rng.integers(2, 5))
    s = random_spec(rng, case['backend'], **sp)
    p = Problem(s)
    over = {}
    scale = {'tiny': 1e-9, 'huge': 1e7}.get(how)
    if scale:
        f0, U0, ft0 = p.f, p.U, p.f_true
        p.y1, p.y2 = p.y1 * scale, p.y2 * scale
        p.f = lambda x, t: f0(x / scale, t) * scale
        if U0:
            p.U = lambda x, t: U0(x / scale, t)
        if ft0:
            p.f_true = lambda x, t: ft0(x / scale, t) * scale
        over['g'] = [float(v) * scale for v in np.ravel(p.gcol)]
    spread = float(np.min(p.gcol)) * np.sqrt(s['T'])
    if how == 'far':
        a = (rng.choice([-1.0, 1.0], (p.dim, 1)) * 10.0 ** rng.uniform(5, 8) * spread)
        f0, U0, ft0 = p.f, p.U, p.f_true
        p.y1, p.y2 = p.y1 + a[:, 0], p.y2 + a[:, 0]
        sh = lambda fn: (lambda x, t: fn(x - Lib.of(x).arr(a, x), t))
        p.f, p.U, p.f_true = sh(f0), U0 and sh(U0), ft0 and sh(ft0)
    if how == 'offset':
        U0, c = p.U, float(rng.choice([-1e8, 1e8, 1e6, 1e12, -1e15]))
        p.U = lambda x, t: U0(x, t) + c
    if how in ('forbidden', 'steep'):
        # a corridor around the free path, several spreads wide
        f, y1, y2 = p.f, p.y1, p.y2
        t1, T = p.t1, s['T']
        g0 = float(np.ravel(p.gcol)[0])
        ends = p.y2[0] - p.y1[0]
        h = rng.uniform(0.3, 2.0) * g0 * np.sqrt(T) + abs(ends)
        low = float('-inf') if how == 'forbidden' else -1e4 / T * 0.01

        outside = [0]

        def U(x, t):
            out = abs(x[0] - float(p.y1[0])) > h
            outside[0] += int(out.sum())
            if len(out) > 1 and int(out.sum()) > len(out) - 4:
                raise Left()
            if is_tensor(x):
                import torch
                return torch.where(out, torch.full_like(x[0], low), torch.zeros_like(x[0]))
            return np.where(out, low, 0.0)
        if case['mode'] == 'rw' and s['f']['kind'] in ('ou', 'lin', 'tosc', 'zero', 'const', 'dw', 'lc', 'kur'):
            # with little drift the corridor keeps most of the cloud
            f0 = p.f
            p.f = lambda x, t: 0.2 * f0(x, t)
        p.U = U
        ctx.count('forbidden regions')
    bad = []
    info = dict(how=how, backend=p.backend, mode=p.mode, det=p.det, dim=p.dim, N=p.N, M=p.M)
    with traps(ctx, bad, finite=how != 'forbidden'), ctx.repo('building (%s)' % how):
        try:
            c = p.build(**over)
        except Left:
            c = None
    if c is None:
        # (almost) all particles are in the forbidden region: not admissible
        ctx.count('clouds that left the corridor')
        return
    ctx.require(not bad, 'values that are not finite inside a run', operations=sorted(set(bad))[:5], times=len(bad), **info)
    fl = flows(c)
    for n, F in fl.items():
        ctx.require(np.isfinite(F).all(), 'a flow is not finite', flow=n, **info)
    ctx.count('runs observed')
    if how in ('forbidden', 'steep'):
        ctx.count('particles in forbidden regions', outside[0])
    ctx.count('few particles', how == 'particles')
    ctx.count('few inducing points', how == 'inducing')
    ctx.count('short intervals', how == 'short')
    k = fl['Z'].shape[2]
    for ti in sorted({1, 2, 5, 6, k // 2, k - 6, k - 5, k - 2} & set(range(1, k - 1))):
        x = fl['B'][:, :4, ti].T.copy()
        if how == 'queries':
            x = x + rng.choice([-1, 1], x.shape) * spread * np.array([[1.0], [1e2], [1e5], [1e9]])[:len(x)]
        with traps(ctx, bad), ctx.repo('querying (%s)' % how):
            u = query(c, p.backend, x, ti)
            c.check_if_covered(x[0], ti)
        ctx.require(not bad, 'values that are not finite inside a query', operations=sorted(set(bad))[:5], time_index=ti, steps=k, **info)
        ctx.require(np.isfinite(u).all(), 'controls are not finite', time_index=ti, steps=k, **info)
        ctx.count('queries observed')


def parts(case, ctx):
    from DeterministicParticleFlowControl import score_estimators as SE
    from DeterministicParticleFlowControl.reweighting.optimal_transport_reweighting import reweight_optimal_transport_multidim as OT
    from DeterministicParticleFlowControl.kernels.RBF_pytorch import RBF
    rng = np.random.default_rng(case['seed'])
    bad = []
    for r in range(8):
        e = estimator_problem(rng)
        X, S, l, C, dim = e['x'].astype(float), e['z'].astype(float), np.asarray(e['l'], float), e['C'], e['dim']
        l = float(l[0]) if e['scalar'] else l
        if r % 4 == 1 and len(X) > 3:
            X = X.copy()
            X[len(X) // 2:2 * (len(X) // 2)] = X[:len(X) // 2]           # repeated samples
        if r % 4 == 2:
            S = np.concatenate((S, S[:1], X[:1]))           # coinciding inducing points
        info = dict(samples=X.shape, inducing=S.shape, l=l, C=C)
        with traps(ctx, bad), ctx.repo('estimating'):
            outs = [SE.score_function_multid_seperate(X, S, False, C=C, l=l, which=1, which_dim=1 + r % dim), SE.score_function_multid_seperate(X, S, True, C=C, l=l, which=1, which_dim=1 + r % dim)(S),
                    SE.score_function_multid_seperate_all_dims(X, S, False, C=C, l=l), SE.torched_score_function_multid_seperate_all_dims(X, S, func_out=False, C=C, l=l, device='cpu'),
                    SE.torched_score_function_multid_seperate_all_dims(X, S, func_out=True, C=C, l=l, device='cpu')(S)]
            multil = np.ndim(l) > 0
            k = RBF(l if not multil else np.asarray(l, float), 1.3, device='cpu', multil=multil)
            outs += [k.Kernel(X, S), k.gradient_X(X, S), k.Kernel(X), k.gradient_X(X)]
        ctx.require(not bad, 'values that are not finite inside an estimate', operations=sorted(set(bad))[:5], **info)
        for o in outs:
            ctx.require(np.isfinite(to_np(o)).all(), 'an estimate is not finite', **info)
        ctx.count('estimators observed', len(outs))
        n = int(rng.integers(1, 40))
        Y = rng.normal(size=(n, int(rng.integers(1, 4)))) * 10.0 ** rng.uniform(-9, 9)
        if r % 3 == 0:
            Y[:n // 2] = Y[0]
        w = rng.random(n) ** rng.choice([0.1, 1, 8, 60])
        w[rng.random(n) < 0.3] = 0.0
        w[rng.integers(n)] += 0.5
        w = w / w.sum()
        with traps(ctx, bad), ctx.repo('transport map'):
            Tm = OT(Y, w.reshape(-1, 1))
        ctx.require(np.isfinite(Tm).all(), 'a transport map is not finite', samples=n)
        ctx.count('transport maps observed')


def run(case, ctx):
    (run_case if case['kind'] == 'run' else parts)(case, ctx)
