"""C23: every tensor operation observed while the PyTorch parts run under foreign default devices and precisions."""
import contextlib
import io

import numpy as np

from lib.core import derive
from lib.points import cloud
from lib.problems import Problem, flows, query, random_spec, to_np

RULE = ('random problems of the PyTorch controller, estimator and kernel run with the default device meta (on which any tensor loses its '
        'values) and default precision float32, float64, float16, bfloat16, device named as string or object; a dispatch monitor '
        'looks at the results of every tensor operation; results compared with those under the usual defaults; set_device under '
        'all answers of PyTorch about GPUs; non-trivial: the observed part created tensors')
NEED = ['operations observed', 'controller runs', 'estimator runs', 'kernel runs', 'runs with default device meta', 'set_device calls']
SOFT = {'quick': 240, 'thorough': 2400}


def cases(tier, seed):
    out, i = [], 0
    for rep in range({'quick': 3, 'thorough': 60}[tier]):
        for m in ('plain', 'rw', 'bridge'):
            for det in (True, False):
                for dt in ('float32', 'float16', 'bfloat16', 'float64'):
                    out.append({'kind': 'controller', 'mode': m, 'det': det, 'dtype': dt, 'dev': ['meta', 'cpu'][(i + rep) % 4 == 3],
                                'rep': rep, 'seed': derive(seed, 'c23', i)})
                    i += 1
        for dt in ('float32', 'float16', 'bfloat16', 'float64'):
            out.append({'kind': 'functions', 'dtype': dt, 'dev': 'meta', 'rep': rep, 'seed': derive(seed, 'c23f', i)})
            i += 1
    out.append({'kind': 'device', 'seed': 1})
    return out


def monitor(ctx, inside):
    import torch
    from torch.utils._python_dispatch import TorchDispatchMode
    from torch.utils._pytree import tree_leaves

    class Mode(TorchDispatchMode):
        bad = []

        def __torch_dispatch__(self, func, types, args=(), kwargs=None):
            out = func(*args, **(kwargs or {}))
            if not inside['callback']:
                for o in tree_leaves(out):
                    if isinstance(o, torch.Tensor):
                        ctx.count('operations observed')
                        if o.device.type != 'cpu' or (o.is_floating_point() and o.dtype != torch.float64):
                            self.bad.append('%s -> %s %s' % (func, o.dtype, o.device))
            return out
    m = Mode()
    m.bad = []
    return m


@contextlib.contextmanager
def defaults(dtype, dev):
    import torch
    old = torch.get_default_dtype()
    try:
        torch.set_default_dtype(getattr(torch, dtype))
        torch.set_default_device(None if dev == 'cpu' else dev)
        yield
    finally:
        torch.set_default_device(None)
        torch.set_default_dtype(old)


def close(a, b):
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-9 * max(np.abs(a).max(), 1e-300)))


def run(case, ctx):
    {'controller': controller, 'functions': functions, 'device': device}[case['kind']](case, ctx)


def quiet(fn, inside):
    """callbacks of the user are not under observation"""
    if fn is None:
        return None

    def f(x, t):
        inside['callback'] = True
        try:
            return fn(x, t)
        finally:
            inside['callback'] = False
    return f


def controller(case, ctx):
    import torch
    rng = np.random.default_rng(case['seed'])
    p = Problem(random_spec(rng, 'torch', dim=int(rng.integers(1, 4)), N=int(rng.integers(20, 60)), M=int(rng.integers(15, 30)),
                            steps=int(rng.integers(14, 30)), mode=case['mode'], det=case['det'], yform='array'))
    inside = {'callback': False}
    over = dict(f=quiet(p.f, inside), device=['cpu', torch.device('cpu')][rng.integers(2)])
    if p.mode != 'plain':
        over['U'] = quiet(p.U, inside)
    if p.mode == 'bridge':
        over['f_true'] = quiet(p.f_true, inside)
    if rng.integers(2):
        over.update(y1=torch.tensor(p.y1, dtype=torch.float64, device='cpu'), y2=torch.tensor(p.y2, dtype=torch.float64, device='cpu'))
    else:
        over.update(y1=np.array(p.y1), y2=np.array(p.y2))
    qs = {}

    def work():
        c = p.build(**over)
        k = c.timegrid.shape[0]
        out = flows(c)
        for n in out:
            t = getattr(c, n)
            ctx.require(t.dtype == torch.float64 and t.device.type == 'cpu', 'flow %s is not in double precision on the device' % n, dtype=str(t.dtype), device=str(t.device))
        for ti in (3, k // 2, k - 3):
            if ti not in qs:
                qs[ti] = out['B'][:, :4, ti].T.copy()
            p.seed_all(3)
            u = c.calculate_u(torch.tensor(qs[ti], dtype=torch.float64, device='cpu'), ti)
            ctx.require(u.dtype == torch.float64 and u.device.type == 'cpu', 'controls are not in double precision on the device', dtype=str(u.dtype), device=str(u.device))
            out['u%d' % ti] = to_np(u)
            out['covered%d' % ti] = np.array(float(c.check_if_covered(torch.tensor(qs[ti][0], dtype=torch.float64, device='cpu'), ti)))
        return out
    with ctx.repo('a run under the usual defaults'):
        ref = work()
    mon = monitor(ctx, inside)
    with ctx.repo('a run with default device %s and precision %s' % (case['dev'], case['dtype'])):
        with defaults(case['dtype'], case['dev']):
            got = work()
    with ctx.repo('an observed run'):
        with defaults(case['dtype'], case['dev']), mon:
            work()
    ctx.count('controller runs', 3)
    if case['dev'] == 'meta':
        ctx.count('runs with default device meta')
    for n in ref:
        ctx.require(close(ref[n], got[n]), 'results depend on the process-wide defaults', item=n, difference=np.abs(ref[n] - got[n]).max(),
                    dtype=case['dtype'], device=case['dev'], mode=p.mode)
    ctx.require(not mon.bad, 'tensors on another device or in other precision', operations=sorted(set(mon.bad))[:6], dtype=case['dtype'])


def functions(case, ctx):
    import torch
    from DeterministicParticleFlowControl import kernels, score_estimators as SE
    rng = np.random.default_rng(case['seed'])
    for rep in range(12):
        dim = int(rng.integers(1, 5))
        x, z, q = cloud(rng, int(rng.integers(3, 60)), dim), cloud(rng, int(rng.integers(2, 25)), dim), cloud(rng, 5, dim)
        ten = lambda a: torch.tensor(a, dtype=torch.float64, device='cpu')
        form = [np.array, ten][rng.integers(2)]
        l = [1.3, rng.uniform(0.5, 2, dim), ten(rng.uniform(0.5, 2, dim)), [float(v) for v in rng.uniform(0.5, 2, dim)]][rng.integers(4)]
        dev = ['cpu', torch.device('cpu')][rng.integers(2)]
        fo = bool(rng.integers(2))

        def est():
            r = SE.torched_score_function_multid_seperate_all_dims(form(x), form(z), l=l, func_out=fo, device=dev)
            return r(form(q)) if fo else r

        def kern():
            multi = not isinstance(l, float)
            k = kernels.RBF(length_scale=l, multil=multi, signal_variance=1.7, device=dev)
            return torch.cat([k.Kernel(form(x), form(z)).reshape(-1), k.gradient_X(form(x), form(z)).reshape(-1), k.Kernel(form(x)).reshape(-1)])
        for fn, name in ((est, 'estimator'), (kern, 'kernel')):
            with ctx.repo(name + ' under the usual defaults'):
                ref = to_np(fn())
            mon = monitor(ctx, {'callback': False})
            with ctx.repo('%s with default device %s and precision %s' % (name, case['dev'], case['dtype'])):
                with defaults(case['dtype'], case['dev']):
                    t = fn()
                    ctx.require(t.dtype == torch.float64 and t.device.type == 'cpu', name + ' result is not in double precision on the device', dtype=str(t.dtype), device=str(t.device))
                    got = to_np(t)
                with defaults(case['dtype'], case['dev']), mon:
                    fn()
            ctx.count(name + ' runs')
            ctx.count('runs with default device meta')
            ctx.require(close(ref, got), '%s depends on the process-wide defaults' % name, difference=np.abs(ref - got).max(), dtype=case['dtype'], lengthscale=type(l).__name__)
            ctx.require(not mon.bad, 'tensors on another device or in other precision', operations=sorted(set(mon.bad))[:6], dtype=case['dtype'], part=name)


def device(case, ctx):
    import os
    import torch
    from unittest import mock
    from DeterministicParticleFlowControl.utils import set_device
    for n in (0, 1, 4):
        for built in (True,) if n else (False, True):
            for visible in (None, '0') if n else (None, '', '0', '0,1'):
                for mps in (False, True):
                    env = {k: v for k, v in os.environ.items() if k != 'CUDA_VISIBLE_DEVICES'}
                    if visible is not None:
                        env['CUDA_VISIBLE_DEVICES'] = visible
                    with contextlib.ExitStack() as es:
                        for obj, name, val in ((torch.cuda, 'is_available', lambda: n > 0), (torch.cuda, 'device_count', lambda: n),
                                               (torch.cuda, 'is_initialized', lambda: False), (torch.version, 'cuda', '12.1' if built else None),
                                               (torch.cuda, 'get_device_name', lambda *a: 'GPU'), (torch.backends.cuda, 'is_built', lambda: built),
                                               (torch.backends.mps, 'is_available', lambda: mps), (torch.backends.mps, 'is_built', lambda: mps)):
                            es.enter_context(mock.patch.object(obj, name, val))
                        es.enter_context(mock.patch.dict(os.environ, env, clear=True))
                        es.enter_context(contextlib.redirect_stdout(io.StringIO()))
                        for _ in range(2):
                            with ctx.repo('set_device'):
                                d = str(set_device())
                            ctx.count('set_device calls')
                            ctx.require((d.split(':')[0] == 'cuda') if n else (d == 'cpu'), 'wrong device named', named=d, gpus=n,
                                        built_for_gpus=built, CUDA_VISIBLE_DEVICES=visible, mps=mps)
    with contextlib.redirect_stdout(io.StringIO()), ctx.repo('set_device'):
        d = str(set_device())
    ctx.require(d == ('cuda' if torch.cuda.is_available() else 'cpu'), 'wrong device named', named=d)
