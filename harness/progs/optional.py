"""Runs in a process of its own: hides some distributions, imports the package and uses it. Answers with one JSON line.
usage: optional.py OUT SPEC   SPEC = {"hide": [...], "first": [...], "use": "np|torch", ...}"""
import importlib.abc
import importlib.util
import json
import sys
import traceback


def main():
    out, spec = sys.argv[1], json.loads(sys.argv[2])
    hide = set(spec['hide'])
    res = {'ok': False, 'stage': 'hide'}

    class Block(importlib.abc.MetaPathFinder):
        names = set()

        def find_spec(self, name, path=None, target=None):
            if name.split('.')[0] in self.names:
                raise ModuleNotFoundError('No module named %r (hidden)' % name, name=name)

    blocker = Block()
    sys.meta_path.insert(0, blocker)
    blocker.names = hide - {'ot'}
    if 'ot' in hide:
        # pyemd itself is a required dependency here and is built on ot: load it before hiding ot from everybody else
        import pyemd  # noqa: F401
        for m in [m for m in sys.modules if m == 'ot' or m.startswith('ot.')]:
            del sys.modules[m]
        blocker.names = hide
    try:
        for name in hide:
            try:
                __import__(name)
                res['stage'] = 'not hidden: ' + name
                return res
            except ImportError:
                pass
        res['stage'] = 'import'
        res['before'] = sorted(m for m in sys.modules if m.split('.')[0] in ('due', 'utils', 'kernels', 'score_estimators', 'reweighting'))
        order = spec['order']
        for m in order:
            __import__(m)
        import DeterministicParticleFlowControl as D
        res['file'] = D.__file__
        res['version'] = D.__version__
        from DeterministicParticleFlowControl import score_estimators as SE, reweighting as R
        ns = {}
        exec('from DeterministicParticleFlowControl import *', ns)
        res['names'] = sorted(n for n in ('DPFC', 'torched_DPFC') if hasattr(D, n))
        res['star'] = sorted(n for n in ('DPFC', 'torched_DPFC') if n in ns)
        res['est'] = sorted(n for n in dir(SE) if n in (
            'my_cdist', 'score_function_multid_seperate', 'score_function_multid_seperate_all_dims',
            'score_function_multid_seperate_old', 'torched_score_function_multid_seperate_all_dims'))
        res['ot'] = hasattr(R, 'reweight_optimal_transport_multidim')
        res['torch'] = importlib.util.find_spec('torch') is not None if 'torch' not in hide else False
        if res['torch']:
            from DeterministicParticleFlowControl import kernels, utils
            res['kernel'] = hasattr(kernels, 'RBF') and hasattr(utils, 'set_device')
        import numpy as np
        lin = lambda x, t: -x + 0.5 * np.sin(t)
        res['runs'] = {}
        for use in spec['use']:
            res['stage'] = use
            np.random.seed(7)
            kw = dict(t1=0.0, t2=0.02, y1=np.array([0.5, -0.2]), y2=np.array([0.4, -0.1]), f=lin, g=0.7, N=40, M=20)
            if 'reweight' in use:
                kw.update(reweight=True, U=lambda x, t: -30 * x[0] ** 2)
            if 'bridge' in use:
                kw.update(reweight=True, U=lambda x, t: -30 * x[0] ** 2, brown_bridge=True, f_true=lin,
                          f=lambda x, t: (kw['y2'].reshape(-1, 1) - x) / (0.02 - t + 0.02))
            if 'stochastic' in use:
                kw.update(deterministic=False)
            if use.startswith('torch'):
                import torch
                torch.manual_seed(7)
                kw.update(device='cpu', f=lambda x, t: -x + 0.5 * torch.sin(torch.as_tensor(float(t))))
                c = D.torched_DPFC(**kw)
                q = torch.zeros(3, 2, dtype=torch.float64)
            else:
                c = D.DPFC(**kw)
                q = np.zeros((3, 2))
            Z, B, u, u2 = (np.asarray(v) for v in (c.Z, c.B, c.calculate_u(q, 10), c.calculate_u(q, 3)))
            res['runs'][use] = {'shape': Z.shape == B.shape == (2, 40, 21), 'finite': bool(np.isfinite(Z).all() and np.isfinite(B).all()),
                                'u': bool(np.isfinite(u).all() and np.isfinite(u2).all()) and u.shape == (2, 3),
                                'Z': Z[:, ::7, ::5].ravel().tolist(), 'B': B[:, ::7, ::5].ravel().tolist(), 'uv': u.ravel().tolist()}
        res['stage'] = 'estimators'
        rng = np.random.default_rng(3)
        x, z = rng.normal(size=(60, 2)), rng.normal(size=(20, 2))
        a = SE.score_function_multid_seperate_all_dims(x, z, l=[1.0, 1.5])
        b = np.stack([SE.score_function_multid_seperate(x, z, l=[1.0, 1.5], which_dim=d + 1) for d in range(2)], 1)
        c = np.stack([SE.score_function_multid_seperate(x, z, l=1.3, func_out=True, which_dim=d + 1)(x) for d in range(2)], 1)
        o = np.zeros((60, 20))
        SE.my_cdist(x, z, o, 'euclidean')
        res['est_ok'] = bool(np.allclose(a, b, rtol=1e-6, atol=1e-8) and np.isfinite(c).all())
        res['est_val'] = np.concatenate([a.ravel(), c.ravel(), o.ravel()]).tolist()
        T = R.reweight_optimal_transport_multidim(x, np.full(60, 1 / 60.))
        res['T'] = bool(np.allclose(T, np.eye(60)))
        res.update(ok=True, stage='done')
    except BaseException as e:  # noqa: BLE001
        res['error'] = '%s: %s' % (type(e).__name__, e)
        res['tb'] = traceback.format_exc()[-1500:]
    return res


r = main()
with open(sys.argv[1], 'w') as fh:
    json.dump(r, fh)
