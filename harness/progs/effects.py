"""Uses the library in a process with settings of its own and reports what changed. usage: effects.py OUT.json SPEC.json"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
spec = json.load(open(sys.argv[2]))


hidden = set(spec['hide'])
if 'ot' in hidden:
    # pyemd is required and itself built on ot: load it before hiding ot from everybody else
    import pyemd  # noqa: F401
    for name in [m for m in sys.modules if m == 'ot' or m.startswith('ot.')]:
        del sys.modules[name]


class Hide:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name.split('.')[0] in hidden:
            raise ModuleNotFoundError('No module named %r' % name, name=name)


sys.meta_path.insert(0, Hide)
import decimal  # noqa: E402
import gc  # noqa: E402
import locale  # noqa: E402
import logging  # noqa: E402
import random  # noqa: E402
import signal  # noqa: E402
import warnings  # noqa: E402

import numpy as np  # noqa: E402
import scipy.linalg  # noqa: E402,F401
import scipy.spatial.distance  # noqa: E402,F401

torch = numba = None
if 'torch' not in spec['hide']:
    import torch  # noqa: E402
import matplotlib.pyplot as plt  # noqa: E402,F401
for name in ('numba', 'ot', 'duecredit', 'pyemd'):
    try:
        __import__(name)
    except ImportError:
        pass
numba = sys.modules.get('numba')
from lib import settings  # noqa: E402
from lib.problems import Problem, flows, random_spec, to_np  # noqa: E402

rng = np.random.default_rng(spec['seed'])
# things the libraries do once, before anything is compared
if numba:
    w = numba.njit(parallel=True)(lambda x: x + 1)
    w(np.zeros(3))
if torch is not None:
    torch.set_num_interop_threads(1)
    torch.ones(3, dtype=torch.float64).requires_grad_().sum().backward()
    torch.linalg.inv(torch.eye(3))
    torch.get_default_device()
if sys.modules.get('ot'):
    sys.modules['ot'].emd(np.ones(3) / 3, np.ones(3) / 3, np.ones((3, 3)))
# settings of a caller who has changed many of them
np.seterr(over=['warn', 'ignore'][rng.integers(2)], divide=['warn', 'ignore'][rng.integers(2)], invalid=['warn', 'ignore'][rng.integers(2)])
np.set_printoptions(precision=3)
warnings.filterwarnings('ignore', message='something the caller does not want to see')
logging.root.setLevel([logging.WARNING, logging.ERROR][rng.integers(2)])
logging.addLevelName(5, 'five')
os.umask(0o027)
os.environ['CALLER_SETTING'] = 'x'
sys.setrecursionlimit(3210)
gc.set_threshold(500, 7, 7)
signal.signal(signal.SIGUSR1, signal.SIG_IGN)
decimal.getcontext().prec = 17
plt.rcParams['lines.linewidth'] = 3.25
if torch is not None:
    torch.set_default_dtype([torch.float32, torch.float64][rng.integers(2)])
    torch.set_grad_enabled(bool(rng.integers(2)))
    torch.set_num_threads(2)
    torch.set_printoptions(precision=3)
    if rng.integers(2):
        torch.use_deterministic_algorithms(True, warn_only=True)
if numba:
    numba.set_num_threads(1)
report = {'changes': [], 'callbacks': 0, 'operations': 0, 'reseeded': [], 'errors': [], 'generator tests': 0, 'settings compared': 0}


def note(where, before, after):
    d = settings.changes(before, after)
    report['settings compared'] += len(before)
    if d:
        report['changes'].append([where, d])


base = settings.full()
import DeterministicParticleFlowControl as D  # noqa: E402
from DeterministicParticleFlowControl import score_estimators as SE  # noqa: E402
from DeterministicParticleFlowControl.reweighting import reweight_optimal_transport_multidim  # noqa: E402

note('import', base, settings.full())
base = settings.full()
inside = settings.light()


def watched(name, fn):
    if fn is None:
        return None

    def g(x, t):
        report['callbacks'] += 1
        d = settings.changes(inside, settings.light())
        report['settings compared'] += len(inside)
        if d and len(report['changes']) < 20:
            report['changes'].append(['while %s is called' % name, d])
        return fn(x, t)
    return g


class Watch:
    wrap = staticmethod(watched)


def build(p, seed):
    """without seeding inside: the generators are the caller's"""
    p.seed_all = lambda s=None: None
    return p.build(Watch())


def operations():
    for b in ('np', 'torch') if torch is not None else ('np',):
        for m in ('plain', 'rw', 'bridge'):
            if b == 'torch' and m != 'plain' and 'ot' in hidden:
                continue   # needs ot
            s = random_spec(rng, b, dim=int(rng.integers(1, 4)), N=30, M=15, steps=16, mode=m, det=bool(rng.integers(2)), z=0.5)
            p = Problem(s)
            keep = {}

            def make(p=p, keep=keep):
                keep['c'] = build(p, None)
            yield '%s controller, %s' % (b, m), make

            def ask(p=p, keep=keep, b=b):
                c = keep['c']
                for ti in (2, 8, 13):
                    x = to_np(c.B)[:, :5, ti].T.copy()
                    c.calculate_u(torch.tensor(x) if b == 'torch' else x, ti)
            yield 'control queries, %s %s' % (b, m), ask

            def cover(keep=keep):
                c = keep['c']
                for ti in (2, 8):
                    c.check_if_covered(to_np(c.B)[:, 0, ti], ti)
            yield 'coverage queries, %s %s' % (b, m), cover
    x, z = rng.normal(size=(40, 2)), rng.normal(size=(15, 2))
    for n in SE.__all__ if hasattr(SE, '__all__') else dir(SE):
        if n.startswith(('score_function', 'torched_score_function')) and callable(getattr(SE, n)):
            fn = getattr(SE, n)

            def est(fn=fn):
                fn(x, z, func_out=False, l=[1.0, 2.0])
                fn(x, z, func_out=True, l=1.5)(z if 'torched' not in fn.__name__ else torch.tensor(z))
            yield n, est
    yield 'my_cdist', lambda: SE.my_cdist(x, z, np.zeros((40, 15)))
    if sys.modules.get('ot') or 'pyemd' in sys.modules:
        w = rng.random(40)
        yield 'transport map', lambda: reweight_optimal_transport_multidim(x, w / w.sum())
    if torch is not None:
        from DeterministicParticleFlowControl.kernels.RBF_pytorch import RBF

        def kern():
            k = RBF(length_scale=torch.tensor([1.0, 2.0], dtype=torch.float64), multil=True, device='cpu')
            k.Kernel(torch.tensor(x), torch.tensor(z))
            k.gradient_X(torch.tensor(x), torch.tensor(z))
        yield 'kernel', kern


def start(s):
    np.random.seed(s)
    random.seed(s)
    if torch is not None:
        torch.manual_seed(s)


def go(name, op):
    try:
        op()
        return True
    except Exception as e:  # noqa: BLE001
        import traceback
        report['errors'].append([name, repr(e)[:300], traceback.format_exc(limit=-4)[-900:]])
        return False


for name, op in operations():
    ends = []
    for s in (11, 12):
        start(s)
        before = settings.full()
        if not go(name, op):
            break
        note(name, before, settings.full())
        ends.append(settings.generators())
        report['operations'] += 1
    else:
        for g in ends[0]:
            report['generator tests'] += 1
            if ends[0][g] == ends[1][g]:
                report['reseeded'].append([name, g])
    gc.collect()
note('all operations', base, settings.full())
json.dump(report, open(sys.argv[1], 'w'))
