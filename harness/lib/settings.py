"""Snapshots of process-wide state: settings of the interpreter and of the numerical libraries, random generators, threads, files."""
import decimal
import gc
import locale
import logging
import os
import random
import signal
import sys
import threading
import warnings

import numpy as np


def plain(v):
    return v if isinstance(v, (int, float, str, bool, type(None))) else repr(v)


def light():
    """settings that user code could notice, cheap enough to be read in every callback"""
    out = {'numpy error handling': str(np.geterr()), 'numpy error callback': repr(np.geterrcall()),
           'thread': threading.get_ident(), 'warning filters': [repr(f) for f in warnings.filters], 'showwarning': repr(warnings.showwarning),
           'working directory': os.getcwd(), 'recursion limit': sys.getrecursionlimit(),
           'standard output': id(sys.stdout), 'standard error': id(sys.stderr), 'exception hook': id(sys.excepthook),
           'logging': [logging.root.level, logging.root.manager.disable, logging.raiseExceptions, logging.root.disabled],
           'trace function': repr(sys.gettrace()), 'profile function': repr(sys.getprofile()), 'garbage collection': [gc.isenabled(), gc.get_threshold()],
           'switch interval': sys.getswitchinterval(), 'alarm': signal.getitimer(signal.ITIMER_REAL)[0] > 0,
           'decimal': repr(decimal.getcontext())}
    if sys.modules.get('torch'):
        import torch
        out.update({'torch default precision': str(torch.get_default_dtype()), 'torch default device': str(torch.get_default_device()),
                    'torch gradients': torch.is_grad_enabled(), 'torch inference mode': torch.is_inference_mode_enabled(),
                    'torch anomaly detection': torch.is_anomaly_enabled(), 'torch threads': torch.get_num_threads(),
                    'torch deterministic': [torch.are_deterministic_algorithms_enabled(), torch.is_deterministic_algorithms_warn_only_enabled()],
                    'torch matmul precision': torch.get_float32_matmul_precision(), 'torch autocast': torch.is_autocast_enabled('cpu'),
                    'torch flush denormal': bool((torch.tensor(1e-310, dtype=torch.float64) * 1).item() == 0)})
    if sys.modules.get('numba'):
        import numba
        out['numba threads'] = numba.get_num_threads()
    return out


def identities(modules):
    """which object every public name of these modules is bound to"""
    out = {}
    for m in modules:
        mod = sys.modules.get(m)
        if mod is not None:
            for n, v in list(vars(mod).items()):
                if callable(v):
                    out[m + '.' + n] = id(v)
    return out


PATCHED = ('builtins', 'numpy', 'numpy.linalg', 'numpy.random', 'random', 'scipy.linalg', 'scipy.spatial.distance', 'torch', 'torch.linalg',
           'torch.random', 'ot', 'warnings', 'logging', 'math', 'time', 'os', 'json')


def full():
    out = light()
    u = os.umask(0o077)
    os.umask(u)
    fds = {}
    for n in os.listdir('/proc/self/fd'):
        try:
            fds[n] = os.readlink('/proc/self/fd/' + n)
        except OSError:
            pass
    out.update({'environment': dict(os.environ), 'file mode mask': u, 'module path': list(sys.path), 'locale': repr(locale.setlocale(locale.LC_ALL)),
                'signal handlers': {int(s): repr(signal.getsignal(s)) for s in signal.valid_signals()},
                'numpy printing': repr(np.get_printoptions()), 'threads': sorted(t.ident for t in threading.enumerate()),
                'blocked signals': repr(sorted(signal.pthread_sigmask(signal.SIG_BLOCK, []))),
                'open files': fds, 'handlers of the root logger': [repr(h) for h in logging.root.handlers if type(h) is not logging.StreamHandler]})
    kids = []
    for t in os.listdir('/proc/self/task'):
        try:
            kids += open('/proc/self/task/%s/children' % t).read().split()
        except OSError:
            pass
    out['child processes'] = sorted(kids)
    out['names'] = identities(PATCHED)
    if sys.modules.get('torch'):
        import torch
        out['torch printing'] = repr(vars(torch._tensor_str.PRINT_OPTS))
    mpl = sys.modules.get('matplotlib')
    if mpl is not None:
        out['matplotlib settings'] = {k: repr(v) for k, v in dict.items(mpl.rcParams)}
        out['matplotlib figures'] = sys.modules['matplotlib.pyplot'].get_fignums() if 'matplotlib.pyplot' in sys.modules else []
    return out


def changes(a, b, names=True):
    """what differs between two snapshots; names that are new are no change"""
    out = {}
    for k in a:
        if k not in b:
            out[k] = ['present', 'absent']
        elif k == 'names':
            d = [n for n, v in a[k].items() if b[k].get(n) != v]
            if d:
                out[k] = d[:5]
        elif a[k] != b[k]:
            x, y = a[k], b[k]
            if isinstance(x, dict):
                x, y = {i: v for i, v in x.items() if y.get(i) != v}, {i: v for i, v in y.items() if x.get(i) != v}
            out[k] = [str(x)[:400], str(y)[:400]]
    return out


def generators():
    """states of the global random generators, as comparable values"""
    s = np.random.get_state()
    out = {'numpy': (s[1].tobytes(), s[2], s[3]), 'python': random.getstate()}
    if sys.modules.get('torch'):
        import torch
        out['torch'] = torch.get_rng_state().numpy().tobytes()
    return out
