"""C25: faults injected into the user callbacks at every place of a run."""
import numpy as np

from lib import settings
from lib.core import derive
from lib.problems import Problem, flows, query, random_spec

RULE = ('random problems over backend, mode and sampling; in each, drift, true drift or path cost raises one of many exception types at '
        'its first, last and several random calls; the very exception has to reach the caller, process-wide settings have to be what they '
        'were, and the same problem is then solved again and compared with a run that never failed; non-trivial: at least one fault')
NEED = ['faults injected', 'faults in the drift', 'faults in the path cost', 'faults in the true drift', 'runs after a fault compared', 'settings compared']
SOFT = {'quick': 200, 'thorough': 2400}


class Odd(Exception):
    """with a constructor that cannot be called with one argument"""

    def __init__(self, a, b):
        super().__init__(a, b)


class OddBase(BaseException):
    pass


KINDS = (ValueError, TypeError, ZeroDivisionError, FloatingPointError, ArithmeticError, AttributeError, IndexError, KeyError, ImportError, NameError,
         RuntimeError, NotImplementedError, StopIteration, AssertionError, OSError, MemoryError, RecursionError, KeyboardInterrupt,
         SystemExit, GeneratorExit, Warning, RuntimeWarning, np.linalg.LinAlgError, Odd, OddBase)


def make(kind):
    return kind('a', 'b') if kind is Odd else kind('fault put in by the check')


def cases(tier, seed):
    out, i = [], 0
    for rep in range({'quick': 4, 'thorough': 80}[tier]):
        for backend in ('np', 'torch'):
            for mode in ('plain', 'rw', 'bridge'):
                for det in (True, False):
                    out.append({'backend': backend, 'mode': mode, 'det': det, 'rep': rep, 'deck': (2 * rep + det) * 6 + seed, 'seed': derive(seed, 'c25', i)})
                    i += 1
    return out


class Injector:
    """raises an exception at the n-th call of one callback"""

    def __init__(self, name=None, at=None, error=None):
        self.name, self.at, self.error, self.calls = name, at, error, {}

    def wrap(self, name, fn):
        if fn is None:
            return None

        def g(x, t):
            self.calls[name] = self.calls.get(name, 0) + 1
            if name == self.name and self.calls[name] == self.at:
                raise self.error
            return fn(x, t)
        return g


def run(case, ctx):
    rng = np.random.default_rng(case['seed'])
    p = Problem(random_spec(rng, case['backend'], dim=int(rng.integers(1, 4)), N=int(rng.integers(15, 40)), M=int(rng.integers(10, 20)),
                            steps=int(rng.integers(14, 22)), mode=case['mode'], det=case['det']))
    if p.backend == 'torch':
        import torch  # noqa: F401
    count = Injector()
    with ctx.repo('building'):
        c = p.build(count)
    F, k = flows(c), c.timegrid.shape[0]
    x = F['B'][:, :4, k // 2].T.copy()
    p.seed_all(5)
    with ctx.repo('querying'):
        u = query(c, p.backend, x, k // 2)
    label = {'f': 'drift', 'f_true': 'true drift', 'U': 'path cost'}
    for name, n in sorted(count.calls.items()):
        at = sorted({1, 2, n} | set(int(v) for v in rng.integers(1, n + 1, 3)))
        for j, a in enumerate(at):
            e = make(KINDS[(case['deck'] + j) % len(KINDS)])   # every kind in every callback within a few cases
            inj = Injector(name, a, e)
            before = settings.full()
            got = None
            try:
                p.build(inj)
            except BaseException as err:  # noqa: BLE001
                got = err
            info = dict(callback=label[name], call=a, of=n, raised=repr(e), backend=p.backend, mode=p.mode, deterministic=p.det)
            ctx.require(inj.calls.get(name, 0) >= a, 'the callback was not called as often as before', **info)
            ctx.require(got is not None, 'an exception raised by a user callback was swallowed', **info)
            if type(e) is StopIteration and type(got) is RuntimeError and got.__cause__ is e:
                got = e   # what Python makes of it inside a generator
            ctx.require(got is e, 'another exception than the one raised by the callback reached the caller', reached=repr(got), **info)
            ctx.require(inj.calls[name] == a, 'the callback was called again after it had raised', calls=inj.calls[name], **info)
            d = settings.changes(before, settings.full())
            ctx.require(not d, 'process-wide settings changed by a failed run', changes=d, **info)
            ctx.count('settings compared', len(before))
            ctx.count('faults injected')
            ctx.count('faults in the ' + label[name])
            got = err = None
    # the failures left nothing behind
    q0 = query_again(ctx, p, c, x, k)
    ctx.require(np.array_equal(q0, u), 'failed runs change the controls of an existing controller', backend=p.backend, mode=p.mode)
    with ctx.repo('building after failures'):
        c2 = p.build()
    G = flows(c2)
    for n in F:
        ctx.require(F[n].shape == G[n].shape and np.array_equal(F[n], G[n]), 'a run after failed ones differs from one before', flow=n,
                    backend=p.backend, mode=p.mode)
    ctx.require(np.array_equal(query_again(ctx, p, c2, x, k), u), 'controls after failed runs differ', backend=p.backend, mode=p.mode)
    ctx.count('runs after a fault compared')


def query_again(ctx, p, c, x, k):
    p.seed_all(5)
    with ctx.repo('querying after failures'):
        return query(c, p.backend, x, k // 2)
