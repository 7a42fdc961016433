"""C17: the same problem run again: same process, other processes, other hash seeds, directories, logging levels, kernel names."""
import contextlib
import io
import json
import logging
import os
import random
import subprocess
import sys

import numpy as np

from lib.core import Inconclusive, derive
from lib.problems import Problem, Recorder, flows, query, random_spec, to_np

RULE = ('random problems over backend, mode and sampling, run again with the same seed: in the same process (after other library calls and '
        'draws), with the periodic kernel named, with logging at each level to a handler that formats every record, in another '
        'process with another hash seed, working directory, and logging level; one or more other seeds as a control; '
        'non-trivial: the other seed gave other flows')
NEED = ['repeated runs', 'periodic runs', 'log records formatted', 'runs in other processes', 'other seeds', 'query repetitions']
SOFT = {'quick': 240, 'thorough': 2400}
LEVELS = ('DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL')


def cases(tier, seed):
    out, i = [], 0
    for rep in range({'quick': 4, 'thorough': 80}[tier]):
        for b in ('np', 'torch'):
            for m in ('plain', 'rw', 'bridge'):
                for det in (True, False):
                    out.append({'kind': 'same', 'backend': b, 'mode': m, 'det': det, 'rep': rep, 'seed': derive(seed, 'c17', i)})
                    i += 1
        out.append({'kind': 'process', 'rep': rep, 'level': LEVELS[rep % 5] if rep else 'DEBUG', 'seed': derive(seed, 'c17p', i)})
    return out


class Formatting(logging.Handler):
    """formats every record; what cannot be formatted is an error the user would see"""

    def __init__(self):
        super().__init__(level=1)
        self.records, self.errors = [], []

    def emit(self, record):
        try:
            self.records.append((record.levelno, record.getMessage()))
        except Exception as e:  # noqa: BLE001
            self.errors.append('%r %% %r: %s' % (record.msg, record.args, e))


@contextlib.contextmanager
def log_to(level):
    root = logging.getLogger()
    h, old, handlers = Formatting(), root.level, root.handlers[:]
    root.handlers[:] = [h]
    root.setLevel(level)
    err = io.StringIO()
    try:
        with contextlib.redirect_stderr(err):
            yield h
    finally:
        root.handlers[:] = handlers
        root.setLevel(old)
        h.stderr = err.getvalue()


def close(a, b):
    """equal up to rounding"""
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-9 * max(np.abs(a).max(), 1e-300)))


def controls(p, c, ctx, seed=77):
    k = to_np(c.timegrid).size
    out = []
    for ti in (1, 4, k // 2, k - 7, k - 3):
        p.seed_all(seed)
        out.append(query(c, p.backend, flows(c)['B'][:, :4, ti].T, ti))
    return out


def compare(ctx, p, ref, refq, c, what):
    f = flows(c)
    ctx.require(sorted(f) == sorted(ref), 'other flows stored ' + what)
    for n in ref:
        ctx.require(close(ref[n], f[n]), 'flows are not reproduced ' + what, flow=n, difference=np.abs(ref[n] - f[n]).max(), backend=p.backend, mode=p.mode)
        ctx.count('bitwise equal flows', np.array_equal(ref[n], f[n]))
    for a, b in zip(refq, controls(p, c, ctx)):
        ctx.require(close(a, b), 'controls are not reproduced ' + what, difference=np.abs(a - b).max(), backend=p.backend, mode=p.mode)
        ctx.count('query repetitions')


def run(case, ctx):
    if case['kind'] == 'process':
        return process(case, ctx)
    rng = np.random.default_rng(case['seed'])
    p = Problem(random_spec(rng, case['backend'], dim=int(rng.integers(1, 4)), N=int(rng.integers(20, 70)), M=int(rng.integers(15, 40)),
                            steps=int(rng.integers(14, 40)), mode=case['mode'], det=case['det']))
    with ctx.repo('building'):
        a = p.build()
        ref = flows(a)
        refq = controls(p, a, ctx)
    # anything drawn and done in between, and other generators in another state
    np.random.default_rng().normal(size=10)
    np.random.normal(size=int(rng.integers(1, 50)))
    random.seed(int(rng.integers(1 << 30)))
    try:
        import torch
        torch.rand(7)
    except ImportError:
        pass
    with ctx.repo('building again'):
        b = p.build()
        ctx.count('repeated runs')
        compare(ctx, p, ref, refq, b, 'in a second run')
        c = p.build(seed=p.spec['seed'] + 1)
    ctx.require(not close(ref['B'], flows(c)['B']), 'another seed gives the same flows: the check would not see anything')
    ctx.count('other seeds')
    # explicitly the default kernel, and the unsupported one
    with ctx.repo('building with kern'):
        compare(ctx, p, ref, refq, p.build(kern='RBF'), 'when the kernel is named')
        with log_to(logging.WARNING) as h:
            d = p.build(kern='periodic')
    ctx.require(any(l >= logging.WARNING for l, _ in h.records) or 'periodic' in h.stderr, 'no warning about the periodic kernel')
    ctx.require(not h.errors, 'log records cannot be formatted', errors=h.errors)
    with ctx.repo('querying'):
        compare(ctx, p, ref, refq, d, 'with the periodic kernel')
    ctx.count('periodic runs')
    for level in (logging.DEBUG, logging.INFO, logging.ERROR, 1):
        with ctx.repo('building with logging at level %s' % level):
            with log_to(level) as h:
                e = p.build()
                q = controls(p, e, ctx)
                e.check_if_covered(flows(e)['B'][:, 0, 5], 5)
        ctx.require(not h.errors, 'log records cannot be formatted', errors=h.errors[:3], backend=p.backend, mode=p.mode)
        ctx.require('Traceback' not in h.stderr and 'Logging error' not in h.stderr, 'errors reported while logging', stderr=h.stderr[-600:])
        bad = [m for l, m in h.records if l >= logging.ERROR]
        ctx.require(not bad, 'errors logged in an ordinary run', records=bad[:3])
        ctx.count('log records formatted', len(h.records))
        with ctx.repo('querying'):
            compare(ctx, p, ref, refq, e, 'with logging switched on')


def process(case, ctx):
    rng = np.random.default_rng(case['seed'])
    scratch = os.path.join(os.environ['VERIF_SCRATCH'], 'c17_%d' % case['id'])
    os.makedirs(os.path.join(scratch, 'cwd'))
    specs = []
    for b in ('np', 'torch'):
        for m in ('plain', 'rw', 'bridge'):
            s = random_spec(rng, b, dim=int(rng.integers(1, 4)), N=30, M=20, steps=16, mode=m, det=bool(rng.integers(3)))
            specs.append(s)
    fs = os.path.join(scratch, 'specs.json')
    json.dump(specs, open(fs, 'w'))
    per = [dict(s, kern='periodic') for s in specs]
    json.dump(per, open(fs + 'p', 'w'))
    prog = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'progs', 'rerun.py')
    runs = [('0', scratch, fs, []), (str(rng.integers(1, 1 << 31)), os.path.join(scratch, 'cwd'), fs, [case['level']]),
            ('random', '/', fs + 'p', [])]
    got = []
    for j, (hs, cwd, f, lv) in enumerate(runs):
        out = os.path.join(scratch, 'o%d.npz' % j)
        pr = subprocess.run([sys.executable, '-B', prog, out, f] + lv, cwd=cwd, env=dict(os.environ, PYTHONHASHSEED=hs),
                            capture_output=True, text=True, timeout=220)
        if pr.returncode == -9:
            raise Inconclusive('killed')
        ctx.require(pr.returncode == 0 and os.path.exists(out), 'a run in another process failed', stderr=pr.stderr[-900:])
        ctx.require('Logging error' not in pr.stderr and 'Traceback' not in pr.stderr, 'errors reported on the standard error stream',
                    stderr=pr.stderr[-900:], level=lv)
        if 'p' == f[-1]:
            ctx.require('periodic' in pr.stderr, 'no warning about the periodic kernel on the standard error stream')
        got.append(dict(np.load(out)))
        ctx.count('runs in other processes', len(specs))
    for j in (1, 2):
        for n in got[0]:
            ctx.require(close(got[0][n], got[j][n]), 'results differ between processes', run=runs[j][0], item=n,
                        difference=np.abs(got[0][n] - got[j][n]).max())
