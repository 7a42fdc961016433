"""C21: resident and traced memory of whole runs of different length, and over many queries; autograd flags of the results."""
import json
import os
import subprocess
import sys

import numpy as np

from lib.core import Inconclusive, derive
from lib.problems import random_spec

RULE = ('controllers of both backends, all modes, deterministic and stochastic, built over few and many time steps in a process of its own '
        'whose allocator returns large blocks at once; growth of peak and of kept memory beyond the stored flows compared; the same '
        'over few and many queries; non-trivial: at least 20 samples of the resident size in every run')
NEED = ['runs measured', 'memory samples', 'queries measured', 'tensors examined']
SOFT = {'quick': 400, 'thorough': 2400}
JOBS = 8
CASE_TIMEOUT = 860


def cases(tier, seed):
    out, i = [], 0
    for rep in range({'quick': 1, 'thorough': 6}[tier]):
        for m in ('rw', 'bridge', 'plain'):
            for b in ('torch', 'np'):
                for det, wide in ((True, False), (False, False), (True, True), (False, True)):
                    if wide and m != 'plain':
                        continue
                    out.append({'backend': b, 'mode': m, 'det': det, 'wide': wide, 'rep': rep, 'seed': derive(seed, 'c21', i)})
                    i += 1
    return out


def run(case, ctx):
    rng = np.random.default_rng(case['seed'])
    # wide: many particles, so that even one stored slice per step shows; otherwise many inducing points, so that a matrix shows
    N, M = (4000, 30) if case['wide'] else (400, 150) if case['mode'] == 'plain' else (300, 150)
    spec = random_spec(rng, case['backend'], dim=int(rng.integers(2, 4)), N=N, M=M, steps=40, mode=case['mode'], det=case['det'],
                       kinds=('ou', 'tosc', 'zero'), z=0.5)
    steps = [30, 90] if ctx.tier == 'quick' else [40, 240]
    queries = [60, 200] if ctx.tier == 'quick' else [100, 1000]
    # libraries map buffers of their own now and then (up to 20 MB here), a history is kept in every run: anything suspicious has to
    # show again and again, in other processes and in both of two long runs
    for attempt in range(3):
        trouble = measure(case, ctx, spec, [steps[0]] + [steps[1]] * (2 if attempt else 1), queries, N, M)
        if not trouble:
            return
        ctx.count('repeated measurements')
    ctx.require(False, trouble[0], **trouble[1])


def measure(case, ctx, spec, steps, queries, N, M):
    scratch = os.environ['VERIF_SCRATCH']
    fin, fout = (os.path.join(scratch, 'c21_%d.%s' % (case['id'], x)) for x in ('in', 'out'))
    if os.path.exists(fout):
        os.remove(fout)
    json.dump({'spec': spec, 'steps': steps, 'queries': queries}, open(fin, 'w'))
    prog = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'progs', 'memory.py')
    env = dict(os.environ, MALLOC_MMAP_THRESHOLD_='32768', MALLOC_TRIM_THRESHOLD_='65536', MALLOC_TOP_PAD_='0', MALLOC_ARENA_MAX='1')
    try:
        pr = subprocess.run([sys.executable, '-B', prog, fout, fin], env=env, capture_output=True, text=True, timeout=400)
    except subprocess.TimeoutExpired:
        raise Inconclusive('time limit')
    if pr.returncode == -9:
        raise Inconclusive('killed')
    info = dict(backend=case['backend'], mode=case['mode'], deterministic=case['det'], dim=spec['dim'], N=N, M=M)
    ctx.require(pr.returncode == 0 and os.path.exists(fout), 'the run failed', stderr=pr.stderr[-900:], **info)
    r = json.load(open(fout))
    a, rest = r['runs'][0], r['runs'][1:]
    b = {k: min(x[k] for x in rest) if rest[0][k] is not None else None for k in rest[0]}
    found = []

    def expect(ok, message, **more):
        if not ok:
            found.append((message, dict(more, **info)))
    mb = 1 << 20
    # one N x M, one M x M and one N x N matrix: what a single step may need
    ctx.count('runs measured', 2)
    ctx.count('memory samples', a['samples'] + b['samples'])
    if min(a['samples'], b['samples']) < 20:
        raise Inconclusive('too few memory samples')
    extra = b['steps'] - a['steps']
    per_step = spec['dim'] * N * 8.0
    for what in ('peak', 'kept'):
        growth = (b[what] - b['flows']) - (a[what] - a['flows'])
        ctx.worst('growth of %s beyond the flows, MB' % what, growth / mb)
        ctx.worst('growth of %s beyond the flows, in flow slices per step' % what, growth / (extra * per_step))
        expect(growth < 0.3 * extra * per_step + 2 * mb, 'memory grows with the number of time steps beyond the stored flows', quantity=what, MB=growth / mb,
                    steps=[a['steps'], b['steps']], runs=r['runs'])
    if b['traced'] is not None:
        for what in ('traced', 'traced_peak'):
            growth = (b[what] - b['flows']) - (a[what] - a['flows'])
            ctx.worst('growth of %s beyond the flows, in flow slices per step' % what, growth / (extra * per_step))
            expect(growth < 0.3 * extra * per_step + 0.1 * mb, 'allocated memory grows with the number of time steps beyond the stored flows',
                        quantity=what, kB_per_step=growth / extra / 1024, runs=r['runs'])
    expect(b['freed'] < 0.5 * b['flows'] + (12 if case['wide'] else 24) * mb, 'memory of a discarded controller is not returned', MB=b['freed'] / mb)
    q0, q1 = r['queries']
    growth = q1['rss'] - q0['rss']
    ctx.worst('growth over queries, MB', growth / mb)
    expect(growth < 0.7 * mb, 'queries keep memory', MB=growth / mb, queries=r['queries'])
    if q1['traced'] is not None:
        ctx.worst('traced growth over queries, kB', (q1['traced'] - q0['traced']) / 1024)
        expect(q1['traced'] - q0['traced'] < 100 * 1024, 'queries keep memory', kB=(q1['traced'] - q0['traced']) / 1024)
    ctx.count('queries measured', q0['n'] + q1['n'])
    for n, (rg, nofn) in r.get('flags', {}).items():
        ctx.require(not rg and nofn, '%s carries a record of how it was computed' % n, **info)
        ctx.count('tensors examined')
    ctx.require(not r.get('numpy'), 'not convertible to arrays', names=r.get('numpy'))
    return found[0] if found else None
