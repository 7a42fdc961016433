"""C15: my_cdist under guard pages and canaries: exact block, nothing else written or read, wrong shapes rejected."""
import json
import os
import subprocess
import sys

import numpy as np

from lib.core import Inconclusive, derive
from lib.guard import Guarded

RULE = ('layout/type signatures of (points, points, output): C, Fortran, strided, reversed, read-only, guard-paged, in float64, float32, '
        'int64; each with 60+ size triples (0 to 70 points, 0 to 40 dimensions, near and far from the origin), outputs dirty and exact, or larger than needed, both '
        'distances and the default, 1 to 4 threads; interpreted and bounds-checked twins in processes of their own; '
        'non-trivial: at least one distance computed')
NEED = ['distance blocks', 'guarded calls', 'oversized outputs', 'dirty outputs', 'rejected calls', 'thread counts', 'interpreted calls',
        'bounds-checked calls']
THREADS = 4
JOBS = 6
SOFT = {'quick': 400, 'thorough': 3000}
IN = ('c', 'f', 'strided', 'rev', 'ro', 'guard', 'guardro', 'f32', 'i64')
OUT = ('guard', 'c', 'f', 'strided', 'rev', 'guardstart', 'f32')


def cases(tier, seed):
    rng = np.random.default_rng(derive(seed, 'c15'))
    out = [{'kind': 'process', 'env': e, 'seed': derive(seed, 'c15', e)} for e in ('NUMBA_DISABLE_JIT', 'NUMBA_BOUNDSCHECK')]
    combos = [('guard', 'guard', 'guard'), ('guardro', 'guardro', 'guardstart'), ('c', 'c', 'f'), ('f', 'strided', 'strided'), ('strided', 'f', 'c'), ('f32', 'f32', 'f32'),
              ('i64', 'i64', 'c'), ('c', 'f32', 'guard'), ('rev', 'ro', 'rev'), ('f', 'f', 'f'), ('c', 'strided', 'guard'), ('strided', 'c', 'c')]
    n = {'quick': 12, 'thorough': 150}[tier]
    while len(combos) < n:
        combos.append((IN[rng.integers(len(IN))], IN[rng.integers(len(IN))], OUT[rng.integers(len(OUT))]))
    for i, c in enumerate(combos[:n]):
        out.append({'kind': 'signature', 'r': c[0], 'y': c[1], 'o': c[2], 'calls': {'quick': 60, 'thorough': 400}[tier], 'seed': derive(seed, 'c15', i)})
    return out


def put(x, how, keep):
    """x in the named layout or type"""
    n, d = x.shape
    if how == 'f':
        return np.asfortranarray(x)
    if how == 'strided':
        big = np.full((2 * n + 1, d + 3), 1e150)
        v = big[1:2 * n + 1:2, 1:d + 1]
        v[...] = x
        return v
    if how == 'rev':
        return np.ascontiguousarray(x[::-1])[::-1]
    if how == 'f32':
        return x.astype(np.float32)
    if how == 'i64':
        return np.round(x * 3).astype(np.int64)
    if how.startswith('guard'):
        g = Guarded(x, side='start' if how == 'guardstart' else 'end', readonly=how == 'guardro')
        keep.append(g)
        return g.array
    x = np.array(x)
    if how == 'ro':
        x.setflags(write=False)
    return x


def run(case, ctx):
    if case['kind'] == 'process':
        return process(case, ctx)
    import numba
    from DeterministicParticleFlowControl.score_estimators import my_cdist
    rng = np.random.default_rng(case['seed'])
    for call in range(case['calls']):
        n, m = (int([0, 1, 2, 3, 5, 17, 33, 70][rng.integers(1 if rng.random() < 0.95 else 0, 8)]) for _ in range(2))
        d = int([0, 1, 2, 3, 4, 9, 17, 40][rng.integers(1 if rng.random() < 0.95 else 0, 8)])
        scale = 10.0 ** rng.uniform(-3, 3) if 'f32' not in (case['r'], case['y']) else 1.0
        off = [0, 0, 5, 1e3, 1e6][rng.integers(5 if 'f32' not in (case['r'], case['y']) else 3)] * scale
        r0, y0 = rng.normal(size=(n, d)) * scale + off, rng.normal(size=(m, d)) * scale + off
        if n and m and rng.integers(3) == 0:
            y0[: min(n, m)] = r0[: min(n, m)]
        keep = []
        r, y = put(r0, case['r'], keep), put(y0, case['y'], keep)
        if case['r'] == case['y'] and rng.integers(6) == 0:
            y = r
        m = len(y)
        en, em = [(0, 0), (0, 0), (3, 2), (0, 4), (2, 0)][rng.integers(5)]
        fill = [0.0, np.nan, -7.5, 1e300][rng.integers(4)] if case['o'] != 'f32' else -7.5
        o0 = np.full((n + en, m + em), fill)
        out = put(o0, case['o'], keep)
        base = out.base if case['o'] in ('strided', 'rev') and out.base is not None else None
        frame = None if base is None else base.copy()
        before = out.copy()
        dist = [None, 'euclidean', 'sqeuclidean'][rng.integers(3)]
        nt = int(rng.integers(1, 5))
        numba.set_num_threads(nt)
        rb, yb = r.copy(), y.copy()
        info = dict(N=n, N2=m, dim=d, output=list(out.shape), dist=dist, threads=nt, layouts=[case['r'], case['y'], case['o']], fill=fill)
        with ctx.repo('my_cdist(%s)' % info):
            my_cdist(r, y, out) if dist is None else my_cdist(r, y, out, dist)
        rf, yf = r.astype(float), y.astype(float)
        d2 = ((rf[:, None, :] - yf[None, :, :]) ** 2).sum(2)
        ref = d2 if dist == 'sqeuclidean' else np.sqrt(d2)
        want = before.astype(float)
        want[:n, :m] = ref
        f32 = 'f32' in (case['r'], case['y'], case['o'])
        # differences first, then squares: no error beyond rounding of the result, wherever the points lie
        tol = (1e-5 if f32 else 1e-9) * ref + (1e-12 if f32 else 1e-290)
        got = out.astype(float)
        err = np.abs(got[:n, :m] - ref)
        if err.size:
            ctx.worst('error relative to tolerance', (err / (tol + 1e-300)).max())
        ctx.require(bool((err <= tol).all()), 'wrong or missing distances', wrong=int((~(err <= tol)).sum()), of=int(err.size), **info)
        rest = np.ones(got.shape, bool)
        rest[:n, :m] = False
        ctx.require(np.array_equal(got[rest], want[rest], equal_nan=True), 'output written outside the block', **info)
        if frame is not None:
            if case['o'] == 'strided':
                frame[1:2 * (n + en) + 1:2, 1:m + em + 1] = out
            else:
                frame[...] = out[::-1]
            ctx.require(np.array_equal(frame, base, equal_nan=True), 'memory between the entries of a strided output was written', **info)
        ctx.require(np.array_equal(rb, r) and np.array_equal(yb, y), 'the point sets were modified', **info)
        ctx.require(all(g.untouched() for g in keep), 'memory beside an array was written', **info)
        ctx.count('distance blocks')
        ctx.count('distances', ref.size)
        ctx.count('guarded calls', bool(keep))
        ctx.count('oversized outputs', en + em > 0)
        ctx.count('dirty outputs', fill != 0)
        ctx.count('thread counts')
        # the same call, with a shape that must be rejected
        if rng.integers(4) == 0 and n and m and d:
            bad = [(r, y[:, :d - 1] if d > 1 else np.hstack([y, y]), out, 'dimension'), (r, y, out[:max(n - 1, 0)], 'rows'),
                   (r, y, out[:, :max(m - 1, 0)], 'columns')][rng.integers(3)]
            now = out.copy()
            try:
                my_cdist(bad[0], bad[1], bad[2], 'euclidean')
                rejected = False
            except Exception:  # noqa: BLE001
                rejected = True
            ctx.require(rejected, 'call with wrong %s was not rejected' % bad[3], **info)
            ctx.require(np.array_equal(now, out, equal_nan=True) and all(g.untouched() for g in keep), 'memory written before rejecting wrong ' + bad[3], **info)
            ctx.count('rejected calls')
        del r, y, out, base, before
        for g in keep:
            g.free()


def process(case, ctx):
    scratch = os.environ['VERIF_SCRATCH']
    rng = np.random.default_rng(case['seed'])
    data = {}
    n = 40 if ctx.tier == 'quick' else 300
    for i in range(n):
        a, b, d = int(rng.integers(0, 12)), int(rng.integers(0, 12)), int(rng.integers(1, 6))
        ea, eb = [(0, 0), (2, 1)][rng.integers(2)]
        data['r%d' % i], data['y%d' % i] = rng.normal(size=(a, d)), rng.normal(size=(b, d))
        data['o%d' % i] = np.full((a + ea + 4, b + eb + 6), -3.25)
    fin, fout = (os.path.join(scratch, '%s_%s' % (case['env'], x)) for x in ('in.npz', 'out.json'))
    np.savez(fin, n=n, **data)
    prog = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'progs', 'cdist.py')
    env = dict(os.environ, **{case['env']: '1'})
    p = subprocess.run([sys.executable, '-B', prog, fin, fout], env=env, capture_output=True, text=True, timeout=220)
    if p.returncode == -9:
        raise Inconclusive('killed')
    ctx.require(os.path.exists(fout), 'process ended with code %d' % p.returncode, stderr=p.stderr[-800:], env=case['env'])
    r = json.load(open(fout))
    ctx.require(not r['errors'], 'wrong distances, or accesses out of bounds', errors=r['errors'][:4], env=case['env'])
    ctx.require(r['done'] == 2 * n, 'not all calls made', done=r['done'])
    ctx.count('interpreted calls' if 'JIT' in case['env'] else 'bounds-checked calls', r['done'])
    ctx.count('rejected calls', r['rejected'])
