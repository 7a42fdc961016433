"""C16: checksummed and write-protected caller data, mutation afterwards, and controllers built and queried inside one another."""
import json
import os
import subprocess
import sys
import tempfile

import numpy as np

from lib.core import Inconclusive, derive
from lib.points import cloud
from lib.problems import DT, Problem, flows, is_tensor, query, random_spec, to_np

RULE = ('controllers of both backends and all modes built from checksummed arrays (write-protected where numpy allows), with callbacks that '
        'return arrays the caller keeps; every query and estimator function with such arguments; caller arrays overwritten afterwards; '
        'other controllers built and queried before, between, and from inside the callbacks of the one observed, with the random '
        'state put back; the same controllers in three orders, each in a fresh process; non-trivial: all')
NEED = ['checksums compared', 'controllers built', 'nested controllers', 'queries between', 'function calls with checksums', 'overwritten arguments',
        'results compared over orders', 'results kept over later queries']
SOFT = {'quick': 240, 'thorough': 2400}


def cases(tier, seed):
    out, i = [], 0
    for rep in range({'quick': 3, 'thorough': 60}[tier]):
        for b in ('np', 'torch'):
            for m in ('plain', 'rw', 'bridge'):
                for det in (True, False):
                    for kind in ('data', 'nested'):
                        out.append({'kind': kind, 'backend': b, 'mode': m, 'det': det, 'rep': rep, 'seed': derive(seed, 'c16', i)})
                        i += 1
        for b in ('np', 'torch'):
            out.append({'kind': 'order', 'backend': b, 'rep': rep, 'seed': derive(seed, 'c16o', i)})
            i += 1
        for r in range(4):
            out.append({'kind': 'functions', 'rep': rep, 'sub': r, 'seed': derive(seed, 'c16f', i)})
            i += 1
    return out


class Watch:
    """arguments of the caller: bytes remembered, compared later"""

    def __init__(self, ctx):
        self.ctx, self.items = ctx, []

    def __call__(self, x, name, ro=True):
        if isinstance(x, np.ndarray) and ro:
            x.setflags(write=False)
        self.items.append((name, x, to_np(x).tobytes() if not isinstance(x, (list, tuple)) else repr(x)))
        return x

    def verify(self, when):
        for name, x, b in self.items:
            now = to_np(x).tobytes() if not isinstance(x, (list, tuple)) else repr(x)
            self.ctx.require(now == b, '%s was modified by %s' % (name, when))
            self.ctx.count('checksums compared')


def rng_state(backend):
    s = np.random.get_state()
    if backend == 'torch':
        import torch
        return s, torch.get_rng_state()
    return s, None


def set_state(s):
    np.random.set_state(s[0])
    if s[1] is not None:
        import torch
        torch.set_rng_state(s[1])


def same(a, b, scale=None):
    s = scale if scale is not None else max(np.abs(a).max(), 1e-300)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-8 * s))


def run(case, ctx):
    {'data': data, 'nested': nested, 'order': order, 'functions': functions}[case['kind']](case, ctx)


def all_queries(ctx, p, c, seed, w=None):
    rng = np.random.default_rng(seed)
    k = to_np(c.timegrid).size
    out, kept = [], []
    for ti in (2, k // 2, k - 7, k - 3):
        x = to_np(c.B)[:, :5, ti].T + 0.1 * rng.normal(size=(5, p.dim))
        p.seed_all(seed)
        if p.backend == 'torch':
            import torch
            x = torch.tensor(x, dtype=torch.float64)
        if w:
            x = w(x, 'the query points')
        u = c.calculate_u(x, ti)
        c.check_if_covered(x[0], ti)
        out.append(to_np(u).copy())
        kept.append(u)
    for u, v in zip(kept, out):
        ctx.require(np.array_equal(to_np(u), v), 'controls returned earlier were changed by a later query')
        ctx.count('results kept over later queries')
    for u in kept:
        u *= 0   # the caller may do anything with a result
        u += 1e6
    return out


def data(case, ctx):
    import torch
    rng = np.random.default_rng(case['seed'])
    spec = random_spec(rng, case['backend'], dim=int(rng.integers(1, 4)), N=int(rng.integers(20, 60)), M=20, steps=int(rng.integers(14, 30)),
                       mode=case['mode'], det=case['det'], gforms=('list', 'array', 'column'))
    p = Problem(spec)
    with ctx.repo('building'):
        ref = flows(p.build())
        refq = all_queries(ctx, p, p.build(), 5)
    for yform in (('array', 'list') if p.backend == 'np' else ('array', 'tensor')):
        w = Watch(ctx)
        ten = lambda a: torch.tensor(a, dtype=torch.float64)
        y1, y2 = ((np.array(p.y1), np.array(p.y2)) if yform == 'array' else (ten(p.y1), ten(p.y2)) if yform == 'tensor' else
                  ([float(v) for v in p.y1], [float(v) for v in p.y2]))
        g = p.g_arg()
        # write-protecting the states would reject nothing today, yet torch warns about it: checksum only there
        ro = p.backend == 'np'
        w(y1, 'y1', ro), w(y2, 'y2', ro), w(g, 'g', ro)
        kept = []

        def keeper(fn, name):
            if fn is None:
                return None

            def f(x, t):
                out = fn(x, t)
                w2 = Watch(ctx)
                w2(out, 'the array returned by ' + name, yform == 'array')   # protected, or only checksummed
                kept.append(w2)
                return out
            return f
        over = dict(y1=y1, y2=y2, g=g, f=keeper(p.f, 'f'))
        if p.mode != 'plain':
            over['U'] = keeper(p.U, 'U')
        if p.mode == 'bridge':
            over['f_true'] = keeper(p.f_true, 'f_true')
        with ctx.repo('building with %s states and protected arguments' % yform):
            c = p.build(**over)
        w.verify('building the controller')
        for w2 in kept:
            w2.verify('building the controller')
        ctx.count('controllers built')
        first = flows(c)
        for n in ref:
            ctx.require(same(first[n], ref[n]), 'flows differ with protected arguments or kept results', flow=n, states=yform,
                        difference=np.abs(first[n] - ref[n]).max())
        with ctx.repo('queries'):
            q1 = all_queries(ctx, p, c, 5, w)
        w.verify('the queries')
        now = flows(c)
        ctx.require(all(np.array_equal(now[n], first[n]) for n in ref), 'queries, or use of their results, changed the stored flows')
        for a, b in zip(q1, refq):
            ctx.require(same(a, b), 'controls differ with protected arguments', difference=np.abs(a - b).max())
        # the caller reuses the arrays
        for x in [y1, y2, g] + [i[1] for w2 in kept for i in w2.items] + [i[1] for i in w.items]:
            if isinstance(x, np.ndarray):
                if not x.flags.owndata and x.base is not None and isinstance(x.base, np.ndarray):
                    x.base.setflags(write=True)
                x.setflags(write=True)
                x[...] = 1e3
            elif is_tensor(x):
                x.detach().fill_(1e3)
            elif isinstance(x, list):
                x[:] = [1e3] * len(x)
            ctx.count('overwritten arguments')
        now = flows(c)
        ctx.require(all(np.array_equal(now[n], first[n]) for n in ref), 'later changes to the arguments changed the stored flows')
        with ctx.repo('queries'):
            q2 = all_queries(ctx, p, c, 5)
        for a, b in zip(q2, refq):
            ctx.require(same(a, b), 'later changes to the arguments changed the controls', difference=np.abs(a - b).max())


def twin_of(rng, s):
    """another problem of exactly the same sizes, times and mode"""
    t = random_spec(rng, s['backend'], dim=s['dim'], N=s['N'], M=s['M'], steps=int(round(s['T'] / DT)), mode=s['mode'], det=s['det'])
    return dict(t, t1=s['t1'], T=s['T'])


def nested(case, ctx):
    rng = np.random.default_rng(case['seed'])
    mk = lambda b, m, d: Problem(random_spec(rng, b, dim=int(rng.integers(1, 4)), N=int(rng.integers(20, 60)), M=int(rng.integers(12, 25)),
                                             steps=int(rng.integers(14, 26)), mode=m, det=d))
    p = mk(case['backend'], case['mode'], case['det'])
    # one with exactly the same sizes (shared work space of equal shape), one unlike it
    twin = Problem(twin_of(rng, p.spec))
    other = mk(['np', 'torch'][rng.integers(2)], ['plain', 'rw', 'bridge'][rng.integers(3)], bool(rng.integers(2)))
    with ctx.repo('building'):
        a = p.build()
        ref, refq = flows(a), all_queries(ctx, p, a, 9)
        for n in ref:
            ctx.require(np.array_equal(ref[n], flows(a)[n]), 'queries changed the flows')
        tw, ot_ = twin.build(), other.build()
        twf, otf = flows(tw), flows(ot_)
        twq, otq = all_queries(ctx, twin, tw, 3), all_queries(ctx, other, ot_, 4)
        b = p.build()
    fb = flows(b)
    for n in ref:
        ctx.require(same(ref[n], fb[n]), 'flows depend on the controllers built before', flow=n, difference=np.abs(ref[n] - fb[n]).max())
        ctx.require(np.array_equal(ref[n], flows(a)[n]), 'a stored flow was changed by building or querying another controller', flow=n)
    with ctx.repo('queries'):
        for c in (a, b, a):
            q = all_queries(ctx, p, c, 9)
            for x, y in zip(q, refq):
                ctx.require(same(x, y), 'controls depend on the other controllers', difference=np.abs(x - y).max())
            all_queries(ctx, other, ot_, int(rng.integers(1000)))
            ctx.count('queries between', 4)
    for c, f in ((tw, twf), (ot_, otf)):
        ctx.require(all(np.array_equal(flows(c)[n], f[n]) for n in f), 'flows of a controller changed by using another')
    # inside the callbacks
    calls = {'n': 0}
    at = set(int(v) for v in rng.integers(1, 3 * len(to_np(a.timegrid)), 4)) | {3, 4}
    depth = {'d': 0}

    def interrupt(fn):
        if fn is None:
            return None

        def f(x, t):
            calls['n'] += 1
            if depth['d'] == 0 and calls['n'] in at:
                depth['d'] = 1
                s = rng_state('torch')
                q = [twin, other][calls['n'] % 2]
                c2 = q.build()
                all_queries(ctx, q, c2, 3 if q is twin else 4)
                all_queries(ctx, p, a, 11)
                f2 = flows(c2)
                want = twf if q is twin else otf
                for n in want:
                    ctx.require(same(f2[n], want[n]), 'flows of a controller built inside a callback of another differ', flow=n,
                                difference=np.abs(f2[n] - want[n]).max())
                ctx.count('nested controllers')
                set_state(s)
                depth['d'] = 0
            return fn(x, t)
        return f
    over = dict(f=interrupt(p.f))
    if p.mode != 'plain':
        over['U'] = interrupt(p.U)
    if p.mode == 'bridge':
        over['f_true'] = interrupt(p.f_true)
    with ctx.repo('building with other controllers built inside the callbacks'):
        c = p.build(**over)
    fc = flows(c)
    for n in ref:
        ctx.require(same(ref[n], fc[n]), 'flows depend on controllers built and queried meanwhile', flow=n, difference=np.abs(ref[n] - fc[n]).max())
    with ctx.repo('queries'):
        for x, y in zip(all_queries(ctx, p, c, 9), refq):
            ctx.require(same(x, y), 'controls depend on controllers built meanwhile', difference=np.abs(x - y).max())
        for x, y in zip(all_queries(ctx, twin, tw, 3), twq):
            ctx.require(same(x, y), 'controls of another controller changed', difference=np.abs(x - y).max())
        for x, y in zip(all_queries(ctx, other, ot_, 4), otq):
            ctx.require(same(x, y), 'controls of another controller changed', difference=np.abs(x - y).max())
    ctx.count('controllers built', 5)


def order(case, ctx):
    """the same controllers built and queried in several orders, each order in a fresh process"""
    rng = np.random.default_rng(case['seed'])
    specs = []
    for m in ('plain', 'rw', 'bridge'):
        s = random_spec(rng, case['backend'], dim=int(rng.integers(1, 4)), N=int(rng.integers(20, 60)), M=int(rng.integers(12, 25)),
                        steps=int(rng.integers(14, 26)), mode=m, det=bool(rng.integers(2)))
        specs += [s, twin_of(rng, s), twin_of(rng, s)]
    for i, s in enumerate(specs):
        s.update(name='c%d' % i, qseed=int(rng.integers(1 << 30)))
    prog = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'progs', 'rerun.py')
    n = len(specs)
    orders = [list(range(n)), list(range(n))[::-1], [int(v) for v in rng.permutation(n)]]
    with tempfile.TemporaryDirectory() as scratch:
        got = []
        for j, o in enumerate(orders):
            f, out = os.path.join(scratch, 'spec%d.json' % j), os.path.join(scratch, 'out%d.npz' % j)
            json.dump([specs[i] for i in o], open(f, 'w'))
            pr = subprocess.run([sys.executable, '-B', prog, out, f], cwd=scratch, capture_output=True, text=True, timeout=220)
            if pr.returncode == -9:
                raise Inconclusive('killed')
            ctx.require(pr.returncode == 0 and os.path.exists(out), 'building and querying in a fresh process failed', stderr=pr.stderr[-900:])
            got.append(dict(np.load(out)))
        for j in (1, 2):
            for name in got[0]:
                a, b = got[0][name], got[j][name]
                ctx.require(same(a, b), 'flows or controls depend on the controllers built and queried before', item=name, order=orders[j],
                            difference=np.abs(a - b).max() if a.shape == b.shape else None)
                ctx.count('results compared over orders')


def functions(case, ctx):
    import torch
    from DeterministicParticleFlowControl import kernels, reweighting, score_estimators as SE
    rng = np.random.default_rng(case['seed'])
    ten = lambda a: torch.tensor(np.array(a), dtype=torch.float64)
    for rep in range(6):
        dim = int(rng.integers(1, 4))
        x, z, q = cloud(rng, int(rng.integers(5, 50)), dim), cloud(rng, int(rng.integers(3, 20)), dim), cloud(rng, 7, dim)
        l = rng.uniform(0.5, 2, dim)
        calls = []
        for form in ('np', 'torch'):
            mk = (lambda a: np.array(a)) if form == 'np' else ten
            w = Watch(ctx)
            ax, az, aq = (w(mk(v), n) for v, n in ((x, 'samples'), (z, 'inducing points'), (q, 'queries')))
            al = w(mk(l), 'lengthscales')
            if form == 'np':
                for fo in (False, True):
                    for name in ('score_function_multid_seperate', 'score_function_multid_seperate_old'):
                        for d in range(dim):
                            calls.append((w, name, lambda name=name, fo=fo, ax=ax, az=az, aq=aq, al=al, d=d: (
                                lambda r: r(aq) if fo else r)(getattr(SE, name)(ax, az, fo, l=al, which_dim=d + 1))))
                calls.append((w, 'all_dims', lambda ax=ax, az=az, aq=aq, al=al: SE.score_function_multid_seperate_all_dims(ax, az, l=al)))
                calls.append((w, 'all_dims', lambda ax=ax, az=az, aq=aq, al=al: SE.score_function_multid_seperate_all_dims(ax, az, l=al, func_out=True)(aq)))
                wt = w(np.random.default_rng(1).dirichlet(np.ones(len(x))), 'weights')
                wc = w(np.array(wt).reshape(-1, 1), 'weights')
                calls.append((w, 'transport', lambda ax=ax, wt=wt: reweighting.reweight_optimal_transport_multidim(ax, wt)))
                calls.append((w, 'transport', lambda ax=ax, wc=wc: reweighting.reweight_optimal_transport_multidim(ax, wc)))
                if rep == 0:
                    def cd(ax=ax, az=az):
                        o = np.zeros((len(ax), len(az)))
                        SE.my_cdist(ax, az, o, 'euclidean')
                        return o
                    calls.append((w, 'my_cdist', cd))
            ro_ok = form == 'torch'
            calls.append((w, 'torched', lambda ax=ax, az=az, al=al: SE.torched_score_function_multid_seperate_all_dims(ax, az, l=al)))
            calls.append((w, 'torched', lambda ax=ax, az=az, al=al, aq=aq: SE.torched_score_function_multid_seperate_all_dims(ax, az, l=al, func_out=True)(aq)))
            kern = kernels.RBF(length_scale=al, multil=True, signal_variance=1.3)
            calls.append((w, 'kernel', lambda k=kern, ax=ax, az=az: k.Kernel(ax, az)))
            calls.append((w, 'gradient', lambda k=kern, ax=ax, az=az: k.gradient_X(ax, az)))
            calls.append((w, 'kernel', lambda k=kern, ax=ax: k.Kernel(ax)))
        order = rng.permutation(len(calls))
        first, raw = {}, {}
        for i in order:
            w, name, fn = calls[i]
            with ctx.repo(name + ' with protected arguments'):
                raw[i] = fn()
                first[i] = to_np(raw[i]).copy()
            w.verify(name)
            ctx.count('function calls with checksums')
        for i in order:
            w, name, fn = calls[i]
            ctx.require(np.array_equal(to_np(raw[i]), first[i], equal_nan=True), 'the result of %s was changed by a later call' % name)
            ctx.count('results kept over later queries')
        for i in order:
            (w, name, fn), r = calls[i], raw[i]
            if isinstance(r, np.ndarray):
                r.setflags(write=True)
                r[...] = 1e6     # the caller may overwrite a result
            elif is_tensor(r):
                r.detach().fill_(1e6)
            w.verify('writing into the result of ' + name)
        for i in rng.permutation(len(calls)):
            w, name, fn = calls[i]
            with ctx.repo(name):
                r = to_np(fn())
            ctx.require(same(first[i], r), 'the result of %s depends on what was called, or written to its result, before' % name,
                        difference=np.abs(first[i] - r).max())
            ctx.count('function calls with checksums')
