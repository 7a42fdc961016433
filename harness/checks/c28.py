"""C28: the same problem put in every form the interface admits, and with options that have no bearing on it."""
import functools

import numpy as np

from checks.c17 import close
from lib.core import derive
from lib.problems import Problem, flows, is_tensor, query, random_spec, to_np

RULE = ('random problems over backend, mode and sampling, built once plainly and then once per variant with the same seed: arguments by '
        'position, by name in another order, with defaults written out, other number types, state, diffusion and callback forms, '
        'results in other layouts and in a reused buffer, options without bearing; also other forms of the queries; a few variants '
        'that are other problems as a control; non-trivial: at least one variant compared and the control gave other flows')
NEED = ['variants compared', 'by position', 'number types', 'diffusion forms', 'state forms', 'callback forms', 'callback results',
        'options without bearing', 'query forms', 'whole-numbered intervals', 'other problems']
SOFT = {'quick': 200, 'thorough': 2400}
ORDER = ('t1', 't2', 'y1', 'y2', 'f', 'g', 'N', 'M', 'reweight', 'U', 'dens_est', 'reject', 'kern', 'f_true', 'brown_bridge', 'deterministic', 'device')
DEFAULTS = dict(reweight=False, U=None, dens_est='nonparametric', reject=True, kern='RBF', f_true=None, brown_bridge=False, deterministic=True)


def cases(tier, seed):
    out, i = [], 0
    for rep in range({'quick': 4, 'thorough': 80}[tier]):
        for b in ('np', 'torch'):
            for m in ('plain', 'rw', 'bridge'):
                for det in (True, False):
                    out.append({'kind': 'forms', 'backend': b, 'mode': m, 'det': det, 'rep': rep, 'seed': derive(seed, 'c28', i)})
                    i += 1
    for rep in range({'quick': 1, 'thorough': 6}[tier]):
        for b in ('np', 'torch'):
            for m in ('plain', 'bridge'):
                out.append({'kind': 'whole', 'backend': b, 'mode': m, 'det': bool((rep + (m == 'plain')) % 2), 'rep': rep, 'seed': derive(seed, 'c28w', i)})
                i += 1
    return out


class Called(Exception):
    pass


def never(x, t):
    raise Called('a callback without bearing on the problem was called')


class Obj:
    """callbacks that are not plain functions"""

    def __init__(self, fn):
        self.fn = fn

    def __call__(self, a, b):
        return self.fn(a, b)

    def method(self, pos, /, when=0.0):
        return self.fn(pos, when)


def by_partial(extra, x, t):
    return extra(x, t)


FORMS = {'callable object': lambda f: Obj(f), 'bound method': lambda f: Obj(f).method, 'partial': lambda f: functools.partial(by_partial, f),
         'other names': lambda f: (lambda position, moment: f(position, moment)), 'optional time': lambda f: (lambda x, t=None: f(x, t)),
         'any arguments': lambda f: (lambda *a: f(*a))}


def buffered(fn):
    """always the same array, overwritten at the next call (one per shape)"""
    store = {}

    def g(x, t):
        r = fn(x, t)
        b = store.get(tuple(r.shape))
        if b is None:
            b = store[tuple(r.shape)] = r.clone() if is_tensor(r) else np.array(r)
        elif is_tensor(b):
            b.copy_(r)
        else:
            b[...] = r
        return b
    return g


def laid_out(how):
    def wrap(fn):
        def g(x, t):
            r = fn(x, t)
            if is_tensor(r):
                if how == 'columns first' and r.dim() == 2:
                    return r.t().contiguous().t()
                if how == 'every other':
                    import torch
                    big = torch.full(tuple(r.shape[:-1]) + (2 * r.shape[-1],), float('nan'), dtype=r.dtype)
                    big[..., ::2] = r
                    return big[..., ::2]
                return r.clone()
            r = np.asarray(r)
            if how == 'columns first':
                return np.asfortranarray(r)
            if how == 'every other':
                big = np.full(r.shape[:-1] + (2 * r.shape[-1],), np.nan)
                big[..., ::2] = r
                return big[..., ::2]
            if how == 'backwards':
                return np.ascontiguousarray(r[..., ::-1])[..., ::-1]
            r = r.copy()
            r.flags.writeable = False
            return r
        return g
    return wrap


def base(p):
    kw = dict(t1=p.t1, t2=p.t2, y1=p.y1.copy(), y2=p.y2.copy(), f=p.f, g=p.g_arg(), N=p.N, M=p.M, deterministic=p.det)
    if p.mode != 'plain':
        kw.update(reweight=True, U=p.U)
    if p.mode == 'bridge':
        kw.update(brown_bridge=True, f_true=p.f_true)
    if p.backend == 'torch':
        kw['device'] = 'cpu'
    return kw


def make(p, args, kw):
    import DeterministicParticleFlowControl as D
    p.seed_all()
    return (D.torched_DPFC if p.backend == 'torch' else D.DPFC)(*args, **kw)


def variants(p, rng):
    """(group, name, positional arguments, named arguments)"""
    kw = base(p)
    out = []

    def add(group, name, **over):
        out.append((group, name, (), dict(kw, **over)))

    full = dict(DEFAULTS, **kw)
    names = [n for n in ORDER if n in full]
    for k in (8, len(names), int(rng.integers(1, len(names)))):
        rest = {n: full[n] for n in names[k:] if n in kw or k > 8}
        out.append(('by position', 'first %d' % k, tuple(full[n] for n in names[:k]), rest))
    sh = list(full)
    rng.shuffle(sh)
    out.append(('by position', 'named in another order, defaults written out', (), {n: full[n] for n in sh}))

    add('number types', 'numpy particle numbers', N=np.int64(p.N), M=np.int32(p.M))
    add('number types', 'numpy times', t1=np.float64(p.t1), t2=np.float64(p.t2))
    if float(p.t1).is_integer():
        add('number types', 'whole initial time', t1=int(p.t1))
    if float(p.t2).is_integer():
        add('number types', 'whole end time', t2=int(p.t2))
        add('number types', 'whole times', t1=int(p.t1), t2=np.int64(p.t2))
    add('number types', 'numpy truth values', **{n: np.bool_(v) for n, v in full.items() if isinstance(v, bool)})
    add('number types', 'numbers for truth values', **{n: int(v) for n, v in full.items() if isinstance(v, bool)})

    gs = np.ravel(p.gcol) * np.ones(p.dim)
    if np.all(gs == gs[0]):
        for n, g in (('float', float(gs[0])), ('numpy float', np.float64(gs[0])), ('zero-dimensional', np.array(gs[0])), ('list', [float(v) for v in gs]),
                     ('tuple', tuple(float(v) for v in gs)), ('array', gs.copy()), ('column', gs.reshape(-1, 1).copy())):
            add('diffusion forms', n, g=g)
        if gs[0] == int(gs[0]):
            add('diffusion forms', 'whole number', g=int(gs[0]))
    else:
        big = np.repeat(gs, 2)
        for n, g in (('list', [float(v) for v in gs]), ('tuple', tuple(float(v) for v in gs)), ('array', gs.copy()), ('column', gs.reshape(-1, 1).copy()),
                     ('numpy floats', [np.float64(v) for v in gs]), ('every other', big[::2])):
            add('diffusion forms', n, g=g)

    ro = [p.y1.copy(), p.y2.copy()]
    for a in ro:
        a.flags.writeable = False
    add('state forms', 'read only', y1=ro[0], y2=ro[1])
    add('state forms', 'lists', y1=[float(v) for v in p.y1], y2=[float(v) for v in p.y2])
    add('state forms', 'tuples', y1=tuple(float(v) for v in p.y1), y2=tuple(float(v) for v in p.y2))
    add('state forms', 'every other', y1=np.repeat(p.y1, 2)[::2], y2=np.repeat(p.y2, 3)[::3])
    if all(float(v).is_integer() for v in (*p.y1, *p.y2)):
        i1, i2 = p.y1.astype(int), p.y2.astype(int)
        add('state forms', 'whole arrays', y1=i1, y2=i2)
        add('state forms', 'whole lists', y1=i1.tolist(), y2=i2.tolist())
        add('state forms', 'whole tuple and list', y1=tuple(i1.tolist()), y2=[float(v) for v in i2])
    add('state forms', 'array and list', y1=p.y1.copy(), y2=[float(v) for v in p.y2])
    if p.backend == 'torch':
        import torch
        add('state forms', 'tensors', y1=torch.tensor(p.y1), y2=torch.tensor(p.y2))
        add('state forms', 'strided tensors', y1=torch.tensor(np.repeat(p.y1, 2))[::2], y2=torch.tensor(np.repeat(p.y2, 3))[::3])
        add('number types', 'device object', device=torch.device('cpu'))
        out.append(('number types', 'no device', (), {n: v for n, v in kw.items() if n != 'device'}))
        add('number types', 'device None', device=None)

    cb = [n for n in ('f', 'U', 'f_true') if kw.get(n) is not None]
    for name, w in FORMS.items():
        add('callback forms', name, **{n: w(kw[n]) for n in cb})
    for how in ('columns first', 'every other', 'backwards', 'read only'):
        add('callback results', how, **{n: laid_out(how)(kw[n]) for n in cb})
    add('callback results', 'reused buffer', **{n: buffered(kw[n]) for n in cb})
    if p.mode != 'plain':
        row = lambda x, t: kw['U'](x, t).reshape(1, -1)
        flat = lambda x, t: kw['U'](x, t).reshape(-1)
        add('callback results', 'path cost as a row', U=row)
        add('callback results', 'path cost as a vector', U=flat)

    add('options without bearing', 'reject', reject=False)
    add('options without bearing', 'reject and density estimation', reject=True, dens_est='nonparametric', kern='RBF')
    if p.mode == 'plain':
        add('options without bearing', 'path cost without reweighting', U=never)
        add('options without bearing', 'true drift without bridge', f_true=never)
        add('options without bearing', 'everything for a bridge but reweighting', U=never, f_true=never, brown_bridge=True)
        add('options without bearing', 'explicitly nothing', U=None, f_true=None, reweight=False, brown_bridge=False)
    if p.mode == 'rw':
        add('options without bearing', 'true drift without bridge', f_true=never)
        add('options without bearing', 'explicitly no bridge', f_true=None, brown_bridge=False)
    return out


def controls(p, c, pts, seed=77):
    out = []
    for ti, x in pts:
        p.seed_all(seed)
        out.append(query(c, p.backend, x, ti))
    return out


def query_forms(ctx, p, c, pts, refq):
    for (ti, x), ref in zip(pts, refq):
        forms = [('columns first', np.asfortranarray(x)), ('rows of a larger array', np.repeat(x, 2, 0)[::2]), ('columns of a larger array', np.repeat(x, 2, 1)[:, ::2])]
        ro = x.copy()
        ro.flags.writeable = False
        forms.append(('read only', ro))
        if p.backend == 'torch':
            import torch
            forms = [(n, torch.tensor(np.array(v))) for n, v in forms[:1]] + [
                ('columns first', torch.tensor(x.T.copy()).t()), ('rows of a larger tensor', torch.tensor(np.repeat(x, 2, 0))[::2]),
                ('columns of a larger tensor', torch.tensor(np.repeat(x, 2, 1))[:, ::2])]
        tis = [('int', int(ti)), ('numpy integer', np.int64(ti)), ('small numpy integer', np.int32(ti))]
        for n, v in forms:
            for tn, t in tis:
                p.seed_all(77)
                u = to_np(c.calculate_u(v, t))
                ctx.require(close(ref, u), 'controls depend on the form of the query', form=n, index=tn, time_index=ti, backend=p.backend,
                            mode=p.mode, difference=np.abs(ref - u).max() if ref.shape == u.shape else str(u.shape))
                ctx.count('query forms')
        p.seed_all(77)
        u = to_np(c.calculate_u(ti=ti, grid_x=forms[0][1]))
        ctx.require(close(ref, u), 'controls depend on whether the query is by name', time_index=ti, backend=p.backend)


def run(case, ctx):
    rng = np.random.default_rng(case['seed'])
    whole = case['kind'] == 'whole'
    spec = random_spec(rng, case['backend'], dim=int(rng.integers(1, 4)), N=int(rng.integers(12, 30)), M=int(rng.integers(8, 16)),
                       steps=int(rng.integers(14, 24)), mode=case['mode'], det=case['det'])
    if case['kind'] == 'forms' and rng.integers(2):     # one coefficient for all
        spec['g'] = {'form': 'list', 'val': [float(spec['g']['val'][0])] * spec['dim']}
    if rng.integers(2):
        spec['t1'] = float(rng.integers(-3, 4))
    if whole:
        spec.update(N=12, M=8, t1=float(rng.integers(-2, 3)), T=1.0, g={'form': 'scalar', 'val': [1.0]}, f={'kind': 'ou', 'a': [1.0] * spec['dim'], 'b': [0.0] * spec['dim']})
        spec.update(y1=[float(v) for v in rng.integers(-1, 2, spec['dim'])], y2=[0.0] * spec['dim'])
        if case['mode'] == 'bridge':
            spec.update(f={'kind': 'bridge', 'soft': 0.02}, f_true={'kind': 'ou', 'a': [1.0] * spec['dim'], 'b': [0.0] * spec['dim']},
                        U={'kind': 'quad', 'a': 1.0, 'c': [0.0] * spec['dim']})
    p = Problem(spec)
    with ctx.repo('building'):
        a = make(p, (), base(p))
    ref = flows(a)
    k = to_np(a.timegrid).size
    pts = [(ti, ref['B'][:, :4, ti].T.copy()) for ti in (2, 7, k // 2, k - 3)]
    with ctx.repo('querying'):
        refq = controls(p, a, pts)
        query_forms(ctx, p, a, pts, refq)
    todo = variants(p, rng)
    if whole:
        todo = [v for v in todo if 'whole' in v[1] or v[1] == 'numpy times']
        ctx.require(len(todo) >= 6, 'harness: too few variants')
    for group, name, args, kw in todo:
        what = 'building (%s: %s)' % (group, name)
        with ctx.repo(what):
            c = make(p, args, kw)
            q = controls(p, c, pts)
        f = flows(c)
        ctx.require(sorted(f) == sorted(ref), 'other flows stored', variant=name, backend=p.backend, mode=p.mode)
        ctx.require(np.array_equal(to_np(a.timegrid), to_np(c.timegrid)), 'another time grid', variant=name, backend=p.backend, mode=p.mode)
        for n in ref:
            ctx.require(close(ref[n], f[n]), 'the same problem in another form has other flows', group=group, variant=name, flow=n, backend=p.backend,
                        mode=p.mode, det=p.det, difference=np.abs(ref[n] - f[n]).max() if ref[n].shape == f[n].shape else str(f[n].shape))
            ctx.count('bitwise equal flows', np.array_equal(ref[n], f[n]))
        for x, y in zip(refq, q):
            ctx.require(close(x, y), 'the same problem in another form has other controls', group=group, variant=name, backend=p.backend, mode=p.mode,
                        difference=np.abs(x - y).max() if x.shape == y.shape else str(y.shape))
        ctx.count('variants compared')
        ctx.count(group)
        ctx.count('whole-numbered intervals', whole and 'whole' in name)
    # other problems
    kw = base(p)
    for over in (dict(g=np.ravel(p.gcol)[0] * 1.01), dict(y2=p.y2 + 0.01), dict(f=lambda x, t: p.f(x, t) + 0.05)):
        with ctx.repo('building another problem'):
            c = make(p, (), dict(kw, **over))
        ctx.require(not close(ref['B'], flows(c)['B']), 'another problem gives the same flows: the check would not see anything', what=sorted(over))
        ctx.count('other problems')
