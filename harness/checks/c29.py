"""C29: what each flow may depend on: interventions on the future, on the target, on the other drift, and on the forgotten past."""
import numpy as np

from checks.c17 import close
from lib.core import derive
from lib.problems import DT, Lib, Problem, flows, query, random_spec, to_np

RULE = ('random problems over backend, mode and sampling; each is run again, with the same seed, with another target, with drift or path cost '
        'changed after a random time only, with another true drift, with another bridge drift or path cost, and (shift of the initial state undone by '
        'the drift of one early step) with another past; compared are the parts of the flows that the change must not reach; '
        'non-trivial: at least one intervention, and it changed the parts that it has to reach')
NEED = ['targets changed', 'futures changed', 'future path costs changed', 'true drifts changed', 'bridge drifts changed', 'path costs changed behind the true-drift flow', 'pasts changed',
        'detours judged', 'controls compared']
SOFT = {'quick': 200, 'thorough': 2400}


def cases(tier, seed):
    out, i = [], 0
    for rep in range({'quick': 6, 'thorough': 120}[tier]):
        for b in ('np', 'torch'):
            for m in ('plain', 'rw', 'bridge'):
                for det in (True, False):
                    out.append({'kind': 'future', 'backend': b, 'mode': m, 'det': det, 'rep': rep, 'seed': derive(seed, 'c29', i)})
                    i += 1
            for det in (True, False):
                out.append({'kind': 'past', 'backend': b, 'mode': ('plain', 'rw', 'bridge')[rep % 3], 'det': det, 'rep': rep, 'seed': derive(seed, 'c29p', i)})
                i += 1
            for det in (True, True, False):
                out.append({'kind': 'detour', 'backend': b, 'mode': ('plain', 'rw', 'bridge')[(rep + i) % 3], 'det': det, 'rep': rep, 'seed': derive(seed, 'c29d', i)})
                i += 1
    return out


class Pushed(Problem):
    """a problem whose callbacks can be changed after it was made"""

    def change(self, **fns):
        q = Pushed(self.spec)
        q.y1, q.y2 = self.y1.copy(), self.y2.copy()
        q.f, q.U, q.f_true = self.f, self.U, self.f_true
        for n, v in fns.items():
            setattr(q, n, v)
        return q


def same(ctx, what, a, b, upto=None, **data):
    x, y = (a, b) if upto is None else (a[..., :upto], b[..., :upto])
    ctx.require(close(x, y), what, difference=np.abs(x - y).max() if x.shape == y.shape else str(y.shape), **data)
    ctx.count('bitwise equal', np.array_equal(x, y))


def other(ctx, what, a, b):
    ctx.require(not close(a, b), 'the change has no effect at all (' + what + ')')


def future(case, ctx):
    rng = np.random.default_rng(case['seed'])
    p = Pushed(random_spec(rng, case['backend'], dim=int(rng.integers(1, 4)), N=int(rng.integers(15, 45)), M=int(rng.integers(8, 25)),
                           steps=int(rng.integers(14, 40)), mode=case['mode'], det=case['det'], strength=0.3))
    info = dict(backend=p.backend, mode=p.mode, det=p.det)
    with ctx.repo('building'):
        c = p.build()
    ref = flows(c)
    t = to_np(c.timegrid)
    k = t.size

    def again(**fns):
        with ctx.repo('building with a change'):
            return flows(p.change(**fns).build())

    fw = [n for n in ('Z', 'Ztr') if n in ref]
    spread = ref['Z'][:, :, -1].std(1)
    # the target
    f = again(y2=p.y2 + spread * rng.normal(size=p.dim) + 0.1 * spread)
    for n in fw:
        same(ctx, 'the forward flow depends on the target', ref[n], f[n], flow=n, **info)
    other(ctx, 'target', ref['B'], f['B'])
    ctx.count('targets changed')
    # the future of the drift
    push = float(rng.choice([-1, 1])) * float(rng.choice([0.2, 3.0, 50.0]))
    for s in sorted({0, int(rng.integers(1, k - 3)), int(rng.integers(1, k - 3)), k - 3}):
        lim = t[s] + DT / 2
        late = lambda fn: (lambda x, tt: fn(x, tt) + push * (float(tt) > lim))
        f = again(f=late(p.f))
        same(ctx, 'the forward flow depends on the drift at later times', ref['Z'], f['Z'], s + 2, step=s, steps=k, **info)
        other(ctx, 'drift', ref['Z'], f['Z'])
        if p.mode == 'bridge':
            same(ctx, 'the true-drift flow depends on the bridge drift', ref['Ztr'], f['Ztr'], **info)
            ctx.count('bridge drifts changed')
            f = again(f_true=late(p.f_true))
            same(ctx, 'the true-drift flow depends on the true drift at later times', ref['Ztr'], f['Ztr'], s + 2, step=s, steps=k, **info)
            same(ctx, 'the forward flow depends on the true drift', ref['Z'], f['Z'], **info)
            same(ctx, 'the constrained flow depends on the true drift', ref['B'], f['B'], **info)
            other(ctx, 'true drift', ref['Ztr'], f['Ztr'])
            ctx.count('true drifts changed')
        if p.mode != 'plain':
            sd = float(ref['Z'][0, :, -1].std())

            def cost(x, tt):
                u = p.U(x, tt)
                return u + (0.3 / sd / DT * (x[0] * 1.0).reshape(u.shape)) * (float(tt) > lim)
            f = again(U=cost)
            same(ctx, 'the forward flow depends on the path cost at later times', ref['Z'], f['Z'], s + 1, step=s, steps=k, **info)
            other(ctx, 'path cost', ref['Z'], f['Z'])
            if p.mode == 'bridge':
                same(ctx, 'the true-drift flow depends on the path cost', ref['Ztr'], f['Ztr'], **info)
                ctx.count('path costs changed behind the true-drift flow')
            ctx.count('future path costs changed')
        ctx.count('futures changed')


def past(case, ctx):
    """shifted initial state, the shift undone in the step from time index j on: everything later is as before (up to rounding)"""
    rng = np.random.default_rng(case['seed'])
    spec = random_spec(rng, case['backend'], dim=int(rng.integers(1, 4)), N=int(rng.integers(20, 60)), M=int(rng.integers(12, 30)),
                       steps=int(rng.integers(24, 40)), mode=case['mode'], det=case['det'], kinds=('zero', 'const', 'tosc', 'ou'), strength=0.2)
    p = Pushed(spec)
    t1 = p.t1
    j = int(rng.integers(2, 8))
    lim = t1 + (j + 0.5) * DT                  # the law after this time is p's, before it no force
    now = lambda tt: abs(float(tt) - (t1 + j * DT)) < DT / 4
    late = lambda fn: (lambda x, tt: fn(x, tt) * float(float(tt) > lim))
    calm = {'f': late(p.f)}
    if p.U is not None:
        calm['U'] = late(p.U)
    if p.f_true is not None:
        calm['f_true'] = late(p.f_true)
    a = p.change(**calm)
    shift = (rng.normal(size=p.dim) * float(rng.choice([0.05, 1.0, 4.0]))).reshape(-1, 1)
    back = lambda fn: (lambda x, tt: fn(x, tt) + Lib.of(x).arr(shift / DT, x) * float(now(tt)))
    over = {n: back(calm[n]) for n in ('f', 'f_true') if n in calm}
    b = a.change(y1=p.y1 - shift[:, 0], **over)
    tiny = a.change(y1=p.y1 * (1 + 3e-15) + 1e-17)
    with ctx.repo('building'):
        ca, cb, ct = a.build(), b.build(), tiny.build()
    fa, fb, ft = flows(ca), flows(cb), flows(ct)
    k = fa['Z'].shape[2]
    ctx.require(fa['Z'].shape == fb['Z'].shape, 'another time grid')
    info = dict(backend=p.backend, mode=p.mode, det=p.det, step=j, steps=k, shift=np.abs(shift).max())
    later = slice(j + 1, k)
    loud = False
    for n in fa:
        sd = fa[n][:, :, later].std(1)
        sd = np.maximum(sd, sd.max() * 1e-2)
        d = float((np.abs(fa[n] - fb[n])[:, :, later].max(1) / sd).max())
        nat = float((np.abs(fa[n] - ft[n])[:, :, later].max(1) / sd).max())     # what rounding-size errors do to this run
        if not nat < 3e-6:
            loud = True
            ctx.count('pasts not judged')
            continue
        ctx.require(d < max(1e-6, 1000 * nat), 'a flow still depends on a past that was undone', flow=n, difference_in_spreads=d, natural=nat, **info)
        ctx.worst('past, difference in spreads', d)
        ctx.worst('past, natural difference', nat)
        ctx.count('pasts changed')
    ctx.require(np.abs(fa['Z'] - fb['Z'])[:, :, 1:j].max() > 0.5 * np.abs(shift).max(), 'the change has no effect at all (past)')
    if loud:
        return
    for ti in (max(j + 2, 7), k // 2, k - 7, k - 3):
        x = fa['B'][:, :5, ti].T
        us = []
        for q in (ca, cb, ct):
            p.seed_all(5)
            with ctx.repo('querying'):
                us.append(query(q, p.backend, x, ti))
        size = np.abs(us[0]).max() + 1 / float(fa['B'][:, :, ti].std(1).min())
        d, nat = np.abs(us[0] - us[1]).max() / size, np.abs(us[0] - us[2]).max() / size
        if nat < 1e-5:
            ctx.require(d < max(1e-5, 1000 * nat), 'controls still depend on a past that was undone', time_index=ti, difference=d, natural=nat, **info)
            ctx.worst('past, difference of controls', d)
            ctx.count('controls compared')


def detour(case, ctx):
    """another past altogether: the cloud is thrown elsewhere, kept there, and brought back to the places where the first run had it"""
    rng = np.random.default_rng(case['seed'])
    p = Pushed(random_spec(rng, case['backend'], dim=int(rng.integers(1, 4)), N=int(rng.integers(20, 60)), M=int(rng.integers(12, 30)), steps=int(rng.integers(24, 40)),
                           mode=case['mode'], det=case['det'], kinds=('zero', 'const', 'tosc', 'ou', 'dw'), strength=0.2))
    t1, T0 = p.t1, p.t1
    j = int(rng.integers(3, 9))
    idx = lambda tt: int(round((float(tt) - T0) / DT))
    a = p.change(U=(lambda x, tt: p.U(x, tt) * float(idx(tt) > j + 1)) if p.U is not None else None)
    with ctx.repo('building'):
        ca = a.build()
    fa = flows(ca)
    k = fa['Z'].shape[2]
    wide = 2.0 ** rng.integers(24, 28, (p.dim, 1)) * rng.choice([-1.0, 1.0], (p.dim, 1))
    near = 2.0 ** rng.integers(1, 4, (p.dim, 1)) * rng.choice([-1.0, 1.0], (p.dim, 1))

    def bent(fn, n, noisy, err=0.0):
        Z = fa[n]
        z0 = Z[:, :, 0][:, :1]

        def g(x, tt):
            i = idx(tt)
            X = to_np(x)
            if i > j or i < 1 or X.shape != Z.shape[:2]:
                return fn(x, tt)
            L = Lib.of(x)
            if i == j:          # back to where the first run was
                goal = Z[:, :, j] + DT * to_np(fn(L.arr(Z[:, :, j], x), tt)) if noisy else Z[:, :, j + 1]
                # errors of rounding size, for the natural difference
                goal = goal + err * Z[:, :, j + 1].std(1, keepdims=True) * np.sin(1e3 * Z[:, :, j + 1] / Z[:, :, j + 1].std(1, keepdims=True))
                return L.arr((goal - X) / DT, x)
            return L.arr(((near if noisy else wide) - 1) * (X - z0) / DT, x) if i == 1 else x * 0.0
        return g
    def other_past(err=0.0):
        over = {'f': bent(a.f, 'Z', not p.det, err)}
        if a.f_true is not None:
            over['f_true'] = bent(a.f_true, 'Ztr', False, err)
        with ctx.repo('building with another past'):
            return a.change(**over).build()
    # the callbacks only act while the forward flows pass: backward they are those of the first run again
    cb = other_past()
    small = 1e-7 if p.det or p.mode == 'bridge' else 1e-12
    cn = other_past(small)
    fb, fn_ = flows(cb), flows(cn)
    info = dict(backend=p.backend, mode=p.mode, det=p.det, step=j, steps=k)
    ctx.require(np.abs(fa['Z'] - fb['Z'])[:, :, 2:j + 1].max() > 0.3 * fa['Z'][:, :, j].std(1).min(), 'the change has no effect at all (detour)')
    later = slice(j + 1, k)
    for n in fa:
        sd = fa[n][:, :, later].std(1)
        sd = np.maximum(sd, sd.max() * 1e-2)
        d = float((np.abs(fa[n] - fb[n])[:, :, later].max(1) / sd).max())
        nat = float((np.abs(fb[n] - fn_[n])[:, :, later].max(1) / sd).max())
        if not nat < 3e-4:
            ctx.count('detours not judged')
            continue
        ctx.require(d < max(1e-4, 300 * nat), 'a flow depends on more of the past than where the particles are', flow=n, difference_in_spreads=d, natural=nat, **info)
        ctx.worst('detour, difference in spreads', d)
        ctx.worst('detour, natural difference', nat)
        ctx.count('detours judged')


def run(case, ctx):
    {'future': future, 'past': past, 'detour': detour}[case['kind']](case, ctx)
