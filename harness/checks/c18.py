"""C18: the same problem solved by both controllers, and the same stored flows queried through both."""
import numpy as np

from lib.core import derive
from lib.problems import Problem, flows, is_tensor, query, random_spec, to_np

RULE = ('random problems over dimension, diffusion form, mode and sampling; each solved several times by each backend (mean and spread of '
        'every flow at nine times compared by t tests between the replicates, beyond a small systematic allowance), and the same '
        'flows put into a numpy and a PyTorch controller and queried with many independent inducing points; the PyTorch controller '
        'built again from states as arrays, tensors, mixtures and columns; non-trivial: all')
NEED = ['moments compared', 'controls compared', 'state forms compared', 'replicates', 'shared flows']
SOFT = {'quick': 300, 'thorough': 2700}


def cases(tier, seed):
    out, i = [], 0
    for rep in range({'quick': 3, 'thorough': 40}[tier]):
        for m in ('plain', 'rw', 'bridge'):
            for det in (True, False):
                out.append({'kind': 'moments', 'mode': m, 'det': det, 'dim': 1 + (i + rep) % 3, 'rep': rep, 'tier': tier, 'seed': derive(seed, 'c18', i)})
                i += 1
            out.append({'kind': 'controls', 'mode': m, 'det': bool(rep % 2), 'dim': 1 + (i + rep) % 3, 'rep': rep, 'seed': derive(seed, 'c18', i)})
            i += 1
            out.append({'kind': 'samebox', 'mode': m, 'det': bool(rep % 2), 'dim': 1 + rep % 2, 'rep': rep, 'seed': derive(seed, 'c18', i)})
            i += 1
            out.append({'kind': 'forms', 'mode': m, 'det': bool(rep % 2), 'dim': 1 + (i + rep) % 3, 'rep': rep, 'seed': derive(seed, 'c18', i)})
            i += 1
    return out


def run(case, ctx):
    rng = np.random.default_rng(case['seed'])
    globals()[case['kind']](case, rng, ctx)


def moments(case, rng, ctx):
    big = case['mode'] == 'plain'
    R = {'quick': 5, 'thorough': 10}[case['tier']] * (1 if big else 2)
    spec = random_spec(rng, 'np', dim=case['dim'], N=1000 if big else 200, M=100, steps=int(rng.integers(40, 60)), mode=case['mode'],
                       det=case['det'], z=0.8, strength=0.3, ukinds=('quad', 'wall', 'lin'), glo=0.5, ghi=1.2, yform='array')
    got = {}
    for b in ('np', 'torch'):
        p = Problem(dict(spec, backend=b))
        runs = []
        for r in range(R):
            with ctx.repo('building (%s)' % b):
                runs.append(flows(p.build(seed=derive(case['seed'], b, r) % (1 << 30))))
            ctx.count('replicates')
        got[b] = runs
    ctx.require(sorted(got['np'][0]) == sorted(got['torch'][0]), 'not the same flows in both backends', np=sorted(got['np'][0]), torch=sorted(got['torch'][0]))
    info = dict(mode=case['mode'], deterministic=case['det'], dim=case['dim'], spec=spec)
    for n in got['np'][0]:
        A, B = np.array([f[n] for f in got['np']]), np.array([f[n] for f in got['torch']])
        ctx.require(A.shape == B.shape, 'flows of different shape', flow=n, np=A.shape, torch=B.shape, **info)
        k = A.shape[3]
        at = sorted({2, 4, 7, k // 4, k // 2, 3 * k // 4, k - 7, k - 4, k - 3})
        sd = 0.5 * (A.std(2).mean(0) + B.std(2).mean(0))[:, at]          # spread of the cloud, dim x times
        for what, a, b in (('mean', A.mean(2)[..., at] / sd, B.mean(2)[..., at] / sd),
                           ('spread', np.log(A.std(2)[..., at]), np.log(B.std(2)[..., at]))):
            d = a.mean(0) - b.mean(0)
            v = (a.var(0, ddof=1) + b.var(0, ddof=1)) / R + 1e-8
            se = np.sqrt(np.maximum(v, v.mean()))
            # in few dimensions the inducing points of the constrained flow are spread over the common box (numpy) or both boxes (PyTorch)
            wide = 0.5 if case['dim'] == 3 and n == 'B' else 0.25 if n == 'B' else 0.0
            allowed = (0.05 if big else 0.12) + wide + 7 * se
            ratio = np.abs(d) / allowed
            ctx.worst('difference over allowance, %s of %s' % (what, n), ratio.max())
            ctx.worst('difference, %s of %s' % (what, n), np.abs(d).max())
            ctx.worst('smallest detectable, %s of %s' % (what, n), np.median(allowed))
            i = np.unravel_index(ratio.argmax(), ratio.shape)
            ctx.require(ratio.max() < 1, 'the backends disagree about the %s of a flow' % what, flow=n, difference=d[i], allowed=allowed[i], dim_index=i[0],
                        time_index=at[i[1]], k=k, **info)
            ctx.count('moments compared', d.size)


def put(ctrl, F):
    """replaces the stored flows by F"""
    for n, v in F.items():
        old = getattr(ctrl, n)
        if is_tensor(old):
            import torch
            v = torch.tensor(v, dtype=old.dtype)
        else:
            v = v.copy()
        setattr(ctrl, n, v)


def controls(case, rng, ctx):
    spec = random_spec(rng, 'np', dim=case['dim'], N=300 if case['mode'] == 'plain' else 150, M=80, steps=int(rng.integers(40, 70)), mode=case['mode'],
                       det=case['det'], z=0.8, strength=0.1, ukinds=('quad', 'wall', 'lin'), glo=0.5, ghi=1.2, yform='array')
    cs = {}
    for b in ('np', 'torch'):
        p = Problem(dict(spec, backend=b))
        with ctx.repo('building (%s)' % b):
            cs[b] = p.build()
    src = ('np', 'torch')[case['rep'] % 2]
    F = flows(cs[src])
    # flows of unlike spread, so that taking one for another shows
    for n, a in zip(('Z', 'B', 'Ztr'), [(1.0, 1.0, 1.0), (1.7, 1.0, 1.0), (0.6, 1.0, 1.3), (1.0, 1.0, 0.6)][int(rng.integers(1, 4)) if case['rep'] % 3 != 1 else 0]):
        if n in F:
            m = F[n].mean(1, keepdims=True)
            F[n] = m + a * (F[n] - m)
    for b in cs:
        put(cs[b], F)
        ctx.count('shared flows')
    k = F['B'].shape[2]
    R = 60
    for ti in (2, 5, 6, k // 3, k // 2, k - 9, k - 6, k - 5, k - 2):
        x = F['B'][:, :12, ti].T + 0
        if case['mode'] == 'bridge':
            x = 0.5 * (x + F['Ztr'][:, :12, ti].T)
        u = {}
        for b in cs:
            Problem(dict(spec, backend=b)).seed_all(derive(case['seed'], b, ti) % (1 << 30))
            with ctx.repo('queries (%s)' % b):
                u[b] = np.array([query(cs[b], b, x, ti) for _ in range(R)])
        info = dict(mode=case['mode'], dim=case['dim'], ti=ti, k=k, flows_from=src)
        ctx.require(u['np'].shape == u['torch'].shape == (R, case['dim'], 12), 'controls of different shape', np=u['np'].shape, torch=u['torch'].shape, **info)
        scale = np.abs(u['np']).mean((0, 2)) + np.abs(u['torch']).mean((0, 2)) + 1 / F['B'][:, :, ti].std(1)
        med = {b: np.median(u[b], axis=0) for b in u}
        iqr = {b: np.subtract(*np.quantile(u[b], [0.75, 0.25], axis=0)) for b in u}
        d = np.abs(med['np'] - med['torch'])
        allowed = (0.3 if 5 < ti < k - 5 else 0.03) * scale[:, None] + 1.5 * (iqr['np'] + iqr['torch'])
        ratio = np.median(d / allowed, axis=1).max()
        ctx.worst('control difference over allowance, %s' % case['mode'], ratio)
        ctx.worst('control difference over scale, %s' % case['mode'], np.median(d / scale[:, None], axis=1).max())
        ctx.require(ratio < 1, 'the backends give different controls for the same flows', difference=d.max(), scale=scale, ratio=ratio, **info)
        ctx.count('controls compared', d.size)


def samebox(case, rng, ctx):
    """flows reshaped to one bounding box, of which both backends draw their inducing points alike: the controls have one distribution"""
    spec = random_spec(rng, 'np', dim=case['dim'], N=150, M=200, steps=int(rng.integers(20, 30)), mode=case['mode'], det=case['det'], z=0.8,
                       strength=0.1, ukinds=('quad', 'wall', 'lin'), glo=0.5, ghi=1.2, yform='array')
    cs = {}
    for b in ('np', 'torch'):
        with ctx.repo('building (%s)' % b):
            cs[b] = Problem(dict(spec, backend=b)).build()
    F = flows(cs[('np', 'torch')[case['rep'] % 2]])
    k = F['B'].shape[2]
    fw = 'Ztr' if case['mode'] == 'bridge' else 'Z'
    for n, e in ((fw, 0.5), ('B', 1.3)):
        lo, hi = F[n].min(1, keepdims=True)[:, :, 1:-1], F[n].max(1, keepdims=True)[:, :, 1:-1]
        v = 2 * (F[n][:, :, 1:-1] - lo) / (hi - lo) - 1
        v = np.sign(v) * np.abs(v) ** e
        if n == fw:
            box = (lo, hi)
        F[n][:, :, 1:-1] = box[0] + (v + 1) / 2 * (box[1] - box[0])
    if fw == 'Ztr':
        m = F['Z'].mean(1, keepdims=True)
        F['Z'] = m + 4.0 * (F['Z'] - m)
    for b in cs:
        put(cs[b], F)
        ctx.count('shared flows')
    R = 40
    for ti in (2, 6, 7, k // 2, k - 7, k - 6, k - 4):
        x = 0.5 * (F['B'][:, :12, ti] + F[fw][:, 12:24, ti]).T
        u = {}
        for b in cs:
            Problem(dict(spec, backend=b)).seed_all(derive(case['seed'], b, ti) % (1 << 30))
            with ctx.repo('queries (%s)' % b):
                u[b] = np.array([query(cs[b], b, x, ti) for _ in range(R)])
        info = dict(mode=case['mode'], dim=case['dim'], ti=ti, k=k)
        ctx.require(u['np'].shape == u['torch'].shape == (R, case['dim'], 12), 'controls of different shape', np=u['np'].shape, torch=u['torch'].shape, **info)
        scale = np.abs(u['np']).mean((0, 2)) + np.abs(u['torch']).mean((0, 2)) + 1 / F['B'][:, :, ti].std(1)
        med = {b: np.median(u[b], axis=0) for b in u}
        sd = {b: np.subtract(*np.quantile(u[b], [0.8, 0.2], axis=0)) / 1.68 for b in u}
        d = np.abs(med['np'] - med['torch'])
        allowed = (0.005 if 5 < ti < k - 5 else 0.02) * scale[:, None] + 6 * 1.25 * np.sqrt((sd['np'] ** 2 + sd['torch'] ** 2) / R)
        ratio = np.median(d / allowed, axis=1).max()
        ctx.worst('same box, control difference over allowance', ratio)
        ctx.worst('same box, control difference over scale', np.median(d / scale[:, None], axis=1).max())
        ctx.worst('same box, allowance over scale', np.median(allowed / scale[:, None], axis=1).max())
        ctx.require(ratio < 1, 'the backends give different controls for the same flows in one box', difference=d.max(), scale=scale, ratio=ratio, **info)
        ctx.count('controls compared', d.size)


def forms(case, rng, ctx):
    import torch
    spec = random_spec(rng, 'torch', dim=case['dim'], N=40, M=25, steps=int(rng.integers(14, 30)), mode=case['mode'], det=case['det'], yform='array')
    p = Problem(spec)

    def t(v):
        return torch.tensor(v, dtype=torch.float64)
    with ctx.repo('building'):
        c0 = p.build()
    F = flows(c0)
    k = F['Z'].shape[2]
    x = F['B'][:, :5, k // 2].T
    p.seed_all(3)
    u0 = query(c0, 'torch', x, k // 2)
    for name, y1, y2 in (('tensors', t(p.y1), t(p.y2)), 
                         ('lists', p.y1.tolist(), p.y2.tolist()), ('strided arrays', np.repeat(p.y1, 2)[::2], np.repeat(p.y2, 3)[::3])):
        info = dict(states=name, mode=p.mode, deterministic=p.det, dim=p.dim)
        with ctx.repo('building from %s' % name):
            c1 = p.build(y1=y1, y2=y2)
        G = flows(c1)
        for n in F:
            ctx.require(G[n].shape == F[n].shape and np.array_equal(G[n], F[n]), 'flows depend on how the states are given', flow=n, **info)
        p.seed_all(3)
        with ctx.repo('query of the controller from %s' % name):
            u1 = query(c1, 'torch', x, k // 2)
        ctx.require(np.array_equal(u0, u1), 'controls depend on how the states are given', **info)
        ctx.count('state forms compared')
