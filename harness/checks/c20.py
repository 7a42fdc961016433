"""C20: the coverage query against the definition, at states on, next to, inside and outside the boundaries of both flows."""
import numpy as np

from lib.core import derive
from lib.problems import Problem, flows, random_spec, is_tensor

RULE = ('random controllers of both backends (plain, reweighted, bridge; deterministic, stochastic; 1-4 dimensions) and every 3rd time index '
        'including both ends, queried at the particles, box corners, faces, the neighbouring floating point numbers on both sides, '
        'points between, inside one flow only, far away, infinite; state given as array, list, tuple or tensor; non-trivial: all')
NEED = ['queries', 'covered states', 'uncovered states', 'boundary states', 'states in one flow only', 'states just outside',
        'states outside in the last dimension only', 'numpy controllers', 'torch controllers']
SOFT = {'quick': 200, 'thorough': 2400}


def cases(tier, seed):
    out, i = [], 0
    for rep in range({'quick': 3, 'thorough': 40}[tier]):
        for b in ('np', 'torch'):
            for m in ('plain', 'rw', 'bridge'):
                for dim in (1, 2, 3, 4):
                    out.append({'backend': b, 'mode': m, 'dim': dim, 'det': bool((i + rep) % 3), 'rep': rep, 'seed': derive(seed, 'c20', i)})
                    i += 1
    return out


def run(case, ctx):
    rng = np.random.default_rng(case['seed'])
    dim = case['dim']
    spec = random_spec(rng, backend=case['backend'], dim=dim, mode=case['mode'], det=case['det'], N=int(rng.integers(12, 50)), M=20,
                       steps=int(rng.integers(12, 40)), z=2.5)
    p = Problem(spec)
    with ctx.repo('building'):
        c = p.build()
    ctx.count('torch controllers' if p.backend == 'torch' else 'numpy controllers')
    fl = flows(c)
    Z, B = fl['Z'], fl['B']
    k = Z.shape[2]
    for ti in sorted(set(range(0, k, 3)) | {1, k - 2, k - 1}):
        lz, hz, lb, hb = Z[:, :, ti].min(1), Z[:, :, ti].max(1), B[:, :, ti].min(1), B[:, :, ti].max(1)
        lo, hi = np.maximum(lz, lb), np.minimum(hz, hb)
        pts = []
        pts += [('particle', Z[:, j, ti]) for j in rng.integers(Z.shape[1], size=2)]
        pts += [('particle', B[:, j, ti]) for j in rng.integers(Z.shape[1], size=2)]
        mid = (lo + hi) / 2
        pts.append(('middle', mid))
        pts.append(('inside', lo + (hi - lo) * rng.random(dim)))
        for d in range(dim):
            for v in (lz[d], hz[d], lb[d], hb[d]):
                for w, name in ((v, 'boundary'), (np.nextafter(v, np.inf), 'next'), (np.nextafter(v, -np.inf), 'next')):
                    x = mid.copy()
                    x[d] = w
                    pts.append((name, x))
            x = mid.copy()
            x[d] = [np.inf, -np.inf, 1e9, -1e9][rng.integers(4)]
            pts.append(('far', x))
        pts.append(('corner', np.where(rng.integers(2, size=dim), lo, hi)))
        pts.append(('corner', lo.copy()))
        pts.append(('corner', hi.copy()))
        pts.append(('zbox', lz + (hz - lz) * rng.random(dim)))
        pts.append(('bbox', lb + (hb - lb) * rng.random(dim)))
        inz_ = lambda x: bool(np.all((x >= lz) & (x <= hz)))
        inb_ = lambda x: bool(np.all((x >= lb) & (x <= hb)))
        for name, x in pts:
            want = inz_(x) and inb_(x)
            form = ['array', 'list', 'tuple'][rng.integers(3)] if p.backend == 'np' else ['array', 'list', 'tensor'][rng.integers(3)]
            if form == 'tensor':
                import torch
                arg = torch.tensor(x, dtype=torch.float64)
            else:
                arg = {'array': np.array(x), 'list': [float(v) for v in x], 'tuple': tuple(float(v) for v in x)}[form]
            with ctx.repo('check_if_covered(%s, %d) of %s' % (form, ti, p.backend)):
                got = c.check_if_covered(arg, int(ti))
                got = bool(got.item() if is_tensor(got) else np.all(got))
            ctx.require(got == want, 'coverage query is wrong', got=got, expected=want, state=x, ti=ti, k=k, form=form, point=name,
                        forward=[lz, hz], constrained=[lb, hb], mode=p.mode, backend=p.backend)
            ctx.count('queries')
            ctx.count('covered states' if want else 'uncovered states')
            if name in ('boundary', 'corner') and want:
                ctx.count('boundary states')
            if name == 'next' and not want:
                ctx.count('states just outside')
            if inz_(x) != inb_(x):
                ctx.count('states in one flow only')
            if dim > 1 and not want and np.all((x >= lo)[:-1] & (x <= hi)[:-1]):
                ctx.count('states outside in the last dimension only')
    after = flows(c)
    ctx.require(all(np.array_equal(fl[n], after[n]) for n in fl), 'coverage queries changed the flows')
