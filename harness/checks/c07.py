"""C07: every reweighting event of every run: mean conserved, hull kept, displacement bounded by optimal transport."""
import numpy as np

from lib.core import Violation, derive
from lib.oracle import emd_cost_exact, weights_of
from lib.problems import DT, Problem, Recorder, flows, random_cost, random_spec, to_np

RULE = ('random reweighted and bridge-mode problems of both backends and samplings with path costs of many kinds (time dependent, '
        'strong, hugely offset, the same for all particles); every reweighting event is judged; non-trivial: at least one event')
NEED = ['reweighting events', 'transport certificates', 'constant path cost events', 'offset path cost events',
        'positions compared with optimal transport']
SOFT = {'quick': 240, 'thorough': 3000}
UK = ('quad', 'tsin', 'wall', 'lin', 'const', 'offset', 'strong', 'nearly')


def cases(tier, seed):
    out, i = [], 0
    for rep in range({'quick': 3, 'thorough': 50}[tier]):
        for backend in ('np', 'torch'):
            for mode, det in (('rw', True), ('rw', False), ('bridge', True), ('bridge', False)):
                for u in UK:
                    out.append({'backend': backend, 'mode': mode, 'det': det, 'u': u, 'rep': rep, 'seed': derive(seed, 'c07', i)})
                    i += 1
    return out


def run(case, ctx):
    rng = np.random.default_rng(case['seed'])
    base = case['u'] if case['u'] in ('quad', 'tsin', 'wall', 'lin', 'const') else ['quad', 'tsin', 'lin'][rng.integers(3)]
    wide = rng.integers(12) == 0
    strong = 25.0 if case['u'] == 'strong' else (1e-6 if case['u'] == 'nearly' else 1.0)
    spec = random_spec(rng, case['backend'], dim=int(rng.integers(1, 5)), N=int(rng.integers(260, 420)) if wide else int(rng.integers(12, 60)), M=int(rng.integers(10, 30)),
                       steps=int(rng.integers(3, 6 if wide else 25)), mode=case['mode'], det=case['det'], ukinds=(base,), strength=strong,
                       glo=0.5)
    if case['u'] == 'offset':
        spec['U']['offset'] = float([1e6, -1e6, 3e7, -2e8, 8e5, -8e5][rng.integers(6)])
    if case['u'] == 'const':
        spec['U']['c'] = float([0.0, 1.0, -3.0, 1e6, -1e6, 5e2][rng.integers(6)])
    p, rec = Problem(spec), Recorder()
    strict = case['u'] != 'strong'
    try:
        with ctx.repo('building a controller for %s' % spec):
            c = p.build(rec)
    except Violation:
        # all the weight on one particle: the cloud is one point, of which there is no density to estimate
        if not strict and any(weights_of(np.asarray(u, np.longdouble) * np.longdouble(DT)).max() > 1 - 1e-9 for _, _, x, u in rec.of('U')):
            ctx.count('clouds reduced to one point, not judged')
            return
        raise
    F, t = flows(c), to_np(c.timegrid)
    Z, k = F['Z'], t.size
    ctx.require(Z.shape == (p.dim, p.N, k), 'forward flow does not have one position per particle and time')
    done, seen = set(), 0
    for name, tt, x, u in rec.of('U'):
        i = int(np.argmin(np.abs(t - tt)))
        y = Z[:, :, i]
        info = dict(time_index=i, backend=p.backend, mode=p.mode, deterministic=p.det, u=case['u'])
        if not np.isfinite(x).all():
            # a strongly concentrated cloud may have collapsed before; then nothing can be said about this run
            ctx.require(strict, 'the cloud to be reweighted is not finite', **info)
            break
        w = weights_of(np.asarray(u, np.longdouble) * np.longdouble(DT))
        # rounding of the exponents by the code under test, when the path cost carries a huge constant
        slop = 4e-16 * np.abs(u).max() * DT
        sd = x.std(1)[:, None] + 1e-300
        size = np.abs(x).max() / sd.min()
        tol = 1e-9 + 50 * slop + 1e-14 * size
        ctx.require(np.isfinite(y).all(), 'the reweighted cloud is not finite', worst_cost=np.abs(u).max(), **info)
        err = np.abs((x @ w)[:, None] - y.mean(1)[:, None]) / sd
        ctx.require(err.max() < tol, 'the mean of the reweighted cloud is not the weighted mean', error_in_spreads=err.max(), tol=tol, **info)
        # convex combinations: no direction may grow
        dirs = np.concatenate([np.eye(p.dim), ctx.rng.normal(size=(8, p.dim))])
        px, py = dirs @ (x / sd), dirs @ (y / sd)
        over = max((py.max(1) - px.max(1)).max(), (px.min(1) - py.min(1)).max())
        ctx.require(over < 1e-9 + 1e-14 * size + 50 * slop, 'a reweighted particle is not a convex combination of the old ones', excess_in_spreads=over, **info)
        if w.max() - w.min() <= 1e-13:
            dist = np.abs(y - x).max() / sd.max()
            ctx.require(dist < 1e-9 + 1e-12 * size + 50 * slop, 'a path cost that is the same for all particles moved the cloud', distance_in_spreads=dist, **info)
            ctx.count('constant path cost events')
        else:
            D = np.sqrt(((x[:, :, None] - x[:, None, :]) ** 2).sum(0))
            move = np.sqrt(((y - x) ** 2).sum(0))
            b = np.full(p.N, 1 / p.N)
            C = D ** 2
            scale = C.max()
            primal, dual, slack, P = emd_cost_exact(w, b, C / scale)
            if abs(primal - dual) > 1e-7 or slack < -1e-7:
                ctx.count('certificates that failed')
            else:
                have = (move ** 2).mean() / scale
                ctx.count('transport certificates')
                ctx.worst('squared displacement over what transport needs', have / (primal + 1e-12))
                ctx.require(have <= primal + 1e-9 + 50 * slop, 'the reweighting moves particles farther than optimal transport needs',
                            moved=have * scale, needed=primal * scale, **info)
                # where the optimal coupling is unique (stable against small changes of the costs) the new positions are known
                ref = p.N * x @ P
                alt = [] if seen % 3 else [p.N * x @ emd_cost_exact(w, b, C / scale + 1e-9 * ctx.rng.random(C.shape))[3] for _ in range(2)]
                if seen % 3 == 0 and all(np.abs(v - ref).max() < 1e-7 * sd.min() for v in alt):
                    off = (np.abs(y - ref) / sd).max()
                    ctx.worst('distance from the optimal positions', off)
                    ctx.require(off < 1e-6 + 1e-14 * size + 1e3 * p.N * slop, 'the reweighted particles are not where optimal transport moves them',
                                distance_in_spreads=off, **info)
                    ctx.count('positions compared with optimal transport', p.N)
        done.add(i)
        seen += 1
        ctx.count('reweighting events')
        if case['u'] == 'offset':
            ctx.count('offset path cost events')
    if strict:
        miss = [i for i in range(1, k) if i not in done]
        ctx.require(not miss, 'the forward cloud was not reweighted at some time', missing=miss[:10], k=k, backend=p.backend, mode=p.mode)
    ctx.count('controllers built')
