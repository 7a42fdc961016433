"""C10: the controlled equation is simulated with the controls returned; arrival, and the exact bridge of linear systems."""
import numpy as np

from lib.core import derive
from lib.problems import DT, Problem, drift, flows, path_cost, query, random_cost, random_drift, spread_end, to_np

RULE = ('free diffusion, Ornstein-Uhlenbeck with a rate per dimension, limit cycle, double well and time-dependent forcing over backend, mode, '
        'sampling, dimension, diffusion form, interval and target (typical or up to three free spreads away); 250 trajectories of the '
        'controlled equation, Euler-Maruyama with the controls returned, against the target, 250 free ones, and for linear systems '
        'the closed-form mean and variance of the bridge at a quarter, half and three quarters; non-trivial: all')
NEED = ['controlled trajectories', 'endpoints judged', 'bridge moments judged', 'controls applied']
ASSUMPTIONS = ['no control is applied in the very first step, where the flows are points']
SOFT = {'quick': 400, 'thorough': 2700}
CASE_TIMEOUT = 400
KINDS = ('free', 'ou', 'lc', 'dw', 'tosc')


def cases(tier, seed):
    out, i = [], 0
    for rep in range({'quick': 2, 'thorough': 40}[tier]):
        for b in ('np', 'torch'):
            for kind in KINDS:
                dim = 2 if kind == 'lc' else 1 + (i + rep) % 3 if kind != 'dw' else 1 + (i + rep) % 2
                out.append({'backend': b, 'kind': kind, 'mode': 'plain', 'det': True, 'dim': dim, 'rep': rep, 'seed': derive(seed, 'c10', i)})
                i += 1
            for mode, kind, det in (('rw', 'free', True), ('rw', 'ou', True), ('bridge', 'ou', True), ('bridge', 'free', True),
                                    ('plain', 'ou', False), ('rw', 'ou', False)):
                out.append({'backend': b, 'kind': kind, 'mode': mode, 'det': det, 'dim': 1 + (i + rep) % 2 if mode == 'plain' or b == 'torch' else 2,
                            'rep': rep, 'seed': derive(seed, 'c10', i)})
                i += 1
    return out


def bridge_moments(fs, dim, g2, y1, y2, T, s):
    """mean and variance at time s of dX = a(b - X)dt + g dW from y1 to y2 in time T"""
    a = np.zeros(dim) if fs['kind'] in ('zero', 'const') else np.array(fs['a'], float)
    b = np.zeros(dim) if fs['kind'] == 'zero' else np.array(fs['b'], float)

    def var(t):
        return np.where(a > 1e-12, g2 * (1 - np.exp(-2 * a * t)) / (2 * np.maximum(a, 1e-12)), g2 * t)
    m1 = b + (y1 - b) * np.exp(-a * s)
    v1, v2, ph = var(s), var(T - s), np.exp(-a * (T - s))
    gain = v1 * ph / (ph * v1 * ph + v2)
    return m1 + gain * (y2 - (b + (m1 - b) * ph)), v1 * (1 - gain * ph)


def run(case, ctx):
    rng = np.random.default_rng(case['seed'])
    dim, kind = case['dim'], case['kind']
    steps = int(rng.integers(120, 320))
    T, t1 = steps * DT, float([0.0, 0.0, 1.5, -1.0][rng.integers(4)])
    form = ['scalar', 'array', 'list', 'column'][rng.integers(4)]
    val = [round(float(rng.uniform(0.5, 1.2)), 3)] if form == 'scalar' else rng.uniform(0.5, 1.2, dim).round(3).tolist()
    fs = {'kind': 'zero'} if kind == 'free' else random_drift(rng, dim, (kind,))
    if kind == 'ou':
        fs['a'] = rng.uniform(0.5, 8, dim).round(3).tolist()
    y1 = rng.normal(0, 0.7, dim).round(3)
    if kind == 'dw':
        y1 = np.clip(y1, -0.9, 0.9)
    gcol = np.reshape(val, (-1, 1)) * np.ones((dim, 1))
    f = drift(fs, dim, {})
    mean, sd = spread_end(f, y1, t1, T, gcol, np.random.default_rng(7), n=200, N=1000)
    v = rng.normal(size=dim)
    far = 1.0 if case['mode'] != 'plain' else 2.0 if case['rep'] % 2 == 0 or dim == 3 or kind not in ('free', 'ou') else 3.0
    y2 = mean + v / np.linalg.norm(v) * rng.uniform(0.3, far) * sd
    spec = dict(backend=case['backend'], dim=dim, N=500 if case['mode'] == 'plain' else 200, M=70 if dim < 3 else 150, t1=t1, T=T, g={'form': form, 'val': val}, y1=y1.tolist(),
                y2=y2.tolist(), f=fs, mode=case['mode'], det=case['det'], seed=int(rng.integers(1 << 30)), yform='array')
    if case['mode'] == 'bridge':
        spec['f_true'] = fs
        spec['f'] = {'kind': 'bridge', 'soft': 0.02}
    if case['mode'] != 'plain':
        spec['U'] = random_cost(rng, dim, mean, sd, ('quad', 'wall', 'lin'), 0.1)
    p = Problem(spec)
    with ctx.repo('building a controller for %s' % spec):
        c = p.build()
    F, t = flows(c), to_np(c.timegrid)
    k = t.size
    K = 250
    x = np.repeat(y1.reshape(-1, 1), K, 1)
    free = x.copy()
    path = {0: x}
    p.seed_all(5)
    for ti in range(k - 1):
        u = 0.0
        if ti > 0:
            with ctx.repo('calculate_u at time index %d of %d' % (ti, k)):
                u = query(c, p.backend, x.T.copy(), ti)
            ctx.require(np.shape(u) == (dim, K), 'controls of the wrong shape', shape=np.shape(u), ti=ti)
            ctx.count('controls applied', K)
        x = x + DT * (f(x, t[ti]) + gcol ** 2 * u) + gcol * np.sqrt(DT) * rng.normal(size=x.shape)
        free = free + DT * f(free, t[ti]) + gcol * np.sqrt(DT) * rng.normal(size=x.shape)
        path[ti + 1] = x
    ctx.count('controlled trajectories', K)
    fsd = free.std(1)
    miss = np.abs(x - y2.reshape(-1, 1)) / fsd.reshape(-1, 1)
    fmiss = np.abs(free - y2.reshape(-1, 1)) / fsd.reshape(-1, 1)
    noise = (gcol[:, 0] * np.sqrt(DT) / fsd).max()
    key = '%s %s%s' % (case['mode'], kind, '' if case['det'] else ' stochastic')
    m50, m95 = np.median(miss, 1).max(), np.quantile(miss, 0.95, axis=1).max()
    ctx.worst('median miss, %s' % key, m50)
    ctx.worst('95%% miss, %s' % key, m95)
    ctx.worst('last noise, %s' % key, noise)
    info = dict(backend=p.backend, mode=p.mode, deterministic=p.det, kind=kind, dim=dim, k=k, target=y2, free_spread=fsd)
    ctx.notes['mean offset'] = float(np.abs((x.mean(1) - y2) / fsd).max())
    ctx.count('endpoints judged', K)
    ctx.require(np.isfinite(x).all(), 'controlled trajectories are not finite', **info)
    for q, got, allowed in ((0.5, m50, 1.5 * noise + 0.06), (0.95, m95, 3.5 * noise + 0.12)):
        ctx.worst('miss over allowance', got / allowed)
        ctx.require(got < allowed, 'controlled trajectories do not arrive at the target', quantile=q, miss_in_free_spreads=got, allowed=allowed,
                    uncontrolled=np.quantile(fmiss, q, axis=1).max(), **info)
    if case['det'] and (kind in ('free', 'ou')) and case['mode'] == 'plain':
        for q in (0.25, 0.5, 0.75):
            ti = int(q * (k - 1))
            m, vv = bridge_moments(fs, dim, gcol[:, 0] ** 2, y1, y2, t[-1] - t[0], t[ti] - t[0])
            for name, X in (('constrained flow', F['B'][:, :, ti]), ('controlled ensemble', path[ti])):
                em, es = np.abs(X.mean(1) - m) / np.sqrt(vv), np.abs(np.log(X.std(1) / np.sqrt(vv)))
                ctx.worst('mean error, %s' % name, em.max())
                ctx.worst('log spread error, %s' % name, es.max())
                wide = (3.0 if far > 2 else 1.0) * (2.5 if dim == 3 and p.backend == 'torch' else 1.0)
                lm, ls = (0.15, 0.2) if name == 'constrained flow' else (0.4, 0.3)
                ctx.worst('bridge error over allowance', max(em.max() / lm, es.max() / ls) / wide)
                ctx.require(em.max() < lm * wide and es.max() < ls * wide, 'the %s does not have the mean and spread of the exact bridge' % name,
                            at=q, mean_error=em, log_spread_error=es, allowed=[lm * wide, ls * wide], **info)
                ctx.count('bridge moments judged', 2 * dim)
