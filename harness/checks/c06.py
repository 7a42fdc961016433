"""C06: stochastic sampling is Euler-Maruyama; statistics of the noise implied by every increment."""
import numpy as np
from scipy import stats as st

from lib.core import derive
from lib.oracle import score_draws
from lib.problems import DT, Problem, Recorder, flows, random_spec, to_np
from lib.steps import noise_tests, pair, pre_clouds
from checks.c04 import inducing_box

RULE = ('random stochastic-mode problems over backend, forward mode, drift, dimension, diffusion form; the noise implied by every '
        'forward and backward increment is tested for variance, mean, Gaussian shape, repetition and correlation over dimensions, '
        'steps, particles and flows, per case and pooled over all cases; non-trivial: at least 1000 noise values')
NEED = ['forward noise values', 'backward noise values', 'reweighting events']
SOFT = {'quick': 240, 'thorough': 3000}


def cases(tier, seed):
    out, i = [], 0
    for rep in range({'quick': 14, 'thorough': 250}[tier]):
        for backend in ('np', 'torch'):
            for mode in ('plain', 'rw', 'bridge'):
                out.append({'backend': backend, 'mode': mode, 'rep': rep, 'seed': derive(seed, 'c06', i)})
                i += 1
    return out


def steps_tests(ctx, eta, what):
    """eta dim x N x steps"""
    noise_tests(ctx, eta, what)
    D, N, S = eta.shape
    per = np.sum(eta ** 2, axis=(0, 1))
    pv = 2 * np.minimum(st.chi2.cdf(per, D * N), st.chi2.sf(per, D * N))
    j = int(np.argmin(pv))
    ctx.require(pv[j] > 1e-10, what + ': wrong noise variance in one step', step=j, ratio=per[j] / (D * N), p=pv[j])
    per = np.sum(eta ** 2, axis=(0, 2))
    pv = 2 * np.minimum(st.chi2.cdf(per, D * S), st.chi2.sf(per, D * S))
    ctx.require(pv.min() > 1e-10, what + ': wrong noise variance of one particle', ratio=per[np.argmin(pv)] / (D * S))
    # sums of squares per step and per particle: no more alike than chance has it
    for ax, name in ((1, 'steps'), (2, 'particles')):
        for q, what2 in ((np.sum(eta ** 2, axis=ax), 'variances'), (np.sum(eta, axis=ax) ** 2 / eta.shape[ax], 'means')):
            n = eta.shape[ax] if what2 == 'variances' else 1
            z = st.norm.isf(np.clip(st.chi2.sf(q, n), 1e-300, 1 - 1e-16)).ravel()
            c2 = float(np.sum(z ** 2))
            pv = 2 * min(st.chi2.sf(c2, z.size), st.chi2.cdf(c2, z.size))
            ctx.require(pv > 1e-10, '%s: %s of the %s are too much or too little alike' % (what, what2, name), ratio=c2 / z.size, n=z.size, p=pv)
            ctx.count('regularity tests')
    if S > 1:
        pair(ctx, eta[:, :, 1:].ravel(), eta[:, :, :-1].ravel(), what + ' in successive steps')
    pair(ctx, eta[:, 1:].ravel(), eta[:, :-1].ravel(), what + ' of neighbouring particles')
    pair(ctx, eta.ravel(), eta[:, ::-1].ravel(), what + ' of mirrored particles') if N % 2 == 0 else None
    # a common component of all particles or of all steps
    for ax, name in ((1, 'common to the particles'), (2, 'common to the steps')):
        m = eta.mean(axis=ax) * np.sqrt(eta.shape[ax])
        c2 = float(np.sum(m ** 2))
        pv = 2 * min(st.chi2.sf(c2, m.size), st.chi2.cdf(c2, m.size))
        ctx.require(pv > 1e-10, what + ': component ' + name, ratio=c2 / m.size, n=m.size)


def structure(ctx, e, ok, what, slack):
    """products of noise values at every offset between particles, between steps, and between dimensions.
    slack: correlation that errors of the reference score can leave in the values"""
    D, N, S = e.shape
    v, m = np.where(ok, e, 0.0), ok.astype(float)

    def judge(a, b, ma, mb, name):
        n = float(np.sum(ma * mb))
        if n < 60:
            return
        r = float(np.sum(a * b)) / n
        ctx.worst(what + ', largest product in standard deviations', (abs(r) - slack) * np.sqrt(n))
        ctx.require(abs(r) < slack + 7.5 / np.sqrt(n), '%s are correlated: %s' % (what, name), r=r, n=n)
        ctx.count('offsets tested')
    for o in range(1, N):
        judge(v[:, o:], v[:, :-o], m[:, o:], m[:, :-o], 'particles %d apart' % o)
    for o in range(N):    # i + j = o (mod N), every pair once
        j = (o - np.arange(N)) % N
        i = np.flatnonzero(np.arange(N) < j)
        judge(v[:, i], v[:, j[i]], m[:, i], m[:, j[i]], 'particles i and %d - i' % o)
    for o in range(1, S):
        judge(v[:, :, o:], v[:, :, :-o], m[:, :, o:], m[:, :, :-o], 'steps %d apart' % o)
    for d in range(D):
        for d2 in range(d):
            judge(v[d], v[d2], m[d], m[d2], 'dimensions %d and %d' % (d2, d))
    for ax, name in ((1, 'particles'), (2, 'steps')):
        k = np.maximum(m.sum(ax), 1)
        c = v.sum(ax) ** 2 / k
        w = (m.sum(ax) > 0)
        x, n = float(c[w].sum()), int(w.sum())
        if n:
            big = 1 + slack * e.shape[ax]
            ctx.require(st.chi2.sf(x / big, n) > 1e-12, '%s: component common to the %s' % (what, name), ratio=x / n, n=n)
            ctx.require(st.chi2.cdf(x, n) > 1e-12, '%s: cancel over the %s' % (what, name), ratio=x / n, n=n)


def run(case, ctx):
    rng = np.random.default_rng(case['seed'])
    spec = random_spec(rng, case['backend'], dim=int(rng.integers(1, 4)), N=int(rng.integers(30, 90)) * 2, M=int(rng.integers(30, 60)),
                       steps=int(rng.integers(15, 40)), mode=case['mode'], det=False)
    p, rec = Problem(spec), Recorder()
    with ctx.repo('building a controller for %s' % spec):
        c = p.build(rec)
    F, t = flows(c), to_np(c.timegrid)
    Z, B, k = F['Z'], F['B'], t.size
    ctx.require(Z.shape == (p.dim, p.N, k) and B.shape == Z.shape and np.isfinite(Z).all() and np.isfinite(B).all(),
                'flows are not finite arrays over the grid')
    ddof = 1 if p.backend == 'torch' else 0
    pre = pre_clouds(p, rec, t)
    if p.mode != 'plain':
        ctx.require(all(i in pre for i in range(1, k)), 'path cost was not evaluated at every time but the first',
                    missing=[i for i in range(1, k) if i not in pre][:5])
        for name, tt, x, u in rec.of('U'):
            i = int(np.argmin(np.abs(t - tt)))
            lw = np.asarray(u, np.longdouble) * DT
            w = np.exp(lw - lw.max())
            w = np.asarray(w / w.sum(), float)
            err = np.abs(x @ w - Z[:, :, i].mean(1)).max() / (x.std() + 1e-300)
            ctx.require(err < 1e-6, 'stochastic reweighting does not conserve the weighted mean', time_index=i, error_in_spreads=err)
            ctx.count('reweighting events')
    eta = np.stack([(pre.get(i, Z[:, :, i]) - Z[:, :, i - 1] - DT * p.f(Z[:, :, i - 1].copy(), t[i - 1])) for i in range(1, k)], 2)
    eta /= (p.gcol * np.sqrt(DT))[:, :, None]
    steps_tests(ctx, eta, 'forward noise')
    structure(ctx, eta, np.ones(eta.shape, bool), 'forward noise values', 0.0)
    ctx.count('forward noise values', eta.size)
    tag = '%s %s' % (p.backend, p.mode)
    ctx.stat('forward variance ' + tag, np.sum(eta ** 2), eta.size)
    ctx.stat('forward mean ' + tag, np.sum(eta), eta.size)
    # backward: subtract the score term with reference scores, then the same tests; its factor is estimated and pooled
    raw, sc, scv = [], [], []
    g2 = p.gcol ** 2
    for r in range(k - 2, 0, -1):
        x, z = B[:, :, r + 1], Z[:, :, r + 1]
        box = inducing_box(p, z, x)
        if np.any(box[1] < box[0]):
            ctx.count('steps with disjoint flows, not judged')
            continue
        q = x[:, :1] if r == k - 2 else x
        s = np.broadcast_to(score_draws(z, box, p.M, ctx.rng, 4, q=q, ddof=ddof), (4,) + x.shape)
        raw.append(B[:, :, r] - x + DT * p.f(x.copy(), t[r + 1]))
        sc.append(DT * g2 * s.mean(0))
        scv.append(s.var(0, ddof=1) * (DT * g2) ** 2)
    if len(raw) >= 5:
        raw, sc, scv = np.stack(raw, 2), np.stack(sc, 2), np.stack(scv, 2)
        s_ = (p.gcol * np.sqrt(DT))[:, :, None]
        eb, a = (raw - sc) / s_, sc / s_
        ok = scv / s_ ** 2 < 0.05           # where the reference itself is certain
        ctx.count('backward noise values', ok.sum())
        e, w = eb[ok], a[ok]
        n = e.size
        if n > 200:
            v = float(np.mean(e ** 2))
            ctx.require(abs(v - 1) < 0.06 + 7 * np.sqrt(2 / n), 'backward noise has the wrong variance', ratio=v, n=n, backend=p.backend, mode=p.mode)
            ctx.stat('backward variance', np.sum(e ** 2), n)
            # small terms of the drift: the factor of the score
            num, den = float(np.sum(e * w)), float(np.sum(w * w))
            ctx.stat('backward score factor ' + p.backend, num, den)
            ctx.require(abs(num / np.sqrt(den)) < 8 + 0.15 * np.sqrt(den), 'the forward score enters stochastic backward steps with a wrong factor',
                        factor=1 + num / den, z=num / np.sqrt(den), backend=p.backend, mode=p.mode)
            fr = np.stack([DT * p.f(B[:, :, r + 1].copy(), t[r + 1]) for r in range(k - 2, 0, -1)][:eb.shape[2]], 2) / s_
            if fr.shape == eb.shape:
                fd = float(np.sum(fr[ok] ** 2))
                if fd > 1e-9:
                    ctx.stat('backward drift factor', -float(np.sum(e * fr[ok])), fd)
                    ctx.require(abs(np.sum(e * fr[ok])) / np.sqrt(fd) < 8 + 0.1 * np.sqrt(fd), 'the drift enters stochastic backward steps wrongly',
                                factor=1 - float(np.sum(e * fr[ok])) / fd)
        if eb.shape[2] > 2:
            pair(ctx, eb[:, :, 1:][ok[:, :, 1:] & ok[:, :, :-1]], eb[:, :, :-1][ok[:, :, 1:] & ok[:, :, :-1]], 'backward noise in successive steps', 1e-13)
        pair(ctx, eb[:, 1:][ok[:, 1:] & ok[:, :-1]], eb[:, :-1][ok[:, 1:] & ok[:, :-1]], 'backward noise of neighbouring particles', 1e-13)
        ctx.require(np.unique(eb).size == eb.size, 'backward noise values repeat')
        structure(ctx, eb, ok, 'backward noise values', 0.06)
        m = min(eb.shape[2], eta.shape[2])
        for o in range(0, 3):   # forward and backward noise of matching or mirrored steps
            f1 = eta[:, :, ::-1][:, :, o:m]
            b1 = eb[:, :, :f1.shape[2]]
            okk = ok[:, :, :f1.shape[2]]
            pair(ctx, f1[okk], b1[okk], 'forward and backward noise', 1e-13)
            f2 = eta[:, :, o:m]
            b2 = eb[:, :, :f2.shape[2]]
            okk = ok[:, :, :f2.shape[2]]
            pair(ctx, f2[okk], b2[okk], 'forward and backward noise', 1e-13)
    ctx.count('controllers built')


def pooled(stats, events, tier):
    out = []
    for name, v in stats.items():
        if name.startswith('forward variance'):
            z = (v[0] - v[1]) / np.sqrt(2 * v[1])
            if abs(z) > 6.5:
                out.append('%s: pooled noise variance ratio %.4f over %d values' % (name, v[0] / v[1], v[1]))
        elif name.startswith('forward mean'):
            if abs(v[0]) / np.sqrt(v[1]) > 6.5:
                out.append('%s: pooled noise mean %.5f over %d values' % (name, v[0] / v[1], v[1]))
        elif name == 'backward variance':
            r = v[0] / v[1]
            if abs(r - 1) > 0.02 + 6.5 * np.sqrt(2 / v[1]):
                out.append('pooled variance of the backward noise is %.4f of squared diffusion times step over %d values' % (r, v[1]))
        elif name.startswith('backward score factor'):
            if abs(v[0] / v[1]) > 0.1 + 6.5 / np.sqrt(v[1]):
                out.append('%s is %.3f instead of 1' % (name, 1 + v[0] / v[1]))
        elif name == 'backward drift factor':
            if abs(v[0] / v[1]) > 0.1 + 6.5 / np.sqrt(v[1]):
                out.append('%s is %.3f instead of 1' % (name, 1 + v[0] / v[1]))
    return out
