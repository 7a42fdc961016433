"""C05: complete trace of the user callbacks against the stored flows."""
import numpy as np

from lib.core import derive
from lib.problems import DT, Problem, Recorder, flows, random_spec, to_np

RULE = ('random problems over backend, mode, sampling, dimension, interval position (also starts that are no multiple of the step), 15-600 particles, up to 1800 steps; every call of drift, true drift and path '
        'cost is an event (time, positions) and is matched with the stored flows; non-trivial: at least 10 events')
NEED = ['drift events', 'path cost events', 'true drift events', 'required evaluations found']
SOFT = {'quick': 200, 'thorough': 2400}


def cases(tier, seed):
    out, i = [], 0
    for rep in range({'quick': 12, 'thorough': 300}[tier]):
        for backend in ('np', 'torch'):
            for mode in ('plain', 'rw', 'bridge'):
                for det in (True, False):
                    out.append({'backend': backend, 'mode': mode, 'det': det, 'rep': rep, 'seed': derive(seed, 'c05', i)})
                    i += 1
    out += [{'backend': b, 'mode': m, 'det': True, 'rep': -1 - r, 'seed': derive(seed, 'c05x', b, m, r)} for r in range({'quick': 1, 'thorough': 6}[tier])
            for b in ('np', 'torch') for m in ('rw', 'bridge')]   # long runs
    return out


def run(case, ctx):
    rng = np.random.default_rng(case['seed'])
    long = case['rep'] < 0
    wide = not long and case['rep'] % 4 == 3           # many particles, few steps
    spec = random_spec(rng, case['backend'], dim=int(rng.integers(1, 5)), N=int(rng.integers(260, 600)) if wide else int(rng.integers(15, 50)),
                       M=int(rng.integers(10, 25)), steps=int(rng.integers(1010, 1800)) if long else int(rng.integers(3, 7 if wide else 50)), mode=case['mode'], det=case['det'],
                       yform=['array', 'int'][rng.integers(4) // 2])
    p, rec = Problem(spec), Recorder()
    with ctx.repo('building a controller for %s' % spec):
        c = p.build(rec)
    F, t = flows(c), to_np(c.timegrid)
    k = t.size
    Z, B = F['Z'], F['B']
    ctx.require(Z.shape == (p.dim, p.N, k) and B.shape == Z.shape, 'flows do not have one position per particle and time')
    tol_t = 1e-4 * DT
    seen = {'Z': set(), 'B': set(), 'Ztr': set(), 'U': set()}
    what = {'f': 'drift', 'f_true': 'true drift', 'U': 'path cost'}
    n_u = {}
    for name, tt, x, out in rec.events:
        ctx.count(what[name] + ' events')
        ctx.require(x.shape == (p.dim, p.N), '%s called with an array that is not dim x particles' % what[name], shape=list(x.shape))
        i = int(np.argmin(np.abs(t - tt)))
        ctx.require(abs(t[i] - tt) < tol_t, '%s called at a time that is not on the grid' % what[name], time=tt, nearest=t[i])
        cands = {'f': ['Z', 'B'], 'f_true': ['Ztr'], 'U': []}[name]
        if name == 'U':
            ctx.require(i >= 1, 'path cost called at the first time')
            # the cloud about to be reweighted: mean of its weighted version is the mean of the stored cloud
            lw = np.asarray(out, np.longdouble) * DT
            w = np.exp(lw - lw.max())
            w = np.asarray(w / w.sum(), float)
            err = np.abs(x @ w - Z[:, :, i].mean(1)).max() / (x.std() + 1e-300)
            ctx.require(err < 1e-6, 'path cost called with a cloud other than the one that is reweighted at its time', time_index=i, k=k,
                        error_in_spreads=err)
            seen['U'].add(i)
            n_u[i] = n_u.get(i, 0) + 1
            continue
        hit = [n for n in cands if np.abs(F[n][:, :, i] - x).max() <= 1e-9 * (np.abs(x).max() + x.std())]
        ctx.require(hit, '%s called with positions that no flow has at the time of the call' % what[name], time_index=i, k=k,
                    time=tt, distance={n: float(np.abs(F[n][:, :, i] - x).max()) for n in cands},
                    holds_at={n: int(np.argmin(np.abs(F[n] - x[:, :, None]).max((0, 1)))) for n in cands})
        for n in hit:
            seen[n].add(i)
    # f and f_true are one function when a plain problem names no true drift
    need = {'Z': set(range(0, k - 1)), 'B': set(range(2, k))}
    if p.mode != 'plain':
        need['U'] = set(range(1, k))
    if p.mode == 'bridge':
        need['Ztr'] = set(range(0, k - 1))
    for n, idx in need.items():
        miss = sorted(idx - seen[n])
        ctx.require(not miss, 'some step of %s uses no evaluation at its own state and time' % {'U': 'the reweighting'}.get(n, 'flow ' + n),
                    missing=miss[:10], k=k)
        ctx.count('required evaluations found', len(idx))
    ctx.count('controllers built')
