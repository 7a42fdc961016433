"""my_cdist in a process of its own, with the compiler options of the environment. usage: cdist.py IN.npz OUT.json"""
import json
import sys

import numpy as np

data = np.load(sys.argv[1])
res = {'errors': [], 'done': 0, 'rejected': 0}
try:
    from DeterministicParticleFlowControl.score_estimators import my_cdist
    n = int(data['n'])
    for i in range(n):
        r, y, big = data['r%d' % i], data['y%d' % i], data['o%d' % i].copy()
        before = big.copy()
        out = big[2:-2, 3:-3]
        for dist in ('euclidean', 'sqeuclidean'):
            big[...] = before
            my_cdist(r, y, out, dist)
            ref = ((r[:, None] - y[None]) ** 2).sum(2)
            ref = np.sqrt(ref) if dist == 'euclidean' else ref
            want = before.copy()
            want[2:2 + len(r), 3:3 + len(y)] = ref
            scale = (np.abs(r).max() + np.abs(y).max()) if r.size and y.size else 1
            if not np.allclose(big, want, rtol=1e-9, atol=1e-12 * scale ** (1 if dist == 'euclidean' else 2)):
                res['errors'].append([i, dist, list(r.shape), list(y.shape), float(np.abs(big - want).max())])
            res['done'] += 1
        for rr, yy, oo in ((r, np.zeros((3, r.shape[1] + 1)), np.zeros((len(r), 3))), (np.zeros((3, y.shape[1] + 2)), y, np.zeros((3, len(y)))),
                           (np.zeros((4, 2)), np.zeros((5, 2)), np.zeros((3, 5))), (np.zeros((4, 2)), np.zeros((5, 2)), np.zeros((4, 4)))):
            try:
                my_cdist(rr, yy, oo, 'euclidean')
                res['errors'].append([i, 'not rejected', list(rr.shape), list(yy.shape), list(oo.shape)])
            except Exception:  # noqa: BLE001
                res['rejected'] += 1
            if oo.any():
                res['errors'].append([i, 'written before rejecting', list(rr.shape), list(yy.shape), list(oo.shape)])
except BaseException as e:  # noqa: BLE001
    res['errors'].append(['raised', type(e).__name__, str(e)[:500]])
json.dump(res, open(sys.argv[2], 'w'))
