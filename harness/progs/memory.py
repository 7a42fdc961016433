"""Memory of one controller run, in a process of its own. usage: memory.py OUT SPEC.json
SPEC: {'spec': problem, 'steps': [n...], 'queries': n}; large blocks are mapped and unmapped directly (see the environment), so the
resident size follows the live memory."""
import gc
import json
import os
import sys
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import warnings  # noqa: E402
warnings.simplefilter('ignore')
import tracemalloc  # noqa: E402
import numpy as np  # noqa: E402
from lib.problems import DT, Problem, flows, to_np  # noqa: E402

PAGE = os.sysconf('SC_PAGE_SIZE')


def rss():
    return int(open('/proc/self/statm').read().split()[1]) * PAGE


class Peak:
    """largest resident size while in use, sampled from the callbacks and a thread"""

    def __enter__(self):
        gc.collect()
        self.start = self.top = rss()
        self.samples = 0
        self.on = True
        self.t = threading.Thread(target=self.loop, daemon=True)
        self.t.start()
        return self

    def look(self):
        r = rss()
        self.samples += 1
        if r > self.top:
            self.top = r

    def loop(self):
        while self.on:
            self.look()
            time.sleep(0.01)

    def __exit__(self, *a):
        self.on = False
        self.t.join()
        self.look()


def flow_bytes(c):
    return sum(v.nbytes for v in flows(c).values())


def main():
    job = json.load(open(sys.argv[2]))
    res = {'runs': [], 'queries': []}
    base = job['spec']
    warm = Problem(dict(base, T=20 * DT))
    c = warm.build()
    c.calculate_u(c.B[:, :3, 9].T, 9)
    del c
    for n in job['steps']:
        p = Problem(dict(base, T=n * DT))
        now = peak = None
        with Peak() as pk:
            if p.backend == 'np':
                tracemalloc.start()
            c = p.build()
            if p.backend == 'np':
                now, peak = tracemalloc.get_traced_memory()
                tracemalloc.stop()
        fb = flow_bytes(c)
        gc.collect()
        kept = rss()
        del c
        gc.collect()
        res['runs'].append({'steps': n, 'flows': fb, 'peak': pk.top - pk.start, 'kept': kept - pk.start, 'freed': rss() - pk.start,
                            'samples': pk.samples, 'traced': now, 'traced_peak': peak})
    p = Problem(dict(base, T=40 * DT))
    c = p.build()
    k = to_np(c.timegrid).size
    rng = np.random.default_rng(0)
    q = np.tile(to_np(c.B)[:, :200, 20].T, (4, 1))
    if p.backend == "torch":
        import torch
        q = torch.tensor(q)

    def some(n):
        for i in range(n):
            ti = int([3, 10, k // 2, k - 8, k - 3][i % 5])
            x = q + 0.01 * float(rng.normal())
            c.calculate_u(x, ti)
            c.check_if_covered(x[0], ti)
    some(20)
    for n in job['queries']:
        gc.collect()
        r0 = rss()
        if p.backend == 'np':
            tracemalloc.start()
        some(n)
        gc.collect()
        t = tracemalloc.get_traced_memory()[0] if p.backend == 'np' else None
        if p.backend == 'np':
            tracemalloc.stop()
        res['queries'].append({'n': n, 'rss': rss() - r0, 'traced': t})
    if p.backend == 'torch':
        u = c.calculate_u(q, k // 2)
        u2 = c.calculate_u(q, 3)
        ts = {'u': u, 'u at the ends': u2, 'timegrid': c.timegrid, **{n: getattr(c, n) for n in flows(c)}}
        res['flags'] = {n: [bool(t.requires_grad), t.grad_fn is None] for n, t in ts.items()}
        res['numpy'] = [n for n, t in ts.items() if not isinstance(t.numpy(), np.ndarray)]
    res['ok'] = True
    return res


r = main()
json.dump(r, open(sys.argv[1], 'w'))
