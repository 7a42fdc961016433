"""Builds the controllers of a specification in a process of its own. usage: rerun.py OUT.npz SPEC.json [LEVEL]"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import logging  # noqa: E402

level = sys.argv[3] if len(sys.argv) > 3 else None
if level:
    logging.basicConfig(level=getattr(logging, level))
import warnings  # noqa: E402
warnings.simplefilter('ignore')
import numpy as np  # noqa: E402
from lib.problems import Problem, flows, query  # noqa: E402

out = {}
for i, s in enumerate(json.load(open(sys.argv[2]))):
    kern, qseed, name = s.pop('kern', None), s.pop('qseed', 77), s.pop('name', i)
    p = Problem(s)
    c = p.build(**({'kern': kern} if kern else {}))
    for n, v in flows(c).items():
        out['%s %s' % (name, n)] = v
    p.seed_all(qseed)
    k = c.timegrid.shape[0]
    for ti in (3, k // 2, k - 3):
        out['%s u%d' % (name, ti)] = query(c, p.backend, np.array(flows(c)['B'][:, :4, ti].T), ti)
np.savez(sys.argv[1], **out)
