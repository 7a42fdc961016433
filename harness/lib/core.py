"""Three-valued verdicts, event counters and the context every case runs in."""
import contextlib
import hashlib
import json
import os
import traceback

import numpy as np

REPO = os.environ.get('VERIF_REPO', '/repo')


class Violation(Exception):
    """The oracle saw an execution that breaks the property."""


class Inconclusive(Exception):
    """The deciding observation was not made."""


class RepoRaised(Violation):
    """The code under test raised on an input of the claimed domain."""


def jsonable(o):
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (set, tuple)):
        return list(o)
    return repr(o)


class Ctx:
    """What one case observed: counters, pooled statistics, one sample, the violations."""

    def __init__(self, prop, tier, case):
        self.prop, self.tier, self.case = prop, tier, case
        self.events = {}
        self.stats = {}
        self.notes = {}
        self.known = []
        self.seed = int(case.get('seed', 0))
        self.rng = np.random.default_rng(self.seed)

    def count(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def stat(self, name, *vals):
        """additive statistics, pooled over the cases of the run"""
        cur = self.stats.get(name)
        vals = [float(v) for v in vals]
        self.stats[name] = vals if cur is None else [a + b for a, b in zip(cur, vals)]

    def worst(self, name, val):
        """how close to the bound a run came, kept as a maximum (for the evidence)"""
        val = float(val)
        self.notes[name] = max(self.notes.get(name, -np.inf), val)

    def require(self, cond, msg, **data):
        self.count('oracle evaluations')
        if not bool(cond):
            raise Violation(msg + (' | ' + json.dumps(data, default=jsonable)[:1500] if data else ''))

    @contextlib.contextmanager
    def repo(self, what):
        """Code under test runs in here: what it raises is a finding, not an error of the harness."""
        try:
            yield
        except (Violation, Inconclusive, MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:  # noqa: BLE001
            tb = traceback.format_exc(limit=-6)
            raise RepoRaised('%s raised %s: %s | %s' % (what, type(e).__name__, e, tb)) from e


def derive(seed, *keys):
    h = hashlib.sha256(repr((seed,) + keys).encode()).digest()
    return int.from_bytes(h[:4], 'little') & 0x7fffffff
