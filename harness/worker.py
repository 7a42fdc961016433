"""Runs cases handed over by run.py, one JSON line each; answers on the descriptor given in argv[2]."""
import faulthandler
import importlib
import json
import os
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    prop, fd = sys.argv[1], int(sys.argv[2])
    out = os.fdopen(fd, 'w')
    faulthandler.enable()
    warnings.simplefilter('ignore')
    from lib.core import Ctx, Violation, Inconclusive, jsonable
    mod = importlib.import_module('checks.' + prop.lower())
    tier = os.environ['VERIF_TIER']
    for line in sys.stdin:
        case = json.loads(line)
        ctx = Ctx(prop, tier, case)
        t0 = time.time()
        res = {'status': 'held'}
        try:
            mod.run(case, ctx)
        except Violation as e:
            res = {'status': 'violated', 'msg': str(e)}
        except (Inconclusive, MemoryError) as e:
            res = {'status': 'inconclusive', 'msg': '%s %s' % (type(e).__name__, e)}
        except Exception:  # noqa: BLE001
            res = {'status': 'error', 'msg': traceback.format_exc()}
        res.update(id=case['id'], events=ctx.events, stats=ctx.stats, notes=ctx.notes,
                   known=ctx.known, wall=time.time() - t0)
        out.write(json.dumps(res, default=jsonable) + '\n')
        out.flush()


main()
