"""Runs the check of one property: cases in worker processes, verdict, evidence, replay.

usage: run.py C03 [--tier quick|thorough] [--replay FILE] [--jobs N] [--only SUBSTRING] [-v]
exit 0 held, 1 violated (with a VIOLATION line), 2 error or inconclusive
"""
import argparse
import hashlib
import importlib
import json
import os
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL}


def environment(scratch, threads):
    env = {k: v for k, v in os.environ.items() if not k.startswith(('PYTHON', 'NUMBA_', 'OMP_', 'MKL_', 'OPENBLAS_'))}
    env.update(PYTHONPATH=os.environ.get('VERIF_REPO', '/repo'), PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               MPLBACKEND='Agg', MPLCONFIGDIR=os.path.join(scratch, 'mpl'), DUECREDIT_ENABLE='no',
               NUMBA_CACHE_DIR=os.path.join(scratch, 'numba'), TMPDIR=scratch, HOME=scratch)
    for k in ('OMP_NUM_THREADS', 'MKL_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'NUMBA_NUM_THREADS'):
        env[k] = str(threads)
    return env


def cpu_seconds(pid):
    """user+system time of a worker and of its reaped children (our own child processes only)"""
    try:
        f = open('/proc/%d/stat' % pid).read().rsplit(')', 1)[1].split()
        return sum(int(x) for x in f[11:15]) / os.sysconf('SC_CLK_TCK')
    except OSError:
        return 0.0


class Worker:
    def __init__(self, prop, env, scratch):
        r, w = os.pipe()
        self.err = tempfile.TemporaryFile(dir=scratch)
        self.p = subprocess.Popen([sys.executable, os.path.join(HERE, 'worker.py'), prop, str(w)], stdin=subprocess.PIPE,
                                  stdout=self.err, stderr=self.err, env=env, cwd=scratch, pass_fds=[w],
                                  start_new_session=True)
        os.close(w)
        self.r, self.buf, self.case, self.t0 = r, b'', None, 0
        self.cpu, self.cpu_t = 0.0, time.time()

    def give(self, case):
        self.case, self.t0 = case, time.time()
        self.cpu, self.cpu_t = cpu_seconds(self.p.pid), time.time()
        try:
            self.p.stdin.write((json.dumps(case) + '\n').encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            pass

    def stalled(self, now):
        """seconds without any processor time used"""
        c = cpu_seconds(self.p.pid)
        if c > self.cpu + 0.3:
            self.cpu, self.cpu_t = c, now
        return now - self.cpu_t

    def tail(self):
        self.err.seek(0)
        return self.err.read()[-3000:].decode(errors='replace')

    def stop(self, kill=True):
        try:
            if kill:
                os.killpg(self.p.pid, signal.SIGKILL)
            else:
                self.p.stdin.close()
        except (ProcessLookupError, OSError):
            pass
        try:
            self.p.wait(20)
        except subprocess.TimeoutExpired:
            os.killpg(self.p.pid, signal.SIGKILL)
            self.p.wait()
        os.close(self.r)
        self.err.close()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=0)
    ap.add_argument('--only', default='')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.environ['VERIF_TIER'] = a.tier
    mod = importlib.import_module('checks.' + a.prop.lower())
    if a.replay:
        rep = json.load(open(a.replay))
        cases = [rep['case']] if rep.get('case') else mod.cases(rep['tier'], rep['seed'])
    else:
        cases = mod.cases(a.tier, seed)
    for i, c in enumerate(cases):
        c.setdefault('id', i)
    if a.only:
        cases = [c for c in cases if a.only in json.dumps(c)]
    jobs = a.jobs or getattr(mod, 'JOBS', 0) or min(8, len(os.sched_getaffinity(0)))
    jobs = max(1, min(jobs, len(cases)))
    soft = getattr(mod, 'SOFT', {'quick': 300, 'thorough': 3000})[a.tier]
    hard = getattr(mod, 'CASE_TIMEOUT', 240)
    stall_is_violation = getattr(mod, 'STALL', None)
    scratch = tempfile.mkdtemp(prefix='dpfcverif_')
    env = environment(scratch, getattr(mod, 'THREADS', 1))
    env.update(getattr(mod, 'ENV', {}))
    env['VERIF_SCRATCH'] = scratch

    todo = list(cases)
    results, violated, incon, errors, skipped, retried = [], [], [], [], 0, set()
    workers = []
    stop_at = None

    def settle(w, res):
        results.append((w.case, res))
        if a.v:
            print(res['id'], res['status'], round(res.get('wall', 0), 2), {k: v for k, v in w.case.items() if k != 'id'},
                  res.get('notes'), res.get('msg', '')[:600], flush=True)
        if res['status'] == 'violated':
            violated.append((w.case, res['msg']))
        elif res['status'] == 'inconclusive':
            incon.append((w.case, res['msg']))
        elif res['status'] == 'error':
            errors.append((w.case, res['msg']))
        w.case = None

    try:
        while todo or any(w.case for w in workers):
            now = time.time()
            if violated or errors:
                todo = []
                stop_at = stop_at or now + 20
            if todo and now - t0 > soft:
                skipped, todo = len(todo), []
            if stop_at and now > stop_at:
                break
            for w in workers:
                if w.case is None and todo:
                    w.give(todo.pop(0))
            while todo and len(workers) < jobs:
                workers.append(Worker(a.prop, env, scratch))
                workers[-1].give(todo.pop(0))
            busy = [w for w in workers if w.case]
            ready, _, _ = select.select([w.r for w in busy], [], [], 1.0)
            for w in busy:
                if w.r in ready:
                    chunk = os.read(w.r, 1 << 20)
                    w.buf += chunk
                    if b'\n' in w.buf:
                        line, w.buf = w.buf.split(b'\n', 1)
                        settle(w, json.loads(line))
                    elif not chunk:
                        rc, case = w.p.wait(), w.case
                        tail = w.tail()
                        if rc < 0 and -rc in CRASH:
                            settle(w, {'id': case['id'], 'status': 'violated',
                                       'msg': 'the process died with %s | %s' % (signal.Signals(-rc).name, tail)})
                        elif rc < 0 and case['id'] not in retried:
                            retried.add(case['id'])
                            todo.append(case)
                            w.case = None
                        elif rc < 0:
                            settle(w, {'id': case['id'], 'status': 'inconclusive', 'msg': 'worker killed by signal %d' % -rc})
                        else:
                            settle(w, {'id': case['id'], 'status': 'error', 'msg': 'worker exited %d: %s' % (rc, tail)})
                        w.stop()
                        workers.remove(w)
                elif now - w.t0 > hard or (stall_is_violation and w.stalled(now) > stall_is_violation):
                    stalled = bool(stall_is_violation) and w.stalled(now) > stall_is_violation
                    if stalled:
                        os.kill(w.p.pid, signal.SIGABRT)   # faulthandler writes the stacks
                        time.sleep(1)
                    tail = w.tail()
                    settle(w, {'id': w.case['id'], 'status': 'violated' if stalled else 'inconclusive',
                               'msg': ('deadlock: calls outstanding, no processor time used for %d s | ' % stall_is_violation
                                       if stalled else 'case time limit | ') + tail})
                    w.stop()
                    workers.remove(w)
    finally:
        for w in workers:
            w.stop(kill=w.case is not None)
        shutil.rmtree(scratch, ignore_errors=True)

    events, stats, notes, known = {}, {}, {}, []
    for _, r in results:
        for k, v in r.get('events', {}).items():
            events[k] = events.get(k, 0) + v
        for k, v in r.get('stats', {}).items():
            stats[k] = v if k not in stats else [x + y for x, y in zip(stats[k], v)]
        for k, v in r.get('notes', {}).items():
            notes[k] = max(notes.get(k, v), v)
        known += r.get('known', [])
    held = [(c, r) for c, r in results if r['status'] == 'held']
    if hasattr(mod, 'pooled') and not violated and not errors and not a.replay or (a.replay and not rep.get('case')):
        for msg in mod.pooled(stats, events, a.tier):
            violated.append((None, msg))

    key = lambda c: json.dumps({k: v for k, v in c.items() if k not in ('id', 'seed', 'weight')}, sort_keys=True)
    distinct = len({key(c) + (str(c.get('seed')) if 'seed' in c else '') for c, r in held if r.get('events', {}).get('oracle evaluations')})
    coverage = {'evaluations': len(results), 'distinct_nontrivial': distinct, 'rule': mod.RULE,
                'samples': [dict(c, observed=r.get('events', {}), notes=r.get('notes', {})) for c, r in held[:6]],
                'held': len(held), 'inconclusive': len(incon), 'not_started': skipped,
                'distinct_configurations': len({key(c) for c, _ in held}),
                'events': events, 'closest_to_bound': notes}
    if stats:
        coverage['pooled'] = stats
    if incon:
        coverage['inconclusive_samples'] = [m[:300] for _, m in incon[:3]]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not a.only and not a.replay:
        json.dump({'property': a.prop, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': seed,
                   'level': 'exploration', 'coverage': coverage, 'assumptions': getattr(mod, 'ASSUMPTIONS', []),
                   'wall_s': round(time.time() - t0, 2), 'violations': len(violated)},
                  open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w'), indent=1, default=repr)

    kf = os.path.join(VERIF, 'known_findings.txt')
    listed = [l.split(': ', 1)[1].strip() for l in open(kf)] if os.path.exists(kf) else []
    for k in sorted(set(known)):
        if any(l.startswith('property=%s %s' % (a.prop, k)) for l in listed):
            print('KNOWN-FINDING: property=%s %s' % (a.prop, k))
        else:
            violated.append((None, 'unlisted finding: ' + k))
    print('%s %s seed=%d: %d cases, %d held, %d inconclusive, %d not started, %.1f s' % (
        a.prop, a.tier, seed, len(results), len(held), len(incon), skipped, time.time() - t0))
    print('  observed:', ', '.join('%s=%d' % kv for kv in sorted(events.items())))
    if violated:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        for case, msg in violated[:5]:
            h = hashlib.sha1(json.dumps([a.prop, case, seed, a.tier], sort_keys=True).encode()).hexdigest()[:10]
            path = os.path.join(VERIF, 'replays', '%s-%s.json' % (a.prop, h))
            json.dump({'property': a.prop, 'tier': a.tier, 'seed': seed, 'case': case, 'message': msg,
                       'replay': 'harness/check %s --replay %s' % (a.prop, path)}, open(path, 'w'), indent=1)
            print('  ' + msg[:1200].replace('\n', '\n    '))
            print('VIOLATION property=%s replay=%s' % (a.prop, path), flush=True)
        return 1
    if errors:
        print('HARNESS ERROR\n' + errors[0][1])
        return 2
    need = getattr(mod, 'NEED', ['oracle evaluations'])
    missing = [n for n in need if not events.get(n)]
    if a.replay or a.only:
        return 0 if held and not incon else 2
    if missing or len(held) < 0.5 * len(cases):
        print('INCONCLUSIVE: missing events %s, %d of %d cases held' % (missing, len(held), len(cases)),
              [m[:500] for _, m in incon[:2]])
        return 2
    return 0


sys.exit(main())
