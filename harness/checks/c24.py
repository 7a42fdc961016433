"""C24: processes that use the whole library, with every process-wide setting compared before, during and after each operation."""
import json
import os
import subprocess
import sys

from lib.core import Inconclusive, derive

RULE = ('processes with caller settings of their own (numpy and torch error handling, precision, gradients, threads, warnings, logging, '
        'printing, signals, environment), with all or some optional libraries; the import and every public operation in every mode is '
        'bracketed by snapshots of the process, and light snapshots are taken inside every user callback; each operation runs from '
        'two states of the random generators; non-trivial: operations performed')
NEED = ['settings compared', 'callbacks observed', 'operations', 'generator tests', 'directories examined']
SOFT = {'quick': 200, 'thorough': 2400}
THREADS = 2
JOBS = 4


def cases(tier, seed):
    out = []
    for i in range({'quick': 8, 'thorough': 120}[tier]):
        hide = [[], [], ['duecredit'], ['numba'], ['torch'], ['ot']][i % 6]
        out.append({'hide': hide, 'rep': i, 'seed': derive(seed, 'c24', i)})
    return out


def run(case, ctx):
    scratch = os.path.join(os.environ['VERIF_SCRATCH'], 'c24_%d' % case['id'])
    dirs = {n: os.path.join(scratch, n) for n in ('cwd', 'home', 'tmp')}
    for d in dirs.values():
        os.makedirs(d)
    spec, out = os.path.join(scratch, 'spec.json'), os.path.join(scratch, 'out.json')
    json.dump({'seed': case['seed'], 'hide': case['hide']}, open(spec, 'w'))
    prog = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'progs', 'effects.py')
    env = dict(os.environ, HOME=dirs['home'], TMPDIR=dirs['tmp'])
    with open(os.path.join(scratch, 'stdout'), 'w+') as so, open(os.path.join(scratch, 'stderr'), 'w+') as se:
        rc = subprocess.run([sys.executable, '-B', prog, out, spec], cwd=dirs['cwd'], env=env, stdin=subprocess.DEVNULL, stdout=so, stderr=se,
                            timeout=220).returncode
        so.seek(0), se.seek(0)
        text, err = so.read(), se.read()
    if rc == -9:
        raise Inconclusive('killed')
    ctx.require(rc == 0 and os.path.exists(out), 'a process using the library ended with code %d' % rc, stderr=err[-900:], hidden=case['hide'])
    r = json.load(open(out))
    ctx.require(not r['errors'], 'an operation raised', errors=r['errors'][:2], hidden=case['hide'])
    ctx.require(not r['changes'], 'process-wide settings changed', changes=r['changes'][:4], hidden=case['hide'])
    ctx.require(not r['reseeded'], 'a global random generator ends in the same state whatever state it started in', operations=r['reseeded'][:5])
    ctx.require(not text, 'the library wrote to the standard output', text=text[:400])
    for n, d in dirs.items():
        left = [os.path.join(p, f)[len(d):] for p, _, fs in os.walk(d) for f in fs]
        ctx.require(not left, 'the library left files', directory=n, files=left[:5])
        ctx.count('directories examined')
    ctx.count('settings compared', r['settings compared'])
    ctx.count('callbacks observed', r['callbacks'])
    ctx.count('operations', r['operations'])
    ctx.count('generator tests', r['generator tests'])
