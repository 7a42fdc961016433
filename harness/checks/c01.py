"""C01: the package is imported and used with every subset of its optional dependencies missing, from the source tree and from an
installed copy, from hostile working directories, each in a process of its own."""
import itertools
import json
import os
import shutil
import subprocess
import sys

import numpy as np

from lib.core import REPO, Inconclusive, derive

RULE = ('all 16 subsets of {torch, ot, numba, duecredit} hidden, times source tree / copy built by setup.py, times working directory '
        '(empty, tree, decoy modules of the same names as the package\'s submodules), import order, and flags; each one process that '
        'imports the package, lists its names, runs the estimators and whole controllers; non-trivial: all')
NEED = ['processes observed', 'hidden subsets', 'installed copy processes', 'source tree processes', 'controllers built',
        'processes without torch', 'processes with torch']
SOFT = {'quick': 400, 'thorough': 2400}
OPTIONAL = ('torch', 'ot', 'numba', 'duecredit')
NP = ['np plain', 'np reweight', 'np bridge', 'np stochastic', 'np reweight stochastic']
ORDERS = ([], ['DeterministicParticleFlowControl.score_estimators'], ['DeterministicParticleFlowControl.reweighting'],
          ['DeterministicParticleFlowControl.score_estimators.score_function_estimators'],
          ['DeterministicParticleFlowControl.DeterministicParticleFlowControl'], ['DeterministicParticleFlowControl.due'])


def cases(tier, seed):
    out = []
    subsets = [s for r in range(5) for s in itertools.combinations(OPTIONAL, r)]
    wheres = ('source', 'installed')
    for i, (s, w) in enumerate(itertools.product(subsets, wheres)):
        reps = 1 if tier == 'quick' else 6
        for r in range(reps):
            v = derive(seed, 'c01', i, r)
            out.append({'hide': list(s), 'where': w, 'cwd': ['empty', 'decoy', 'tree'][(v + r) % 3], 'order': ORDERS[(v // 3) % len(ORDERS)],
                        'flags': [[], ['-O'], ['-OO']][(v // 20) % 3], 'cite': (v // 60) % 2 == 0, 'seed': v})
    return out


def installed(scratch):
    """a copy of the tree, built by its own setup.py into a directory of its own (never inside the repository)"""
    dst = os.path.join(scratch, 'c01_%d' % os.getpid())
    lib = os.path.join(dst, 'lib')
    if not os.path.isdir(lib):
        shutil.copytree(REPO, os.path.join(dst, 'src'), ignore=shutil.ignore_patterns('.git', 'build', '*.egg-info', 'notebooks', '*.png', 'docs'))
        p = subprocess.run([sys.executable, 'setup.py', '-q', 'build', '--build-base', os.path.join(dst, 'b'), '--build-lib', lib],
                           cwd=os.path.join(dst, 'src'), capture_output=True, text=True, timeout=200,
                           env=dict(os.environ, PYTHONPATH=''))
        if p.returncode or not os.path.isdir(os.path.join(lib, 'DeterministicParticleFlowControl')):
            raise Inconclusive('setup.py build failed: ' + p.stderr[-800:])
        shutil.rmtree(os.path.join(dst, 'src'))
    return lib


def run(case, ctx):
    scratch = os.environ['VERIF_SCRATCH']
    work = os.path.join(scratch, 'w%d_%d' % (os.getpid(), case['id']))
    os.makedirs(work)
    cwd = work
    if case['where'] == 'installed':
        path = installed(scratch)
        ctx.count('installed copy processes')
    else:
        path = REPO
        ctx.count('source tree processes')
    if case['cwd'] == 'decoy':
        cwd = os.path.join(work, 'decoy')
        os.makedirs(cwd)
        for n in ('due', 'utils', 'kernels', 'score_estimators', 'reweighting', 'version', 'RBF_pytorch', 'score_function_estimators'):
            with open(os.path.join(cwd, n + '.py'), 'w') as fh:
                fh.write('raise RuntimeError("module %s of the working directory was imported")\n' % n)
    elif case['cwd'] == 'tree':
        cwd = path
    hidden = set(case['hide'])
    use = list(NP)
    if 'torch' not in hidden:
        use += ['torch plain', 'torch stochastic']
        if 'ot' not in hidden:
            use += ['torch reweight', 'torch bridge']
    out = os.path.join(work, 'out.json')
    prog = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'progs', 'optional.py')
    spec = {'hide': case['hide'], 'order': case['order'], 'use': use}
    env = dict(os.environ, PYTHONPATH=os.pathsep.join([cwd, path] if case['cwd'] == 'decoy' else [path]))
    if case['cite'] and case['cwd'] != 'tree':   # an active duecredit writes its records into the working directory
        env['DUECREDIT_ENABLE'] = 'yes'
        ctx.count('processes with citations collected')
    try:
        p = subprocess.run([sys.executable, '-B'] + case['flags'] + [prog, out, json.dumps(spec)], cwd=cwd, env=env,
                           capture_output=True, text=True, timeout=220)
    except subprocess.TimeoutExpired:
        raise Inconclusive('time limit')
    info = {k: case[k] for k in ('hide', 'where', 'cwd', 'order', 'flags')}
    if p.returncode < 0 and -p.returncode == 9:
        raise Inconclusive('killed')
    ctx.require(os.path.exists(out), 'the process ended with code %d' % p.returncode, stderr=p.stderr[-800:], **info)
    r = json.load(open(out))
    if r['stage'].startswith('not hidden'):
        raise Inconclusive(r['stage'])
    ctx.count('processes observed')
    ctx.count('hidden subsets')
    ctx.require(r['ok'], 'failed at %s: %s' % (r['stage'], r.get('error')), traceback=r.get('tb', '')[-900:], **info)
    ctx.require(os.path.dirname(os.path.dirname(os.path.abspath(r['file']))) == os.path.abspath(path), 'imported from elsewhere', file=r['file'], **info)
    torch = 'torch' not in hidden
    ctx.count('processes with torch' if torch else 'processes without torch')
    want = ['DPFC'] + ['torched_DPFC'] * torch
    ctx.require(r['names'] == want and r['star'] == want, 'wrong controllers offered', names=r['names'], star=r['star'], **info)
    est = ['my_cdist', 'score_function_multid_seperate', 'score_function_multid_seperate_all_dims', 'score_function_multid_seperate_old']
    est += ['torched_score_function_multid_seperate_all_dims'] * torch
    ctx.require(r['est'] == est, 'wrong estimators offered', est=r['est'], **info)
    ctx.require(r['ot'] and (not torch or r['kernel']), 'transport map, kernel or set_device not offered', **info)
    ctx.require(r['est_ok'] and r['T'], 'estimators or transport map disagree', **info)
    for u, v in r['runs'].items():
        ctx.require(v['shape'] and v['finite'] and v['u'], 'controller does not work: ' + u, **info)
        ctx.count('controllers built')
    # the missing libraries do not change the numbers of the numpy part
    ref = reference(ctx, scratch)
    if ref is not None:
        for u in NP:
            for q in ('Z', 'B', 'uv'):
                d = np.abs(np.array(r['runs'][u][q]) - np.array(ref['runs'][u][q])).max() / (np.abs(ref['runs'][u][q]).max())
                ctx.worst('relative difference to the full installation', d)
                ctx.require(d < 1e-4, 'results depend on the optional libraries: ' + u, quantity=q, difference=d, **info)
        d = np.abs(np.array(r['est_val']) - np.array(ref['est_val'])).max()
        ctx.require(d < 1e-5, 'estimates depend on the optional libraries', difference=d, **info)
        ctx.count('compared with the full installation')
    shutil.rmtree(work, ignore_errors=True)


_ref = {}


def reference(ctx, scratch):
    """the same program in the full installation, once per worker"""
    if 'r' not in _ref:
        _ref['r'] = None
        out = os.path.join(scratch, 'ref%d.json' % os.getpid())
        prog = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'progs', 'optional.py')
        p = subprocess.run([sys.executable, '-B', prog, out, json.dumps({'hide': [], 'order': [], 'use': NP})], cwd=scratch,
                           capture_output=True, text=True, timeout=220)
        if p.returncode == 0 and os.path.exists(out):
            r = json.load(open(out))
            if r['ok']:
                _ref['r'] = r
    return _ref['r']
