#!/usr/bin/env python3
"""Run the proofs (and with --rac the runtime contracts) on behaviour-preserving edits of /repo.

tools/refactor.py [--rac] [--only C01,C02] [names...]     each edit on its own; works on copies under /tmp"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from refactorings import R          # noqa: E402
PROPS = ['C%02d' % k for k in range(1, 22)] + ['C24', 'C25']


def make(name):
    d = '/tmp/refactor.%d.%s' % (os.getpid(), name)
    shutil.copytree('/repo/src', d + '/src', ignore=shutil.ignore_patterns('__pycache__'))
    if name.startswith('rename:'):          # rename an internal identifier everywhere
        old = name.split(':')[1]
        import re
        for root, _, fs in os.walk(d):
            for x in fs:
                if x.endswith('.py'):
                    t = open(root + '/' + x).read()
                    open(root + '/' + x, 'w').write(re.sub(r'\b%s\b' % re.escape(old), old + '_renamed', t))
        return d
    f, edits = R[name]
    p = d + '/src/flowMC/' + f
    s = open(p).read()
    for old, new in edits:
        if s.count(old) < 1:
            shutil.rmtree(d)
            raise SystemExit('%s: pattern not found: %r' % (name, old[:80]))
        s = s.replace(old, new, 1)
    open(p, 'w').write(s)
    return d


def proof(d, c):
    out = d + '/%s.json' % c
    e = dict(os.environ, VERIF_REPO=d, PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run(['python3-vt', '-m', 'engine.runner', c, '--out', out], env=e, cwd=HERE, capture_output=True, text=True)
    try:
        r = json.load(open(out))
    except Exception:
        return 'crash', p.stderr[-500:]
    bad = [(o['status'], o['id'], o.get('detail', '')[:160]) for o in r['obligations'] if o['status'] != 'discharged']
    if r.get('error'):
        bad.append(('error', c, r['error'][-300:]))
    return 'ok', bad


def rac(d, c):
    out = d + '/r%s.json' % c
    e = dict(os.environ, VERIF_REPO=d, PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE='1', JAX_PLATFORMS='cpu')
    subprocess.run(['/opt/venv/bin/python', HERE + '/rac/run.py', c, '--out', out], env=e, cwd='/tmp', capture_output=True, text=True)
    try:
        r = json.load(open(out))
    except Exception:
        return ['no result']
    bad = ['%s: %s' % (f['case'], f['what'][:200]) for f in r['failures']]
    if r.get('error'):
        bad.append('error ' + r['error'][-300:])
    if not any(v['ok'] for v in r['per_case'].values()):
        bad.append('nothing ran: %s' % str(list(r['skips'].items())[:2])[:300])
    return bad


def touching(f):
    """the properties with a function of that file under contract (from the last evidence); all of them without evidence"""
    m = 'flowMC.' + f[:-3].replace('/', '.') + ':'
    out = []
    for c in PROPS:
        try:
            fs = json.load(open(HERE + '/evidence/%s.json' % c))['coverage']['functions_under_contract']
        except Exception:
            return PROPS
        if c in ('C08', 'C19') or any(x.startswith(m) for x in fs):
            out.append(c)
    return out


def main():
    a = sys.argv[1:]
    with_rac = '--rac' in a
    only = PROPS
    if '--only' in a:
        only = a[a.index('--only') + 1].split(',')
        del a[a.index('--only'):a.index('--only') + 2]
    names = [x for x in a if not x.startswith('--')] or list(R)
    ex = cf.ThreadPoolExecutor(int(os.environ.get('JOBS', '7')))
    for n in names:
        d = make(n)
        try:
            cs = [c for c in only if n.startswith('rename:') or c in touching(R[n][0])]
            js = {c: ex.submit(proof, d, c) for c in cs}
            rs = {c: ex.submit(rac, d, c) for c in cs} if with_rac else {}
            lines, nu = [], {}
            for c in cs:
                st, bad = js[c].result()
                if st == 'crash':
                    lines.append('   CRASH %s %s' % (c, bad))
                    continue
                for b in bad:
                    if b[0] == 'undecided':
                        nu.setdefault(c, []).append(b)
                    else:
                        lines.append('   %s %s %s' % b)
                if c in rs:
                    for b in rs[c].result():
                        lines.append('   RAC %s %s' % (c, b))
            for c, bs in nu.items():
                lines.append('   undecided %s: %d, e.g. %s %s' % (c, len(bs), bs[0][1], bs[0][2]))
            print('%-22s %s' % (n, 'quiet' if not lines else ''), flush=True)
            for x in lines[:12]:
                print(x, flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)


main()
