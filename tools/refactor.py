#!/usr/bin/env python3
"""Runs every check on edits of /repo that keep its behaviour, and prints what is reported.

refactor.py [name...]: the edits are in refactors/*.py, each a call of
ref(name, (file, old, new), ...) where old is replaced once in a scratch copy.
"""
import glob, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__))
env = dict(os.environ)
for l in subprocess.run(['bash', '-c', '. /opt/vp/env.sh; env'], capture_output=True, text=True).stdout.splitlines():
    k, _, v = l.partition('=')
    env[k] = v
R = []

def ref(name, *edits):
    R.append((name, edits))

for f in sorted(glob.glob(here + '/refactors/*.py')):
    exec(compile(open(f).read(), f, 'exec'))
az = tempfile.mkdtemp(prefix='refactor') + '/az'
subprocess.run(['go', 'build', '-o', az, '.'], cwd=here + '/../analyzer', env=env, check=True)

def plain(s):
    return re.sub(r'(?m)^[ \t]*//.*\n', '', s)

def run(x):
    name, edits = x
    d = tempfile.mkdtemp(prefix='refactor')
    try:
        subprocess.run(['cp', '-a', '/repo', d + '/r'], check=True)
        for f, o, n in edits:
            p = d + '/r/' + f
            s = open(p).read()
            if o not in s and not o.lstrip().startswith('//'):
                s, o = plain(s), plain(o)
            if o not in s:
                return name, ['NOT FOUND: ' + o[:60]]
            open(p, 'w').write(s.replace(o, n, 1))
        b = subprocess.run(['go', 'build', './...'], cwd=d + '/r', env=env, capture_output=True, text=True)
        if b.returncode:
            return name, ["doesn't build: " + b.stderr[:400]]
        out = []
        t = subprocess.run(['go', 'test', '-vet=off', '-count=1', './...'], cwd=d + '/r', env=env, capture_output=True, text=True)
        bad = [l for l in t.stdout.splitlines() if l.startswith('--- FAIL') and 'TestPut' not in l]
        if bad:
            out += ['tests: ' + ' '.join(bad)]
        os.makedirs(d + '/v/evidence')
        shutil.copy(here + '/../known-findings.txt', d + '/v')
        try:
            a = subprocess.run([az, 'check', os.environ['ONLY'], d + '/v/evidence/x.json'] if os.environ.get('ONLY') else [az, 'all', d + '/v/evidence'], env=dict(env, VERIF_REPO=d + '/r'), capture_output=True, text=True, timeout=600)
        except subprocess.TimeoutExpired:
            return name, out + ['TIMEOUT']
        last = []
        for l in a.stdout.splitlines():
            if l.startswith('VIOLATION'):
                out += [l.split()[1]] + ['   ' + x[:230] for x in last[-3:]]
            if l.startswith('C') and ' obligations' in l[:40]:
                last = []
            elif not l.startswith('KNOWN') and not l.startswith('VIOL'):
                last.append(l)
        if a.returncode not in (0, 1):
            out += ['rc %d %s' % (a.returncode, a.stderr[-300:])]
        return name, out
    finally:
        shutil.rmtree(d)

sel = [x for x in R if not sys.argv[1:] or any(x[0].startswith(a) for a in sys.argv[1:])]
quiet = 0
with ThreadPoolExecutor(4) as ex:
    for name, out in ex.map(run, sel):
        if not out:
            quiet += 1
            continue
        print('== ' + name)
        print('\n'.join(out))
        sys.stdout.flush()
print('%d of %d quiet' % (quiet, len(sel)))
shutil.rmtree(os.path.dirname(az))
