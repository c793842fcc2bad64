#!/usr/bin/env python3
"""Planted bugs: verify that each in seeded/ counts, and which checks catch it.

  tools/bugs.py verify ID...          build, tests and demo on a patched copy
  tools/bugs.py detect ID... [-p P01,P02]   run the property's check (or others) on it
  tools/bugs.py table                 the table in DESIGN.md from seeded/*/meta.json and results

A patched copy of /repo lives in /tmp and is mounted over /repo in a private
mount namespace, so /repo itself is never touched."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
def home(i):
    for d in ('seeded', 'planted-tcc'):
        if os.path.exists(os.path.join(V, d, i)):
            return os.path.join(V, d, i)
    raise SystemExit('no planted bug ' + i)


RES = os.path.join(V, 'tools', 'bug-results.json')


def ns(copy, script, log, env=None):
    with open(log, 'w') as f:
        return subprocess.run(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s /repo && cd /repo && %s' % (copy, script)], stdout=f, stderr=subprocess.STDOUT, env=dict(os.environ, **(env or {}))).returncode


def copy_of(i, build=True):
    d = tempfile.mkdtemp(prefix='bug-%s-' % i, dir='/tmp')
    c = os.path.join(d, 'repo')
    if build:
        subprocess.run(['cp', '-a', '/repo', c], check=True)
    else:
        subprocess.run(['git', 'clone', '-q', '/repo', c], check=True)
    subprocess.run(['git', '-C', c, 'apply', os.path.join(home(i), 'patch.diff')], check=True)
    return d, c


def tests(path):
    b = json.load(open('/opt/vp/BASELINE.json'))
    want = set(b.get('stable') or b.get('passed') or b)
    return sorted(want - set(json.load(open(path))['passed']))


def verify(i):
    s = home(i)
    d, c = copy_of(i)
    try:
        lay = os.path.join(d, 'lay')
        shutil.copytree(s, lay, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        clean = subprocess.run(['bash', os.path.join(lay, 'demo.sh')], cwd='/repo', stdout=open(d + '/clean.log', 'w'), stderr=subprocess.STDOUT).returncode
        b = ns(c, 'bash /opt/vp/test.sh %s/out.json' % d, d + '/build.log')
        missing = tests(d + '/out.json') if b == 0 else ['build']
        p = ns(c, 'bash %s/demo.sh' % lay, d + '/demo.log')
        ok = clean == 0 and not missing and p != 0
        print(i, 'COUNTS' if ok else 'BAD', 'clean demo', clean, 'patched demo', p, 'tests', missing[:3], flush=True)
        if not ok:
            for l in ('clean.log', 'build.log', 'demo.log'):
                print('---', l)
                print(open(os.path.join(d, l), errors='replace').read()[-1500:])
    finally:
        shutil.rmtree(d)


def load():
    return json.load(open(RES)) if os.path.exists(RES) else {}


def detect(i, pids):
    prop = json.load(open(os.path.join(home(i), 'meta.json')))['property']
    d, c = copy_of(i, False)
    try:
        for p in pids or [prop]:
            rc = ns(c, 'python3 %s/vf.py check %s' % (V, p), d + '/log', {'VERIF_NOSHRINK': ''})
            out = open(d + '/log').read()
            v = [l for l in out.splitlines() if l.startswith('VIOLATION') or l.startswith('  ') and '[' in l]
            print(i, p, 'CAUGHT' if rc == 1 and 'VIOLATION property=' + p in out else 'missed rc=%d' % rc, '|', ' '.join(v[1:2])[:200], flush=True)
            r = load()
            r.setdefault(i, {})[p] = rc
            json.dump(r, open(RES, 'w'), indent=1, sort_keys=True)
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    a = sys.argv[2:]
    pids = []
    if '-p' in a:
        k = a.index('-p')
        pids = a[k + 1].split(',')
        a = a[:k] + a[k + 2:]
    if sys.argv[1] == 'table':
        r = load()
        for i in sorted(os.listdir(os.path.join(V, 'seeded')) + os.listdir(os.path.join(V, 'planted-tcc'))):
            m = os.path.join(home(i), 'meta.json')
            if os.path.exists(m):
                m = json.load(open(m))
                print('| %s | %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'], m['needs'], ', '.join(p for p, c in sorted(r.get(i, {}).items()) if c == 1) or 'none'))
    for i in a:
        {'verify': verify, 'detect': lambda x: detect(x, pids)}[sys.argv[1]](i)
