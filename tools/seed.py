#!/usr/bin/env python3
"""seed.py make SPEC...   write /verif/seeded/<id> from specification files (python: ID, PROP, EDITS, NEEDS, WHAT, DEMO)
seed.py verify ID...  confirm a planted change in a scratch copy: applies, tests pass, demo passes without / fails with
seed.py check ID [PROPS]  run the checks against a copy with the change (BLOSCPACK_REPO)"""
import sys, os, subprocess, json, shutil, difflib, tempfile
V = '/verif/seeded'


def make(spec):
    g = {}
    exec(open(spec).read(), g)
    d = os.path.join(V, g['ID'])
    os.makedirs(d, exist_ok=True)
    patch = ''
    files = {}
    for f, old, new in g['EDITS']:
        s = files.get(f) or open('/repo/' + f).read()
        assert s.count(old) == 1, (g['ID'], f, s.count(old), old)
        files[f] = s.replace(old, new)
    for f, s in files.items():
        o = open('/repo/' + f).read()
        patch += ''.join(difflib.unified_diff(o.splitlines(True), s.splitlines(True), 'a/' + f, 'b/' + f))
    open(d + '/patch.diff', 'w').write(patch)
    open(d + '/demo.py', 'w').write(g['DEMO'].lstrip())
    open(d + '/demo.sh', 'w').write('#!/bin/sh\nd=$(cd "$(dirname "$0")" && pwd)\nw=$(mktemp -d)\n'
                                    'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" REPO="$PWD"\nexport PYTHONDONTWRITEBYTECODE PYTHONPATH REPO\n'
                                    'cd "$w" && /opt/venv/bin/python "$d/demo.py"\nrc=$?\nrm -rf "$w"\nexit $rc\n')
    json.dump({'property': g['PROP'], 'needs': g['NEEDS'], 'what_it_breaks': g['WHAT']}, open(d + '/meta.json', 'w'), indent=1)
    print('made', g['ID'])


def copy():
    t = tempfile.mkdtemp(prefix='seedcopy-')
    subprocess.check_call(['cp', '-a', '/repo', t + '/repo'])
    return t


def tests(repo):
    """the stable tests of the copy (pytest part and cram part)"""
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    t = tempfile.mkdtemp(prefix='seedtest-')
    s = open('/opt/vp/test.sh').read().replace('/repo', repo)
    open(t + '/test.sh', 'w').write(s)
    subprocess.run(['bash', t + '/test.sh', t + '/out.json'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try:
        r = json.load(open(t + '/out.json'))
    except OSError:
        return ['no result']
    finally:
        shutil.rmtree(t)
    p = r.get('passed') or r.get('pass') or []
    return [x for x in base if x not in p]


def demo(i, repo):
    d = tempfile.mkdtemp(prefix='seeddemo-')
    for f in os.listdir(os.path.join(V, i)):
        if not f.endswith(('.diff', '.patch')) and f != 'meta.json':
            shutil.copy(os.path.join(V, i, f), d)
    try:
        return subprocess.run(['sh', d + '/demo.sh'], cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    finally:
        shutil.rmtree(d)


def verify(i):
    t = copy()
    try:
        repo = t + '/repo'
        a = demo(i, repo)
        subprocess.check_call(['git', '-C', repo, 'apply', os.path.join(V, i, 'patch.diff')])
        b = demo(i, repo)
        miss = tests(repo)
        ok = a.returncode == 0 and b.returncode != 0 and not miss
        print('%s: clean=%d patched=%d tests-missing=%s %s' % (i, a.returncode, b.returncode, miss[:3], 'OK' if ok else 'BAD'))
        if not ok:
            print(a.stdout.decode()[-800:], b.stdout.decode()[-800:])
    finally:
        shutil.rmtree(t)


def check(i, props):
    t = copy()
    try:
        repo = t + '/repo'
        subprocess.check_call(['git', '-C', repo, 'apply', os.path.join(V, i, 'patch.diff')])
        if not props:
            props = [json.load(open(os.path.join(V, i, 'meta.json')))['property']]
        for p in props:
            r = subprocess.run(['/verif/check', p], env=dict(os.environ, BLOSCPACK_REPO=repo, VERIF_EVIDENCE=t), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)
            o = r.stdout.decode()
            v = [l for l in o.splitlines() if l.startswith(('VIOLATION', 'failing input', 'OPEN', 'ERROR'))]
            print('%s %s: rc=%d %s' % (i, p, r.returncode, '\n    '.join(x[:300] for x in v[:4] + v[-2:])), flush=True)
    finally:
        shutil.rmtree(t)


if sys.argv[1] == 'make':
    for s in sys.argv[2:]:
        make(s)
elif sys.argv[1] == 'verify':
    from multiprocessing.pool import ThreadPool
    ThreadPool(2).map(verify, sys.argv[2:] or sorted(os.listdir(V)))
elif sys.argv[1] == 'check':
    check(sys.argv[2], sys.argv[3:])
elif sys.argv[1] == 'checkall':
    for i in sorted(os.listdir(V)):
        check(i, sys.argv[2:])
