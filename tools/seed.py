"""Makes and tries planted bugs:  seed.py make|try [id...]    (sources: tools/seeds/bugs.py and tools/seeds/base.py)

make: writes seeded/<id>/ from a scratch copy of /repo after confirming that the demonstration passes without and fails with
the change, and that the stable tests still pass.   try: runs the quick check of the property on the changed copy."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools', 'seeds'))
import bugs
PY = '/opt/venv/bin/python'


def copy():
    d = tempfile.mkdtemp(prefix='seed')
    subprocess.check_call(['git', 'clone', '-q', '/repo', d + '/r'])
    return d


def crlf(s):
    return s.replace('\r\n', '\n').replace('\n', '\r\n')


def apply(b, r):
    for f, old, new in b['edits']:
        p = os.path.join(r, f)
        s = open(p, newline='', encoding='utf-8').read()
        cr = '\r\n' in s
        old, new = (crlf(old), crlf(new)) if cr else (old, new)
        assert s.count(old) == 1, (b['id'], f, s.count(old), old)
        open(p, 'w', newline='', encoding='utf-8').write(s.replace(old, new))


def tests(r):
    """the stable tests, in the copy: their scripts end without an exception"""
    want = json.load(open('/opt/vp/BASELINE.json'))
    ok = True
    for t in ('TestHydraulics.py',):
        p = subprocess.run([PY, '-B', '-c', 'import matplotlib; matplotlib.use("Agg"); import runpy; runpy.run_path("tests/%s", run_name="__main__")' % t], cwd=r, env=dict(os.environ, PYTHONPATH=r),
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
        ok = ok and p.returncode == 0
    return ok


def demo(d, r):
    p = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout[-400:]


def make(b):
    d = copy()
    r = d + '/r'
    o = os.path.join(d, b['id'])
    os.makedirs(o)
    shutil.copy(os.path.join(V, 'tools', 'seeds', 'base.py'), o)
    open(o + '/demo.py', 'w').write('from base import *\n\n' + b['demo'].strip() + '\nprint("ok")\n')
    open(o + '/demo.sh', 'w').write('#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(o + '/meta.json', 'w'), indent=1)
    rc0, t0 = demo(o, r)
    apply(b, r)
    rc1, t1 = demo(o, r)
    diff = subprocess.check_output(['git', '-C', r, 'diff', '--binary'])
    open(o + '/patch.diff', 'wb').write(diff)
    ok = rc0 == 0 and rc1 != 0
    tt = tests(r) if ok else None
    print(b['id'], b['property'], 'demo %d -> %d' % (rc0, rc1), 'tests', tt, '' if ok else '\n--- unpatched\n%s\n--- patched\n%s' % (t0, t1), '' if 'Traceback' not in t1 else 'NOTE traceback: ' + t1[-200:])
    if ok and tt:
        dst = os.path.join(V, 'seeded', b['id'])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(o, dst)
    shutil.rmtree(d)


def attempt(b, props=None):
    d = copy()
    apply(b, d + '/r')
    for p in props or [b['property']]:
        q = subprocess.run([os.path.join(V, 'check'), p, 'quick'], env=dict(os.environ, HAPUA_REPO=d + '/r', HAPUA_NOEV='1'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(b['id'], p, 'CAUGHT' if q.returncode == 1 else 'MISSED' if q.returncode == 0 else 'NO ANSWER', [l for l in q.stdout.splitlines() if 'clause' in l or '{' in l][:4], flush=True)
        if p == b['property']:
            cl = [l.split()[1].rstrip(':') for l in q.stdout.splitlines() if l.startswith('  clause ')]
            f = os.path.join(V, 'tools', 'caught.json')
            c = json.load(open(f)) if os.path.exists(f) else {}
            c[b['id']] = ', '.join(x.split('_')[-1] for x in cl[:3]) if q.returncode == 1 else 'not caught'
            json.dump(c, open(f, 'w'), indent=1, sort_keys=True)
    shutil.rmtree(d)


if __name__ == '__main__':
    ids = sys.argv[2:]
    for b in bugs.BUGS:
        if not ids or b['id'] in ids:
            (make if sys.argv[1] == 'make' else attempt)(b)
