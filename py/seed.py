#!/usr/bin/env python3
"""seed.py make <id> | test <id>... | demo <id>   (development tool for planted bugs)
   make: wraps /tmp/seedw/repo's uncommitted edit and /tmp/seedw/<id>.{ps,rs,json} into /verif/seeded/<id>"""
import sys, os, subprocess, shutil, json
V = '/verif'; W = '/tmp/seedw'; REPO = W + '/repo'
KIT = V + '/py/seedkit'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def copy():
    shutil.rmtree(REPO, ignore_errors=True); os.makedirs(W, exist_ok=True)
    subprocess.check_call(['cp', '-a', '/repo', REPO])
    # the copy must not share build output fingerprints with /repo
def suite():
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    sh('. /opt/vp/env.sh; rm -f target/nextest/vp/junit.xml; cargo nextest run --workspace --offline --locked --no-fail-fast --test-threads 8 --tool-config-file vp:/opt/vp/nextest.toml --profile vp', cwd=REPO, executable='/bin/bash')
    x = open(REPO + '/target/nextest/vp/junit.xml').read()
    import xml.etree.ElementTree as E
    ok = {c.get('classname') + '::' + c.get('name') for c in E.fromstring(x).iter('testcase') if c.find('failure') is None and c.find('error') is None}
    return sorted(base - ok)
def demo(d, repo):
    r = sh('bash %s/demo.sh' % d, cwd=repo); return r.returncode, r.stdout.decode()[-600:]
def test(i):
    d = '%s/seeded/%s' % (V, i)
    if not os.path.isdir(REPO): copy()
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', cwd=REPO)
    a = demo(d, REPO)
    r = sh('git apply %s/patch.diff' % d, cwd=REPO); assert r.returncode == 0, r.stdout
    b = demo(d, REPO)
    s = suite()
    sh('git checkout -q -- .', cwd=REPO)
    ok = a[0] == 0 and b[0] != 0 and not s
    print(i, 'OK' if ok else 'BAD', 'clean', (a[0], a[1][-300:]) if a[0] else 0, 'patched', b[0], b[1][-150:].replace(chr(10), ' '), 'failing', s[:3], flush=True)
def main():
    if sys.argv[1] == 'copy': copy()
    if sys.argv[1] == 'test':
        for i in sys.argv[2:]: test(i)
    if sys.argv[1] == 'catch':
        for i in sys.argv[2:]:
            d = '%s/seeded/%s' % (V, i); p = json.load(open(d + '/meta.json'))['property']
            assert sh('git apply %s/patch.diff' % d, cwd='/repo').returncode == 0
            try: r = sh('python3 %s/py/check.py %s quick' % (V, p), cwd=V)
            finally: sh('git checkout -q -- .', cwd='/repo')
            out = r.stdout.decode(); print(i, p, 'CAUGHT' if 'VIOLATION property=%s' % p in out and r.returncode == 1 else 'MISSED', out[:300].replace('\n', ' | '), out[-160:].replace('\n', ' '), flush=True)
main()
