#!/usr/bin/env python3
"""seed.py new ID PROP NEEDS BREAKS  : make seeded/ID from the uncommitted change in the scratch copy and DEMO (file)
seed.py test ID [CHECK...]         : build, tests, demo with and without; then the checks"""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get('SCRATCH', '/tmp/sd')
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
def fresh():
    if not os.path.isdir(S): sh('cp -a /repo ' + S)
    sh('cd %s && git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD && git checkout -q -- . && git clean -fdq' % S)
def test(i, checks):
    d = os.path.join(V, 'seeded', i)
    fresh()
    def build(): return sh('cd %s && sed s#/repo#%s#g /opt/vp/build.sh > /tmp/b.sh && bash /tmp/b.sh' % (S, S))
    b = build(); assert b.returncode == 0, b.stdout[-2000:]
    x = sh('bash %s/demo.sh' % d, cwd=S, timeout=300)
    print('demo clean', x.returncode, x.stdout[-500:])
    import re
    mine, orig, fn, ln = 0, 0, None, 0
    for l in open(d + '/patch.diff'):
        if l.startswith('+++ b/'): fn = l[6:].strip(); bl = sh('git -C /repo blame -s -l HEAD -- ' + fn).stdout.split('\n')
        elif l.startswith('@@'): ln = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-') and not l.startswith('---'):
            if bl[ln - 1].lstrip('^').startswith('5b0fcf1') or bl[ln - 1].startswith('^'): orig += 1
            else: mine += 1
            ln += 1
        elif l.startswith(' '): ln += 1
    print('original lines changed:', orig, 'own lines changed:', mine)
    a = sh('git apply %s/patch.diff' % d, cwd=S)
    assert a.returncode == 0, a.stdout
    b = build(); print('build', b.returncode, b.stdout[-1500:] if b.returncode else '')
    t = sh('cd %s && sed -e s#/repo#%s#g -e s#/opt/vp/build.sh#/tmp/b.sh# /opt/vp/test.sh > /tmp/tt.sh && bash /tmp/tt.sh /tmp/oo.json' % (S, S))
    base = json.load(open('/opt/vp/BASELINE.json')); got = json.load(open('/tmp/oo.json'))
    names = base['stable']
    bad = [n for n in names if n not in set(got.get('passed', got))]
    print('tests broken:', bad[:5])
    y = sh('bash %s/demo.sh' % d, cwd=S, timeout=300)
    print('demo patched', y.returncode, y.stdout[-700:])
    ok = x.returncode == 0 and y.returncode != 0 and b.returncode == 0 and not bad and orig > 0 and mine == 0
    print('VALID' if ok else 'INVALID', i)
    prop = json.load(open(d + '/meta.json'))['property']
    for c in checks or [prop]:
        r = sh('python3 check.py ' + c, cwd=V, env=dict(os.environ, VERIF_REPO=S, VERIF_SEED='1', VERIF_TIER='quick'))
        print(c, 'rc', r.returncode, r.stdout[:700])
    fresh()
if __name__ == '__main__':
    if sys.argv[1] == 'new':
        i, prop, needs, br = sys.argv[2:6]
        d = os.path.join(V, 'seeded', i); os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(subprocess.run('git diff', shell=True, cwd=S, stdout=subprocess.PIPE, text=True).stdout)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': br}, open(d + '/meta.json', 'w'), indent=1)
        body = sys.stdin.read()
        if 'expect' in body:
            shutil.copy(V + '/tools/demo/drv.c', d)
            body = '#!/bin/bash\n' + open(V + '/tools/demo/lib.sh').read() + body + '\nexit $fails\n'
        open(d + '/demo.sh', 'w').write(body); os.chmod(d + '/demo.sh', 0o755)
        test(i, sys.argv[6:])
    elif sys.argv[1] == 'fresh': fresh()
    else: test(sys.argv[2], sys.argv[3:])
