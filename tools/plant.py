#!/usr/bin/env python3
"""plant.py FILE...: a file with  id/prop/needs/breaks/demo and  edits -> seeded/ID, then seed.py test
format (python): plant(id, prop, [(file, old, new)...], needs, breaks, demo, checks=[])"""
import subprocess, sys, os
S = os.environ.get('SCRATCH', '/tmp/sd'); V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def plant(i, prop, edits, needs, breaks, demo, checks=()):
    if len(sys.argv) > 2 and i not in sys.argv[2:]: return
    subprocess.run(['python3', V + '/tools/seed.py', 'fresh'], check=True)
    for f, old, new in edits:
        s = open(S + '/' + f).read()
        assert s.count(old) == 1, (i, f, s.count(old), old)
        open(S + '/' + f, 'w').write(s.replace(old, new))
    print('=====', i, flush=True)
    subprocess.run(['python3', V + '/tools/seed.py', 'new', i, prop, needs, breaks] + list(checks), input=demo, text=True)
exec(open(sys.argv[1]).read())
