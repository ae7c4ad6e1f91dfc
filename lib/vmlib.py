"""Instruction-level checks: random bytecode programs run on the real VM, every
recorded run validated by TLC against spec/ConcordiaVM (module VMTrace)."""
from common import *
import gen_il

def rand_cmds(r, pid, code, runs=3, caps=(0, 1, 3, 8, 40, 64), keys=10, flags=(0, 0, 0, 2, 4, 8, 32, 16)):
    cmds = ['BC %d %s' % (pid, code.hex())]
    for key in range(keys):
        if r.random() < .5:
            cmds.append('V %d %d %s' % (pid, key, ','.join(le(r.choice([0, 1, 2, 3, r.choice(gen_il.U64B)]), 8).hex() for _ in range(3))))
    ref = lambda: r.choice([0] * 6 + [r.randrange(1, 8)])
    cmds.append('R e%d %d e %d %s %d %d %d' % (pid, pid, r.choice(caps), r.choice(['z', 'fff', 'f5a']), r.getrandbits(40), ref(), r.choice(flags)))
    if runs > 1:
        cmds.append('R d%d %d d = %s %d %d 0' % (pid, pid, '=', r.getrandbits(40), ref() if r.random() < .3 else 0))
    if runs > 2:
        buf = 'x' + bytes(r.choice([0, 1, 2, 3, 255, r.randrange(256)]) for _ in range(r.randrange(0, 40))).hex()
        cmds.append('R g%d %d d 0 %s %d %d 0' % (pid, pid, r.choice(['=^%d' % r.randrange(200), '=-%d' % r.randrange(1, 5), buf]), r.getrandbits(40), ref()))
    return cmds

def run_and_validate(chk, host, cmds, what='run', maxev=200, sample=True):
    """run the commands, validate every run; returns (programs, runs)"""
    crashes = []
    def oc(cur, rc, msg):
        crashes.append((cur, rc, msg))
        t = cmd_of(cmds, cur)
        chk.violation('%s: the VM crashed: %s' % (cur, crash_text(msg)), {'commands': t, 'output': msg[-3000:]})
    out = run_host(host, cmds, chk.work, on_crash=oc)
    progs = [o for o in out if 'prog' in o]
    runs = [o for o in out if 'case' in o]
    byid = {}
    for j, p in enumerate(progs):
        byid[p['prog']] = j + 1
    for x in runs:
        x['p'] = byid[x['p']]
    skipped = [x for x in runs if x['err'] == 97 or len(x['ev']) > maxev]
    runs = [x for x in runs if not (x['err'] == 97 or len(x['ev']) > maxev)]
    judge(chk, runs, progs, cmds, what)
    if sample and runs:
        for x in runs[:2]:
            chk.sample({'program': hexs(progs[x['p'] - 1].get('code', [])), 'mode': 'decode' if x['md'] else 'encode',
                        'result': x['err'], 'notifications': len(x['ev']), 'message': hexs(x['buf'])})
    return progs, runs, skipped

def judge(chk, runs, progs, cmds, what):
    v = validate(chk, 'VMTrace', runs, {'PROGS': progs})
    for i in sorted(v):
        if v[i]:
            x = runs[i]
            chk.violation('%s %s: %s' % (what, x['case'], v[i]), {'program': hexs(progs[x['p'] - 1]['code']), 'run': x,
                          'commands': cmd_of(cmds, 'run ' + x['case'])})

def il_part(chk, host, focus, n, **kw):
    """instruction-level part of a check: random programs of the given kinds"""
    if chk.violations: return
    r = chk.rng
    cmds = []
    for i in range(n):
        cmds += rand_cmds(r, i, gen_il.program(r, r.choice(focus) if isinstance(focus, (list, tuple)) else focus), **kw)
    run_and_validate(chk, host, cmds, 'program')

def cmd_of(cmds, cur):
    """the commands that reproduce what was running"""
    ident = cur.split(' ', 1)[1] if ' ' in cur else cur
    at = next((i for i, c in enumerate(cmds) if len(c.split(' ')) > 1 and c.split(' ')[1] == ident), len(cmds) - 1)
    lo = at
    while lo > 0 and cmds[lo].split(' ')[0] not in ('BC', 'IM', 'IL', 'SRC'):
        lo -= 1
    return cmds[lo:at + 1]
