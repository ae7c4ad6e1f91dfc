"""The verifier, on compiled programs, damaged ones and random bytecode."""
from langlib import *
import gen_il, vmlib

def damaged(r, code):
    b = bytearray(code)
    x = r.random()
    sw = [i for i in range(len(b)) if b[i] in (0x50, 0x51, 0x52, 0x53)]
    if x < .2 and b: del b[r.randrange(len(b)):]
    elif x < .6 and sw:   # near jumps, switches and their tables
        i = min(len(b) - 1, r.choice(sw) + r.randrange(0, 12))
        b[i] = (b[i] + r.choice([1, 255, 2, 12, 128, 64])) & 255
    elif x < .7 and len(b) > 8: b[-r.randrange(1, 9)] = r.choice([0, 1, 127, 128, 255])
    elif x < .8 and b: b.insert(r.randrange(len(b)), r.choice([0x50, 0x52, 0x51, 0x53, 0x4b, 0xff, 0x27]))
    elif b:
        for _ in range(r.randrange(1, 3)): b[r.randrange(len(b))] = r.getrandbits(8)
    return bytes(b)

def main(chk):
    host = build_host(chk.work)
    r = chk.rng
    for k in range(chk.n(1, 8)):
        if k and chk.left() < 150: break
        c = Corpus(chk)
        for _ in range(chk.n(350, 500)): c.add(r, **r.choice([{}, dict(ifs=4, depth=3), dict(sw=5, depth=3, enum=2, enums=(1, 2)), dict(arr=.5, struct=3, structs=(1, 3)), dict(expr=5, tr=.5, crc=1, rng=.5)]))
        def oc(cur, rc, msg):
            chk.violation('%s: crash: %s' % (cur, crash_text(msg)), {'commands': vmlib.cmd_of(c.cmds + cmds, cur), 'output': msg[-3000:]})
        cmds = []
        progs = [o for o in run_host(host, c.cmds, chk.work, on_crash=oc) if 'prog' in o]
        for p in progs:
            if p['load']: chk.violation('the compiled image does not load', {'source': c.srcs[p['prog']]}); return
            p['made'] = 1
        for p in progs:
            for _ in range(6): cmds.append('BC %d %s' % (len(cmds), damaged(r, bytes(p['code'])).hex()))
        for _ in range(chk.n(1500, 2500)):
            x = gen_il.program(r, r.choice(list(gen_il.FOCUS)))
            cmds.append('BC %d %s' % (len(cmds), (x if r.random() < .5 else damaged(r, x)).hex()))
        recs = progs + [dict(o, made=0) for o in run_host(host, cmds, chk.work, on_crash=oc) if 'prog' in o]
        v = validate(chk, 'VerTrace', [{q: x[q] for q in ('code', 'verify', 'made')} for x in recs], {})
        for i in sorted(v):
            if v[i]: chk.violation('program %d: %s' % (recs[i]['prog'], v[i]), {'code': hexs(recs[i]['code']), 'verify': recs[i]['verify'], 'source': c.srcs[recs[i]['prog']] if recs[i]['made'] else None})
        chk.cov['rejected'] = chk.cov.get('rejected', 0) + len([1 for x in recs if x['verify']])
        chk.sample({'code': hexs(recs[-1]['code'])[:200], 'verify': recs[-1]['verify']})
        c.clear()
        if chk.violations: break
