"""Termination: structured control flow of every compiled image (StructTrace),
why that is enough (TermMC), and runs with loops that make no progress."""
from langlib import *
import vmlib

FOCI = [dict(eofarr=.8, eofmid=.8, arr=.6, hollow=.6, structs=(1, 3), struct=4, enums=(0, 1), tr=0, expr=.3, unal=.1),
        dict(eofarr=.6, eofmid=.6, arr=.7, opt=.5, structs=(1, 3), struct=3, hollow=.2, tr=0, ifs=1.5),
        dict(eofarr=.7, eofmid=.7, arr=.7, bits=4, unal=.5, structs=(1, 3), struct=3, tr=0, pad=.6, fill=.6),
        dict(arr=.7, struct=3, structs=(2, 3), hollow=.5, eofmid=.3, ifs=2, sw=2, depth=3, tr=0),
        dict(eofarr=.5, eofmid=.5, arr=.6, str=4, const=2, crc=1, opt=.2, sw=1.5, tr=.3)]

def fill(c):
    r = c.chk.rng
    pid = c.add(r, **r.choice(FOCI))
    for j in range(4):
        c.run('e%d.%d' % (pid, j), pid, 'e', r.choice([0, 1, 3, 7, 20, 40]), r.choice(['z', 'fff']), r.getrandbits(40), r.choice([0] * 6 + [r.randrange(1, 12)]))
        c.run('d%d.%d' % (pid, j), pid, 'd', '0', '=', r.getrandbits(40))
        m = bytes(r.choice([0, 0, 1, 1, 2, 3, 255, r.randrange(256)]) for _ in range(r.choice([0, 1, 2, 3, 8, 30])))
        c.run('g%d.%d' % (pid, j), pid, 'd', '0', r.choice(['=-1', '=^%d' % r.randrange(80), 'x' + m.hex(), 'x' + m.hex()]), r.getrandbits(40))

def main(chk):
    host = build_host(chk.work)
    import shutil as sh_
    if chk.thorough:
        cfg = os.path.join(chk.work, 'TermMC.cfg')
        with open(os.path.join(SPEC, 'TermMC.cfg')) as f, open(cfg, 'w') as g: g.write(f.read().replace('Items = 3', 'Items = 4'))
    else: cfg = None
    _, st, _ = tlc(chk.work, 'TermMC', cfg=cfg)
    chk.cov['states'] += st[1]; chk.cov['transitions'] += st[0]
    chk.cov['structured_programs_model_states'] = st[1]
    for k in range(chk.n(1, 5)):
        if k and chk.left() < 120: break
        c = Corpus(chk)
        for _ in range(chk.n(220, 300)): fill(c)
        progs, runs, comp = settle(chk, host, c, maxev=700, endless=True)
        ok = [p for p in progs if not p['load']]
        # more schemas, only compiled, for their control flow
        d = Corpus(chk)
        for _ in range(chk.n(700, 1000)):
            d.add(chk.rng, **chk.rng.choice(FOCI + [dict(ifs=4, sw=4, depth=4, arr=.5, struct=3, structs=(1, 4)), dict(sw=6, bigsw=.5, depth=3, arr=.4)]))
        d.cmds = [x for x in d.cmds if x.startswith('SRC')]
        more = [o for o in run_host(host, d.cmds, chk.work, on_crash=lambda cur, rc, msg: chk.violation('%s: crash: %s' % (cur, crash_text(msg)), {'commands': vmlib.cmd_of(d.cmds, cur)})) if 'prog' in o and not o['load']]
        srcs = [c.srcs[p['prog']] for p in ok] + [d.srcs[p['prog']] for p in more]
        recs = [{'code': p['code']} for p in ok + more]
        v = validate(chk, 'StructTrace', recs, {})
        for i in sorted(v):
            if v[i]: chk.violation('compiled program: %s' % v[i], {'source': srcs[i], 'code': hexs(recs[i]['code'])})
        chk.cov['images_with_structured_control_flow'] = chk.cov.get('images_with_structured_control_flow', 0) + len(recs)
        c.clear()
        if chk.violations: break
