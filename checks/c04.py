from langlib import *
import explore

FOCUS = dict(opt=0, optend=0, eof=0, bad=0, fields=(1, 6))
def fill(c):
    r = c.chk.rng
    pid = c.add(r, **FOCUS)
    e = 'e%d' % pid
    c.run(e, pid, 'e', '100', 'z', r.getrandbits(40))
    c.cmds.append('HOLD')
    c.run(e + '.w', pid, 'd', '0', '=', r.getrandbits(40))
    for n in range(1, 15) if r.random() < .7 else range(1, 60, 3):
        c.run('%s.c%d' % (e, n), pid, 'd', '0', '=-%d' % n, r.getrandbits(40))
        c.run('%s.n%d' % (e, n), pid, 'e', '=-%d' % n, 'z', r.getrandbits(40), 0, 1)
        c.pair('cut', e + '.w', '%s.c%d' % (e, n))
        c.pair('noroom', e, '%s.n%d' % (e, n))
    c.run(e + '.j', pid, 'e', '=', 'z', r.getrandbits(40), 0, 1)
    c.pair('justroom', e, e + '.j')
    c.run(e + '.m', pid, 'd', '0', '=+%s' % bytes(r.getrandbits(8) for _ in range(3)).hex(), r.getrandbits(40))
    c.cmds.append('FREE')

def main(chk):
    host = build_host(chk.work)
    explore.small(chk, host)
    rounds(chk, host, fill, chk.n(130, 390))
