from langlib import *
import explore
import vmlib

def fill(c):
    r = c.chk.rng
    pid = c.add(r, **r.choice([dict(optend=.9, opt=.6, fields=(1, 5), depth=1), dict(opt=.7, fields=(2, 6), str=2, enum=2, enums=(1, 2), bits=1, bool=1, struct=.5), dict(opt=.8, num=8, tr=.4, rng=.4, fields=(1, 5))]))
    e = 'e%d' % pid
    c.run(e, pid, 'e', '120', 'z', r.getrandbits(40))
    c.cmds.append('HOLD')
    for n in range(0, 14):
        c.run('%s.d%d' % (e, n), pid, 'd', '0', '=-%d' % n, r.getrandbits(40))
    c.cmds.append('FREE')
    c.run(e + '.e', pid, 'd', '0', 'x', r.getrandbits(40))
    c.run(e + '.r', pid, 'e', '120', 'z', r.getrandbits(40), r.randrange(1, 8))

def main(chk):
    host = build_host(chk.work)
    explore.small(chk, host)
    rounds(chk, host, fill, chk.n(220, 660))
    vmlib.il_part(chk, host, 'optional', chk.n(400, 4000))
