from langlib import *
import explore

def fill(c):
    r = c.chk.rng
    pid = c.add(r, **r.choice([{}, dict(opt=.5, optend=.5, str=3), dict(arr=.5, struct=3, structs=(1, 3)), dict(expr=3, ifs=2, sw=2), dict(bits=4, unal=.5), dict(tr=.6, enum=3, rng=.5)]))
    s1, s2 = r.getrandbits(40), r.getrandbits(40)
    fl = r.choice([0, 0, 8])
    e, d = 'e%d' % pid, 'd%d' % pid
    for n in range(1, 15) if r.random() < .7 else range(10, 38, 2):
        c.run('%s.%d' % (e, n), pid, 'e', '90', 'z', s1, n, fl)
        c.pair('refused', e, '%s.%d' % (e, n))
    c.run(e, pid, 'e', '90', 'z', s1, 0, fl)
    c.run(d, pid, 'd', '0', '=', s2, 0, fl)
    c.cmds.append('HOLD')
    for n in range(1, 15) if r.random() < .7 else range(10, 38, 2):
        c.run('%s.%d' % (d, n), pid, 'd', '0', '=', s2, n, fl)
        c.pair('refused', d, '%s.%d' % (d, n))
    c.cmds.append('FREE')

def main(chk):
    host = build_host(chk.work)
    explore.small(chk, host)
    rounds(chk, host, fill, chk.n(160, 450))
