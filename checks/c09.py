from langlib import *
import explore
import vmlib

def fill(c):
    r = c.chk.rng
    pid = c.add(r, **r.choice([dict(expr=6, fl=.1, num=4), dict(expr=6, fl=.6, num=5), dict(ifs=4, depth=2, fl=.3, expr=2), dict(expr=5, struct=3, structs=(1, 3), enum=0)]))
    for j in range(3):
        c.run('e%d.%d' % (pid, j), pid, 'e', '120', 'z', r.getrandbits(40))
        c.run('d%d.%d' % (pid, j), pid, 'd', '0', '=', r.getrandbits(40))
        c.run('g%d.%d' % (pid, j), pid, 'd', '0', '=^%d' % r.randrange(100), r.getrandbits(40))

def main(chk):
    host = build_host(chk.work)
    explore.small(chk, host)
    rounds(chk, host, fill, chk.n(400, 1200))
    vmlib.il_part(chk, host, 'alu', chk.n(400, 4000))
