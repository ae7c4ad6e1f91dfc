from langlib import *
import explore
import vmlib

def fill(c):
    r = c.chk.rng
    pid = c.add(r, **r.choice([dict(tr=.9, num=8, fields=(1, 5), expr=.2), dict(tr=.6, num=8, arr=.4, opt=.2, str=.3), dict(tr=.7, num=6, ifs=2, struct=2, structs=(1, 2), bad=.4)]))
    for j in range(3):
        c.run('e%d.%d' % (pid, j), pid, 'e', '120', 'z', r.getrandbits(40))
        c.run('d%d.%d' % (pid, j), pid, 'd', '0', '=', r.getrandbits(40))
        c.run('g%d.%d' % (pid, j), pid, 'd', '0', 'x' + bytes(r.choice([0, 1, 255, 127, 128, r.getrandbits(8)]) for _ in range(r.choice([4, 8, 30, 60]))).hex(), r.getrandbits(40))

def main(chk):
    host = build_host(chk.work)
    explore.small(chk, host)
    rounds(chk, host, fill, chk.n(400, 1200))
    vmlib.il_part(chk, host, 'trans', chk.n(400, 4000))
