from langlib import *
import explore
import vmlib

def fill(c):
    r = c.chk.rng
    pid = c.add(r, **r.choice([dict(sw=6, bigsw=.5, depth=2, tr=0, num=5), dict(ifs=5, sw=5, depth=3, num=4, tr=0), dict(sw=6, enum=3, enums=(1, 3), depth=2, tr=0), dict(ifs=6, depth=4, fields=(2, 5), tr=0), dict(sw=4, ifs=3, struct=3, structs=(1, 3), unal=.4)]))
    for j in range(5):
        c.run('e%d.%d' % (pid, j), pid, 'e', '150', 'z', r.getrandbits(40))
        c.run('d%d.%d' % (pid, j), pid, 'd', '0', '=', r.getrandbits(40))
        c.run('g%d.%d' % (pid, j), pid, 'd', '0', r.choice(['=^%d' % r.randrange(40), '=~%d:%02x' % (r.randrange(6), r.randrange(8))]), r.getrandbits(40))

def main(chk):
    host = build_host(chk.work)
    explore.small(chk, host)
    rounds(chk, host, fill, chk.n(260, 780))
    vmlib.il_part(chk, host, 'flow', chk.n(400, 4000))
