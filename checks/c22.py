from langlib import *
import explore, edges
import vmlib

def fill(c):
    r = c.chk.rng
    pid = c.add(r, **r.choice([dict(str=9, num=1, fields=(1, 4), wide=.6, long=.5), dict(str=6, arr=.4, fields=(1, 4)), dict(str=5, struct=2, structs=(1, 2), ifs=1, opt=.2, bits=2)]))
    for j in range(3):
        c.run('e%d.%d' % (pid, j), pid, 'e', r.choice(['150', '600', '2000', '%d' % r.randrange(0, 20)]), 'z', r.getrandbits(40), 0, r.choice([0, 0, 16]))
        c.run('d%d.%d' % (pid, j), pid, 'd', '0', '=', r.getrandbits(40))
        c.run('g%d.%d' % (pid, j), pid, 'd', '0', r.choice(['=^%d' % r.randrange(60), '=~%d:%02x' % (r.randrange(12), r.choice([0, 0, 1, 255])), '=-%d' % r.randrange(1, 5), 'x' + bytes(r.choice([0, 1, 2, 65, 66, 255]) for _ in range(r.randrange(0, 30))).hex()]), r.getrandbits(40))

def main(chk):
    host = build_host(chk.work)
    explore.small(chk, host)
    edges.edges(chk, host)
    rounds(chk, host, fill, chk.n(350, 1050))
    vmlib.il_part(chk, host, 'string', chk.n(400, 4000))
