from langlib import *
import explore, edges
import vmlib

def fill(c):
    r = c.chk.rng
    pid = c.add(r, **r.choice([dict(arr=.8, fields=(1, 4), num=5), dict(arr=.8, fields=(1, 4), num=5, hugearr=.4, bits=1), dict(arr=.7, struct=4, structs=(1, 3), depth=1, fields=(1, 4)), dict(arr=.9, str=4, bits=3, enum=2, bool=2)]))
    for j in range(2):
        c.run('e%d.%d' % (pid, j), pid, 'e', r.choice(['200', '200', '40', '12']), 'z', r.getrandbits(40), 0, r.choice([0, 0, 8, 32]))
        c.run('d%d.%d' % (pid, j), pid, 'd', '0', '=', r.getrandbits(40), 0, r.choice([0, 0, 8]))
        c.run('x%d.%d' % (pid, j), pid, 'd', '0', r.choice(['=-%d' % r.randrange(1, 6), '=^%d' % r.randrange(80), '=+%s' % bytes(r.getrandbits(8) for _ in range(r.randrange(1, 9))).hex()]), r.getrandbits(40))

def main(chk):
    host = build_host(chk.work)
    explore.small(chk, host)
    edges.edges(chk, host)
    rounds(chk, host, fill, chk.n(500, 1500))
    vmlib.il_part(chk, host, 'array', chk.n(400, 4000))
