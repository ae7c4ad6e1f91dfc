from langlib import *
import explore, edges
import vmlib

def fill(c):
    r = c.chk.rng
    pid = c.add(r, **r.choice([dict(bits=9, pad=1, fill=1, bool=1, num=2, fields=(2, 7), struct=.5), dict(bits=6, unal=.8, structs=(1, 3), struct=4, pad=1, fill=1), dict(bits=8, arr=.3, ord=.5, endian=.6, fields=(2, 8), wide=.8), dict(bits=6, ifs=1, sw=1, unal=.6, structs=(1, 2), struct=3, opt=.2)]))
    for j in range(3):
        c.run('e%d.%d' % (pid, j), pid, 'e', r.choice(['80', '80', '80', '%d' % r.randrange(0, 9)]), r.choice(['z', 'fff', 'f5a', 'fa5']), r.getrandbits(40))
        c.run('d%d.%d' % (pid, j), pid, 'd', '0', '=', r.getrandbits(40))
        c.run('g%d.%d' % (pid, j), pid, 'd', '0', 'x' + bytes(r.getrandbits(8) for _ in range(r.choice([1, 2, 3, 5, 30]))).hex(), r.getrandbits(40))

def main(chk):
    host = build_host(chk.work)
    explore.small(chk, host)
    edges.edges(chk, host)
    rounds(chk, host, fill, chk.n(450, 1350))
    vmlib.il_part(chk, host, 'bits', chk.n(400, 4000))
