from langlib import *
import explore
import vmlib

FOCUS = dict(bigenum=.08, const=4, enum=4, rng=.8, bool=3, bad=.7, num=5, enums=(1, 3), expr=.3, ifs=.2, sw=.2, crc=0, str=.2, bits=.5, pad=0, fill=0, arr=.2)
BIG = dict(bigenum=.8, enum=6, num=1, enums=(1, 1), rng=.1, bad=.5, fields=(1, 3), const=0, bool=0, expr=0, ifs=0, sw=0, crc=0, str=0, bits=0, pad=0, fill=0, arr=.2, struct=0, structs=(0, 0), opt=0)
def fill(c):
    r = c.chk.rng
    pid = c.add(r, **(BIG if r.random() < .15 else FOCUS))
    for j in range(3):
        c.run('e%d.%d' % (pid, j), pid, 'e', '120', 'z', r.getrandbits(40))
        c.run('d%d.%d' % (pid, j), pid, 'd', '0', '=', r.getrandbits(40))
        for q in range(4):
            c.run('g%d.%d.%d' % (pid, j, q), pid, 'd', '0', r.choice(['=^%d' % r.randrange(0, 160), '=~%d:%02x' % (r.randrange(0, 20), r.choice([0, 1, 2, 3, 127, 128, 254, 255]))]), r.getrandbits(40))

def main(chk):
    host = build_host(chk.work)
    explore.small(chk, host)
    rounds(chk, host, fill, chk.n(260, 780))
    vmlib.il_part(chk, host, 'check', chk.n(400, 4000))
