from langlib import *
import explore, edges
import vmlib

FLAT = dict(ifs=0, sw=0, str=0, opt=0, optend=0, eof=0, arr=0, bad=0, crc=1, crcend=1, alias=0, expr=.3, tr=0, fields=(0, 6), depth=0)
def fill(c):
    r = c.chk.rng
    flat = r.random() < .6
    pid = c.add(r, **(FLAT if flat else dict(crc=3, crcend=1, bad=0, opt=0, optend=0)))
    e = 'e%d' % pid
    c.run(e, pid, 'e', '60', 'z', r.getrandbits(40))
    c.run(e + '.d', pid, 'd', '0', '=', r.getrandbits(40))
    c.cmds.append('HOLD')
    for n in r.sample(range(0, 200), 12):
        c.run('%s.f%d' % (e, n), pid, 'd', '0', '=^%d' % n, r.getrandbits(40))
        # the last field is a check sum over everything before it
        if flat: c.pair('flip', e, '%s.f%d' % (e, n))
    c.cmds.append('FREE')

def main(chk):
    tlc(chk.work, 'CrcAgree')       # the fast CRC of the specification is the one it defines
    host = build_host(chk.work)
    explore.small(chk, host)
    edges.edges(chk, host)
    rounds(chk, host, fill, chk.n(280, 840))
    vmlib.il_part(chk, host, 'crc', chk.n(400, 4000))
