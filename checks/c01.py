from langlib import *
import explore

# values a schema can represent, on a message of any size
FOCUS = dict(bad=0, bitord=0, wide=0, tr=0, crc=.6, num=6, opt=.05, rng=.15)

def fill(c):
    r = c.chk.rng
    # structs of unaligned bytes are in big-endian bit order, other bit fields mostly not
    pid = c.add(r, **dict(FOCUS, **r.choice([{'unal': 0}, {'unal': .7, 'bits': 1e-9, 'pad': 1e-9, 'fill': 1e-9}])))
    for j in range(2):
        e, d, a = ['%s%d.%d' % (x, pid, j) for x in 'eda']
        c.run(e, pid, 'e', '300', 'z', r.getrandbits(40))
        c.run(d, pid, 'd', '0', '=', r.getrandbits(40))
        c.run(a, pid, 'e', '300', 'z', r.getrandbits(40), 0, 1)     # with the decoded values
        c.pair('roundtrip', e, d)
        c.pair('again', e, a)

def main(chk):
    host = build_host(chk.work)
    explore.small(chk, host)
    rounds(chk, host, fill, chk.n(1200, 2500))
