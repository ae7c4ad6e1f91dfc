from langlib import *
import explore
import vmlib

def fill(c):
    r = c.chk.rng
    pid = c.add(r, **r.choice([dict(endian=.7, ord=.5, bad=0), dict(endian=.7, ord=.4, unal=.6, bits=3, pad=1, fill=1), dict(endian=.5, ord=.3, struct=3, arr=.4, structs=(1, 3))]))
    # layouts are best seen in a buffer that is not blank
    for j in range(3):
        c.run('e%d.%d' % (pid, j), pid, 'e', '120', r.choice(['fff', 'z', 'f5a']), r.getrandbits(40))
        c.run('d%d.%d' % (pid, j), pid, 'd', '0', '=', r.getrandbits(40))
    c.run('g%d' % pid, pid, 'd', '0', 'x' + bytes(r.getrandbits(8) for _ in range(60)).hex(), r.getrandbits(40))

def main(chk):
    host = build_host(chk.work)
    explore.small(chk, host)
    rounds(chk, host, fill, chk.n(450, 1350))
    vmlib.il_part(chk, host, ['all', 'value'], chk.n(400, 4000))
