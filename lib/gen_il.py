"""Random bytecode programs and runs for the instruction-level checks."""
import struct
from common import le

F64 = [0.0, 1.0, -1.0, 0.5, 2.0, 0.1, 1e3, -7.25, 1e18, 1e-3, float('inf'), 3.0, 10.0, 0.01]
U64B = [0, 1, 2, 3, 5, 7, 8, 63, 64, 65, 127, 128, 255, 256, 0x7FFF, 0x8000, 0xFFFF, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 1 << 32,
        (1 << 63) - 1, 1 << 63, (1 << 64) - 1, (1 << 64) - 2, 10, 100, 1000, 0x0102030405060708]
INT_T = list(range(0x10, 0x18))
SIZE = {0x10: 1, 0x11: 2, 0x12: 4, 0x13: 8, 0x14: 1, 0x15: 2, 0x16: 4, 0x17: 8, 0x18: 4, 0x19: 8, 0x1A: 1}
ARR_END = b'\x38'

def f64(x): return struct.pack('<d', x)
def k(r, n=10): return le(r.randrange(n) + (r.choice([256, 512, 0x8000, 0xFF00]) if r.random() < .03 else 0), 2)
def u64(r): return le(r.choice(U64B) if r.random() < .7 else r.getrandbits(64), 8)

def prim(r, t=None):
    return bytes([t if t is not None else r.choice(list(SIZE))]) + k(r)

def opd(r, sz):
    return le(r.choice(U64B) if r.random() < .6 else r.getrandbits(64), sz)

def check(r):
    """a check that makes sense behind an integer field: the field and the check"""
    t = r.choice(INT_T)
    s = SIZE[t]
    f = bytes([t]) + k(r)
    if r.random() < .5:
        if r.random() < .25:
            t = r.choice([0x18, 0x19]); s = SIZE[t]; f = bytes([t]) + k(r)
            a, b = sorted([r.choice([-1e5, -3.0, 0.0, 1.0]), r.choice([1.0, 50.0, 300.0, 1e9])])
            pk = (lambda x: struct.pack('<f', x)) if s == 4 else f64
            return f + b'\x42' + bytes([t]) + pk(a) + pk(b)
        lo, hi = opd(r, s), opd(r, s)
        if r.random() < .6:
            sg = t >= 0x14
            a, b = sorted([int.from_bytes(lo, 'little', signed=sg), int.from_bytes(hi, 'little', signed=sg)])
            lo, hi = le(a, s), le(b, s)
        return f + b'\x42' + bytes([t]) + lo + hi
    vals = [opd(r, s) for _ in range(r.randrange(0, 4))] + [le(r.randrange(8), s) for _ in range(r.randrange(0, 5))]
    if r.random() < .06:   # more values than one byte can count
        vals = [le(i, s) for i in range(r.choice([127, 128, 255, 256, 257, 300]))]
        if r.random() < .5: vals = [le(r.getrandbits(64), s) for _ in range(len(vals) - 6)] + vals[:6]
    return f + b'\x4b' + bytes([t]) + le(len(vals), 2) + b''.join(vals)

def trans(r, solvable=True):
    """transform + the field it belongs to (polynomials and splines with an inverse)"""
    x = r.random()
    t = r.choice([0x10, 0x11, 0x12, 0x14, 0x15, 0x16, 0x13, 0x17, 0x18, 0x19])
    if x < .35:
        tr = b'\x43' + f64(r.choice([0.1, 0.5, 2.0, -1.5, 1.0, 0.01, 100.0, 0.25])) + f64(r.choice([0.0, 1.0, -40.0, 0.5, 1e3, -273.15]))
    elif x < .8:
        op = r.randrange(0x45, 0x49)
        tr = bytes([op]) + le(r.choice([0, 1, 2, 3, 5, 10, 100, -1, -7, 1000, 1 << 40]), 8)
    elif x < .9:
        tr = b'\x4c' + bytes([2]) + f64(r.choice([0.0, 1.0, -5.0])) + f64(r.choice([1.0, 2.0, 0.5, -3.0]))
        if r.random() < .3:
            tr = b'\x4c\x03' + f64(r.choice([0.0, 3.0])) + f64(1.0) + f64(r.choice([0.5, 0.25, 2.0])); t = r.choice([0x10, 0x11])
    else:
        pts = [(0.0, 0.0), (10.0, 100.0), (50.0, 300.0), (255.0, 1000.0)][:r.randrange(2, 5)]
        tr = b'\x4d' + bytes([len(pts)]) + b''.join(f64(a) + f64(b) for a, b in pts); t = r.choice([0x10, 0x11, 0x12])
    return tr + bytes([t]) + k(r)

def bits(r):
    x = r.random()
    if x < .35: return b'\x20' + k(r) + bytes([r.choice([1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 24, 31, 32, 33, 40, 63, 64])])
    if x < .6: return b'\x21' + k(r) + bytes([r.choice([1, 2, 3, 4, 6, 7, 8, 11, 16, 20, 32, 48, 63, 64])])
    if x < .75: return b'\x22' + k(r)
    if x < .83: return b'\x23' + bytes([r.choice([0, 1, 2, 3, 5, 8, 9, 16, 64, 70])])
    if x < .91: return b'\x24' + bytes([r.randrange(3)])
    if x < .95: return b'\x25'
    if x < .98: return b'\x26'
    return bytes([r.choice([0x20, 0x21])]) + k(r) + bytes([r.choice([0, 65, 200])])

def string(r):
    x = r.random()
    if x < .4: return b'\x30' + k(r) + le(r.choice([0, 1, 2, 3, 5, 8, 255, 65535]), 2)
    return bytes([r.choice([0x31, 0x31, 0x32, 0x33])]) + k(r)

def const(r):
    if r.random() < .3:
        t = r.randrange(0x10, 0x14)
        return b'\x41' + bytes([t]) + opd(r, SIZE[t])
    t = r.choice(INT_T)
    return b'\x40' + k(r) + bytes([t]) + opd(r, SIZE[t])

def crc(r):
    if r.random() < .5:
        return b'\x44' + le(r.choice([0x1021, 0x8005, r.getrandbits(16)]), 2) + le(r.choice([0, 0xFFFF, r.getrandbits(16)]), 2) + \
            le(r.choice([0, 0xFFFF]), 2) + bytes([r.randrange(4)])
    return b'\x49' + le(r.choice([0x04C11DB7, 0x04C11DB7, 0x1EDC6F41, r.getrandbits(32)]), 4) + le(r.choice([0, 0xFFFFFFFF, r.getrandbits(32)]), 4) + \
        le(r.choice([0, 0xFFFFFFFF]), 4) + bytes([r.choice([3, 3, 0, 1, 2])])

IBIN = [0x72, 0x73, 0x74, 0x75, 0x76, 0x69, 0x6A, 0x6B, 0x6C, 0x6D, 0x6E, 0x6F, 0x70, 0xA0, 0xA1, 0xA2, 0xA4, 0xA5]
IUN = [0x77, 0x71, 0xA3]
FBIN = [0x80, 0x81, 0x82, 0x83, 0x92, 0x93, 0x94, 0x95, 0x96, 0x97]
FUN = [0x84, 0x88, 0x8B]

def leaf(r, fl):
    if fl: return b'\x61' + f64(r.choice(F64) if r.random() < .7 else r.uniform(-1e4, 1e4))
    x = r.random()
    if x < .35: return b'\x60' + k(r)
    return b'\x61' + u64(r)

def expr(r, d, fl):
    """code leaving one word (integer or double) on the stack"""
    if d == 0: return leaf(r, fl)
    x = r.random()
    if fl:
        if x < .5: return expr(r, d - 1, True) + expr(r, d - 1, True) + bytes([r.choice(FBIN[:4])])
        if x < .65: return expr(r, d - 1, True) + bytes([r.choice(FUN)])
        if x < .8: return expr(r, d - 1, False) + b'\x90'
        return leaf(r, True)
    if x < .55: return expr(r, d - 1, False) + expr(r, d - 1, False) + bytes([r.choice(IBIN)])
    if x < .65: return expr(r, d - 1, False) + bytes([r.choice(IUN)])
    if x < .75: return expr(r, d - 1, True) + expr(r, d - 1, True) + bytes([r.choice(FBIN[4:])])
    if x < .82: return expr(r, d - 1, True) + b'\x91'
    return leaf(r, False)

def alu(r):
    x = r.random()
    if x < .25: return bytes([r.choice(IBIN + IUN + FBIN + FUN + [0x62, 0x63, 0x64, 0x90, 0x91])])   # on whatever is there
    fl = r.random() < .35
    c = expr(r, r.randrange(1, 4), fl)
    y = r.random()
    if y < .3:
        t = r.choice([0x18, 0x19]) if fl else r.choice(INT_T + [0x1A])
        return c + b'\x65' + bytes([t])
    if y < .6: return c + b'\x78' + k(r)
    if y < .7: return c + b'\x64' + b'\x78' + k(r) + b'\x62'
    if y < .8: return c + leaf(r, fl) + b'\x63' + b'\x78' + k(r) + b'\x78' + k(r)
    if y < .85 and fl:    # where functions stop being defined
        e = lambda: b'\x61' + f64(r.choice([0.0, 0.0, 0.0, 0.0, -0.0, -0.0, 1.0, -1.0, 2.0, -2.0, 0.5, -0.5, 3.0, float('inf'), float('-inf'), 1e-300, 1e300]))
        return e() + (bytes([r.choice([0x85, 0x86, 0x88, 0x8A, 0x8A, 0x8B, 0x84])]) if r.random() < .4 else e() + bytes([r.choice([0x89, 0x89, 0x89, 0x83])])) + b'\x78' + k(r)
    if y < .92 and fl:
        return b'\x61' + f64(r.uniform(0.1, 20)) + (bytes([r.choice([0x85, 0x86, 0x87, 0x8A])]) if r.random() < .6 else b'\x61' + f64(r.uniform(-3, 3)) + b'\x89') + b'\x78' + k(r)
    return c + b'\x78' + k(r)

def array(r, depth, ctx):
    x = r.random()
    if x < .3: h = b'\x34' + k(r) + le(r.choice([0, 1, 2, 3, 4]), 4)
    elif x < .45: h = b'\x35' + k(r)
    elif x < .55: h = b'\x36' + k(r)
    elif x < .65: h = b'\x37' + k(r)
    elif x < .82: h = b'\x3b' + k(r) + k(r)
    else: h = b'\x3a' + k(r)
    y = r.random()
    if y < .3: body = bytes([r.choice([0x10, 0x14])]) + k(r)
    elif y < .55: body = prim(r)
    elif y < .6: body = b''
    else: body = seq(r, r.randrange(1, 4), depth + 1, ctx)
    return h + body + (ARR_END if r.random() < .97 else b'')

def switch(r, depth, ctx):
    """cases with bodies, then the table, as the compiler lays it out"""
    n = r.randrange(0, 5)
    table = r.random() < .4 and n > 0
    bodies = [seq(r, r.randrange(0, 3), depth + 1, ctx) for _ in range(n)]
    dflt = seq(r, r.randrange(0, 2), depth + 1, ctx) if r.random() < .7 else None
    parts = bodies + ([dflt] if dflt is not None else [])
    total = sum(len(p) + 5 for p in parts)
    base = r.choice([0, 1, 3, 250, (1 << 40), (1 << 64) - 3])
    vals = sorted({(base + (i if table else r.randrange(6))) & ((1 << 64) - 1) for i in range(n)})
    while len(vals) < n: vals.append(vals[-1] if vals else 0)
    if table:
        span = n + r.randrange(0, 3)
        tsize = 20 + 4 * span
    else:
        tsize = 6 + 12 * n
    code = b''
    offs = []
    for p in parts:
        offs.append(len(code))
        body = p
        code += body
        code += b'\x52' + le(total + tsize - (len(code) + 5), 4)
    end = total + tsize
    d_off = offs[-1] if dflt is not None else end
    if table:
        lo = base & ((1 << 64) - 1)
        hi = lo + span - 1
        if hi >= 1 << 64: lo -= 10; hi -= 10
        idx = {i: offs[i] for i in range(n)}
        t = le(lo, 8) + le(hi, 8) + le(d_off, 4) + b''.join(le(idx.get(i, d_off), 4) for i in range(span))
        return b'\x53' + k(r) + le(total, 4) + code + t
    t = le(n, 2) + le(d_off, 4) + b''.join(le(vals[i], 8) + le(offs[i], 4) for i in range(n))
    return b'\x51' + k(r) + le(total, 4) + code + t

def cond(r, depth, ctx):
    body = seq(r, r.randrange(0, 3), depth + 1, ctx)
    if r.random() < .5:
        els = seq(r, r.randrange(0, 3), depth + 1, ctx)
        then = body + b'\x52' + le(len(els), 4)
        return expr(r, r.randrange(0, 3), False) + b'\x50' + le(len(then), 4) + then + els
    return expr(r, r.randrange(0, 3), False) + b'\x50' + le(len(body), 4) + body

def misc(r):
    x = r.random()
    if x < .45: return bytes([r.choice([1, 2])])
    if x < .6: return b'\x03' + k(r) + prim(r) + b'\x04'
    if x < .7: return bytes([r.choice([3, 4])]) + (k(r) if r.random() < .5 else b'')
    if x < .8: return b'\x39' + k(r) + le(r.choice([0, 1, 3, 4, 200]), 4)
    if x < .9: return b'\x05' + bytes([r.randrange(256)]) + b'\x07' + k(r)
    return bytes([r.choice([0, 6, 0x1B, 0x2F, 0x3C, 0x4E, 0x5F, 0x66, 0x7F, 0x8C, 0x98, 0xA6, 0xFF])])

def optional(r):
    return b'\x4a' + r.choice([prim, string, bits, check, trans])(r)

FOCUS = {
    'all': dict(prim=5, check=3, trans=3, bits=5, string=3, const=2, crc=1, alu=4, array=4, switch=2, cond=3, misc=3, optional=2),
    'bits': dict(prim=2, bits=10, misc=2, const=1, array=1),
    'array': dict(prim=4, array=8, misc=2, string=1, bits=1),
    'alu': dict(alu=10, cond=2, prim=2),
    'flow': dict(switch=5, cond=5, prim=3, array=3),
    'crc': dict(prim=5, crc=6, misc=1, bits=.5),
    'string': dict(string=8, prim=1, optional=2, misc=.5),
    'check': dict(prim=2, check=10, const=2, optional=1),
    'trans': dict(prim=2, trans=10, array=1, misc=.3),
    'optional': dict(prim=3, optional=8, string=2, bits=1, const=.5),
    'value': dict(prim=4, check=6, trans=6, const=3, misc=2, optional=3, string=2),
}

def one(r, depth, ctx):
    w = FOCUS[ctx]
    while True:
        kind = r.choices(list(w), list(w.values()))[0]
        if kind in ('array', 'switch', 'cond'):
            if depth > 3: continue
            return globals()[kind](r, depth, ctx)
        return globals()[kind](r)

def seq(r, n, depth=0, ctx='all'):
    return b''.join(one(r, depth, ctx) for _ in range(n))

def deep(r):
    n = r.randrange(7, 11)
    h = b''
    for _ in range(n):
        h += r.choice([b'\x34' + k(r) + le(1, 4), b'\x3a' + k(r), b'\x35' + k(r)])
    return h + prim(r, 0x10) + ARR_END * r.randrange(n - 1, n + 1) + prim(r)

def stackprog(r):
    return b''.join(leaf(r, False) for _ in range(r.randrange(6, 11))) + bytes(r.choice(IBIN + IUN + [0x62, 0x63, 0x64]) for _ in range(r.randrange(0, 12))) + b'\x78' + k(r)

def program(r, ctx='all'):
    x = r.random()
    if x < .02: return deep(r)
    if x < .05: return stackprog(r)
    p = seq(r, r.randrange(1, 9), 0, ctx)
    if x < .12: p = p[:r.randrange(0, len(p) + 1)]                      # cut off
    elif x < .17 and p:                                               # damaged
        b = bytearray(p)
        for _ in range(r.randrange(1, 3)): b[r.randrange(len(b))] = r.choice([r.randrange(256), r.choice([0x38, 0x50, 0x52, 0x4a, 0x10, 0xff])])
        p = bytes(b)
    elif x < .19: p = bytes(r.randrange(256) for _ in range(r.randrange(1, 30)))
    return p[:400]
