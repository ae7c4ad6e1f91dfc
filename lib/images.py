"""program images, proper and damaged"""
from common import le
import gen_il

def image(names, code, sig=b'CNDIL', ver=1, count=None, so=None, co=None, gap=b'', swap=False, tail=b''):
    s = b''.join(n + b'\0' for n in names)
    if swap: a, b, body = 16 + len(code) + len(gap), 16, code + gap + s
    else: a, b, body = 16, 16 + len(s) + len(gap), s + gap + code
    return sig + bytes([ver]) + le(len(names) if count is None else count, 2) + le(a if so is None else so, 4) + le(b if co is None else co, 4) + body + tail

def rand_image(r):
    names = [r.choice([b'a', b'b', b'abc', b'', b'x.y', bytes(r.randrange(1, 256) for _ in range(r.randrange(0, 6)))]) for _ in range(r.randrange(0, 6))]
    code = gen_il.program(r, 'all' if 'all' in gen_il.FOCUS else r.choice(list(gen_il.FOCUS)))[:r.choice([0, 1, 20, 60])]
    x = r.random()
    n = len(b''.join(names)) + len(names)
    end = 16 + n + len(code)
    if x < .3: im = image(names, code, swap=r.random() < .3, gap=bytes(r.randrange(3)))
    elif x < .4: im = image(names, code, count=r.choice([0, 1, 2, 7, 65535, len(names) + 1, max(0, len(names) - 1)]), swap=r.random() < .3)
    elif x < .55: im = image(names, code, so=r.choice([0, 15, 16, 17, end - 1, end, end + 1, 1 << 31, (1 << 32) - 1, r.randrange(0, end + 3)]))
    elif x < .7: im = image(names, code, co=r.choice([0, 15, 16, 17, end - 1, end, end + 1, 1 << 31, (1 << 32) - 1, r.randrange(0, end + 3)]))
    elif x < .78: im = image(names, code, sig=r.choice([b'CNDIM', b'cndil', b'CNDI\0', b'XNDIL', b'CNXIL']))
    elif x < .85: im = image(names, code, ver=r.choice([0, 2, 255, 129]))
    else: im = image(names, code, so=r.randrange(10, end + 2), co=r.randrange(10, end + 2), count=r.randrange(0, 9))
    if r.random() < .2: im = im[:r.randrange(0, len(im) + 1)]
    if r.random() < .15:
        i = r.randrange(0, len(im) + 1) if im else 0
        im = im[:i] + bytes([r.getrandbits(8)]) + im[i + 1:]
    return im
