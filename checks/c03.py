"""Memory containment: arbitrary and damaged programs, images and messages, with
hosts that answer anything, on the instrumented VM (address and undefined
behaviour sanitizers, buffers of exactly the given size); what every run does is
also validated against the machine."""
import explore
from vmlib import *
import gen_il, langlib, c14, images as program_images

OPERANDS = {1: 0, 2: 0, 3: 2, 4: 0, 5: 1, 6: 2, 7: 2, 0x20: 3, 0x21: 3, 0x22: 2, 0x23: 1, 0x24: 1, 0x30: 4, 0x31: 2, 0x32: 2, 0x33: 2, 0x34: 6, 0x35: 2, 0x36: 2, 0x37: 2,
            0x38: 0, 0x39: 6, 0x3A: 2, 0x3B: 4, 0x40: 5, 0x41: 3, 0x42: 5, 0x43: 16, 0x44: 7, 0x45: 8, 0x46: 8, 0x47: 8, 0x48: 8, 0x49: 13, 0x4A: 0, 0x4B: 6, 0x4C: 18, 0x4D: 34,
            0x50: 4, 0x51: 6, 0x52: 4, 0x53: 6, 0x60: 2, 0x61: 8, 0x65: 1, 0x78: 2}
OPERANDS.update({t: 2 for t in range(0x10, 0x1B)})

def operand(r, op, n):
    """n operand bytes that mostly make sense"""
    if op in (0x42, 0x4B, 0x40, 0x41) and r.random() < .8:
        t = r.choice(gen_il.INT_T + [0x18, 0x19, 0x1A])
        if op == 0x42: return bytes([t]) + gen_il.opd(r, gen_il.SIZE[t]) + gen_il.opd(r, gen_il.SIZE[t])
        if op == 0x4B:
            c = r.randrange(0, 4)
            return bytes([t]) + le(c, 2) + b''.join(gen_il.opd(r, gen_il.SIZE[t]) for _ in range(c))
        return (b'\x01\x00' if op == 0x40 else b'') + bytes([t]) + gen_il.opd(r, gen_il.SIZE[t])
    if op in (0x50, 0x52): return le(r.choice([0, 1, 3, 5, -1, -5, -9, 100, (1 << 31) - 1, -(1 << 31), 255]), 4)
    if op in (0x51, 0x53):
        return le(1, 2) + le(r.choice([0, 0, 1, 3, 100, 0xFFFFFFFF, 0x7FFFFFFF, 0xFFFFFFF0]), 4) + \
            r.choice([b'', bytes(r.randrange(256) for _ in range(r.randrange(0, 30))), le(r.choice([0, 1, 2, 5000, 65535]), 2) + le(r.choice([0, 1, 20, -1, -7, 1 << 31]), 4) + le(1, 8) + le(r.choice([0, 5, -3, 1 << 30]), 4),
                      le(0, 8) + le(r.choice([0, 1, 2, (1 << 64) - 1, 1 << 62]), 8) + le(r.choice([0, 4, -2]), 4) + le(3, 4) + le(r.choice([0, -1, 1 << 31]), 4)])
    if op == 0x65: return bytes([r.choice(list(gen_il.SIZE) + [0, 0x20, 0x30, 255])])
    if op in (0x4C, 0x4D):
        c = r.choice([0, 1, 2, 3, 16, 17, 255])
        return bytes([c]) + b''.join(gen_il.f64(r.choice(gen_il.F64 + [float('nan'), -1e300])) for _ in range(min(c, 5) * (1 if op == 0x4C else 2)))
    if op in (0x20, 0x21): return le(r.randrange(4), 2) + bytes([r.choice([0, 1, 5, 8, 13, 32, 63, 64, 65, 255])])
    if op in (0x34, 0x39): return le(r.randrange(4), 2) + le(r.choice([0, 1, 2, 3, 9, 100, 1 << 31, (1 << 32) - 1]), 4)
    if n == 16: return gen_il.f64(r.choice(gen_il.F64)) + gen_il.f64(r.choice(gen_il.F64))
    if n == 2 or op == 0x3B: return le(r.randrange(4), 2) + (le(r.randrange(4), 2) if n == 4 else b'')
    if op == 0x30: return le(r.randrange(4), 2) + le(r.choice([0, 1, 3, 255, 65535]), 2)
    return bytes(r.choice([0, 1, 2, 3, 8, 127, 128, 255, r.randrange(256)]) for _ in range(n))

BEFORE = [b'', b'\x20\x00\x00\x03', b'\x10\x00\x00', b'\x02', b'\x25\x20\x01\x00\x0d', b'\x34\x00\x00\x02\x00\x00\x00', b'\x3a\x01\x00', b'\x3b\x01\x00\x02\x00', b'\x35\x01\x00',
          b'\x61' + le(1, 8) + b'\x61' + le((1 << 63), 8), b'\x60\x02\x00', (b'\x61' + le(3, 8)) * 7, (b'\x61' + le(3, 8)) * 8, (b'\x34\x00\x00\x02\x00\x00\x00') * 8, b'\x4a', b'\x22\x00\x00\x4a',
          b'\x43' + gen_il.f64(0.5) + gen_il.f64(1.0), b'\x45' + le(5, 8), b'\x47' + le(-1, 8), b'\x46' + le(3, 8) + b'\x34\x00\x00\x02\x00\x00\x00', b'\x4c\x02' + gen_il.f64(1) + gen_il.f64(2), b'\x03\x01\x00', b'\x17\x01\x00']
AFTER = [b'', b'\x10\x01\x00', b'\x38', b'\x10\x01\x00\x38', b'\x14\x01\x00\x38\x10\x02\x00', b'\x12\x01\x00', b'\x20\x01\x00\x0b', b'\x65\x12', b'\x31\x01\x00', b'\x26\x04', b'\x42\x13' + le(1, 8) + le(9, 8)]

def systematic(r, per):
    """every operation code behind and before something, with all its operands, cut operands and odd ones"""
    for op in range(256):
        n = OPERANDS.get(op, 0)
        for j in range(per):
            o = operand(r, op, n)
            if r.random() < .25: o = o[:r.randrange(len(o) + 1)]
            yield r.choice(BEFORE) + bytes([op]) + o + r.choice(AFTER)

def sized(r, pid, code):
    """runs of a program with messages of all small sizes"""
    c = ['BC %d %s' % (pid, code.hex())]
    fl = lambda: r.choice([0, 0, 2, 8, 16, 32, 34, 128, 144, 4, 256, 256])
    for cap in r.sample([0, 1, 2, 3, 4, 5, 7, 8, 9, 12], 3):
        c.append('R e%d.%d %d e %d %s %d %d %d' % (pid, cap, pid, cap, r.choice(['z', 'fff']), r.getrandbits(40), r.choice([0, 0, 0, r.randrange(1, 5)]), fl()))
        b = bytes(r.choice([0, 1, 2, 3, 255, r.randrange(256)]) for _ in range(cap))
        c.append('R d%d.%d %d d 0 x%s %d %d %d' % (pid, cap, pid, b.hex(), r.getrandbits(40), r.choice([0, 0, 0, r.randrange(1, 5)]), fl()))
    return c

def lengths(r, n):
    """counts and lengths near every limit, in front of what they count"""
    cmds = []
    for i in range(n):
        ord_ = r.choice([1, 2])
        pre = r.choice([b'', b'\x10\x01\x00', b'\x13\x01\x00', b'\x20\x01\x00\x03', b'\x11\x01\x00\x10\x02\x00'])
        skip = {b'': 0, b'\x10\x01\x00': 1, b'\x13\x01\x00': 8, b'\x20\x01\x00\x03': 1}.get(pre, 3)
        el = r.choice([b'\x10\x04\x00', b'\x10\x04\x00', b'\x14\x04\x00', b'\x12\x04\x00', b'\x1a\x04\x00', b'\x20\x04\x00\x08', b'\x31\x04\x00'])
        w = r.choice([1, 2, 4])
        cnt = r.choice([0, 1, 2, 3, 1 << (8 * w - 1), (1 << (8 * w)) - r.randrange(1, 24), (1 << (8 * w)) - r.randrange(1, 24), (1 << (8 * w - 1)) - 1]) % (1 << (8 * w))
        hd = {1: b'\x35', 2: b'\x36', 4: b'\x37'}[w] + b'\x03\x00'
        x = r.random()
        if x < .5: code = hd + el + b'\x38'
        elif x < .65: code = {1: b'\x31', 2: b'\x32', 4: b'\x33'}[w] + b'\x03\x00'
        elif x < .75: code = b'\x34\x03\x00' + le(cnt, 4) + el + b'\x38'
        elif x < .85: code = {1: b'\x10', 2: b'\x11', 4: b'\x12'}[w] + b'\x03\x00' + b'\x3b\x05\x00\x03\x00' + el + b'\x38'
        else: code = b'\x39\x03\x00' + le(cnt, 4)
        data = bytes(r.getrandbits(8) for _ in range(skip)) + cnt.to_bytes(w, 'little' if ord_ == 1 else 'big') + bytes(r.getrandbits(8) for _ in range(r.choice([0, 1, 2, 3, 7, 20])))
        cmds.append('BC %d %s' % (i, (bytes([ord_]) + pre + code + b'\x10\x06\x00').hex()))
        cmds.append('V %d 3 %s' % (i, le(cnt, 8).hex()))
        for fl in r.sample([0, 8, 32, 128], 2):
            cmds.append('R d%d.%d %d d 0 x%s %d 0 %d' % (i, fl, i, data.hex(), r.getrandbits(40), fl))
        cmds.append('R e%d %d e %d z %d 0 %d' % (i, i, r.choice([len(data), 0, 2, 30]), r.getrandbits(40), r.choice([0, 32, 32, 40])))
    return cmds

def images(chk, host, n):
    """compiled images and others, damaged; what loads is run"""
    r = chk.rng
    c = langlib.Corpus(chk)
    c.cmds.append('IMAGES')
    for _ in range(n): c.add(r, **r.choice([{}, dict(arr=.4, str=3), dict(ifs=3, sw=3, depth=2), dict(struct=3, structs=(1, 3), unal=.4), dict(tr=.6, rng=.6, crc=1)]))
    progs = [o for o in run_host(host, c.cmds, chk.work, on_crash=lambda cur, rc, msg: chk.violation('%s: crash: %s' % (cur, crash_text(msg)), {'output': msg[-3000:]})) if 'prog' in o]
    cmds, pid = [], 0
    for p in progs:
        im = bytes(p['img'])
        if len(im) > 700: continue
        for q in range(4):
            b = bytearray(im)
            x = r.random()
            so = int.from_bytes(im[12:16], 'little')
            if x < .6: b = bytearray(im[:so] + c14.damaged(r, im[so:]))
            elif x < .7: del b[r.randrange(len(b)):]
            else:
                for _ in range(r.randrange(1, 4)): b[r.choice([r.randrange(16), r.randrange(len(b))])] = r.choice([0, 1, 16, 255, r.getrandbits(8)])
            cmds.append('IM %d %s' % (pid, bytes(b).hex()))
            for j in range(2):
                cmds.append('R e%d.%d %d e %d z %d 0 %d' % (pid, j, pid, r.choice([0, 3, 10, 60]), r.getrandbits(40), r.choice([0, 2, 32, 16, 128])))
                cmds.append('R d%d.%d %d d 0 %s %d 0 0' % (pid, j, pid, r.choice(['=', '=-1', '=^%d' % r.randrange(80), 'x' + bytes(r.choice([0, 1, 2, 255, r.randrange(256)]) for _ in range(r.randrange(30))).hex()]), r.getrandbits(40)))
            pid += 1
    for _ in range(n):
        cmds.append('IM %d %s' % (pid, program_images.rand_image(r).hex()))
        cmds.append('R e%d %d e 20 z %d 0 2' % (pid, pid, r.getrandbits(40)))
        cmds.append('R d%d %d d 0 = %d 0 0' % (pid, pid, r.getrandbits(40)))
        pid += 1
    c.clear()
    return cmds

def main(chk):
    host = build_host(chk.work, FLAGS + ['-fsanitize=float-cast-overflow'])
    explore.small(chk, host)
    msan = build_host(chk.work, MSAN, 'host-msan', 'clang')
    r = chk.rng
    def uninitialised(cmds):
        """the same runs, watched for uses of memory nobody wrote"""
        def oc(cur, rc, msg): chk.violation('%s: %s' % (cur, crash_text(msg)), {'commands': cmd_of(cmds, cur), 'output': msg[-3000:]})
        chk.cov['runs_watched_for_uninitialised_memory'] = chk.cov.get('runs_watched_for_uninitialised_memory', 0) + len([1 for o in run_host(msan, cmds, chk.work, on_crash=oc) if 'case' in o])
    for k in range(chk.n(1, 8)):
        if k and chk.left() < 150: break
        cmds = []
        for i, code in enumerate(systematic(r, chk.n(5, 10))): cmds += sized(r, i, code)
        run_and_validate(chk, host, cmds)
        uninitialised(cmds)
        if chk.violations: break
        cmds = []
        for i in range(chk.n(900, 1500)):
            x = gen_il.program(r, r.choice(list(gen_il.FOCUS)))
            if r.random() < .6: x = c14.damaged(r, x)
            cmds += rand_cmds(r, i, x, caps=(0, 1, 2, 3, 5, 8, 20), flags=(0, 2, 16, 32, 34, 128, 8, 4))
        run_and_validate(chk, host, cmds)
        uninitialised(cmds)
        if chk.violations: break
        cmds = lengths(r, chk.n(250, 500))
        run_and_validate(chk, host, cmds)
        uninitialised(cmds)
        if chk.violations: break
        cmds = images(chk, host, chk.n(150, 300))
        run_and_validate(chk, host, cmds)
        uninitialised(cmds)
        if chk.violations: break
    chk.assumptions += ['hosts keep to the interface: a string answer is a terminated string or NULL, raw bytes are written within the announced length', 'runs that do not end within the time limit are only watched for accesses outside the buffers']
