"""cnd inspect: what it tells about images (compiled, random, damaged), checked
line by line against spec/Inspect."""
from langlib import *
from concurrent.futures import ThreadPoolExecutor
import struct
import gen_il, images, vmlib

FOCI = [{}, dict(ifs=4, depth=3), dict(sw=5, depth=3, enum=2, enums=(1, 2)), dict(arr=.5, struct=3, structs=(1, 3)), dict(eofarr=.7, arr=.5),
        dict(expr=5, tr=.5, crc=1, rng=.5), dict(rng=.8, fl=.5, num=5), dict(const=4, bits=4, str=3, unal=.4), dict(tr=.8, inexact=.3)]

def number(t):
    if re.fullmatch(r'-?(\d+\.\d+|inf|nan)', t): return {'t': 'f', 'neg': 0, 'w': list(struct.pack('<d', float(t))), 's': ''}
    if re.fullmatch(r'-?\d+|0x[0-9A-Fa-f]+', t):
        v = int(t, 0) if 'x' in t else int(t)
        return {'t': 'n', 'neg': int(t[0] == '-'), 'w': list(le(abs(v) & (1 << 64) - 1, 8)), 's': ''}
    return {'t': 's', 'neg': 0, 'w': [0] * 8, 's': t}

def line(text):
    """a line of the listing, or None if it is not an instruction"""
    m = re.fullmatch(r'([0-9A-Fa-f]{4,}): ([A-Z][A-Z0-9_]*) *(.*)', text)
    if not m: return None
    ops = []
    for l, lst, one in re.findall(r'([A-Za-z]+)=(?:\[(.*?)\]|(\S*))', m.group(3)):
        ops.append({'l': l, 'v': [number(t) for t in (re.split(r'[,()\s]+', lst.strip('() ')) if lst.strip() else [])] if not one else [number(one)]})
    return {'at': int(m.group(1), 16), 'name': m.group(2), 'ops': ops}

def newline_in_names(im):
    so, n = int.from_bytes(im[8:12], 'little'), int.from_bytes(im[6:8], 'little')
    return any(b'\n' in x for x in im[so:].split(b'\0')[:n])

def parse(im, rc, out):
    x = {'img': list(im), 'rc': rc, 'head': 0, 'ver': 0, 'count': 0, 'names_at': [], 'code_at': [], 'names': [], 'lines': []}
    m = re.search(rb'^Version: *(-?\d+)\nString Count: *(-?\d+)\nString Table Offset: *(-?\d+)\nBytecode Offset: *(-?\d+)\n', out, re.M)
    if not m: return x
    f = [int(g) for g in m.groups()]
    x.update(head=1, ver=f[0], count=f[1], names_at=list(le(f[2], 4)) if 0 <= f[2] < 1 << 32 else [-1], code_at=list(le(f[3], 4)) if 0 <= f[3] < 1 << 32 else [-1])
    ls = out[m.end():].split(b'\n')
    sec = None
    for l in ls:
        if l.startswith(b'---'): sec = l
        elif sec and b'String Table' in sec:
            g = re.fullmatch(rb'\[(\d+)\] (.*)', l, re.S)
            if g: x['names'].append(list(g.group(2)) if int(g.group(1)) == len(x['names']) else [-1])
        elif sec and b'Bytecode' in sec:
            g = line(l.decode('latin-1').rstrip())
            if g: x['lines'].append(g)
    return x

def main(chk):
    host = build_host(chk.work)
    cnd = build_cnd(chk.work)
    r = chk.rng
    d = os.path.join(chk.work, 'c26')
    for k in range(chk.n(1, 8)):
        if k and chk.left() < 150: break
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        # images of compiled schemas
        c = Corpus(chk)
        c.cmds.append('IMAGES')
        for _ in range(chk.n(350, 600)): c.add(r, **r.choice(FOCI))
        def oc(cur, rc, msg):
            chk.violation('%s: crash: %s' % (cur, crash_text(msg)), {'commands': vmlib.cmd_of(c.cmds, cur), 'output': msg[-3000:]})
        progs = [bytes(o['img']) for o in run_host(host, c.cmds, chk.work, on_crash=oc) if 'prog' in o and o.get('img')]
        ims = list(progs)
        for p in progs:      # damaged
            im = bytearray(p)
            if r.random() < .3: im = im[:r.randrange(len(im) + 1)]
            for _ in range(r.randrange(1, 3)):
                if im: im[min(len(im) - 1, r.choice([r.randrange(20), r.randrange(len(im))]))] = r.choice([0, 1, 10, 16, 127, 128, 255, r.getrandbits(8)])
            ims.append(bytes(im))
        for _ in range(chk.n(500, 900)): ims.append(images.rand_image(r))
        for _ in range(chk.n(700, 1200)):
            code = gen_il.program(r, r.choice(list(gen_il.FOCUS)))
            ims.append(images.image([r.choice([b'a', b'', b'x.y', b'\xc3\xa4']) for _ in range(r.randrange(3))], code))
        ims = [im for im in ims if len(im) < 4000]
        def one(j):
            p = os.path.join(d, '%d.il' % j)
            with open(p, 'wb') as f: f.write(ims[j])
            x = cli(cnd, ['inspect', p], d, timeout=60)
            os.unlink(p)
            return x
        with ThreadPoolExecutor(8) as ex: outs = list(ex.map(one, range(len(ims))))
        recs = []
        for im, (rc, out, err) in zip(ims, outs):
            if rc == 'timeout' or rc < 0 or rc in (77, 134, 139):
                chk.violation('crash or no end (%s): %s' % (rc, crash_text(err)), {'image': hexs(im), 'output': err[-3000:]})
                continue
            if newline_in_names(im): continue
            recs.append(parse(im, rc, out))
        # what is no file at all
        for args in ([os.path.join(d, 'nothing')], [d]):
            rc, out, err = cli(cnd, ['inspect'] + args, d)
            recs.append(parse(b'', rc, out))
        v = validate(chk, 'InspectTrace', recs, {})
        for i in sorted(v):
            if v[i]: chk.violation('image %d: %s' % (i, v[i]), {'image': hexs(recs[i]['img']), 'exit': recs[i]['rc']})
        chk.cov['images'] = chk.cov.get('images', 0) + len(recs)
        chk.cov['lines_listed'] = chk.cov.get('lines_listed', 0) + sum(len(x['lines']) for x in recs)
        chk.sample({'image': hexs(recs[0]['img'])[:200], 'lines': recs[0]['lines'][:3]})
        c.clear()
        if chk.violations: break
