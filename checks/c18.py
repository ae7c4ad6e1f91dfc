"""The command line tool: random schemas, JSON documents for them (good and bad),
encoded, decoded and encoded again by the real tool; every use is validated
against spec/JsonHost on spec/ConcordiaLang (JsonTrace)."""
from langlib import *
import gen_lang, gen_json

FOCI = [dict(), dict(fields=(1, 4)), dict(struct=4, structs=(1, 3), arr=.3), dict(arr=.6, num=4, str=2, fields=(2, 5)), dict(bits=5, bool=3, enum=3, unal=.5),
        dict(expr=5, fl=.5), dict(ifs=3, sw=3), dict(tr=.6), dict(eofarr=.7, arr=.5, structs=(1, 2), fields=(1, 4)), dict(num=8, fl=.5, rng=.4), dict(arr=.5, struct=3, structs=(2, 3), ord=.3, endian=.7),
        dict(arr=.6, longarr=.3, long=.5, fields=(1, 4), str=4), dict(optend=.5, opt=.2, fields=(1, 4))]
NODOC = {'t': 'none'}
JUNK = [b'', b'[]', b'[1]', b'5', b'null', b'"a"', b'true', b'{', b'{"a":1', b'{"a":}', b'{"a" 1}', b'{}}', b'{} x', b'{"a":1,}', b'{a:1}', b"{'a':1}", b'\xff', b'{"a":1}\0', b'nonsense']

def unbounded(s):
    """constants up to the end of the message: nothing in a document says how many"""
    return any(x['s'] == 'field' and {'eof'} < {d['n'] for d in x['decos']} and {'const', 'match', 'crc'} & {d['n'] for d in x['decos']} for b in s['blocks'] for x in b)

def main(chk):
    r = chk.rng
    cnd = build_cnd(chk.work)
    d = os.path.join(chk.work, 'c18')
    def use(sid, md, inp, doc, msg, hexm=0, sink=1, img=1, room=400):
        """run the tool once; returns the record"""
        use.n += 1
        n = use.n
        il = os.path.join(d, '%d.il' % sid) if img == 1 else os.path.join(d, img)
        pi = os.path.join(d, 'i%d' % n)
        po = os.path.join(d, 'o%d' % n) if sink == 1 else os.path.join(d, 'no', 'such', 'o')
        with open(pi, 'wb') as f: f.write(inp)
        rc, out, err = cli(cnd, ['decode' if md else 'encode', il, pi, po] + (['--hex'] if hexm else []), d, timeout=8)
        o = open(po, 'rb').read() if os.path.exists(po) else None
        for p in (pi, po):
            if os.path.exists(p): os.unlink(p)
        if rc == 'timeout' or o and len(o) > 20000:      # huge counts; C21 is about endless runs
            chk.cov['too_long'] = chk.cov.get('too_long', 0) + 1
            return None
        if rc < 0 or rc in (77, 134, 139):
            chk.violation('schema %d, %s: crash (%s): %s' % (sid, 'decode' if md else 'encode', rc, crash_text(err)), {'source': srcs[sid], 'input': inp.decode('latin-1'), 'output': err[-3000:]})
            return None
        x = {'case': n, 's': sid + 1 if img == 1 else 0, 'md': md, 'rc': rc, 'out': 0 if o is None else 1, 'hex': hexm, 'sink': sink, 'room': room,
             'doc': doc if md == 0 else NODOC if o is None else gen_json.parse(o), 'msg': list(msg) if md else [] if o is None else list(o)}
        raw[n] = (inp, o)
        return x
    use.n = 0
    for k in range(chk.n(1, 10)):
        if k and chk.left() < 150: break
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(os.path.join(d, 'empty.il'), 'w').close()
        with open(os.path.join(d, 'junk.il'), 'wb') as f: f.write(b'CNDIL\1' + bytes(3))
        schemas, srcs, raw = [], [], {}
        jobs = []
        for q in range(chk.n(600, 900)):
            g = gen_lang.Gen(r, **dict(dict(inexact=0, wide=.02, bigenum=.01, bigsw=.03, long=.05), **r.choice(FOCI)))
            s = g.schema()
            while unbounded(s):
                g = gen_lang.Gen(r, **g.w)
                s = g.schema()
            files = gen_lang.Render(r, s).files('m%d' % q, g.w['imports'])
            for nm, t in files.items():
                os.makedirs(os.path.dirname(os.path.join(d, nm)), exist_ok=True)
                with open(os.path.join(d, nm), 'w') as f: f.write(t)
            srcs.append(files)
            schemas.append(dict(gen_lang.strip(s), use=0))
            plan = []
            for j in range(6):
                doc = gen_json.Doc(r, g, s)
                o = doc.document()
                while r.random() < (.45 if j else .1): doc.damage(o)
                if r.random() < .1: o['extra'] = r.choice([[], gen_json.Lit('1e5'), b'12345678901234567890', {'x': gen_json.Lit('-12345678901234567890')}])
                t, n = doc.text(o)
                if r.random() < .03: t, n = t[:r.randrange(len(t))] if len(t) > 2 else b'', {'t': 'bad'}
                plan.append((t, n, [r.random() for _ in range(12)], r.getrandbits(64)))
            jobs.append((q, plan))
        def work(job):
            sid, plan = job
            rc, out, err = cli(cnd, ['compile', 'm%d.cnd' % sid, '%d.il' % sid], d)
            if rc: return []
            schemas[sid]['use'] = 1
            res = []
            for t, n, p, seed in plan:
                rr = random.Random(seed)
                x = use(sid, 0, t, n, b'', room=max(400, 2 * len(t)))
                res.append(x)
                if not x or x['rc']:
                    msg = bytes(rr.choice([0, 0, 1, 2, 3, 255, rr.randrange(256)]) for _ in range(rr.randrange(0, 40)))
                    res.append(use(sid, 1, msg, n, msg, hexm=rr.randrange(2)))
                    continue
                msg = bytes(x['msg'])
                for hexm in (0, 1):
                    y = use(sid, 1, msg, n, msg, hexm=hexm)
                    res.append(y)
                    if y and y['rc'] == 0 and y['doc']['t'] != 'bad' and p[hexm] < .7:
                        res.append(use(sid, 0, raw[y['case']][1], y['doc'], b'', room=len(msg) + 400))
                if p[2] < .5 and msg:
                    m = bytearray(msg)
                    m[rr.randrange(len(m))] ^= 1 << rr.randrange(8)
                    res.append(use(sid, 1, bytes(m), n, m, hexm=rr.randrange(2)))
                if p[3] < .3:
                    m = msg[:rr.randrange(len(msg))] if msg and rr.random() < .6 else msg + bytes(rr.randrange(4) for _ in range(rr.randrange(1, 5)))
                    res.append(use(sid, 1, m, n, m, hexm=rr.randrange(2)))
                if p[4] < .02:
                    res.append(use(sid, 0, t, n, b'', sink=0))
                    res.append(use(sid, 1, msg, n, msg, sink=0))
                if p[4] > .98:
                    im = rr.choice(['none.il', 'empty.il', 'junk.il'])
                    res.append(use(sid, 0, t, n, b'', img=im))
                    res.append(use(sid, 1, msg, n, msg, img=im))
                if p[5] < .03: res.append(use(sid, 0, rr.choice(JUNK), {'t': 'bad'}, b''))
            return res
        recs = []
        with cf.ThreadPoolExecutor(CORES) as ex:
            for res in ex.map(work, jobs): recs += [x for x in res if x]
        if chk.violations: break
        for lo in range(0, len(recs), 12000):
            part = recs[lo:lo + 12000]
            v = validate(chk, 'JsonTrace', part, {'SCHEMAS': schemas})
            for i in sorted(v):
                if v[i]:
                    x = part[i]
                    inp, out = raw[x['case']]
                    chk.violation('schema %d, %s%s: %s' % (x['s'] - 1, 'decode' if x['md'] else 'encode', ' --hex' if x['hex'] else '', v[i]),
                                  {'source': srcs[x['s'] - 1] if x['s'] else None, 'input': inp.decode('latin-1'), 'output': (out or b'').decode('latin-1'), 'status': x['rc']})
        for x in recs[:3]:
            chk.sample({'schema': srcs[x['s'] - 1], 'use': 'decode' if x['md'] else 'encode', 'status': x['rc'], 'input': raw[x['case']][0].decode('latin-1')[:400], 'output': (raw[x['case']][1] or b'').decode('latin-1')[:400]})
        chk.cov['documents_and_messages_accepted'] = chk.cov.get('documents_and_messages_accepted', 0) + len([x for x in recs if x['rc'] == 0])
        if chk.violations: break
    chk.assumptions.append('members named twice in one object, and numbers of more than 60 characters, are not given to the tool')
