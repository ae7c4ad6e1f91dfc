"""JSON documents for random schemas (see gen_lang): the text given to the
command line tool and the same document as a record for the specification."""
import json, math, re, struct as _s
from common import le
from gen_lang import INT, SZ, ALIAS, lo, hi, dbl

BASE = {a: k for k, v in ALIAS.items() for a in v}

def numnode(t):
    if re.fullmatch(r'-?\d+', t):
        v = int(t); m = abs(v); big = m >= 1 << 64
        f = float(t)
        if math.isinf(f): return {'t': 'huge'}
        return {'t': 'num', 'i': 1, 'n': int(v < 0), 'big': int(big), 'm': list(le(0 if big else m, 8)), 'f': dbl(f)}
    f = float(t)
    if math.isinf(f): return {'t': 'huge'}
    i = f == math.floor(f)
    m = int(abs(f)) if i else 0
    big = m >= 1 << 64
    return {'t': 'num', 'i': int(i), 'n': int(f < 0), 'big': int(big), 'm': list(le(0 if big else m, 8)), 'f': dbl(f)}

def strnode(b):
    h = []
    if re.fullmatch(rb'([0-9a-fA-F]{2})*', b): h = [[numnode(str(x)) for x in bytes.fromhex(b.decode())]]
    return {'t': 'str', 'b': list(b), 'h': h}

def parse(text):
    """the node of a document written by the tool"""
    class N(str): pass
    bad = {'t': 'bad'}
    try:
        x = json.loads(text.decode('utf-8', 'surrogateescape'), parse_int=N, parse_float=N, parse_constant=lambda s: 1 / 0,
                       object_pairs_hook=lambda ps: ('o', ps))
    except Exception:
        return bad
    def node(x):
        if isinstance(x, N): return numnode(str(x))
        if x is None: return {'t': 'null'}
        if x is True or x is False: return {'t': 'bool', 'v': int(x)}
        if isinstance(x, str):
            try: return strnode(x.encode('utf-8', 'surrogateescape'))
            except UnicodeEncodeError: return bad
        if isinstance(x, list): return {'t': 'arr', 'v': [node(v) for v in x]}
        ks = [k for k, _ in x[1]]
        if len(set(ks)) < len(ks): return bad
        return {'t': 'obj', 'k': ks, 'v': [node(v) for _, v in x[1]]}
    return node(x)

class Lit(str):
    """a number or literal, as written"""

class Odd(Lit):
    """one put where something else belongs"""

class Doc:
    def __init__(self, r, g, s):
        self.r, self.g, self.s = r, g, s
        self.refs = set()

    # ---------------------------------------------------------------- values
    def integer(self, v):
        r = self.r
        t = str(v)
        if r.random() < .06 and abs(v) < 1 << 53: t = r.choice(['%d.0' % v, '%de0' % v, '%d.000' % v, '%dE+0' % v] + ([('%d' % v)[:-2] + 'e2'] if v % 100 == 0 and v else []))
        return Lit(t)

    def double(self, v):
        r = self.r
        if math.isinf(v) or math.isnan(v): return r.choice([Lit('1e999'), Lit('null')])
        if v == int(v) and r.random() < .4 and abs(v) < 1e17: return Lit(str(int(v)))
        return Lit(repr(v)) if r.random() < .9 else Lit('%.20g' % v)

    def scalar(self, f, pools):
        """a value for the field, from its pool if it has one"""
        r, g = self.r, self.g
        p = next((x for x in pools if x[0] == f['name']), None)
        tr = {d['n'] for d in f['decos']}
        if f['ty'] == 'string': return r.choice(p[2]) if p and p[2] else b''
        st = next((x for x in g.structs if x[0] == f['ty']), None)
        if st: return self.obj(st[1], g.pools[st[1]])
        en = next((x for x in g.enums if x[0] == f['ty']), None)
        ty = en[1] if en else BASE[f['ty']]
        raw = bytes(r.choice(p[2])) if p and p[2] else bytes(r.randrange(256) for _ in range(8))
        if tr & {'scale', 'offset', 'poly', 'spline'}: return self.double(_s.unpack('<d', raw)[0])
        if tr & {'add', 'sub', 'mul', 'div'}: return self.integer(int.from_bytes(raw, 'little', signed=True))
        if ty == 'bool':
            return r.choice([Lit('true'), Lit('1')]) if raw[0] & 1 else r.choice([Lit('false'), Lit('0')]) if raw[0] == 0 else Lit('2')
        if ty == 'f32': return self.double(_s.unpack('<f', raw[:4])[0])
        if ty == 'f64': return self.double(_s.unpack('<d', raw)[0])
        n = 8 * SZ[ty]
        if f['bits']: n = f['bits'][0]['m'][0]
        v = int.from_bytes(raw, 'little') & ((1 << n) - 1)
        if ty[0] == 'i' and v >> (n - 1): v -= 1 << n
        return self.integer(v)

    def array(self, f, pools, o):
        r = self.r
        ref = next((d['id'] for d in f['decos'] if d['n'] in ('count', 'len') and d['id']), None)
        n = f['n']['m'][0] if f['arr'] == '[n]' else next((d['a'][0]['m'][0] for d in f['decos'] if d['n'] in ('count', 'len') and d['a']), None)
        if ref:
            have = o.get(ref)
            if isinstance(have, Lit) and re.fullmatch(r'\d+', have) and int(have) < 12: n = int(have)
            else:
                n = r.randrange(0, 5)
                o[ref] = Lit(str(n))
            self.refs.add(ref)
        k = n
        if n is None:
            k = r.choice([0, 1, 1, 2, 3, 4, 5])
            if r.random() < self.g.w.get('longarr', 0): k = r.choice([255, 256, 300, 400, 500])
        elif r.random() < .08: k = max(0, n + r.choice([-1, 1, -2]))
        return [self.scalar(f, pools) for _ in range(k)]

    def fill(self, o, block, pools):
        r = self.r
        for x in self.s['blocks'][block - 1]:
            if x['s'] == 'if':
                for a in x['arms']: self.fill(o, a['b'], pools)
                if x['els']: self.fill(o, x['els'], pools)
            elif x['s'] == 'switch':
                for c in x['cases']: self.fill(o, c['b'], pools)
                for d in x['defs']: self.fill(o, d, pools)
            elif x['s'] == 'field':
                ns = {d['n'] for d in x['decos']}
                if ns & {'const', 'match', 'crc', 'expr'} and r.random() < .8: continue
                o[x['name']] = self.array(x, pools, o) if x['arr'] else self.scalar(x, pools)

    def obj(self, block, pools):
        o = {}
        self.fill(o, block, pools)
        return o

    def document(self):
        return self.obj(self.g.root, self.g.pools[self.g.root])

    # ---------------------------------------------------------------- damage
    def places(self, o, out):
        it = o.items() if isinstance(o, dict) else enumerate(o)
        for k, v in it:
            out.append((o, k))
            if isinstance(v, (dict, list)): self.places(v, out)
        return out

    def damage(self, o):
        r = self.r
        ps = self.places(o, [])
        if not ps: return
        c, k = r.choice(ps)
        v = c[k]
        x = r.random()
        if k in self.refs: c[k] = Lit(r.choice(['0', '1', '2', '3', 'null', '-1', '0.5', '1e1', 'true']))
        elif x < .2 and isinstance(c, dict): del c[k]
        elif x < .3 and isinstance(v, list): v.append(v[-1] if v else Lit('1'))
        elif x < .35 and isinstance(v, list) and v: v.pop()
        elif x < .6 and isinstance(v, Lit) and not isinstance(v, Odd) and re.fullmatch(r'-?\d+', v):
            c[k] = Lit(r.choice(['256', '255', '-1', '-128', '-129', '128', '65535', '65536', '-32769', '4294967296', '-2147483649', '18446744073709551615', '18446744073709551616',
                                 '9223372036854775807', '9223372036854775808', '-9223372036854775808', '-9223372036854775809', '-0', '0.5', '-0.0', '1e3', '1e19', '1.5e1', '9007199254740993',
                                 '1e-7', '123456789012345678901234567890', '99999999999999999', str(int(v) + 1), str(int(v) - 1), '1000000000000000', '999999999999999']))
        else:
            c[k] = r.choice([Odd('null'), Odd('true'), Odd('false'), Odd('1'), Odd('0'), b'', b'a2', b'00ff7F', b'0g', b'abc', [], [Odd('1')], {}, {'a': Odd('1')}, Odd('1e400'), b'a\0b',
                             Odd('0.1'), Odd('3.4e38'), Odd('3.5e38'), Odd('1e-50')])

    # ---------------------------------------------------------------- text
    def text(self, x, node=True):
        """(text, node)"""
        r = self.r
        sp = lambda: b'' if r.random() < .6 else r.choice([b' ', b'\n', b'\t', b'  ', b'\r\n'])
        def st(b, wild=.05):
            out = b''
            try: u = b.decode('utf-8')
            except UnicodeDecodeError: u = None
            if u is not None and r.random() < .3:
                for ch in u:
                    c = ord(ch)
                    if ch in '"\\': out += b'\\' + ch.encode()
                    elif c < 32: out += {8: b'\\b', 9: b'\\t', 10: b'\\n', 12: b'\\f', 13: b'\\r'}.get(c, b'\\u%04x' % c)
                    elif ch == '/' and r.random() < .5: out += b'\\/'
                    elif c > 0xffff: out += b'\\u%04x\\u%04X' % (0xd800 + ((c - 0x10000) >> 10), 0xdc00 + ((c - 0x10000) & 0x3ff))
                    elif c > 127 or r.random() < wild: out += b'\\u%04x' % c
                    else: out += ch.encode()
            else:
                for c in b:
                    if c in b'"\\': out += b'\\' + bytes([c])
                    elif c < 32: out += b'\\u%04X' % c
                    else: out += bytes([c])
            return b'"' + out + b'"'
        if isinstance(x, Lit):
            n = {'t': 'null'} if x == 'null' else {'t': 'bool', 'v': int(x == 'true')} if x in ('true', 'false') else numnode(x)
            return x.encode(), n
        if isinstance(x, bytes): return st(x), strnode(x)
        if isinstance(x, list):
            es = [self.text(v) for v in x]
            return b'[' + sp() + (b',' + sp()).join(t for t, _ in es) + sp() + b']', {'t': 'arr', 'v': [n for _, n in es]}
        es = [(k, self.text(v)) for k, v in x.items()]
        if r.random() < .2: r.shuffle(es)
        return (b'{' + sp() + (b',' + sp()).join(st(k.encode(), .02) + sp() + b':' + sp() + t for k, (t, _) in es) + sp() + b'}',
                {'t': 'obj', 'k': [k for k, _ in es], 'v': [n for _, (_, n) in es]})
