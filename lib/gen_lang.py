"""Random schemas: the syntax tree for the specification (spec/Schema.tla),
the source text for the compiler, and pools of values for the scripted host.
Nothing in here knows what a schema means; that is the specification's job."""
import posixpath
import struct as _s, json
from common import le

INT = ['u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64']
SZ = {'u8': 1, 'i8': 1, 'bool': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'f32': 4, 'u64': 8, 'i64': 8, 'f64': 8}
ALIAS = {'u8': ['uint8', 'u8', 'byte'], 'u16': ['uint16', 'u16'], 'u32': ['uint32', 'u32'], 'u64': ['uint64', 'u64'],
         'i8': ['int8', 'i8'], 'i16': ['int16', 'i16'], 'i32': ['int32', 'i32'], 'i64': ['int64', 'i64'],
         'f32': ['float', 'f32'], 'f64': ['double', 'f64'], 'bool': ['bool']}
NAMES = ['a', 'b', 'c', 'd', 'x', 'y', 'z', 'len', 'kind', 'flags', 'temp', 'speed', 'id', 'val', 'data', 'hdr', 'seq', 'mode', 'alt', 'pos',
         'crc', 'sum', 'cnt', 'tag', 'body', 'n', 'm', 'p', 'q', 'w', 'chan', 'volt', 'field_with_a_long_name', 'X1', 'prefix_len', 'count', 'max_v', 'ver']
PREFIX = {1: ['uint8', 'u8'], 2: ['uint16', 'u16'], 4: ['uint32', 'u32']}

LIKE = ['trun', 'tru', 'fals', 'falsy', 'True', 'iff', 'els', 'elsewhere', 'structs', 'stru', 'packe', 'packets', 'enu', 'enums', 'cases', 'defaults', 'switche', 'selfy', 'boolx', 'u', 'u80', 'uint', 'uint88',
        'i16x', 'strings', 'doubl', 'floats', 'byt', 'bytes', 'maxx', 'ma', 'until_', 'prefixx', 'eofx', 'f', '_', '_a', '__', 'E', 'importx', 'sine', 'co', 'powe', 'logs', 'ab', 'integer']
WORDS = set('true false if else struct packet enum case default switch self bool string byte max until prefix import sin cos tan sqrt pow log abs int float double'.split()) | {a for l in ALIAS.values() for a in l}
def variant(r, name, taken, p=.2):
    """name, or one easily mistaken for another of the names taken, or for a word of the language"""
    if r.random() < p:
        b = r.choice(sorted(taken) + [r.choice(LIKE)])
        x = r.random()
        n = b if b in LIKE and x < .6 else b[:-1] if x < .4 else b + r.choice(['x', '0', '1', '_', 'a', b[-1]]) if x < .6 else b.swapcase() if x < .75 else b[:-1] + r.choice('abz_9') if x < .9 else r.choice('abz_') + b[1:]
        if n and (n[0].isalpha() or n[0] == '_') and n not in taken and n not in WORDS: return n
    return name

def lo(ty): return -(1 << (8 * SZ[ty] - 1)) if ty[0] == 'i' else 0
def hi(ty): return (1 << (8 * SZ[ty] - 1)) - 1 if ty[0] == 'i' else (1 << (8 * SZ[ty])) - 1
def dbl(x): return list(_s.pack('<d', x))

def ilit(r, v, hexp=.25):
    m = abs(v)
    neg = v < 0
    t = ('-' if neg else '') + ((r.choice(['0x%x', '0x%X', '0x%04x']) % m) if r.random() < hexp else str(m))
    big = m >= 1 << 64
    f = float(v) if abs(v) < 1 << 1000 else 0.0
    return {'i': 1, 'n': int(neg), 'big': int(big), 'm': list(le(0 if big else m, 8)), 'f': dbl(f), 's': t}

def flit(r, x):
    t = ('%.10f' % x).rstrip('0')
    if t.endswith('.'): t += '0'
    if abs(float(t)) > 1e14: t = '%.1f' % x
    if x == int(x) and r.random() < .5: return ilit(r, int(x), 0)
    return {'i': 0, 'n': int(t[0] == '-'), 'big': 0, 'm': [0] * 8, 'f': dbl(float(t)), 's': t}

NOLIT = {'i': 1, 'n': 0, 'big': 0, 'm': [0] * 8, 'f': [0] * 8, 's': '0'}

DEFAULT = dict(num=6, bool=1, bits=1, enum=1, str=1, const=1, crc=0.4, expr=1, struct=1, ifs=.7, sw=.7, pad=.3, fill=.3,
               arr=.15, ord=.2, opt=.06, rng=.12, tr=.12, fields=(2, 7), depth=2, structs=(0, 3), enums=(0, 2), unal=.2, fl=.25, endian=.3,
               alias=.08, imports=.1, version=.2, crcend=0, optend=.1, bad=.15, case_default=.5, wide=.3, bitord=1, eof=1, eofmid=.05, eofarr=0, hollow=0, long=.1, bigenum=.03, bigsw=.06, inexact=1, crowd=.02, hugearr=.01)

class Gen:
    def __init__(self, r, **focus):
        self.r = r
        self.w = dict(DEFAULT, **focus)
        self.decls = []
        self.blocks = []
        self.structs = []      # (name, block, fields {name: kind}, unaligned)
        self.enums = []        # (name, type, [(valname, value)])
        self.width = {}
        self.pools = {}        # block -> [(name, kind, payload)]

    # ------------------------------------------------------------------ values
    def int_pool(self, ty, bits=None, extra=()):
        r = self.r
        n = bits or 8 * SZ[ty]
        vals = [r.getrandbits(n), r.getrandbits(n), r.choice([0, 1, 2, (1 << n) - 1, 1 << (n - 1), (1 << (n - 1)) - 1]), r.randrange(0, 5)]
        if bits and ty[0] == 'i': vals = [v - (1 << n) if v >> (n - 1) & 1 else v for v in (x & ((1 << n) - 1) for x in vals)]
        elif bits: vals = [v & ((1 << n) - 1) for v in vals]
        if bits and r.random() < self.w['wide']: vals.append(r.getrandbits(64))
        vals += list(extra)
        return [le(v, 8) for v in vals]

    def flt_pool(self, ty, extra=()):
        r = self.r
        v = [r.uniform(-1000, 1000), r.choice([0.0, 1.0, -1.0, 0.5, 1e10, -2.25, float('inf'), 3e38, 65535.5]), float(r.randrange(-50, 50))] + list(extra)
        return [(_s.pack('<f', x) if abs(x) < 3.3e38 or x == float('inf') else _s.pack('<f', 1.0)) if ty == 'f32' else _s.pack('<d', x) for x in v]

    # ------------------------------------------------------------------ expressions
    def ident(self, env, want):
        ids = [n for n, k in env.items() if (k in ('f64', 'f32')) == (want == 'float') and k in SZ]
        if ids and self.r.random() < .95: return self.r.choice(ids)
        ids = [n for n, k in env.items() if k in SZ]
        return self.r.choice(ids) if ids else None

    def expr(self, env, want, depth):
        r = self.r
        if depth <= 0 or r.random() < .15:
            i = self.ident(env, want)
            if i and r.random() < .65: return {'o': 'id', 'k': i}
            if want == 'float' and r.random() < .8:
                l = {'i': 1}
                while l['i']: l = flit(r, r.choice([0.5, 1.5, 2.25, 3.0, 0.1, 10.75, 100.0, 0.0, 7.0]))
                return {'o': 'flt', 'v': l['f'], 's': l['s'] if '.' in l['s'] else l['s'] + '.0'}
            v = r.choice([0, 1, 2, 3, 5, 7, 8, 10, 63, 64, 100, 255, 256, 65535, (1 << 31) - 1, 1 << 32, (1 << 63) - 1, r.getrandbits(r.randrange(1, 63))])
            if r.random() < .08: return {'o': 'int', 'v': list(le(1, 8)), 's': 'true'} if r.random() < .5 else {'o': 'int', 'v': [0] * 8, 's': 'false'}
            l = ilit(r, v)
            return {'o': 'int', 'v': l['m'], 's': l['s']}
        x = r.random()
        if want == 'float':
            if x < .5: return {'o': 'bin', 'op': r.choice('+-*/'), 'a': self.expr(env, 'float', depth - 1), 'b': self.expr(env, r.choice(['float', 'float', 'float', 'int']), depth - 1)}
            if x < .6: return {'o': 'un', 'op': '-', 'a': self.expr(env, 'float', depth - 1)}
            if x < .7: return {'o': 'fn', 'fn': 'float', 'a': self.expr(env, 'int', depth - 1)}
            if self.w['inexact'] and r.random() < .09:
                c = lambda: (lambda x: {'o': 'flt', 'v': dbl(x), 's': '%.1f' % x})(r.choice([0.0, 0.0, 0.0, 1.0, 2.0, 0.5, 3.0]))
                neg = lambda x: {'o': 'un', 'op': '-', 'a': x} if r.random() < .3 else x
                return {'o': 'fn', 'fn': 'pow', 'a': neg(c()), 'b': neg(c())} if r.random() < .7 else {'o': 'fn', 'fn': r.choice(['log', 'sqrt']), 'a': neg(c())}
            if not self.w['inexact']: return {'o': 'fn', 'fn': r.choice(['sqrt', 'abs']), 'a': self.expr(env, r.choice(['float', 'float', 'int']), depth - 1)}
            if x < .76: return {'o': 'fn', 'fn': 'pow', 'a': self.expr(env, 'float', depth - 1), 'b': {'o': 'int', 'v': list(le(2, 8)), 's': '2'} if r.random() < .6 else self.expr(env, 'float', depth - 2)}
            return {'o': 'fn', 'fn': r.choice(['sin', 'cos', 'tan', 'sqrt', 'log', 'abs', 'sqrt', 'abs']), 'a': self.expr(env, r.choice(['float', 'float', 'int']), depth - 1)}
        if x < .75:
            op = r.choice(['+', '-', '*', '/', '%', '==', '!=', '<', '>', '<=', '>=', '&&', '||', '&', '|', '^', '<<', '>>', '+', '-', '*'])
            if op in ('==', '!=', '<', '>', '<=', '>=') and r.random() < .2:
                return {'o': 'bin', 'op': op, 'a': self.expr(env, 'float', depth - 1), 'b': self.expr(env, r.choice(['float', 'int']), depth - 1)}
            a = self.expr(env, 'int', depth - 1)
            if op in ('<<', '>>') and r.random() < .8:
                b = {'o': 'int', 'v': list(le(r.randrange(0, 70), 8))}; b['s'] = str(b['v'][0])
            else: b = self.expr(env, 'int', depth - 1)
            return {'o': 'bin', 'op': op, 'a': a, 'b': b}
        if x < .93: return {'o': 'un', 'op': r.choice('!~-'), 'a': self.expr(env, 'int', depth - 1)}
        return {'o': 'fn', 'fn': 'int', 'a': self.expr(env, 'float', depth - 1)}

    # ------------------------------------------------------------------ fields
    def deco(self, n, a=(), id='', e=None):
        d = {'n': n, 'a': list(a), 'id': id}
        if e is not None: d['e'] = e
        return d

    def field(self, name, ty, decos=(), bits=None, arr='', n=None, pre='', until=0, mx=None):
        return {'s': 'field', 'name': name, 'ty': ty, 'decos': list(decos), 'bits': [bits] if bits else [], 'arr': arr, 'n': n or NOLIT,
                'pre': pre, 'until': until, 'max': [mx] if mx else []}

    def length(self, f, env, allow_eof, string=False):
        """make f an array"""
        r = self.r
        ints = [n for n, k in env.items() if k in ('u8', 'u16', 'u32', 'cnt')]
        x = r.random()
        pool = None
        if allow_eof and self.w['eofarr'] and r.random() < self.w['eofarr'] and not (string and f['until'] == 0): x = 1
        if x < .35 or (string and f['until'] == 0 and x < .6):
            v = r.choice([0, 1, 2, 3, 3, 4, 5, 17])
            if r.random() < self.w['hugearr']: v = r.choice([256, 257, 65536, 65537, 65538, 131075, 16777217])
            if r.random() < .8: f['arr'] = '[n]'; f['n'] = ilit(r, v)
            else: f['arr'] = '[]'; f['decos'].append(self.deco(r.choice(['count', 'len']), [ilit(r, v)]))
        elif x < .65 and not (string and f['until'] == 0):
            f['arr'] = '[]'
            if string: f['decos'].append(self.deco('count', [ilit(r, r.randrange(0, 4))]))
            else: f['pre'] = r.choice(PREFIX[r.choice([1, 1, 1, 2, 4])])
        elif x < .85 and ints:
            f['arr'] = '[]'
            f['decos'].append(self.deco(r.choice(['count', 'len']), [], r.choice(ints)))
        elif allow_eof and not (string and f['until'] == 0):
            f['arr'] = '[]'; f['decos'].append(self.deco('eof'))
        else:
            f['arr'] = '[n]'; f['n'] = ilit(r, r.choice([1, 2, 3, 4]))

    def transform(self, ty):
        """decorators and a pool of values the host may give for them"""
        r = self.r
        x = r.random()
        small = lambda: r.choice([0.1, 0.5, 2.0, -1.5, 1.0, 0.01, 0.25, 100.0, 3.0])
        if x < .4:
            sc, of = small(), r.choice([0.0, 1.0, -40.0, 0.5, 1000.0, -273.15])
            d = []
            k = r.random()
            ls, lof = flit(r, sc), flit(r, of)
            if k < .4: d = [self.deco('scale', [ls]), self.deco('offset', [lof])]
            elif k < .55: d = [self.deco('offset', [lof]), self.deco('scale', [ls])]
            elif k < .85: d = [self.deco('scale', [ls])]; of = 0.0
            else: d = [self.deco('offset', [lof])]; sc = 1.0
            raws = [r.randrange(0, 200), r.randrange(0, 120), 0] + ([hi(ty), lo(ty)] if ty in INT and SZ[ty] < 4 else [])
            pool = [x * sc + of for x in raws] + [r.uniform(-100, 100)]
            if r.random() < self.w['bad']: pool.append(r.choice([1e9, -1e9, 1e300, float('nan')]))
            return d, [_s.pack('<d', p) for p in pool]
        if x < .8:
            n = r.choice(['add', 'sub', 'mul', 'div'])
            v = r.choice([1, 2, 3, 5, 10, 100, -1, -7, 1000, 0])
            pool = [r.randrange(0, 100), r.randrange(0, 100) * max(1, abs(v)), r.randrange(0, 30) - v if n == 'sub' else r.randrange(0, 30) + v, 0]
            if ty[0] == 'i': pool.append(-r.randrange(0, 100))
            if r.random() < self.w['bad']: pool.append(r.choice([1 << 40, -1, -(1 << 62), 300, 70000]))
            return [self.deco(n, [ilit(r, v)])], [le(p, 8) for p in pool]
        if x < .9:
            c = r.choice([[0.0, 2.0], [-5.0, 0.5], [1.0, 1.0, 0.5], [10.0, 3.0], [0.0, 1.0, 0.25], [2.5, -0.5]])
            ev = lambda q: sum(k * q ** i for i, k in enumerate(c))
            return [self.deco('poly', [flit(r, q) for q in c])], [_s.pack('<d', ev(q)) for q in [0, 1, 5, r.randrange(0, 100), r.randrange(0, 100), 7.3]]
        pts = [(0.0, 0.0), (10.0, 100.0), (50.0, 300.0), (255.0, 1000.0)][:r.randrange(2, 5)]
        if r.random() < .3: pts = [(a, 500.0 - b) for a, b in pts]
        ys = [b for _, b in pts]
        return ([self.deco('spline', [flit(r, q) for p in pts for q in p])], [_s.pack('<d', v) for v in ys + [r.uniform(min(ys), max(ys)) for _ in range(3)]])

    def one(self, env, un, depth, names, last, pools, self_block):
        """one statement; extends env (name -> kind) and pools"""
        r, w = self.r, self.w
        kinds = ['num', 'bool', 'bits', 'enum', 'str', 'const', 'crc', 'expr', 'struct', 'ifs', 'sw', 'pad', 'fill']
        if un: kinds = ['bool', 'bits', 'pad', 'fill'] + (['ifs', 'sw'] if depth > 0 else [])
        ok = {'enum': bool(self.enums), 'struct': bool(self.structs), 'ifs': depth > 0, 'sw': depth > 0 and any(k in SZ and k not in ('f32', 'f64') or k == 'cnt' for k in env.values())}
        ks = [k for k in kinds if ok.get(k, True) and w[k] > 0]
        k = r.choices(ks, [w[x] + (3 if un and x == 'bits' else 0) for x in ks])[0]
        decos = []
        if k == 'pad':
            if r.random() < .5 and not un: return [{'s': 'align', 'decos': [self.deco('pad', [ilit(r, r.choice([1, 2, 3, 4, 7, 8, 12, 16, 0]))])]}]
            decos.append(self.deco('pad', [ilit(r, r.choice([1, 2, 3, 5, 8]))]))
            k = 'bits' if un or r.random() < .5 else 'num'
        elif k == 'fill':
            d = self.deco('fill', r.choice([[], [ilit(r, 0, 0)], [ilit(r, 1, 0)]]))
            if r.random() < .6: return [{'s': 'align', 'decos': [d]}]
            decos.append(d)
            k = 'bits' if un or r.random() < .5 else 'num'
        if k == 'ifs':
            arms = []
            for i in range(r.choice([1, 1, 1, 2, 3])):
                c = self.expr(env, 'int', r.randrange(1, 4))
                if r.random() < .5 and [n for n, kk in env.items() if kk in SZ]:
                    c = {'o': 'bin', 'op': r.choice(['==', '!=', '<', '>', '&', '>=']), 'a': {'o': 'id', 'k': self.ident(env, 'int')}, 'b': c if r.random() < .3 else {'o': 'int', 'v': list(le(i, 8)), 's': str(i)}}
                e2 = dict(env)
                arms.append({'c': c, 'b': self.block(e2, un, depth - 1, names, last, r.randrange(1, 3), pools)})
            els = self.block(dict(env), un, depth - 1, names, last, r.randrange(0, 3), pools) if r.random() < .6 else 0
            return [{'s': 'if', 'arms': arms, 'els': els}]
        if k == 'sw':
            ds = [n for n, kk in env.items() if (kk in SZ and kk not in ('f32', 'f64')) or kk == 'cnt' or kk.startswith('enum')]
            pre = []
            if not ds or '.' in (d := r.choice(ds)):
                ds = [x for x in ds if '.' not in x]
                if not ds: return []
                d = r.choice(ds)
            en = next((e for e in self.enums if env[d] == 'enum ' + e[0]), None)
            base = r.choice([0, 0, 1, 10, -3, 250, 1 << 33, -(1 << 63)])
            n = r.choice([1, 2, 3, 4, 5, 6])
            step = r.choice([1, 1, 1, 2, 60, 300, 1 << 20])
            vals = sorted({max(-(1 << 63), base + i * step) for i in range(n)}, key=lambda x: r.random())
            if r.random() < .4: vals = r.sample(range(0, 8), n)
            if r.random() < w['bigsw']:    # a table with room, or one just too wide to be a table
                base, span = r.choice([0, 0, 1, -100, 1000, 1 << 40]), r.choice([20, 64, 65, 127, 200, 254, 255, 256, 257])
                vals = [base, base + span] + [base + x for x in r.sample(range(1, span), r.choice([2, 3, 6]))]
                if r.random() < .5: r.shuffle(vals)
            if r.random() < .1: vals.append((1 << 64) - 1) if -1 not in vals else None
            cases = []
            if en and en[2] and r.random() < .8:
                for vn, vv in r.sample(en[2], r.randrange(1, len(en[2]) + 1)):
                    cases.append({'e': en[0], 'ev': vn, 'v': NOLIT, 'b': self.block(dict(env), un, depth - 1, names, last, r.randrange(0, 3), pools)})
            else:
                for v in vals:
                    cases.append({'e': '', 'ev': '', 'v': ilit(r, v), 'b': self.block(dict(env), un, depth - 1, names, last, r.randrange(0, 3), pools)})
                p = [x for x in pools if x[0] == d]
                if p and p[0][1] == 'n':
                    bits = self.width.get((id(pools), d))
                    p[0][2].extend(le(v, 8) for v in vals for _ in range(2) if w['wide'] or not bits or (0 <= v < 1 << bits if env[d][0] == 'u' else -(1 << (bits - 1)) <= v < 1 << (bits - 1)))
            defs = [self.block(dict(env), un, depth - 1, names, last, r.randrange(0, 3), pools)] if r.random() < w['case_default'] else []
            return [{'s': 'switch', 'on': d, 'cases': cases, 'defs': defs}]

        free = [n for n in NAMES if n not in names]
        name = r.choice(free) if free else 'f%d' % len(names)
        name = variant(r, name, names, .12)
        while name in names: name += r.choice('abcxyz')
        names.add(name)
        opt = [self.deco('optional')] if r.random() < w['opt'] or (last and r.random() < w['optend']) else []
        order = [self.deco(r.choice(['be', 'big_endian', 'le', 'little_endian']))] if r.random() < w['ord'] else []
        isarr = r.random() < w['arr']
        f = None
        if k == 'bits' or (un and k == 'bool'):
            ty = r.choice(INT) if k == 'bits' else 'bool'
            full = 8 * SZ[ty] if ty != 'bool' else 1
            if ty == 'bool': width = 1
            else: width = r.choice([1, 2, 3, 4, 5, 7, 8, full, r.randrange(1, full + 1)]); width = min(width, full)
            explicit = not (un and width == full and r.random() < .7)
            if ty == 'bool' and r.random() < .5 and un: explicit = False
            f = self.field(name, r.choice(ALIAS[ty]), [], ilit(r, width, .1) if explicit else None)
            if not explicit: width = full
            self.width[(id(pools), name)] = width
            pools.append([name, 'n', [bytes([r.randrange(2)]) for _ in range(2)] + ([bytes([2])] if r.random() < w['bad'] / 2 else []) if ty == 'bool' else self.int_pool(ty, width)])
            env[name] = ty
        elif k == 'num':
            ty = r.choice(['f32', 'f64']) if r.random() < w['fl'] else r.choice(INT)
            f = self.field(name, r.choice(ALIAS[ty]))
            if r.random() < w['tr']:
                d, pool = self.transform(ty)
                f['decos'] += d
                pools.append([name, 'n', pool])
                env[name] = 'tr'
            elif r.random() < w['rng']:
                if ty in INT:
                    a, b = sorted(r.choice([0, 1, 10, 100, lo(ty), hi(ty), r.randrange(lo(ty), hi(ty) + 1)]) for _ in range(2))
                    a, b = max(a, lo(ty)), min(b, hi(ty))
                    f['decos'].append(self.deco('range', [ilit(r, a), ilit(r, b)]))
                    bad = [a - 1, b + 1] if r.random() < .6 else []
                    pools.append([name, 'n', [le(x, 8) for x in [a, b, r.randrange(a, b + 1), r.randrange(a, b + 1)] + bad]])
                else:
                    a, b = sorted(r.choice([-10.5, 0.0, 0.1, 100.0, 3.75, -0.25, 1000.0]) for _ in range(2))
                    f['decos'].append(self.deco('range', [flit(r, a), flit(r, b)]))
                    pools.append([name, 'n', self.flt_pool(ty, [a, b, (a + b) / 2, a, b])])
                env[name] = ty
            elif ty in INT:
                pools.append([name, 'n', self.int_pool(ty)])
                env[name] = ty
                if ty in ('u8', 'u16') and r.random() < .5:      # a small number, e.g. for counts
                    pools[-1][2] = [le(x, 8) for x in (0, 1, 2, 3, 5)]
                    if not isarr: env[name] = 'u8'
            else:
                pools.append([name, 'n', self.flt_pool(ty)])
                env[name] = ty
            if env[name] == 'tr': del env[name]
        elif k == 'bool':
            f = self.field(name, 'bool')
            pools.append([name, 'n', [b'\0', b'\1', b'\1'] + ([b'\2'] if r.random() < w['bad'] else [])])
            env[name] = 'u8x'
        elif k == 'enum':
            en = r.choice(self.enums)
            f = self.field(name, en[0])
            vals = [v for _, v in en[2]] or [0]
            bad = [r.choice(vals) + 1, r.getrandbits(8)] if r.random() < w['bad'] else []
            pools.append([name, 'n', [le(v, 8) for v in (vals * 2 if len(vals) < 20 else [r.choice(vals) for _ in range(8)] + vals[-2:] * 2 + vals[124:130] + vals[252:260]) + bad]])
            if not isarr: env[name] = 'enum ' + en[0]
            if r.random() < w['rng'] and en[2]:
                a, b = sorted(r.choice(vals) for _ in range(2))
                f['decos'].append(self.deco('range', [ilit(r, a), ilit(r, b)]))
        elif k == 'str':
            f = self.field(name, 'string')
            x = r.random()
            ss = [b'', b'a', b'hello', bytes(r.randrange(1, 256) for _ in range(r.randrange(0, 12))), 'grün'.encode()]
            if x < .5: f['pre'] = r.choice(PREFIX[r.choice([1, 1, 2, 4])]); mx = 255
            else:
                mx = r.choice([0, 1, 3, 5, 8, 255, 300]) if r.random() < .7 else None
                if r.random() < .6: f['until'] = 1
                if mx is not None: f['max'] = [ilit(r, mx)]
                if isarr: f['until'] = 1
                if mx: ss += [b'z' * (mx - 1), b'z' * mx, b'y' * (mx + 1)] if mx < 20 else []
            if x < .5 and f['pre'][-1] == '8': lim = 255
            elif x < .5: lim = 65535
            else: lim = 255 if mx is None else mx
            if r.random() < w['long']:
                ss += [b'L' * r.choice([254, 255, 256, 256, 257, 300])] * 5
                if r.random() < .3 and mx and mx < 1000: ss += [b'M' * mx, b'M' * (mx + 1)] * 2
                if not w['wide']: ss = [z for z in ss if len(z) <= lim]
            elif r.random() >= w['wide']: ss = [z for z in ss if len(z) <= lim]
            pools.append([name, 's', ss])
        elif k == 'const':
            ty = r.choice(INT)
            v = r.choice([0, 1, hi(ty), lo(ty), r.randrange(lo(ty), hi(ty) + 1), 0x55])
            f = self.field(name, r.choice(ALIAS[ty]), [self.deco(r.choice(['const', 'match']), [ilit(r, v, .5)])])
            if r.random() < w['rng'] / 2:
                a, b = sorted([v, r.randrange(lo(ty), hi(ty) + 1)])
                f['decos'].append(self.deco('range', [ilit(r, a), ilit(r, b)]))
            if not isarr and r.random() < .7: env[name] = ty if r.random() < .0 else 'constant'
            opt = opt if r.random() < .1 else []
        elif k == 'crc':
            f = self.crc(name); isarr = False
            opt = []
        elif k == 'expr':
            ty = r.choice(['f32', 'f64', 'f64']) if r.random() < w['fl'] else r.choice(INT + ['bool'])
            want = 'float' if ty in ('f32', 'f64') and r.random() < .9 or r.random() < .05 else 'int'
            e = self.expr(env, want, r.choice([1, 2, 2, 3, 3, 4]))
            if ty == 'bool' and r.random() < .9:
                e = {'o': 'bin', 'op': r.choice(['==', '<', '>=', '&&']), 'a': e, 'b': self.expr(env, want, 1)}
            f = self.field(name, r.choice(ALIAS[ty]), [self.deco('expr', e=e)])
            if r.random() < w['rng'] and ty != 'bool':
                if ty in INT:
                    a, b = sorted(r.choice([0, 1, 10, 100, lo(ty), hi(ty)]) for _ in range(2))
                    f['decos'].append(self.deco('range', [ilit(r, max(a, lo(ty))), ilit(r, min(b, hi(ty)))]))
                else: f['decos'].append(self.deco('range', [flit(r, -100.0), flit(r, 1000.0)]))
            env[name] = 'u64' if ty in INT and r.random() < .8 else 'other'
            if ty in ('f32', 'f64'): env[name] = 'f64'
            isarr = False; opt = []
        elif k == 'struct':
            st = r.choice(self.structs)
            f = self.field(name, st[0])
            pools.append([name, 'b', st[1]])
            if not isarr:
                for n, kk in st[2].items():
                    if kk in SZ: env[name + '.' + n] = kk
            opt = opt if r.random() < .1 else []
        if order and (k in ('bits', 'struct') or un) and r.random() >= w['bitord']: order = []
        if isarr:
            self.length(f, {n: kk for n, kk in env.items() if n != name and '.' not in n}, (last or r.random() < w['eofmid']) and r.random() < w['eof'], k == 'str')
            if k != 'struct': env.pop(name, None)
            if not [d for d in f['decos'] if d['n'] == 'eof'] or r.random() < .9: opt = []
        extra = f['decos'] + order + opt
        r.shuffle(extra)
        f['decos'] = decos + extra
        return [f]

    def crc(self, name):
        r = self.r
        if r.random() < .5:
            d = [self.deco('crc', [ilit(r, 16, 0)])]
            ty = 'u16'; m = 16
        else:
            d = [self.deco('crc', [ilit(r, 32, 0)])]
            ty = 'u32'; m = 32
        for p in ('crc_poly', 'crc_init', 'crc_xor'):
            if r.random() < .4:
                d.append(self.deco(p, [ilit(r, r.choice([0 if p != 'crc_poly' or name != 'check_sum' else 0x8001, (1 << m) - 1, r.getrandbits(m) | 1, 0x1021, 0x8005, 0x3D65]), .8)]))
        if r.random() < .4: d.append(self.deco('crc_refin'))
        if r.random() < .4: d.append(self.deco('crc_refout'))
        r.shuffle(d)
        return self.field(name, r.choice(ALIAS[ty]), d)

    def block(self, env, un, depth, names, last, n, pools):
        stmts = []
        self.blocks.append(stmts)
        b = len(self.blocks)
        for i in range(n):
            if len(names) > 30: break
            stmts += self.one(env, un, depth, names, last and i == n - 1, pools, b)
        return b

    def struct(self, name):
        r = self.r
        un = r.random() < self.w['unal']
        env, names, pools = {}, set(), []
        w0 = self.w['hollow'] and r.random() < self.w['hollow']
        if w0: un = False
        b = self.block(env, un, min(1, self.w['depth']), names, False, 0 if w0 else r.randrange(1, 5), pools)
        if un:   # fill up to whole bytes
            self.blocks[b - 1].append({'s': 'align', 'decos': [self.deco('fill', [])]}) if r.random() < .7 else self.pad_out(b)
        self.decls.append({'d': 'struct', 'name': name, 'un': int(un), 'b': b})
        self.structs.append((name, b, env, un))
        self.pools[b] = pools

    def pad_out(self, b):
        n, known = 0, True
        for s in self.blocks[b - 1]:
            if s['s'] in ('if', 'switch'): known = False; continue
            for d in s['decos']:
                if d['n'] == 'fill': n, known = 0, True
                if d['n'] == 'pad': n += d['a'][0]['m'][0]
            if s['s'] == 'field':
                w = s['bits'][0]['m'][0] if s['bits'] else 1 if s['ty'] == 'bool' else 8 * SZ[next(k for k, v in ALIAS.items() if s['ty'] in v)]
                if s['arr'] == '[n]': w *= s['n']['m'][0] % 8
                elif s['arr']: known = False
                n += w
        if not known: self.blocks[b - 1].append({'s': 'align', 'decos': [self.deco('fill', [])]})
        elif n % 8:
            self.blocks[b - 1].append({'s': 'align', 'decos': [self.deco('pad', [ilit(self.r, 8 - n % 8)])]})

    def enum(self, name):
        r = self.r
        ty = r.choice(INT)
        vals = []
        nxt = 0
        seen = set()
        def nm(i):
            n = variant(r, 'V%d' % (top - i if back else i), {v['name'] for v, _ in vals}, .2)
            while n in {v['name'] for v, _ in vals}: n += 'w'
            return n
        many = r.random() < self.w['bigenum']
        if many and r.random() < .6: ty = r.choice([t for t in INT if t[1:] != '8'])
        top = r.choice([127, 128, 200, 255, 256, 257, 258, 300, 300]) if many else r.randrange(1, 6)
        back = r.random() < .3
        for i in range(top):
            if r.random() < (.01 if many else .45):
                v = r.choice([0, 1, 5, 10, 100, hi(ty), lo(ty), r.randrange(lo(ty), hi(ty) + 1), -1, -5])
                if v < lo(ty) or v > hi(ty) or v in seen: continue
                vals.append(({'name': nm(i), 'has': 1, 'v': ilit(r, v)}, v))
            else:
                v = nxt
                if v < lo(ty) or v > hi(ty) or v in seen: continue
                vals.append(({'name': nm(i), 'has': 0, 'v': NOLIT}, v))
            seen.add(v)
            nxt = v + 1
        dflt = ty == 'u32' and r.random() < .5
        al = [a for a in ALIAS[ty] if a != 'byte']
        self.decls.append({'d': 'enum', 'name': name, 'ty': '' if dflt else r.choice(al), 'vals': [v for v, _ in vals]})
        self.enums.append((name, ty, [(v['name'], n) for v, n in vals]))

    def schema(self):
        r, w = self.r, self.w
        if r.random() < w['version']: self.decls.append({'d': 'version', 'v': ilit(r, r.randrange(0, 256))})
        types = set()
        def name(x):
            n = variant(r, x, types | {'Packet'})
            while n in types: n += 'x'
            types.add(n)
            return n
        for i in range(r.randint(*w['enums'])): self.enum(name(r.choice(['Kind', 'Color', 'Mode', 'State']) + str(i)))
        for i in range(r.randint(*w['structs'])): self.struct(name(r.choice(['Point', 'Header', 'Item', 'Rec', 'Flags']) + str(i)))
        if r.random() < w['endian']: self.decls.append({'d': 'order', 'big': r.randrange(2)})
        if self.structs and r.random() < w['alias']:
            st = r.choice(self.structs)
            self.decls.append({'d': 'alias', 'name': 'Packet' if 'Packet' not in types else 'Pkt', 'of': st[0]})
            self.root = st[1]
        else:
            env, names, pools = {}, set(), []
            b = self.block(env, False, w['depth'], names, True, r.randint(*w['fields']), pools)
            if r.random() < w['crowd']:    # more names than one byte can number
                self.blocks.append([self.field('q%d' % i, 'u8') for i in range(r.choice([254, 255, 256, 257, 300]))])
                self.blocks[b - 1].insert(0, {'s': 'if', 'arms': [{'c': {'o': 'int', 'v': list(le(0, 8)), 's': '0'}, 'b': len(self.blocks)}], 'els': 0})
            if r.random() < w['crcend']: self.blocks[b - 1].append(self.crc('check_sum'))
            p = variant(r, r.choice(['Packet', 'Telemetry', 'Msg', 'P']), types)
            self.decls.append({'d': 'packet', 'name': p if p not in types else 'Pkt', 'b': b})
            self.pools[b] = pools
            self.root = b
        return {'decls': self.decls, 'blocks': self.blocks, 'use': 1}

    # ------------------------------------------------------------------ pools for the host
    def pool_cmds(self, pid, block=None, prefix=''):
        out = []
        for name, kind, payload in self.pools[block or self.root]:
            if kind == 'b': out += self.pool_cmds(pid, payload, prefix + name + '.')
            elif kind == 'n' and payload: out.append('VN %d %s %s' % (pid, prefix + name, ','.join(bytes(p).hex() for p in payload)))
            elif kind == 's': out.append('VM %d %s %s' % (pid, prefix + name, ','.join('_' + p.hex() for p in payload)))
        return out

# ---------------------------------------------------------------------- rendering
PREC = {'||': 1, '&&': 2, '|': 3, '^': 4, '&': 5, '==': 6, '!=': 6, '<': 7, '>': 7, '<=': 7, '>=': 7, '<<': 8, '>>': 8, '+': 9, '-': 9, '*': 10, '/': 10, '%': 10}

class Render:
    def __init__(self, r, s, plain=False):
        self.r, self.s, self.plain = r, s, plain

    def sp(self):
        r = self.r
        if self.plain or r.random() < .9: return ' '
        return r.choice(['  ', '\t', '\n', ' /* c */ ', ' // x\n'])

    def e(self, e, prec=0):
        r = self.r
        o = e['o']
        if o in ('int', 'flt'): t = e['s']
        elif o == 'id': t = e['k']
        elif o == 'un':
            t = e['op'] + self.e(e['a'], 11)
            if prec > 11: t = '(' + t + ')'
        elif o == 'bin':
            p = PREC[e['op']]
            g = r.choice([' ', ' ', '']) if not self.plain else ' '
            b = self.e(e['b'], p + 1)
            op = e['op']
            t = self.e(e['a'], p) + g + op + (' ' if b[:1] in '-&|=<>/*' else g) + b
            if p < prec: t = '(' + t + ')'
        else:
            t = e['fn'] + '(' + self.e(e['a']) + (', ' + self.e(e['b']) if 'b' in e else '') + ')'
        if not self.plain and r.random() < .05: t = '(' + t + ')'
        return t

    def decos(self, ds):
        out = ''
        for d in ds:
            if d['n'] == 'expr': a = '(' + self.e(d['e']) + ')'
            elif d['id']: a = '(' + d['id'] + ')'
            elif d['a']: a = '(' + (', ' if self.plain or self.r.random() < .8 else ',').join(x['s'] for x in d['a']) + ')'
            else: a = ''
            out += '@' + d['n'] + a + self.sp()
        return out

    def stmt(self, x, ind):
        r = self.r
        pad = '    ' * ind
        if x['s'] == 'align': return pad + self.decos(x['decos']).rstrip(' ') + ';\n'
        if x['s'] == 'field':
            t = self.decos(x['decos']) + x['ty'] + self.sp() + x['name']
            if x['bits']: t += r.choice([' : ', ':', ': ']) + x['bits'][0]['s']
            if x['arr'] == '[]': t += '[]'
            if x['arr'] == '[n]': t += '[' + x['n']['s'] + ']'
            if x['pre']: t += self.sp() + 'prefix ' + x['pre']
            if x['until']: t += self.sp() + 'until 0'
            if x['max']: t += self.sp() + 'max ' + x['max'][0]['s']
            doc = pad + '/// ' + r.choice(['a field', 'speed in km/h', '{ } ; @x']) + '\n' if not self.plain and r.random() < .05 and ind < 2 else ''
            return doc + pad + t + ';' + (' // note' if not self.plain and r.random() < .05 else '') + '\n'
        if x['s'] == 'if':
            t = ''
            for i, a in enumerate(x['arms']):
                t += ('if (' if i == 0 else ' else if (') + self.e(a['c']) + ') ' + self.blk(a['b'], ind)
            if x['els']: t += ' else ' + self.blk(x['els'], ind)
            return pad + t + '\n'
        t = pad + 'switch (' + x['on'] + ') {\n'
        parts = []
        for c in x['cases']:
            v = c['e'] + '.' + c['ev'] if c['e'] else c['v']['s']
            parts.append('case ' + v + ': ' + self.case(c['b'], ind + 1))
        for d in x['defs']: parts.append('default: ' + self.case(d, ind + 1))
        if not self.plain and x['defs'] and r.random() < .3: parts.insert(r.randrange(len(parts)), parts.pop())
        for p in parts: t += pad + '    ' + p
        return t + pad + '}\n'

    def case(self, b, ind):
        ss = self.s['blocks'][b - 1]
        if len(ss) == 1 and (ss[0]['s'] != 'align' or True) and self.r.random() < .5: return self.stmt(ss[0], ind).strip() + '\n'
        return self.blk(b, ind) + '\n'

    def blk(self, b, ind):
        return '{\n' + ''.join(self.stmt(x, ind + 1) for x in self.s['blocks'][b - 1]) + '    ' * ind + '}'

    def decl(self, d):
        r = self.r
        if d['d'] == 'version': return '@version(' + d['v']['s'] + ')\n'
        if d['d'] == 'order': return r.choice(['@big_endian'] if d['big'] else ['@little_endian', '@le']) + '\n'
        if d['d'] == 'enum':
            def v(x): return x['name'] + (' = ' + x['v']['s'] if x['has'] else '')
            return 'enum ' + d['name'] + (r.choice([' : ', ': ', ':']) + d['ty'] if d['ty'] else '') + ' {' + self.sp() + (',' + self.sp()).join(v(x) for x in d['vals']) + \
                (',' if d['vals'] and r.random() < .2 else '') + ' }\n'
        if d['d'] == 'struct':
            return ('@unaligned_bytes ' if d['un'] else '') + 'struct ' + d['name'] + ' ' + self.blk(d['b'], 0) + '\n'
        if d['d'] == 'alias': return 'packet ' + d['name'] + ' = ' + d['of'] + ';\n'
        if d['d'] == 'raw': return d['text']
        return 'packet ' + d['name'] + ' ' + self.blk(d['b'], 0) + '\n'

    def files(self, base='m', imports=0.0):
        """file name -> text; the first declarations may be moved into imported files"""
        r = self.r
        ds = self.s['decls']
        types = [i for i, d in enumerate(ds) if d['d'] in ('enum', 'struct')]
        if types and r.random() < imports:
            cut = r.randrange(0, types[-1] + 1) + 1
            if not [d for d in ds[:cut] if d['d'] in ('packet', 'alias')]:
                first = ds[:cut]
                out = {}
                d = base + '_d/'
                f1, f2 = r.choice([(base + '_a.cnd', base + '_b.cnd'), (base + '_a.cnd', d + base + '_a.cnd'), (d + 't.cnd', base + '_e/t.cnd'),
                                   (d + 't.cnd', d + 'e/t.cnd'), (d + base + '.cnd', base + '_b.cnd'), (d + 'e/x.cnd', d + 'x.cnd'), (d + 'at.cnd', d + 't.cnd')])
                def imp(a, b): return '@import("%s")\n' % (r.choice(['', '', '', './']) + posixpath.relpath(b, posixpath.dirname(a) or '.'))
                main = base + '.cnd'
                k = r.randrange(0, len(first) + 1)
                if k and r.random() < .6:
                    out[f2] = ''.join(self.decl(d) for d in first[:k])
                    if r.random() < .3:   # side by side
                        out[f1] = ''.join(self.decl(d) for d in first[k:])
                        head = imp(main, f2) + imp(main, f1)
                    else:
                        out[f1] = imp(f1, f2) + ''.join(self.decl(d) for d in first[k:])
                        head = imp(main, f1)
                        if r.random() < .3: out[f2] = imp(f2, f1) + out[f2]
                    if r.random() < .4: head += imp(main, f2)
                else:
                    out[f1] = ''.join(self.decl(d) for d in first)
                    head = imp(main, f1) + (imp(main, f1) if r.random() < .3 else '')
                out[main] = head + ''.join(self.decl(d) for d in ds[cut:])
                return out
        return {base + '.cnd': ''.join(self.decl(d) for d in ds)}

def strip(x):
    """the syntax tree without source texts (TLC does not need them)"""
    if isinstance(x, dict): return {k: strip(v) for k, v in x.items() if k != 's' or v in ('field', 'align', 'if', 'switch')}
    if isinstance(x, list): return [strip(v) for v in x]
    return x
