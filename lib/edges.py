"""Chosen schemas: sizes around the limits of the fields that hold them, names
that are alike, programs larger than what is set aside for them. The schemas
are texts; their trees come from the grammar of the specification (LangTree),
their runs are judged as all runs are (LangTrace)."""
from common import *
import langlib

def trees(chk, texts):
    p = os.path.join(chk.work, 'edge-sources.json')
    write_nd(p, [{'src': list(t)} for t in texts])
    out, st, _ = tlc(chk.work, 'LangTree', env={'SOURCES': p})
    got = {}
    for line in out.split('\n'):
        if line.startswith('"{'):
            x = json.loads(json.loads(line)); got[x['c'] - 1] = x['s']
    res = []
    for i, t in enumerate(texts):
        if not got[i]['ok']: raise ToolError('this is no schema: ' + t[:300])
        res.append({'decls': got[i]['decls'], 'blocks': got[i]['blocks']})
    return res

def value(v): return v if isinstance(v, bytes) else (v % (1 << 64)).to_bytes(8, 'little')
def play(chk, host, cases):
    """cases: (text, {name: values}, runs), a run being (mode, capacity, buffer[, seed]) as for the harness"""
    for lo in range(0, len(cases), 150):
        if chk.violations: return
        part = cases[lo:lo + 150]
        c = langlib.Corpus(chk)
        for s, (t, pools, runs) in zip(trees(chk, [t for t, _, _ in part]), part):
            pid = len(c.schemas)
            c.add_source(s, {'m%d.cnd' % pid: t}, 'm%d.cnd' % pid)
            for k, vs in pools.items():
                if isinstance(vs[0], bytes): c.cmds.append('VM %d %s %s' % (pid, k, ','.join('_' + v.hex() for v in vs)))
                else: c.cmds.append('VN %d %s %s' % (pid, k, ','.join(value(v).hex() for v in vs)))
            for j, q in enumerate(runs):
                c.run('%s%d.%d' % (q[0], pid, j), pid, q[0], q[1], q[2], q[3] if len(q) > 3 else 7 + j)
        langlib.settle(chk, host, c, maxev=590)
        c.clear()
    chk.cov['chosen_schemas'] = chk.cov.get('chosen_schemas', 0) + len(cases)

def both(cap=900): return [('e', str(cap), 'z'), ('d', '0', '=')]

def strings(chk):
    ch = lambda n: bytes(97 + i % 26 for i in range(n))
    out = []
    def s(decl, lens, cap=900, arr=''):
        for n in lens: out.append(('packet P { %s u8 z; }' % decl, {'a': [ch(n)], 'z': [n % 256]}, both(cap)))
    s('string a prefix uint8;', [0, 1, 254, 255, 256, 257, 300, 511, 512])
    s('@be string a prefix u16;', [0, 255, 256, 257, 600])
    s('string a prefix uint32;', [0, 255, 256, 300])
    for m in (None, 0, 1, 2, 254, 255, 256, 257, 300):
        k = 255 if m is None else m
        s('string a until 0%s;' % ('' if m is None else ' max %d' % m), sorted({max(0, k - 2), max(0, k - 1), k, k + 1, k + 2, 0}))
        x = ('41' * k); y = '41' * max(0, k - 1)
        msgs = [x + '0007', x + '07', y + '0007', y + '07', x + '4100' + '07', '41' * (k + 3), x, y, '0007', '00', '']
        out.append(('packet P { string a until 0%s; u8 z; }' % ('' if m is None else ' max %d' % m), {}, [('d', '0', 'x' + q) for q in msgs]))
    out.append(('packet P { string a[2] prefix uint8; string b max 256; u8 z; }', {'a': [ch(256), ch(3)], 'b': [ch(256)], 'z': [9]}, both()))
    for n in (0, 1, 255): out.append(('packet P { string a prefix u8; u8 z; }', {}, [('d', '0', 'x%02x' % n + '41' * k) for k in (n, n + 1, max(0, n - 1))]))
    for n in (256, 257, 512): out.append(('packet P { string a prefix u16; u8 z; }', {}, [('d', '0', 'x' + (n).to_bytes(2, 'little').hex() + '41' * k) for k in (n, n + 1, n - 1, 0, 1)]))
    out.append(('packet P { @be string a prefix u32; u8 z; }', {}, [('d', '0', 'x' + h + '4142434445') for h in ('00000004', '00000005', '00000104', '00010004', '01000004', 'ffffffff', 'fffffffc', '04000000', '80000000')]))
    return out

def bits(chk):
    r = chk.rng
    out = []
    for pad in (0, 1, 7, 8, 9, 15, 16, 17, 63, 64, 65, 127, 128, 129, 240, 247, 248, 249, 250, 254, 255):
        for first in (0, 1, 3, 7):
            head = 'u8 a : %d; ' % first if first else ''
            tail = r.choice(['u8 b;', 'u8 b : 3;', '@be u8 b : 5;', '@fill u8 b;', 'u16 b : 12;', '@fill(1) bool b;'])
            runs = both(60) + [('e', str(q), 'fff') for q in (pad // 8, pad // 8 + 1, (pad + first) // 8)] + [('d', '0', 'x' + 'a5' * q) for q in ((pad + first) // 8, (pad + first) // 8 + 1, (pad + first) // 8 + 3)]
            out.append(('packet P { %s@pad(%d) %s }' % (head, pad, tail), {'a': [(1 << first) - 1, 5 % (1 << first)], 'b': [1, 0x555]}, runs))
    for w in (1, 7, 8, 9, 31, 32, 33, 56, 57, 58, 63, 64):
        for at in range(8):
            for order in ('', '@be '):
                head = '%su8 a : %d; ' % (order, at) if at else ''
                t = '%s%s%s b : %d; %su8 c : 2;' % (head, order, r.choice(['u64', 'i64']), w, order)
                out.append(('packet P { %s }' % t, {'a': [85 % (1 << at)], 'b': [r.choice([0xFEDCBA9876543210, 1 << (w - 1), (1 << w) - 1, 0x0123456789ABCDEF]) & ((1 << w) - 1)], 'c': [2]}, [('e', '20', 'z'), ('d', '0', '='), ('d', '0', 'x80ff7f00a55a3cc3e11e'), ('e', '20', 'f5a')]))
    return out

def arrays(chk):
    out = []
    for n in (0, 1, 127, 128, 254, 255, 256, 257, 300):
        for ty, el in (('u8 a[] prefix u8', 'u8'), ('@be u8 a[] prefix u16', 'u8'), ('u8 a[] prefix u32', 'u8'), ('u16 a[%d]' % n, ''), ('u8 a[%d] : 3' % n if False else 'i8 a[%d]' % n, ''), ('@count(n) u8 a[]', '')):
            out.append(('packet P { u16 n; %s; u8 z; }' % ty, {'n': [n], 'a': [n], 'z': [5]}, both()))
        out.append(('packet P { u8 n; @eof u8 a[]; }', {'n': [n], 'a': [3]}, [('d', '0', 'x01' + '02' * n), ('e', str(n + 1), 'z')]))
    out.append(('struct S { u8 x; } packet P { S a[] prefix u16; S b[130]; u8 z; }', {'a': [70], 'z': [1]}, both()))
    out.append(('packet P { @be u16 a[] prefix u8; u8 b : 4; u8 c[20] : 4; u8 z; }'.replace('c[20] : 4', 'c : 4'), {'a': [200]}, both()))
    return out

def sums(chk):
    out = []
    for n in (0, 1, 2, 3, 254, 255, 256, 257, 258, 300, 511, 512):
        for c in ('@crc(16) u16 c;', '@crc(32) u32 c;', '@be @crc(32) @crc_poly(0x1EDC6F41) u32 c;', '@be @crc(16) @crc_poly(0x8005) @crc_init(0) @crc_refin @crc_refout @crc_xor(1) u16 c;'):
            out.append(('packet P { u8 a[%d]; %s u8 z; }' % (n, c), {'a': [n, 3, 200], 'z': [1]}, both() + [('d', '0', '=^%d' % q) for q in (0, 8 * n, 8 * n + 15, max(0, 8 * n - 1))]))
    return out

NAMES = [('A', 'AB'), ('AB', 'A'), ('Ab', 'AB'), ('A', 'A_'), ('S1', 'S11'), ('x', 'xx'), ('abc', 'abd'), ('uint', 'uint8_'), ('u', 'u8x'), ('Str', 'string_'), ('P1', 'P'), ('A', 'BA')]
def names(chk):
    """names that begin with others, wherever names can stand"""
    out = []
    for x, y in NAMES:
        out += [('struct %s { u8 a; } struct %s { u16 b; %s c; } packet Pk { %s m; %s n; }' % (x, y, x, y, x), {}, both()),
                ('struct %s { u8 a; } struct %s { u16 b; } packet Pk { %s m; %s n; u8 z; }' % (x, y, y, x), {}, both()),
                ('enum %s { K = 1 } enum %s : u16 { K = 2, L = 300 } packet Pk { %s m; %s n; u8 k; switch (k) { case %s.K: u8 p; case %s.K: u16 q; default: u8 s; } }' % (x, y, x, y, x, y), {'%s' % 'm': [1], 'n': [2, 300], 'k': [1, 2, 3]}, both() + both()),
                ('enum En { %s = 3, %s = 7 } packet Pk { En m; u8 k; switch (k) { case En.%s: u8 p; case En.%s: u16 q; } @expr(m + k) u8 e; }' % (x, y, y, x), {'m': [3, 7], 'k': [3, 7]}, both() + both() + both()),
                ('packet Pk { u8 %s; u16 %s; @expr(%s * 2 + %s) u32 e; if (%s > 3) { u8 t; } switch (%s) { case 1: u8 f; default: u16 g; } @count(%s) u8 v[]; }' % (x, y, x, y, y, x, x), {x: [1, 2, 5], y: [3, 4, 700]}, both() + both() + both()),
                ('struct %s { u8 a; u8 ab; } packet %s { %s ab; %s a; @expr(ab.a + a.ab) u8 aba; }' % (x, y, x, x), {'ab.a': [1], 'ab.ab': [2], 'a.a': [4], 'a.ab': [8]}, both()),
                ('struct %s { u8 a; } packet %s = %s;' % (x, y, x), {}, both())]
    return out

def programs(chk):
    """programs of many sizes: structs in structs, lists longer than tables"""
    out = []
    f = lambda n, p='f': ' '.join('u8 %s%d;' % (p, i) for i in range(n))
    for n in (30, 70, 140, 330):
        out.append(('struct A { %s } packet P { A a; u8 z; }' % f(n), {}, both()))
        out.append(('struct A { %s } struct B { A a; u8 y; } packet P { B b; u8 z; }' % f(n), {}, both()))
    # only compiled: programs much longer than those they are put into
    many = 'struct A { %s } struct B { %s } ' % (f(140), ' '.join('A a%d;' % i for i in range(12)))
    for use in ('B b;', 'u8 k; if (k) { B b; } else { u8 q; }', 'u8 k; switch (k) { case 1: B b; case 2: u8 c; default: B d; }', 'B b[2]; B c[] prefix u8;', 'B b; u8 y; B c; B d;'):
        out.append((many + 'packet P { %s u8 z; }' % use, {}, []))
    out.append((many + 'struct C { u8 v; B w; } struct D { C v; } packet P { D d; }', {}, []))
    for n in (2, 8, 20, 60):
        out.append((''.join('struct S%d { u8 a; %s } ' % (i, 'S%d s;' % (i - 1) if i else '') for i in range(n)) + 'packet P { S%d s; u8 z; }' % (n - 1), {}, both()))
        out.append(('packet P { u16 k; switch (k) { %s default: u32 d; } u8 z; }' % ' '.join('case %d: { u8 a%d; u8 b%d; }' % (i * 7, i, i) for i in range(n * 3)), {'k': [0, 7, 7 * (n * 3 - 1), 7 * n * 3, 1]}, both() * 4))
        out.append(('packet P { u16 k; switch (k) { %s default: u32 d; } u8 z; }' % ' '.join('case %d: { u8 a%d; u8 b%d; }' % (i, i, i) for i in range(n * 3)), {'k': [0, 7, n * 3 - 1, n * 3, n * 3 + 1]}, both() * 4))
        out.append(('enum E : u16 { %s } packet P { E e; u8 z; }' % ', '.join('V%d' % i if i % 3 else 'V%d = %d' % (i, i * 5) for i in range(n * 5)), {'e': [0, 1, 5, 15, 16, n * 25, 65535]}, both() * 3))
    return out

def edges(chk, host):
    c = chk.prop
    if chk.violations: return
    if c == 'C22': play(chk, host, strings(chk))
    if c == 'C23': play(chk, host, bits(chk))
    if c == 'C07': play(chk, host, arrays(chk))
    if c == 'C06': play(chk, host, sums(chk))
    if c == 'C24': play(chk, host, names(chk) + programs(chk))
