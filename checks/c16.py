"""The compiler's verdict on texts and trees that are schemas, or almost."""
from langlib import *
import gen_lang, mutate, copy, edges

SMALL = dict(fields=(1, 5), structs=(0, 2), enums=(0, 2), depth=2, bigenum=0, bigsw=0, alias=.15, long=0, version=.4, crc=1, rng=.4, tr=.25, ord=.4, arr=.3, endian=.4, unal=.3)

def large(r):
    """texts larger than what is initially set aside for them in the compiler"""
    n = r.choice([300, 400, 700])
    yield 'struct S { %s } packet P { S s; }' % ''.join('u8 %s%d;' % ('fgh'[i % 3], i) for i in range(r.choice([720, 800])))
    fields = lambda k, p='f': ''.join('u8 %s%d;\n' % (p, i) for i in range(k))
    yield 'struct S { %s } packet P { S s; }' % fields(n)
    yield 'struct S { %s } struct T { %s S s; } packet P { T t; T u; }' % (fields(n // 2), fields(3))
    yield 'struct S { %s } packet P { u8 k; switch (k) { case 1: S a; case 2: S b; default: u8 c; } if (k > 2) { S d; } else { u8 e; } }' % fields(n // 2)
    yield 'enum E : u16 { %s } packet P { E e; }' % ', '.join('V%d' % i for i in range(n // 2))
    yield 'packet P { u16 k; switch (k) { %s } }' % ' '.join('case %d: u8 a%d;' % (i * 3, i) for i in range(n // 4))
    yield 'packet P { u16 k; switch (k) { %s case 3: u8 b; } }' % ' '.join('case %d: u8 a%d;' % (i * 3, i) for i in range(n // 4))
    yield ''.join('struct S%d { u8 a; }\n' % i for i in range(n // 3)) + 'packet P { %s }' % ''.join('S%d s%d;' % (i, i) for i in range(0, n // 3, 2))
    yield ''.join('struct S%d { %s u8 a; }\n' % (i, 'S%d s;' % (i - 1) if i else '') for i in range(r.choice([20, 60, 100]))) + 'packet P { S9 s; }'
    k = r.choice([8, 30, 60])
    yield 'packet P { u8 a; %s u8 b; %s }' % ('if (a) { ' * k, '}' * k)
    yield 'packet P { u8 %s; u8 b; }' % ('n' * r.choice([63, 64, 255, 256, 1500]))
    yield 'struct %s { u8 a; } packet P { %s b; }' % (('n' * 300,) * 2)
    yield '@version(1) // %s\n/* %s */ packet P { u8 a; }' % ('x' * n, 'y' * n)
    yield 'packet P { %s @const(1) u8 a; }' % ('@be @le ' * (n // 4))
    for k in r.sample([20, 127, 254, 255, 256, 300], 2):
        yield 'packet P { @poly(%s) f32 a; }' % ', '.join(['1.5'] * k)
        yield 'packet P { @spline(%s) f32 a; }' % ', '.join('%d.0, %d.5' % (i, i) for i in range(k))
    yield 'packet P { u8 a; @expr(a%s) u8 b; }' % (' + a' * (n // 2))
    yield '/// %s\npacket P { %s u8 a; }' % ('d' * n, '/// line\n' * 100)

def alike():
    """names that begin with others, as one another and in place of one another"""
    for t, _, _ in edges.names(None): yield t
    for x, y in edges.NAMES + [('uint8', 'uint'), ('uint8', 'uint80'), ('string', 'strings'), ('bool', 'boo'), ('float', 'float6'), ('A', 'A')]:
        for t in ('struct %s { u8 a; } packet Pk { %s b; }', 'enum %s { K } packet Pk { %s b; }', 'struct %s { %s a; } packet Pk { u8 b; }', 'struct %s { u8 a; } packet Pk = %s;', 'enum E { %s } packet Pk { u8 k; switch (k) { case E.%s: u8 a; } }',
                  'enum %s { K } packet Pk { u8 k; switch (k) { case %s.K: u8 a; } }', 'struct %s { u8 a; } struct %s { u8 b; } packet Pk { u8 k; }', 'struct %s { u8 a; } enum %s { K } packet Pk { u8 k; }', 'packet Pk { u8 %s; u8 %s; }',
                  'packet Pk { u8 %s; if (1) { u8 %s; } }', 'enum E { %s, %s } packet Pk { E e; }', 'struct %s { u8 a; } packet %s { u8 b; }', 'struct %s { struct %s { u8 a; } } packet Pk { u8 b; }', '@%s @%s packet Pk { u8 b; }',
                  'packet Pk { u8 %s; @count(%s) u8 v[]; }', 'struct %s { u8 a; } packet Pk { @count(2) %s v[]; }', 'enum Q : %s { K } packet Pk { %s b; }', 'packet Pk { string %s prefix %s; }', 'packet Pk { %s a; %s b; }'):
            yield t % (x, y)
    for d in ('range(1, 2)', 'const(1)', 'match(1)', 'be', 'le', 'big_endian', 'little_endian', 'pad(1)', 'fill', 'fill(1)', 'optional', 'eof', 'crc(16)', 'crc_poly(1)', 'crc_refin', 'scale(1)', 'offset(1)', 'add(1)', 'sub(1)', 'mul(1)', 'div(1)', 'poly(1)', 'spline(1, 2, 3, 4)', 'expr(1)', 'count(1)', 'len(1)'):
        n, a = (d.split('(')[0], d[len(d.split('(')[0]):])
        for q in (n, n[:-1], n + 's', n + '_', n.upper(), n[0].upper() + n[1:], n[0], '_' + n): yield 'packet Pk { @%s%s u8 a; }' % (q, a)
    for w in ('if', 'enum', 'case', 'else', 'true', 'self', 'false', 'struct', 'packet', 'switch', 'default', 'prefix', 'until', 'max', 'sin', 'pow', 'int', 'version', 'import'):
        for q in (w, w[:-1], w + 's', w + '_', w.upper(), w[0].upper() + w[1:], w + '1'):
            for t in ('packet Pk { u8 %s; }', 'packet %s { u8 a; }', 'struct %s { u8 a; } packet Pk { u8 b; }', 'enum E { %s } packet Pk { E e; }', 'packet Pk { u8 a; @expr(%s) u8 b; }', 'packet Pk { u8 a; @expr(%s(2.0)) double b; }', 'packet Pk { string a %s 0 max 4; }', 'packet Pk { string a until 0 %s 4; }',
                      'packet Pk { u8 k; %s (k) { } }', '%s Pk { u8 k; }', 'packet Pk { u8 k; if (k) { u8 a; } %s { u8 b; } }', 'packet Pk { u8 k; switch (k) { %s 1: u8 b; } }', 'packet Pk { u8 k; switch (k) { %s: u8 b; } }', '@%s(1) packet Pk { u8 k; }'):
                if q == 'self' and 'expr' in t: continue      # what it means in an expression is said nowhere
                yield t % q

def main(chk):
    r = chk.rng
    host = build_host(chk.work)
    d = os.path.join(chk.work, 'c16')
    cmds, recs = [], []
    def case(files, main, what):
        i = len(recs)
        base = os.path.join(d, str(i))
        for p, t in files.items():
            os.makedirs(os.path.dirname(os.path.join(base, p)), exist_ok=True)
            with open(os.path.join(base, p), 'wb') as f: f.write(t.encode('latin-1', 'replace'))
        for x in ('d1', 'd1/d2'): os.makedirs(os.path.join(base, x), exist_ok=True)
        out = os.path.join(base, 'out.il')
        if i % 3: open(out, 'wb').write(b'before')
        cmds.append('SRC %d %s %s' % (i, os.path.join(base, main), out))
        recs.append({'case': '%s %d' % (what, i), 'files': [{'path': p.split('/'), 'src': list(t)} for p, t in files.items()], 'main': main.split('/'), 'text': files})
    for k in range(chk.n(380, 2600)):
        g = gen_lang.Gen(r, **dict(SMALL, imports=.25))
        s = g.schema()
        whole = gen_lang.Render(r, s).files('m', g.w['imports'])
        case(whole, 'm.cnd', 'schema')
        for q in range(3):
            t = copy.deepcopy(s)
            for _ in range(1 if r.random() < .85 else 2):
                for attempt in range(5):
                    if mutate.edit(r, t): break
            if not t['decls']: continue
            case(gen_lang.Render(r, t, plain=r.random() < .5).files('m', .1), 'm.cnd', 'edited schema')
        for q in range(2):
            p = r.choice(list(whole))
            case(dict(whole, **{p: mutate.scramble(r, whole[p])}), 'm.cnd', 'scrambled text')
    for k in range(chk.n(250, 2500)):
        f, m = mutate.imports(r)
        case(f, m, 'imports')
    for t in TEXTS: case({'m.cnd': t}, 'm.cnd', 'text')
    for t in alike(): case({'m.cnd': t}, 'm.cnd', 'names that are alike')
    for t in large(r): case({'m.cnd': t}, 'm.cnd', 'large text')
    def oc(cur, rc, msg):
        i = int(cur.split(' ')[-1])
        chk.violation('%s: crash: %s' % (recs[i]['case'], crash_text(msg)), {'source': recs[i]['text'], 'output': msg[-3000:]})
    out = run_host(host, cmds, chk.work, on_crash=oc)
    rc = {o['compile']: o['rc'] for o in out if 'compile' in o}
    load = {o['prog']: o['load'] for o in out if 'prog' in o}
    todo = []
    for i, x in enumerate(recs):
        if i not in rc: continue
        o = os.path.join(d, str(i), 'out.il')
        b = open(o, 'rb').read() if os.path.exists(o) else None
        x.update(rc=rc[i], new=0 if b == (b'before' if i % 3 else None) else 1, load=load.get(i, 0))
        todo.append(x)
        if rc[i] == 97: chk.violation('%s: the compiler does not end' % x['case'], {'source': x['text']})
    for lo in range(0, len(todo), 4000):
        part = todo[lo:lo + 4000]
        v = validate(chk, 'SyntaxTrace', [{k: y for k, y in x.items() if k != 'text'} for x in part], {})
        for i in sorted(v):
            if v[i]: chk.violation('%s: %s' % (part[i]['case'], v[i]), {'source': part[i]['text'], 'rc': part[i]['rc']})
    kinds = {}
    for x in todo:
        k = kinds.setdefault(x['case'].rsplit(' ', 1)[0], [0, 0]); k[0 if x['rc'] == 0 else 1] += 1
    chk.cov['texts_accepted_refused'] = kinds
    for x in todo[:3]: chk.sample({'source': x['text'], 'result': x['rc']})

TEXTS = ['/*/ about */ packet P { uint8 a; }', '/*/ packet P { uint8 a; }', 'packet P { /**/ uint8 a; /***/ }', 'packet P { /* * / **/ uint8 a; }', 'packet P { uint8 a; //* x\n }', 'packet P { uint8 /*/**/ a; }', 'packet P { uint8 a; /* // */ }',
         '//\npacket P { uint8 a; }//', 'packet P { uint8 a; } /', 'packet P { uint8 a; } /*', 'packet P { uint8 a; } /* *', 'packet P { uint8 a; } /*/', '/* /* */ packet P { uint8 a; }', '/* /* */ */ packet P { uint8 a; }', '', ' ', '// nothing', 'packet P {}', 'packet P { }}', 'packet P { uint8 a }', 'packet P { uint8 a; } packet Q { uint8 a; }', 'struct S { uint8 a; }', 'packet S = T;', 'struct S { S x; } packet P { S s; }',
         'struct T { uint8 a; } packet P = T;', 'packet P = P;', 'packet P { uint8 a; } /* open', '/* x */ packet P { uint8 a; } // end', 'packet P { uint8 a; uint8 a; }', 'packet P { if (1) { uint8 a; } else { uint8 a; } }',
         'packet P { string s; }', 'packet P { string s[]; }', 'packet P { string s[3]; }', 'packet P { uint8 a[]; }', 'packet P { @eof uint8 a[]; }', 'packet P { self a; }', 'packet P { uint8 self; }',
         'packet P { @expr(' + '(' * 200 + '1' + ')' * 200 + ') uint8 a; }', 'packet P { @expr(' + '-' * 120 + '1) uint8 a; }', '@version(255) packet P { uint8 a; }', '@version(256) packet P { uint8 a; }', '@version(-1) packet P { uint8 a; }',
         '@version(1)\n/// doc\npacket P { uint8 a; }', 'packet P { @range(0, 5)\n /// doc\n uint8 a; }', 'packet P { uint8 k; switch (k) { /// one\n case 1: uint8 a; /// other\n default: uint8 b; } }',
         '@be packet P { uint16 a; }', '@unknown packet P { uint16 a; }', '@unknown(1) packet P { uint16 a; }', 'enum E { A B C } packet P { E e; }', 'enum E { A,, B } packet P { E e; }', 'enum E { } packet P { E e; }', 'enum E { A = 1, } packet P { E e; }',
         'packet P { @crc(-16) uint16 c; }', 'packet P { @crc(16.0) uint16 c; }', 'packet P { uint64 x : 4.0; }', 'packet P { uint8 a; @expr(0x) uint8 b; }', 'packet P { @expr(99999999999999999999) uint64 b; }', 'packet P { @expr(18446744073709551615) uint64 b; }',
         'packet P { @expr(-9223372036854775808) int64 b; }', 'packet P { @expr(-9223372036854775809) int64 b; }', '@import("m.cnd") packet P { uint8 a; }', 'packet P { uint8 a; } @import("m.cnd")', '@import() packet P { uint8 a; }', '@import("") packet P { uint8 a; }',
         'packet P { uint8 a;\r\n uint8 b;\r\n}\r\n', '\ufeffpacket P { uint8 a; }'.encode('utf-8').decode('latin-1'), 'packet P { @const(0x) uint8 a; }', 'packet P { @scale(0x) uint8 a; }', 'packet P { uint8 a; };', ';;packet P { uint8 a; }']
