"""Small scopes, completely: every schema put together from a few statements is
explored by TLC on the specification of the language (LangMC: all answers of a
host, all refusals, all shortened and damaged messages), and each of these
behaviours is replayed in the real code and has to come out the same."""
from common import *
import itertools, langlib, vmlib

def rng_of(chk):
    if not hasattr(chk, 'small_rng'): chk.small_rng = random.Random((chk.seed, chk.prop, 'small').__repr__())
    return chk.small_rng

W = lambda *v: [list(le(x, 8)) for x in v]
DEFS = {'E': 'enum E : uint8 { A = 0, B = 2, C = 255 } ', 'V': 'enum V : int16 { M = -1, N = 513 } ', 'S': 'struct S { uint8 a; uint16 b; } ', 'T': 'struct S { uint8 a; uint16 b; } struct T { S s; @be int16 c; } ',
        'U': '@unaligned_bytes struct U { uint8 x : 3; uint8 y : 5; } ', 'Z': 'struct Z { } '}
# statements; # is the name of the field, $ the name of the first one
ITEM = dict(
    u8='uint8 #;', i8='int8 #;', u16='uint16 #;', be16='@be uint16 #;', i16='@be int16 #;', u32='uint32 #;', be32='@be u32 #;', i64='int64 #;', u64='uint64 #;', be64='@big_endian uint64 #;', f32='float #;', f64='@be double #;', bool='bool #;',
    enum='E #;', enumv='@be V #;', s='S #;', t='T #;', u='U #;', z='Z #;', str0='string # until 0 max 5;', str0s='string # until 0 max 2;', str1='string # prefix uint8;', str2='@be string # prefix uint16;', str4='string # prefix u32;',
    b1='uint8 # : 1;', b3='uint8 # : 3;', b5='int8 # : 5;', b8='uint8 # : 8;', b12='uint16 # : 12;', bb='bool # : 1;', bb3='@be uint8 # : 3;', bb13='@be int16 # : 13;', b33='uint64 # : 33;', bb40='@be uint64 # : 40;',
    a2='uint8 #[2];', a0='uint8 #[0];', a16='@be uint16 #[2];', ap='uint8 #[] prefix uint8;', ap16='uint16 #[] prefix uint16;', apbe='@be uint32 #[] prefix u16;', ap4='int8 #[] prefix u32;', ac='@count($) uint8 #[];', ac16='@count($) uint16 #[];', as_='S #[] prefix uint8;', asc='@count($) S #[];',
    ae='@eof uint8 #[];', ae16='@eof uint16 #[];', aes='@eof S #[];', aez='@eof Z #[];', aen='E #[] prefix u8;', ast='string #[2] prefix uint8;', ast0='string #[] prefix u8 until 0 max 3;', ab='uint8 #[3] : 3;', abool='bool #[2];', arng='@range(1, 2) uint8 #[2];',
    c='@const(7) uint8 #;', cbe='@be @const(0x0102) uint16 #;', cneg='@const(-2) int32 #;', crc='@crc(16) uint16 #;', crcbe='@be @crc(16) uint16 #;', crc32='@crc(32) uint32 #;', crcp='@crc(16) @crc_poly(0x8005) @crc_init(0) @crc_refin uint16 #;', crco='@crc(16) @crc_refout @crc_xor(0xFF) uint16 #;',
    rng='@range(1, 2) uint8 #;', rngi='@range(-1, 1) int8 #;', rngf='@range(-1.5, 0.0) float #;', rng16='@be @range(255, 258) uint16 #;', rng64='@range(-1, 1) int64 #;', rngu='@range(1, 18446744073709551615) uint64 #;', renum='@range(1, 255) E #;', r1='@range(2, 2) u8 #;',
    o8='@optional uint8 #;', o16='@optional @be uint16 #;', obool='@optional bool #;', oenum='@optional E #;', ostr='@optional string # prefix uint8;', ostr0='@optional string # until 0 max 3;', obit='@optional uint8 # : 4;', of='@optional float #;', orng='@optional @range(1, 2) uint8 #;',
    sc='@scale(2.0) uint8 #;', so='@scale(0.5) @offset(-1.0) int16 #;', add='@add(3) int8 #;', sub='@sub(1) uint8 #;', mul='@mul(2) uint16 #;', div='@div(2) int8 #;', addbe='@be @add(1) uint32 #;', scf='@scale(2.0) float #;', adda='@add(1) uint8 #[2];',
    if_='if ($ > 0) { uint8 #; }', ifelse='if ($ == 1) { uint8 #; } else { uint16 #_; }', chain='if ($ == 0) { int8 #; } else if ($ == 1) { @be uint16 #_; } else { bool #__; }', ifif='if ($ < 2) { if ($ != 0) { uint8 #; } } else { @const(9) u8 #_; }', ifs='if (!($ & 1)) { S #; }',
    sw='switch ($) { case 0: uint8 #; case 1: uint16 #_; }', swd='switch ($) { case 1: uint8 #; default: @be uint16 #_; }', swt='switch ($) { case 0: { } case 1: u8 #; case 2: { u8 #_; u8 #__; } case 3: bool #___; }', swn='switch ($) { case -1: u8 #; case 18446744073709551615: { } }'.replace('case 18446744073709551615: { }', 'default: { }'), swsw='switch ($) { case 1: { switch ($) { case 1: u8 #; default: u16 #_; } u8 #__; } default: { } }',
    sws='switch ($) { case 0: S #; case 255: @be S #_; default: { } }', sw4='switch ($) { case 0: u8 #; case 1: u16 #_; case 2: u8 #__; case 100: bool #___; }',
    e='@expr($ + 1) uint8 #;', e2='@expr(($ << 1) | 1) uint16 #;', eb='@expr($ > 1) bool #;', ef='@expr(float($) / 2.0) float #;', ed='@expr(10 / $) uint8 #;', em='@expr(7 % $) u8 #;', ei='@expr(int(2.5)) u8 #;', en='@expr(-$) int8 #;', en2='@expr(~$ & 15) u8 #;', el='@expr($ && !($ == 2) || 0) u8 #;', es='@expr(sqrt(float($))) double #;', er='@expr($ * 2) @range(0, 4) uint8 #;', em2='@expr($ - 3 - 1) int16 #;', ex='@expr($ ^ 3 & 1) u8 #;',
    p='@pad(3) uint8 # : 2;', p8='@pad(8) uint8 #;', f='@fill uint8 #;', f1='@fill(1) uint8 #;', fbe='@fill @be uint16 #;', p13='@pad(13) bool # : 1;')
GENERAL = ['u8', 'be16', 'i8', 'bool', 'str1', 'str0', 'b3', 'bb3', 'a2', 'ap', 'enum', 's', 'c', 'if_', 'o8', 'sc', 'crc', 'rng', 'u']
LAST = {'ae', 'ae16', 'aes', 'aez', 'o8', 'o16', 'obool', 'oenum', 'ostr', 'ostr0', 'obit', 'of', 'orng'}
LOSSY = LAST
INEXACT = {'mul', 'sc', 'so', 'str0s', 'ast0', 'ostr0'}     # values of the host that do not survive

LE_BITS, BE_BITS = {'b1', 'b3', 'b5', 'b8', 'b12', 'bb', 'b33', 'obit', 'p', 'p8', 'p13', 'f', 'f1', 'fbe', 'ab'}, {'bb3', 'bb13', 'bb40', 'u'}
def survives(items):
    """values come back: no byte is shared by bit fields of different bit orders"""
    return not (set(items) & INEXACT or mixed(items))
def mixed(items): return set(items) & LE_BITS and set(items) & BE_BITS

WRAP = {'': '', 'struct': 'packet P { R s; }', 'two': 'packet P { R s[2]; }', 'prefixed': 'packet P { R s[] prefix uint8; }', 'branch': 'packet P { u8 k; if (k > 0) { R s; } }', 'nested': 'struct Q { R r; } packet P { Q q; }',
        'packet': 'packet P = R;', 'twice': 'packet P { R s; R t; }', 'case': 'packet P { u8 k; switch (k) { case 1: R s; default: u8 t; } }', 'other': 'struct Q { @be R r; u16 z; } packet P { Q q; }'}
def source(items, head='', wrap=''):
    """the text: these statements as a packet, or as a struct that is used in some way"""
    fields = [ITEM[k].replace('#', 'f%d' % i).replace('$', 'f0') for i, k in enumerate(items)]
    body = ' '.join(fields)
    need = [k for k in DEFS if re.search(r'\b%s\b' % k, body)]
    if 'T' in need and 'S' in need: need.remove('S')
    return ''.join(DEFS[k] for k in need) + head + ('struct R { ' + body + ' } ' + WRAP[wrap] if wrap else 'packet P { ' + body + ' }')

def usable(items):
    # a field that others refer to comes first; what can be missing or goes to the end comes last
    for i, k in enumerate(items):
        if '$' in ITEM[k] and (i == 0 or items[0] not in ('u8', 'i8', 'b3', 'b12', 'bool', 'enum', 'be16', 'sub', 'add', 'rng', 'u32')): return False
        if k in LAST and any(x not in LAST for x in items[i + 1:]): return False
        if k in ('ae', 'ae16', 'aes', 'aez') and i + 1 < len(items): return False
    return True

def scope(r, focus, n, general=GENERAL, first=('u8', 'enum', 'be16', 'b3', 'i8')):
    """n of the sequences of up to three statements with one of the focus in it"""
    out = set()
    for k in focus:
        if usable((k,)): out.add((k,))
    pool = []
    for a in focus:
        for b in list(focus) + general:
            for t in ((a, b), (b, a)):
                if usable(t): pool.append(t)
    for k in focus:      # fields that refer to an earlier one
        if '$' in ITEM[k]:
            for a in first:
                pool.append((a, k))
                for b in list(focus) + general:
                    if usable((a, k, b)): pool.append((a, k, b))
                    if usable((a, b, k)): pool.append((a, b, k))
    pool = sorted(set(pool))
    r.shuffle(pool)
    out |= set(pool[:max(0, int(n * .6))])
    tries = 0
    while len(out) < n and tries < 50 * n:
        tries += 1
        t = tuple(r.choice(list(focus) + [r.choice(general)]) for _ in range(3))
        if any('$' in ITEM[k] for k in t): t = (r.choice(first),) + t[1:]
        if any(k in focus for k in t) and usable(t): out.add(t)
    return sorted(out)

def explore(chk, host, focus, n, ask=3, ln=2, val=W(0, 1, 2, (1 << 64) - 1), heads=('', '', '@be ', '@le '), wraps=('', '', '', 'struct', 'two', 'packet'), first=('u8', 'enum', 'be16', 'b3', 'i8'), general=GENERAL, items=None, combos=None):
    """explore n schemas with a statement of the focus (ITEM) in each; items: other statements to be used as well; combos: these sequences of statements, or as many as n of them"""
    r = rng_of(chk)
    if items: ITEM.update(items)
    if combos is None: combos = scope(r, list(focus) + list(items or []), n, general, first)
    elif len(combos) > n: combos = r.sample(combos, n)
    for lo in range(0, len(combos), 300):
        if chk.violations or lo and chk.left() < 100: return
        part(chk, host, combos[lo:lo + 300], ask, ln, val, heads, wraps)

def part(chk, host, combos, ask, ln, val, heads, wraps):
    r = rng_of(chk)
    src, recs = [], []
    for t in combos:
        last = bool(set(t) & LAST)
        w = r.choice([x for x in wraps if not last or x in ('', 'struct', 'packet', 'nested')] or [''])
        src.append(source(t, r.choice(heads), w))
        recs.append({'src': list(src[-1]), 'val': val, 'ask': ask if len(t) < 3 else max(1, ask - 1), 'len': ln, 'lossy': 1 if last or mixed(t) else 0, 'rt': 1 if survives(t) else 0})
    d = os.path.join(chk.work, 'explore'); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, 'sources.json')
    write_nd(p, recs)
    out, st, _ = tlc(chk.work, 'LangRead', env={'SOURCES': p})
    for line in out.split('\n'):
        if line.startswith('"{'):
            x = json.loads(json.loads(line))
            recs[x['c'] - 1]['p'] = x['p']
    keep = [i for i, x in enumerate(recs) if x['p']['root']]
    combos, src, recs = [combos[i] for i in keep], [src[i] for i in keep], [recs[i] for i in keep]
    for x in recs: del x['src']
    write_nd(p, recs)
    out, st, rc = tlc(chk.work, 'LangMC', env={'SOURCES': p}, heap='12g', ok_codes=(0, 12))
    if rc:
        w = re.search(r'Invariant (\w+)', out); at = re.findall(r'^/\\ c = (\d+)', out, re.M)
        raise ToolError('the specification does not have its own properties: %s %s\n' % (w and w.group(1), at and src[int(at[-1]) - 1]) + '\n'.join(x for x in out.split('\n') if not x.startswith('"{'))[-6000:])
    chk.cov['states'] += st[1]; chk.cov['transitions'] += st[0]
    runs = {}
    for line in out.split('\n'):
        if line.startswith('"{'):
            runs[line] = 1
    runs = [json.loads(json.loads(x)) for x in runs if len(x) < 60000]
    runs = [x for x in runs if len(x['ev']) < 500]
    fine = {x['c'] for x in runs}
    cmds = []
    for i, s in enumerate(src):
        f = os.path.join(d, '%d.cnd' % i)
        with open(f, 'w') as g: g.write(s)
        if i + 1 in fine: cmds.append('SRC %d %s %s' % (i, f, os.path.join(d, '%d.il' % i)))
    chk.cov['schemas_explored'] = chk.cov.get('schemas_explored', 0) + len(fine)
    for j, x in enumerate(runs):
        cmds.append('S ' + ','.join('!' if e['r'] else hexs(e['v']) or '_' for e in x['ev']))
        cmds.append('R x%d %d %s %d %s 1 0 512' % (j, x['c'] - 1, 'd' if x['md'] else 'e', len(x['init']), 'x' + hexs(x['init']) if x['init'] else 'x'))
    cmds.append('S')
    def oc(cur, rc, msg):
        chk.violation('%s: crash: %s' % (cur, crash_text(msg)), {'commands': cmd_near(cmds, cur), 'output': msg[-3000:]})
    got = run_host(host, cmds, chk.work, on_crash=oc, timeout=800)
    if chk.violations: return
    progs = [o for o in got if 'prog' in o]
    for o in got:
        if 'compile' in o and o['rc']: chk.violation('a well-formed schema is refused', {'source': src[o['compile']]})
    for o in progs:
        if o['load']: chk.violation('the compiled image does not load', {'source': src[o['prog']]})
    real = [o for o in got if 'case' in o]
    langlib.named(real, [q for q in progs if not q['load']])
    by = {o['case']: o for o in real}
    for j, x in enumerate(runs):
        y = by.get('x%d' % j)
        if y is None: continue
        w = differ(x, y)
        if w:
            if len(chk.violations) < 40: chk.violation('%s of %s: %s' % ('decoding' if x['md'] else 'encoding', ' '.join(combos[x['c'] - 1]), w), {'source': src[x['c'] - 1], 'specified': x, 'run': y, 'commands': cmd_near(cmds, 'run x%d' % j)})
    chk.cov['behaviours_replayed'] = chk.cov.get('behaviours_replayed', 0) + len(runs)
    chk.cov['traces_validated_against_impl'] += len(runs)
    shutil.rmtree(d, ignore_errors=True)
    return len(runs)

def differ(x, y):
    if y['err'] == 97: return 'does not end'
    for i, e in enumerate(x['ev']):
        if i >= len(y['ev']): return 'notification %d (%s) is missing; result %d instead of %d' % (i + 1, e['t'], y['err'], x['err'])
        f = y['ev'][i]
        for q in ('t', 'k', 'o', 'r'):
            if e[q] != f[q]: return 'notification %d: %s instead of %s' % (i + 1, f, e)
        if e['v'] != f['v'] and not (e['t'] == 'raw' and len(e['v']) == 0 and not e['r'] and x['md'] == 0): return 'notification %d: %s instead of %s' % (i + 1, f, e)
    if len(y['ev']) > len(x['ev']): return 'notification %d (%s) is one too many' % (len(x['ev']) + 1, y['ev'][len(x['ev'])]['t'])
    if y['err'] != x['err']: return 'result %d instead of %d' % (y['err'], x['err'])
    if y['buf'] != x['buf']: return 'message buffer %s instead of %s' % (hexs(y['buf']), hexs(x['buf']))
    if x['err'] == 0 and (x['cur'], x['bit']) != (y['cur'], y['bit']): return 'position %s instead of %s' % ((y['cur'], y['bit']), (x['cur'], x['bit']))
    return ''

def cmd_near(cmds, cur):
    kind, ident = cur.split(' ', 1)
    for i, q in enumerate(cmds):
        w = q.split(' ')
        if (kind == 'run' and w[0] == 'R' or kind == 'compile' and w[0] == 'SRC') and w[1] == ident:
            pid = w[2] if w[0] == 'R' else w[1]
            return [z for z in cmds if z.startswith('SRC %s ' % pid)] + (cmds[i - 1:i + 1] if w[0] == 'R' else [])
    return []

# ---------------------------------------------------------------------- statements in all variations
ITYPES = {'uint8': (0, 255), 'int8': (-128, 127), 'uint16': (0, 65535), 'int16': (-32768, 32767), 'uint32': (0, 2**32 - 1), 'int32': (-2**31, 2**31 - 1), 'uint64': (0, 2**64 - 1), 'int64': (-2**63, 2**63 - 1)}
EDGES = W(0, 1, 2, 126, 127, 128, 129, 254, 255, 256, 32767, 32768, 65534, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63 - 1, 2**63, 2**64 - 2, 2**64 - 1, 2**64 - 128, 2**64 - 129, 2**64 - 32768, 2**64 - 2**31)

def limits(r):
    """ranges and constants at the edges of every type"""
    out = {}
    for ty, (lo, hi) in ITYPES.items():
        pts = [lo, lo + 1, hi - 1, hi, (lo + hi) // 2, (lo + hi) // 2 + 1]
        pairs = [(lo, hi), (lo, lo), (hi, hi), (lo + 1, hi - 1), (pts[4], hi), (lo, pts[4]), (pts[5], hi - 1)] + ([(-1, 1), (-1, hi), (lo, 0)] if lo else [(1, hi), (2, hi // 2 + 1)])
        for a, b in pairs: out['rng %s %d %d' % (ty, a, b)] = '%s@range(%d, %d) %s #;' % (r.choice(['', '@be ']), a, b, ty)
        for v in pts: out['const %s %d' % (ty, v)] = '%s@const(%d) %s #;' % (r.choice(['', '@be ']), v, ty)
    return out

def enums(r):
    """enums of every type with members at its edges"""
    out = {}
    for ty, (lo, hi) in ITYPES.items():
        for j, m in enumerate(([lo, hi], [0, 1, hi - 1], [lo, lo + 1, 0] if lo else [0, 128], [hi, 7, lo, 3])):
            k = 'F%s%d' % (ty, j)
            DEFS[k] = 'enum %s : %s { %s } ' % (k, ty, ', '.join('M%d = %d' % (i, v) for i, v in enumerate(m)))
            out[k] = r.choice(['', '@be ']) + k + ' #;'
    return out

def switches(r, n):
    """switches over many sets of labels"""
    pool = [0, 1, 2, 3, 4, 5, 127, 128, 254, 255, 256, 257, 65535, 2**31, 2**32, 2**63 - 1, -1, -2, -128, -2**63]
    out = {}
    for i in range(n):
        x = r.random()
        if x < .4: ls = r.sample(pool, r.randrange(1, 6))
        elif x < .7: b = r.choice([0, 1, 250, -3, 2**32 - 2, -2**63, 2**63 - 5]); ls = [b + q for q in r.sample(range(0, 6), r.randrange(3, 6))]
        else: b = r.choice([0, -2, 10]); ls = [b, b + r.choice([254, 255, 256]), b + 1, b + 7]
        if x >= .9: ls = [v for v in ls if v >= 0] + [2**64 - 1, 2**63]
        ls = list(dict.fromkeys(v for v in ls if -2**63 <= v < 2**64))
        out['sw%d' % i] = 'switch ($) { ' + ' '.join('case %d: %s' % (v, r.choice(['u8 #%s;', 'u16 #%s;', '{ }', 'i8 #%s;', '{ u8 #%s; bool #%sx; }']).replace('#%s', '#' + '_' * (k + 1))) for k, v in enumerate(ls)) + r.choice([' }', ' }', ' default: u8 #; }', ' default: { } }'])
    return out

OPS = ['+', '-', '*', '/', '%', '==', '!=', '<', '>', '<=', '>=', '&&', '||', '&', '|', '^', '<<', '>>']
def expressions(r):
    """every pair of operators, prefix operators before every operator, brackets, floats"""
    out = {}
    ty = lambda: r.choice(['int64', 'uint64', 'int64', 'int16', 'uint8', 'double'])
    for a in OPS:
        for b in OPS:
            t = '$ %s 3 %s 2' % (a, b) if r.random() < .6 else '5 %s $ %s 3' % (a, b)
            out['e%s%s' % (a, b)] = '@expr(%s) %s #;' % (t, ty())
            out['e%s(%s)' % (a, b)] = '@expr($ %s (3 %s 2)) %s #;' % (a, b, ty())
        for u in '-!~':
            out['%se%s' % (u, a)] = '@expr(%s$ %s 3) %s #;' % (u, a, ty())
            out['e%s%s' % (a, u)] = '@expr(4 %s %s$) %s #;' % (a, u, ty())
            out['%s(e%s)' % (u, a)] = '@expr(%s($ %s 1)) %s #;' % (u, a, ty())
        if a in ('+', '-', '*', '/', '==', '!=', '<', '>', '<=', '>='):
            out['f' + a] = '@expr(float($) %s 2.5) %s #;' % (a, 'double' if a in '+-*/' else 'u8')
            out['fi' + a] = '@expr(3 %s float($)) %s #;' % (a, 'double' if a in '+-*/' else 'u8')
            out['if' + a] = '@expr(float($) %s 3 %s 1) %s #;' % (a, r.choice(['+', '-', '<', '&&']), 'u8')
            out['ff' + a] = 'if (float($) %s 1.0) { u8 #; } else { u16 #_; }' % a
        out['c' + a] = 'if ($ %s 2) { u8 #; } else { u16 #_; }' % a
        out['cc' + a] = 'if (!($ %s 2) || $ == 7) { u8 #; } else if ($ %s 1) { i8 #_; }' % (a, r.choice(OPS))
    for f in ('int', 'float', 'abs', 'sqrt'):
        out[f] = '@expr(%s($)) %s #;' % (f, 'double' if f != 'int' else 'int64')
        out[f + 'i'] = '@expr(int(%s(4 * $))) int64 #;' % f
    return out

def widths(r, n):
    """bit fields of any width and type at any position: sequences of statements"""
    out = []
    for _ in range(n):
        big = r.random() < .5
        t = []
        for i in range(r.choice([2, 3, 3])):
            w = r.choice([1, 2, 3, 5, 7, 8, 9, r.randrange(1, 65), r.randrange(1, 65)])
            sg = r.random() < .4
            need = next(b for b in (8, 16, 32, 64) if b >= w)
            b = r.choice([x for x in (8, 16, 32, 64) if x >= need])
            k = '%s%s%d:%d' % ('@be ' if big else '@le ', 'int' if sg else 'uint', b, w)
            ITEM[k] = '%s%s%d # : %d;' % ('@be ' if big else '@le ', 'int' if sg else 'uint', b, w)
            (BE_BITS if big else LE_BITS).add(k)
            t.append(k)
        if r.random() < .3: t[r.randrange(len(t))] = r.choice(['u8', 'be16', 'bool', 'i8'])
        out.append(tuple(t))
    return out

def transforms(r):
    """integer transforms of every type"""
    out = {}
    for ty in list(ITYPES) + ['float', 'double']:
        for op in ('add', 'sub', 'mul', 'div'):
            for v in r.sample([0, 1, -1, 2, 3, 127, 128, 255, 256, -128, 65535, 2**31, -2**31, 2**32, 2**63 - 1, -2**63], 3):
                if op == 'div' and v == 0: v = 5
                k = '%s %s %d' % (op, ty, v)
                out[k] = '@%s(%d) %s #;' % (op, v, ty)
                INEXACT.add(k)
    return out

# ---------------------------------------------------------------------- what every property explores
TYPES = ['u8', 'i8', 'u16', 'be16', 'i16', 'u32', 'be32', 'i64', 'u64', 'be64', 'f32', 'f64', 'bool']
BITS = ['b1', 'b3', 'b5', 'b8', 'b12', 'bb', 'bb3', 'bb13', 'b33', 'bb40', 'p', 'p8', 'p13', 'f', 'f1', 'fbe', 'ab', 'u']
STRINGS = ['str0', 'str0s', 'str1', 'str2', 'str4', 'ast', 'ast0', 'ostr', 'ostr0']
ARRAYS = ['a2', 'a0', 'a16', 'ap', 'ap16', 'apbe', 'ap4', 'ac', 'ac16', 'as_', 'asc', 'ae', 'ae16', 'aes', 'aez', 'aen', 'ast', 'ast0', 'ab', 'abool', 'arng', 'adda']
CHECKS = ['c', 'cbe', 'cneg', 'rng', 'rngi', 'rngf', 'rng16', 'rng64', 'rngu', 'renum', 'r1', 'enum', 'enumv', 'bool', 'bb', 'arng', 'abool', 'aen', 'orng', 'oenum', 'obool']
CRCS = ['crc', 'crcbe', 'crc32', 'crcp', 'crco']
FLOW = ['if_', 'ifelse', 'chain', 'ifif', 'ifs', 'sw', 'swd', 'swt', 'swn', 'swsw', 'sws', 'sw4']
EXPRS = ['e', 'e2', 'eb', 'ef', 'ed', 'em', 'ei', 'en', 'en2', 'el', 'es', 'er', 'em2', 'ex']
TRANS = ['sc', 'so', 'add', 'sub', 'mul', 'div', 'addbe', 'scf', 'adda']
OPT = ['o8', 'o16', 'obool', 'oenum', 'ostr', 'ostr0', 'obit', 'of', 'orng']
STRUCTS = ['s', 't', 'u', 'z', 'as_', 'asc', 'ifs', 'sws']
ALLWRAPS = [w for w in WRAP]
VALUES = W(0, 1, 2, 3, 4, 5, 6, 7, 127, 128, 253, 254, 255, 256, 257, 265, 2**16 - 1, 2**31, 2**32, 2**32 + 1, 2**63 - 1, 2**63, 2**64 - 1, 2**64 - 2, 2**64 - 3, 2**64 - 128)
PATTERNS = W(0, 1, 0xA5A5A5A5A5A5A5A5, 2**64 - 1, 0x123456789ABCDEF0)

def small(chk, host):
    """the small scopes of the property of this check"""
    r, n = rng_of(chk), chk.n
    def ex(*a, **k):
        if not chk.violations: explore(chk, host, *a, **k)
    everything = list(ITEM)
    less = lambda it, k: {x: it[x] for x in r.sample(sorted(it), min(len(it), k))}
    def over(it, firsts, cap, **k):
        it = less(it, cap)
        ex([], len(it), items=it, combos=[((r.choice(firsts), x) if firsts else (x,)) for x in it], ask=1, **k)
    c = chk.prop
    if c == 'C01': ex([k for k in everything if k not in INEXACT and k not in LAST], n(260, 2400), wraps=ALLWRAPS)
    if c == 'C02': ex(TYPES + BITS + STRINGS[:5] + STRUCTS, n(200, 1500), wraps=ALLWRAPS); ex([], n(80, 400), combos=widths(r, n(80, 400)), val=PATTERNS, ask=2, ln=1)
    if c == 'C03': ex(everything, n(200, 2400), wraps=ALLWRAPS)
    if c == 'C04': ex([k for k in everything if k not in LAST], n(240, 2400), ask=2, ln=1, wraps=ALLWRAPS)
    if c == 'C05': ex(CHECKS, n(150, 900)); over(limits(r), [], n(80, 1000), ln=1, val=EDGES); over(enums(r), [], n(16, 100), ln=1, val=EDGES)
    if c == 'C06': ex(CRCS, n(200, 1200), wraps=ALLWRAPS)
    if c == 'C07': ex(ARRAYS, n(250, 1500), wraps=ALLWRAPS)
    if c == 'C08': ex(FLOW, n(180, 1200)); over(switches(r, n(90, 900)), ['u8', 'i8', 'u64', 'i64', 'u16', 'be32'], 900, ln=1, val=VALUES)
    if c == 'C09': ex(EXPRS, n(100, 600)); over(expressions(r), ['u8', 'i8', 'i64', 'u64'], n(260, 2000), ln=0, val=W(0, 1, 2, 3, 7, 2**63, 2**64 - 1, 2**64 - 5, 200))
    if c == 'C10': ex(TRANS, n(150, 900)); over(transforms(r), [], n(60, 120), ln=1, val=EDGES)
    if c == 'C11': ex(OPT, n(200, 1200), wraps=['', '', 'struct', 'packet', 'nested'])
    if c == 'C12': ex(everything, n(150, 1500))
    if c == 'C13': ex(everything, n(220, 2000), wraps=ALLWRAPS)
    if c == 'C22': ex(STRINGS, n(220, 1200), wraps=ALLWRAPS)
    if c == 'C23': ex(BITS, n(150, 900)); ex([], n(150, 1200), combos=widths(r, n(150, 1200)), val=PATTERNS, ask=2, ln=1)
    if c == 'C24': ex(everything, n(220, 1500), wraps=[w for w in WRAP if w])
