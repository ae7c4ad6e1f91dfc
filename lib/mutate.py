"""Schemas that are almost well formed: edits of syntax trees, and of texts."""
import copy, re
from gen_lang import ilit, flit, NOLIT, ALIAS, INT

BOUNDS = [0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 32767, 32768, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32,
          (1 << 63) - 1, 1 << 63, (1 << 63) + 1, (1 << 64) - 1, 1 << 64, (1 << 64) + 1, 10 ** 25]
def num(r):
    if r.random() < .12: return flit(r, r.choice([0.5, 1.5, -2.25, 3.0, 16.0, 1e6]))
    v = r.choice(BOUNDS)
    return ilit(r, -v if r.random() < .25 else v)

DECOS0 = ['be', 'big_endian', 'le', 'little_endian', 'crc_refin', 'crc_refout', 'optional', 'eof', 'fill']
DECOS1 = ['const', 'match', 'pad', 'crc', 'crc_poly', 'crc_init', 'crc_xor', 'scale', 'offset', 'mul', 'div', 'add', 'sub', 'count', 'len', 'fill']
def deco(r):
    x = r.random()
    d = lambda n, a=(), i='': {'n': n, 'a': list(a), 'id': i}
    if x < .25: return d(r.choice(DECOS0))
    if x < .6: return d(r.choice(DECOS1), [r.choice([num(r), ilit(r, r.choice([0, 1, 4, 8, 16, 32]))])])
    if x < .75: return d('range', [num(r), num(r)] if r.random() < .6 else [ilit(r, 0), ilit(r, 100)])
    if x < .8: return d('count', [], r.choice(['a', 'b', 'len', 'nowhere']))
    if x < .86: return d('poly', [num(r) for _ in range(r.choice([1, 2, 3, 16, 17]))])
    if x < .92: return d('spline', [num(r) for _ in range(r.choice([1, 2, 3, 4, 32, 33, 34]))])
    e = {'o': 'bin', 'op': r.choice(['+', '<', '&&']), 'a': {'o': 'id', 'k': r.choice(['a', 'b.c'])}, 'b': {'o': 'int', 'v': [1] + [0] * 7, 's': '1'}}
    return dict(d('expr'), e=e)

TYPES = [a for v in ALIAS.values() for a in v] + ['string', 'Unknown', 'uint128', 'void', 'String', 'u6']

def edit(r, s):
    """one edit of the syntax tree s (in place); False if it does not apply"""
    if not any('name' in d for d in s['decls']) or not s['blocks']: return False
    fields = [(b, i) for b in s['blocks'] for i, x in enumerate(b) if x['s'] == 'field']
    switches = [x for b in s['blocks'] for x in b if x['s'] == 'switch']
    enums = [d for d in s['decls'] if d['d'] == 'enum']
    structs = [d for d in s['decls'] if d['d'] == 'struct']
    named = [d for d in s['decls'] if 'name' in d]
    k = r.choice(['name'] * 2 + ['type'] * 3 + ['deco'] * 6 + ['undeco', 'bits', 'bits', 'arr', 'arr', 'pre', 'until', 'max', 'lit', 'lit', 'lit', 'lit', 'dupfield',
                  'enum', 'enum', 'enumty', 'enumval', 'case', 'case', 'casev', 'default', 'declname', 'move', 'dupdecl', 'deldecl', 'alias', 'packet', 'packet', 'un', 'version', 'align', 'refer'])
    f = None
    if fields:
        b, i = r.choice(fields); f = b[i]
    if k in ('name', 'type', 'deco', 'undeco', 'bits', 'arr', 'pre', 'until', 'max', 'dupfield', 'lit') and f is None: return False
    if k == 'name': f['name'] = r.choice([x[y]['name'] for x, y in fields] + ['a', 'b', 'prefix', 'until', 'max', 'sin'][:4])
    elif k == 'type': f['ty'] = r.choice(TYPES + [d['name'] for d in named] * 3)
    elif k == 'deco': f['decos'].insert(r.randrange(len(f['decos']) + 1), deco(r))
    elif k == 'undeco':
        if not f['decos']: return False
        f['decos'].pop(r.randrange(len(f['decos'])))
    elif k == 'bits': f['bits'] = [] if f['bits'] and r.random() < .5 else [r.choice([num(r), ilit(r, r.randrange(0, 66))])]
    elif k == 'arr':
        f['arr'] = r.choice(['', '[]', '[n]']); f['n'] = r.choice([num(r), ilit(r, r.randrange(0, 4))]) if f['arr'] == '[n]' else NOLIT
    elif k == 'pre':
        f['pre'] = '' if f['pre'] else r.choice(['uint8', 'u16', 'uint32', 'u64', 'int8', 'byte', 'string', 'bool'])
        if f['pre']: f['until'] = 0; f['max'] = []
    elif k == 'until':
        f['until'] = 1 - f['until']
        if f['pre']: f['pre'] = ''
    elif k == 'max':
        f['max'] = [] if f['max'] else [num(r)]
        if f['pre']: f['pre'] = ''
    elif k == 'lit':      # a number somewhere
        spots = [(d['a'], j) for b in s['blocks'] for x in b if 'decos' in x for d in x['decos'] for j in range(len(d['a']))]
        spots += [(f[q], j) for b, i in fields for f in [b[i]] for q in ('bits', 'max') for j in range(len(f[q]))]
        spots += [(d, 'v') for d in s['decls'] if d['d'] == 'version'] + [(v, 'v') for d in enums for v in d['vals'] if v['has']] + [(c, 'v') for x in switches for c in x['cases'] if not c['e']]
        spots += [(b[i], 'n') for b, i in fields if b[i]['arr'] == '[n]']
        if not spots: return False
        a, j = r.choice(spots); a[j] = num(r)
    elif k == 'dupfield': b.insert(r.randrange(len(b) + 1), copy.deepcopy(f)) or None
    elif k == 'enum':
        if not enums: return False
        d = r.choice(enums)
        x = r.random()
        if x < .4 and d['vals']: d['vals'].insert(r.randrange(len(d['vals']) + 1), copy.deepcopy(r.choice(d['vals'])))
        elif x < .8: d['vals'].insert(r.randrange(len(d['vals']) + 1), {'name': 'W', 'has': 1, 'v': r.choice([num(r), ilit(r, r.choice([0, 1, 2, 3]))])})
        else: d['vals'].append({'name': 'W%d' % r.randrange(3), 'has': 0, 'v': NOLIT})
    elif k == 'enumval':
        v = [v for d in enums for v in d['vals']]
        if not v: return False
        v = r.choice(v)
        if r.random() < .5: v['has'], v['v'] = 1 - v['has'], NOLIT if v['has'] else r.choice([num(r), ilit(r, r.randrange(4))])
        else: v['name'] = r.choice(['V0', 'V1', 'W'])
    elif k == 'enumty':
        if not enums: return False
        r.choice(enums)['ty'] = r.choice([''] + TYPES)
    elif k in ('case', 'casev', 'default'):
        if not switches: return False
        x = r.choice(switches)
        if k == 'default':
            if r.random() < .3 and x['defs']: x['defs'] = []
            else: s['blocks'].append([]); x['defs'].append(len(s['blocks']))
        elif k == 'case':
            s['blocks'].append([])
            x['cases'].insert(r.randrange(len(x['cases']) + 1), dict({'e': '', 'ev': '', 'v': num(r)} if r.random() < .6 or not enums else {'e': r.choice(enums)['name'], 'ev': r.choice(['V0', 'V1', 'V9']), 'v': NOLIT}, b=len(s['blocks'])))
        else:
            if not x['cases']: return False
            c, o = r.choice(x['cases']), r.choice(x['cases'])
            y = r.random()
            if y < .4: c['e'], c['ev'], c['v'] = o['e'], o['ev'], o['v']
            elif y < .6: c['e'], c['ev'] = r.choice([d['name'] for d in named] + ['Nope']), r.choice(['V0', 'V1', 'x'])
            else: c['e'], c['ev'], c['v'] = '', '', r.choice([num(r), ilit(r, r.randrange(4))])
    elif k == 'declname': 
        a, o = r.choice(named), r.choice(named)
        a['name'] = o['name']
    elif k == 'move':
        d = s['decls'].pop(r.randrange(len(s['decls']))); s['decls'].insert(r.randrange(len(s['decls']) + 1), d)
    elif k == 'dupdecl':
        d = copy.deepcopy(r.choice(s['decls']))
        if 'name' in d and r.random() < .5: d['name'] += 'Q'
        s['decls'].insert(r.randrange(len(s['decls']) + 1), d)
    elif k == 'deldecl': s['decls'].pop(r.randrange(len(s['decls'])))
    elif k == 'alias': s['decls'].insert(r.randrange(len(s['decls']) + 1), {'d': 'alias', 'name': r.choice(['Al', 'Packet'] + [d['name'] for d in named]), 'of': r.choice(['Nope'] + [d['name'] for d in named] * 2)})
    elif k == 'packet':
        p = [d for d in s['decls'] if d['d'] in ('packet', 'alias')]
        if not p: return False
        if r.random() < .5: s['decls'].remove(r.choice(p))
        else:
            q = copy.deepcopy(r.choice(p)); q['name'] += r.choice(['', '2']); s['decls'].append(q)
    elif k == 'un':
        if not structs: return False
        d = r.choice(structs); d['un'] = 1 - d['un']
    elif k == 'version': s['decls'].insert(r.randrange(len(s['decls']) + 1), {'d': 'version', 'v': num(r)})
    elif k == 'align':
        b = r.choice(s['blocks']); b.insert(r.randrange(len(b) + 1), {'s': 'align', 'decos': [{'n': 'pad', 'a': [r.choice([num(r), ilit(r, r.randrange(9))])], 'id': ''}] if r.random() < .6 else [{'n': 'fill', 'a': [num(r)] if r.random() < .5 else [], 'id': ''}]})
    elif k == 'refer':      # a struct that refers to itself, or to a later one
        if not structs: return False
        d = r.choice(structs)
        s['blocks'][d['b'] - 1].append({'s': 'field', 'name': 'inner', 'ty': r.choice(structs)['name'], 'decos': [], 'bits': [], 'arr': '', 'n': NOLIT, 'pre': '', 'until': 0, 'max': []})
    return True

TOKEN = re.compile(r'\s+|//[^\n]*|/\*.*?\*/|"[^"]*"|[A-Za-z_]\w*|0[xX][0-9a-fA-F]+|\d+(?:\.\d+)?|[=!<>]=|<<|>>|&&|\|\||.', re.S)
SPARE = ['{', '}', '[', ']', '(', ')', ';', ':', ',', '@', '=', '.', '-', '+', '*', '/', '%', '!', '~', '&', '|', '^', '<', '>', '==', '&&', '#', '$', '"', "'", '\\', '?', '`', '\x01', '\xff', '//', '/*', '*/', '/// doc\n',
         '0', '1', '-1', '256', '0x', '0x1g', '1.', '.5', '1.5', '1e5', '99999999999999999999', '08', 'x', 'if', 'else', 'case', 'default', 'switch', 'struct', 'packet', 'enum', 'true', 'self', 'string', 'uint8',
         'prefix', 'until', 'max', '@eof', '@optional', '@version(1)', '@import("x.cnd")', '@be', '@foo', '@pad(3);', '\n', ' ', 'uint8 zz;', '"str"', 'struct Q { uint8 a; }', 'packet Q { uint8 a; }', 'enum Q { A }', 'Q.A']
def scramble(r, text):
    """the text with one token removed, repeated, exchanged, inserted or replaced, or one character changed"""
    toks = TOKEN.findall(text)
    if not text: return r.choice(SPARE)
    idx = [i for i, t in enumerate(toks) if t.strip() and t[:2] not in ('//', '/*')] or [0]
    i = r.choice(idx)
    x = r.random()
    if x < .2: toks[i] = '' if r.random() < .5 else ' '
    elif x < .35: toks[i] = toks[i] + ' ' + toks[i]
    elif x < .5:
        j = r.choice(idx) if r.random() < .3 else idx[min(idx.index(i) + 1, len(idx) - 1)]
        toks[i], toks[j] = toks[j], toks[i]
    elif x < .7: toks[i] = r.choice(SPARE)
    elif x < .9: toks.insert(i, ' ' + r.choice(SPARE) + r.choice([' ', '']))
    elif x < .94: return text[:r.randrange(len(text))]
    elif x < .97 and len(idx) > 3:
        j = min(idx.index(i) + r.randrange(2, 8), len(idx) - 1)
        del toks[i:idx[j]]
    else:
        k = r.randrange(len(text))
        return text[:k] + r.choice([chr(r.randrange(1, 256)), '', ' ', text[k] * 2]) + text[k + 1:]
    return ''.join(toks)

def imports(r):
    """files that import each other, in directories"""
    n = r.randrange(1, 6)
    dirs = ['', '', 'd1', 'd1/d2', 'e']
    paths = []
    for i in range(n):
        d = r.choice(dirs); d += '/' if d else ''
        q = d + r.choice(['f%d.cnd' % i] * 2 + ['f%d.cnd' % (i // 2), 'f0.cnd', 'xf0.cnd'])
        paths.append(d + 'f%d_.cnd' % i if q in paths else q)
    main = paths[0]
    files = {}
    def rel(a, b):
        import os.path
        da = os.path.dirname(a)
        p = os.path.relpath(b, da or '.')
        if r.random() < .25: p = './' + p
        if r.random() < .1 and '/' not in p: p = 'd1/../' + p if da in ('',) else p
        if r.random() < .05: p = p.replace('/', '//')
        return p
    for i, p in enumerate(paths):
        parts = []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            q = r.choice(paths)
            if r.random() < .08: q = 'missing.cnd'
            parts.append('@import("%s")\n' % rel(p, q))
        x = r.random()
        body = ['struct S%d { uint8 a; }\n' % i if x < .5 else 'enum E%d : uint8 { A, B = %d }\n' % (i, r.choice([1, 2])) if x < .8 else '']
        if i == 0:
            use = ''.join('  %s f%d;\n' % (r.choice(['S%d' % j, 'E%d' % j, 'uint8']), j) for j in range(n) if r.random() < .7)
            body.append('packet P {\n%s  uint8 last;\n}\n' % use)
        elif r.random() < .06: body.append('packet P%d { uint8 a; }\n' % i)
        elif r.random() < .3: body.append('struct T%d { %s x; }\n' % (i, r.choice(['S%d' % j for j in range(n)] + ['uint16'])))
        if r.random() < .1: body.append(r.choice(['@big_endian\n', 'struct S%d { uint8 q; }\n' % r.randrange(n), 'garbage\n', '@version(2)\n']))
        if r.random() < .2: r.shuffle(parts)
        if r.random() < .15: body, parts = parts, body
        files[p] = ''.join(parts + body)
    return files, main

NASTY = ['{', '}', ';', ' x; {y} ', '// c', '"', "'", '/*', '\n', '\n\n  two\n lines', '\t', ' \r\n ', '@', '///', '*', '/', 'struct S { uint8 a; }', '  ', ',', 'ü', '\\']
def gap(r, tight):
    """white space and comments between two words"""
    x = r.random()
    if tight and x < .35: return ''
    if x < .55: return ' '
    if x < .75: return r.choice(['\n', '\n\n', '\n\n\n\n', '\n    ', '  ', '\t', ' \t ', '\r\n', '\r\n\r\n', ' \n \n ', '    '])
    if x < .9:
        c = ''.join(r.choice(NASTY) for _ in range(r.randrange(0, 3))).replace('*/', '')
        if c.endswith('*') and r.random() < .5: c += ' '
        return r.choice(['', ' ', '\n', '\n\n']) + '/*' + c.replace('*/', '') + '*/' + r.choice(['', ' ', '\n', '\n\n\n'])
    c = ''.join(r.choice(NASTY) for _ in range(r.randrange(0, 3))).replace('\n', '')
    if c.startswith('/'): c = ' ' + c
    return r.choice([' ', '\n', '']) + '//' + c + '\n'

def respace(r, text, rate=.5):
    """the same words, laid out differently (comments added, documentation kept)"""
    toks = [t for t in TOKEN.findall(text)]
    out, last = [], ''
    for i, t in enumerate(toks):
        if t.strip() == '' or (t[:2] in ('//', '/*') and not t.startswith('///')):
            if r.random() < rate:
                nx = toks[i + 1] if i + 1 < len(toks) else ''
                word = lambda c: c.isalnum() or c in '_"'
                tight = not (last and nx and ((word(last[-1]) and word(nx[0])) or (last[-1] in '=!<>&|/-.*' and nx[0] in '=<>&|/*.0123456789') or last.startswith('///')))
                g = gap(r, tight)
                if last.startswith('///') and '\n' not in g[:2]: g = '\n' + g
                if last and last[-1] == '/' : g = ' ' + g
                out.append(g)
            else: out.append(t)
        else:
            if out and last and r.random() < rate / 3 and not (last.startswith('///')):
                g = gap(r, True)
                if last[-1] != '/': out.append(g)
            out.append(t)
        if t.strip(): last = t
    return ''.join(out)
