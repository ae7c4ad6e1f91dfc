"""The language server: histories of editor messages over several documents,
answered by `cnd lsp`, explained by the specification's machine."""
import itertools, urllib.parse, subprocess, threading, concurrent.futures as cf
from langlib import *
import gen_lang, mutate
from c16 import TEXTS

SMALL = dict(fields=(1, 4), structs=(0, 2), enums=(0, 2), depth=1, bigenum=0, bigsw=0, alias=.1, long=0, imports=0, arr=.3, version=.1)
TYPES_CND = '''/// A shared record
struct ZRec {
    uint8 zone;
    uint16 zcount;
}
enum ZKind : uint8 { ZNone = 0, ZOne, ZMany = 7 }
'''
MORE_CND = '@import("types file.cnd")\n/* more */ struct ZMore { ZRec r; }\n'
BROKEN_CND = 'struct ZBad { uint8 x }\n'
IMPS = {'types file.cnd': TYPES_CND, 'more.cnd': MORE_CND, 'broken.cnd': BROKEN_CND}
DOCS = ['a.cnd', 'a.cnd c.cnd', 'd%41.cnd', 'A.cnd']
Q = ['definition', 'hover', 'completion', 'formatting', 'documentSymbol']
GOOD = ['packet P { uint8 a; }', '/// Seven\nstruct S { uint8 a; uint16 b; @expr(a + b) uint32 c; }\nenum E { ONE, TWO = 5 }\npacket P { S s; E e; @expr(E.TWO) uint8 q; }',
        '@import("more.cnd")\nstruct Tail {\n  ZMore m;\n  ZKind k;\n}\npacket P = Tail;', '@import("types file.cnd") @import("more.cnd")\n@be packet P { ZRec z; /* \xe9 */ ZKind k; }']
BAD = ['packet P { uint8 a }', '', 'struct S { uint8 a; }', '@import("broken.cnd") packet P { uint8 a; }', '@import("missing.cnd") packet P { uint8 a; }', 'packet P { ZRec z; }', 'packet P { uint8 x; } }']

class Session:
    """one run of the server: its documents, what is on disk, the messages"""
    def __init__(self, root):
        self.root = root
        self.disk = {}
        self.msgs = []      # (record for the specification, bytes to send)
        self.texts = []

    def uri(self, d): return 'file://' + urllib.parse.quote(os.path.join(self.root, d))
    def text(self, t):
        if t not in self.texts: self.texts.append(t)
        return self.texts.index(t) + 1

    def frame(self, body, r=None):
        b = body if isinstance(body, bytes) else json.dumps(body, ensure_ascii=r is not None and r.random() < .5).encode()
        h = b'Content-Length: %d\r\n' % len(b)
        if r and r.random() < .1: h = r.choice([b'Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n' + h, h + b'Content-Type: application/vscode-jsonrpc\r\n', h.replace(b'\r', b'')])
        return h + b'\r\n' + b

    def add(self, k, m, body, r=None, id='', d='', ok=1, t=0, line=0, ch=0):
        self.msgs.append(({'k': k, 'm': m, 'id': ident(id) if k == 'req' else '', 'd': d or DOCS[0], 'ok': ok, 't': t, 'line': min(line, 10 ** 6), 'ch': min(ch, 10 ** 6)}, self.frame(body, r)))

    def req(self, id, m, params, r=None, **kw):
        b = {'jsonrpc': '2.0', 'id': id, 'method': m}
        if params is not None: b['params'] = params
        self.add('req', m, b, r, id=id, **kw)

    def note(self, m, params, r=None, **kw):
        b = {'jsonrpc': '2.0', 'method': m}
        if params is not None: b['params'] = params
        self.add('note', m, b, r, **kw)

    def query(self, id, q, d, line=0, ch=0, r=None):
        p = {'textDocument': {'uri': self.uri(d)}}
        if q in Q[:3]: p['position'] = {'line': line, 'character': ch}
        self.req(id, 'textDocument/' + q, p, r, d=d, line=line, ch=ch)

    def open(self, d, t, r=None): self.note('textDocument/didOpen', {'textDocument': {'uri': self.uri(d), 'languageId': 'concordia', 'version': 1, 'text': t}}, r, d=d, t=self.text(t))
    def change(self, d, t, r=None, before=()): self.note('textDocument/didChange', {'textDocument': {'uri': self.uri(d), 'version': 2}, 'contentChanges': [{'text': x} for x in before] + [{'text': t}]}, r, d=d, t=self.text(t))
    def close(self, d, r=None): self.note('textDocument/didClose', {'textDocument': {'uri': self.uri(d)}}, r, d=d)
    def save(self, d, r=None): self.note('textDocument/didSave', {'textDocument': {'uri': self.uri(d)}}, r, d=d)
    def junk(self, body): self.add('junk', 'junk', body)

def parse_out(b):
    out, at = [], 0
    while at < len(b):
        m = re.compile(rb'Content-Length: (\d+)\r\n\r\n').match(b, at)
        if not m: return out, 'what it writes is no message: %r' % b[at:at + 80]
        n = int(m.group(1))
        body = b[m.end():m.end() + n]
        if len(body) < n: return out, 'a message is cut short'
        try: out.append(json.loads(body))
        except ValueError: return out, 'a message is no JSON: %r' % body[:200]
        at = m.end() + n
    return out, ''

def ident(x): return json.dumps(int(x) if isinstance(x, float) and x == int(x) else x)
def chars(t): return [c if ord(c) < 128 else '?' for c in t]

def observe(s, o):
    """an output in the form of the specification"""
    def name(uri):
        p = urllib.parse.unquote(uri[7:]) if uri.startswith('file://') else uri
        return p[len(s.root) + 1:] if p.startswith(s.root + '/') else uri
    x = {'t': 'other', 'id': '', 'err': 0, 'null': 0, 'caps': 0, 'fmt': '', 'syms': [], 'locf': '', 'locl': -1, 'hov': [], 'members': [], 'fields': [], 'structs': [], 'enums': [], 'f': '', 'n': 0}
    if not isinstance(o, dict) or o.get('jsonrpc') != '2.0': return x
    if 'id' in o and ('result' in o) != ('error' in o):
        x.update(t='resp', id=ident(o['id']), err=int('error' in o))
        v = o.get('result')
        if v is None: x['null'] = 1
        if isinstance(v, list):
            if len(v) == 1 and 'newText' in v[0] and v[0]['range']['start'] == {'line': 0, 'character': 0} and v[0]['range']['end']['line'] > 10000: x['fmt'] = v[0]['newText']
            x['syms'] = [{'n': y['name'], 'k': {23: 'struct', 10: 'enum'}.get(y['kind'], '?'), 'f': name(y['location']['uri']), 'l': int(y['location']['range']['start']['line'])} for y in v if 'name' in y]
        if isinstance(v, dict):
            x['caps'] = int(v.get('capabilities', {}).get('textDocumentSync') == 1 and all(v['capabilities'].get(c) for c in ('definitionProvider', 'hoverProvider', 'documentSymbolProvider', 'documentFormattingProvider', 'completionProvider')))
            if 'uri' in v: x.update(locf=name(v['uri']), locl=int(v['range']['start']['line']))
            if 'contents' in v: x['hov'] = chars(v['contents']['value'])
            for y in v.get('items', []):
                k = {20: 'members', 5: 'fields', 7: 'structs', 13: 'enums'}.get(y.get('kind'))
                if k: x[k].append(y['label'])
    elif o.get('method') == 'textDocument/publishDiagnostics':
        x.update(t='diag', f=name(o['params']['uri']), n=len(o['params']['diagnostics']))
    return x

def positions(r, t):
    """a place in the text worth asking about"""
    ids = [m for m in re.finditer(r'[A-Za-z_]\w*|[.({]', t)]
    x = r.random()
    if ids and x < .85:
        m = r.choice([q for q in ids if q.group()[0].isupper()] or ids) if x < .4 else r.choice([q for q in ids if q.group() in '.('] or ids) if x < .6 else r.choice(ids)
        at = m.end() if m.group() in '.(' or r.random() < .2 else r.randrange(m.start(), m.end())
    else: at = r.randrange(len(t) + 1)
    if x > .97: return r.choice([10 ** 6, 2 ** 31 - 1, 50]), r.choice([0, 5, 2 ** 31 - 1])
    if x > .94: return t.count('\n', 0, at), 10 ** 5
    start = t.rfind('\n', 0, at) + 1
    return t.count('\n', 0, at), at - start

def main(chk):
    r = chk.rng
    cnd = build_cnd(chk.work)
    host = build_host(chk.work)
    top = os.path.join(chk.work, 'c20')
    verdict, pretty = {}, {}      # of compiling (document, text); of formatting a text
    count = [0]

    def room(disk):
        """a folder with these files"""
        d = os.path.join(top, 'r%d' % count[0]); count[0] += 1
        os.makedirs(d)
        for n, t in list(IMPS.items()) + list(disk.items()):
            with open(os.path.join(d, n), 'wb') as f: f.write(t.encode())
        return d

    def oracle(sessions):
        need = {(d, t) for s in sessions for d in DOCS for t in s.texts} - set(verdict)
        cmds, keys, forms = [], [], []
        for i, (d, t) in enumerate(sorted(need)):
            q = os.path.join(top, 'o%d' % i); os.makedirs(q)
            for n, x in list(IMPS.items()) + [(d, t)]:
                with open(os.path.join(q, n), 'wb') as f: f.write(x.encode())
            shutil.move(os.path.join(q, d), os.path.join(q, 'main.cnd'))      # the harness takes names without spaces
            cmds.append('SRC %d %s %s' % (i, os.path.join(q, 'main.cnd'), os.path.join(q, 'x.il')))
            keys.append((d, t))
            if t not in pretty:
                pretty[t] = t
                cmds.append('FMT %d %s %s' % (i, os.path.join(q, 'main.cnd'), os.path.join(q, 'f.cnd')))
                forms.append((t, os.path.join(q, 'f.cnd')))
        crashed = []
        def oc(cur, rc, msg): crashed.append((cur, msg))
        for o in run_host(host, cmds, chk.work, on_crash=oc):
            if 'compile' in o: verdict[keys[o['compile']]] = int(o['rc'] == 0)
        for t, p in forms:
            if os.path.exists(p): pretty[t] = open(p, 'rb').read().decode()
        for i in range(len(keys)): shutil.rmtree(os.path.join(top, 'o%d' % i), ignore_errors=True)
        for k in keys:
            if k not in verdict: verdict[k] = -1      # the compiler crashes: C16
    def cut(s):
        """the same session without texts the compiler crashes on"""
        return all(verdict[d, t] >= 0 for d in DOCS for t in s.texts)

    def run(s, slow=False):
        data = b''.join(b for _, b in s.msgs)
        if not slow:
            rc, out, err = cli(cnd, ['lsp'], s.root, data, timeout=60)
            return rc, out, err
        # one message at a time: the answer has to come before the next message
        p = subprocess.Popen([cnd, 'lsp'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=s.root, env=ENV)
        timer = threading.Timer(60, p.kill); timer.start()
        out = b''
        late = ''
        for m, b in s.msgs:
            try: p.stdin.write(b); p.stdin.flush()
            except BrokenPipeError: late = 'anything'; break
            if m['m'] == 'exit' and m['k'] == 'note': break
            if m['k'] == 'req':
                while True:
                    h = p.stdout.readline()
                    if not h: late = m['m']; break
                    n = int(re.match(rb'Content-Length: (\d+)', h).group(1)) if h.startswith(b'Content-Length') else -1
                    if n < 0: late = m['m']; out += h; break
                    e = p.stdout.readline(); body = p.stdout.read(n)
                    out += h + e + body
                    try:
                        o = json.loads(body)
                        if 'id' in o: break
                    except ValueError: break
            if late: break
        try: p.stdin.close()
        except BrokenPipeError: pass
        o2, err = p.stdout.read(), p.stderr.read()
        p.wait()
        timer.cancel()
        return (p.returncode if not late else 'no answer to ' + late), out + o2, err.decode('latin-1')

    def judge(sessions, slow=0):
        for s in sessions:
            for t in s.disk.values(): s.text(t)
        oracle(sessions)
        sessions = [s for s in sessions if cut(s)]
        with cf.ThreadPoolExecutor(CORES) as ex: res = list(ex.map(lambda i: run(sessions[i], i < slow), range(len(sessions))))
        recs = []
        for s, (rc, out, err) in zip(sessions, res):
            show = {'messages': [b.decode('latin-1')[:3000] for _, b in s.msgs], 'disk': s.disk, 'output': out.decode('utf-8', 'replace')[-4000:], 'stderr': err[-3000:]}
            outs, bad = parse_out(out)
            if rc == 77 or not isinstance(rc, int) or rc < 0:
                chk.violation('the server ends with %s: %s' % (rc, crash_text(err)), show); continue
            if bad: chk.violation(bad, show); continue
            try: obs = [observe(s, o) for o in outs]
            except Exception as e: chk.violation('an answer has another shape: %r' % e, show); continue
            recs.append(({'texts': [], 'disk': {d: s.text(s.disk[d]) if d in s.disk else 0 for d in DOCS}, 'imps': {n: s.text(t) for n, t in IMPS.items()},
                          'msgs': [m for m, _ in s.msgs], 'outs': obs, 'rc': rc}, show, s))
        for x, _, s in recs:
            x['texts'] = [{'c': chars(t), 'ok': 1 if t in IMPS.values() and t != BROKEN_CND else 0 if t == BROKEN_CND else min(verdict[d, t] for d in DOCS), 'fmt': pretty.get(t, t)} for t in s.texts]
        recs = [x for x in recs if all(len({verdict.get((d, t), 1) for d in DOCS}) == 1 for t in x[2].texts)]
        v = validate(chk, 'LspTrace', [x for x, _, _ in recs], {})
        for i in sorted(v):
            if v[i]: chk.violation(v[i], recs[i][1])
        chk.cov['messages'] = chk.cov.get('messages', 0) + sum(len(x['msgs']) for x, _, _ in recs)
        return recs

    # -- the machine itself
    cfg = os.path.join(chk.work, 'LspMC.cfg')
    open(cfg, 'w').write(open(os.path.join(SPEC, 'LspMC.cfg')).read().replace('MaxLen = 3', 'MaxLen = %d' % chk.n(3, 4)))
    out, st, _ = tlc(chk.work, 'LspMC', cfg=cfg)
    chk.cov['states'] += st[1]; chk.cov['transitions'] += st[0]
    # -- every short history over a small alphabet
    g0, g1, b0 = GOOD[0], GOOD[1], BAD[0]
    A, B = DOCS[0], DOCS[1]
    ids = itertools.count(1)
    ALPHA = [lambda s: s.open(A, g0), lambda s: s.open(A, b0), lambda s: s.open(B, g1), lambda s: s.change(A, g1), lambda s: s.change(A, b0), lambda s: s.change(B, g0), lambda s: s.close(A), lambda s: s.close(B),
             lambda s: s.save(A), lambda s: s.query(next(ids), 'formatting', A), lambda s: s.query('s%d' % next(ids), 'documentSymbol', B), lambda s: s.req(next(ids), 'workspace/none', {}), lambda s: s.note('$/none', {}),
             lambda s: s.req(next(ids), 'shutdown', None), lambda s: s.junk(b'{"jsonrpc": '), lambda s: s.note('exit', None)]
    disk = {A: GOOD[3]}
    d0 = room(disk)
    todo = []
    def valid(s):
        opened = set()
        for m, _ in s.msgs:
            if m['m'] == 'textDocument/didOpen': opened.add(m['d'])
            if m['m'] == 'textDocument/didClose': opened.discard(m['d'])
            if m['m'] == 'textDocument/didChange' and m['d'] not in opened: return False
        return True
    for n in range(1, 5 if chk.thorough else 4):
        for w in itertools.product(ALPHA, repeat=n):
            s = Session(d0); s.disk = disk
            for f in w: f(s)
            s.query('last', 'documentSymbol', A); s.query(0, 'formatting', B); s.query(-5, 'formatting', A)
            if valid(s): todo.append(s)
        if n == 3: r.shuffle(todo)
        if n == 4: todo = r.sample(todo, min(len(todo), 24000))
    if not chk.thorough: todo = todo[-3200:] if len(todo) > 3200 else todo
    chk.cov['short_histories'] = len(todo)
    for lo in range(0, len(todo), 4000): judge(todo[lo:lo + 4000])

    # -- long random histories
    rounds = 0
    while rounds < chk.n(1, 14) and not chk.violations and (not rounds or chk.left() > 150):
        rounds += 1
        sessions = []
        for q in range(chk.n(260, 500)):
            pool = []
            for _ in range(r.randint(2, 5)):
                x = r.random()
                if x < .45:
                    g = gen_lang.Gen(r, **SMALL)
                    t = list(gen_lang.Render(r, g.schema()).files('m', 0).values())[0].encode('latin-1', 'replace').decode('latin-1')
                    if r.random() < .4: t = '@import("%s")\n' % r.choice(['types file.cnd', 'more.cnd']) + t
                    if r.random() < .3: t = r.choice(['/// First line\n/// and second\n', '/// \xdcber\n', '']) + 'struct Extra { uint8 ea; uint16 eb; @expr(ea) uint32 ec; }\n' + t
                    if r.random() < .3: t = mutate.respace(r, t, r.choice([.1, .4]))
                elif x < .6: t = r.choice(GOOD)
                elif x < .75: t = r.choice(BAD + TEXTS)
                else:
                    t = r.choice(GOOD + pool)
                    for _ in range(r.randint(1, 3)):
                        a = r.randrange(len(t) + 1); b = min(len(t), a + r.randint(0, 12))
                        t = t[:a] + r.choice(['', '', r.choice('{}()[];:@"/*.,\n'), t[b:b + 20], '\u20ac', '/*', '"']) + t[b:]
                if '\0' not in t: pool.append(t)
            disk = {d: r.choice(pool) for d in DOCS if pool and r.random() < .5}
            s = Session(room(disk)); s.disk = disk
            opened, cur, n = set(), dict(disk), 0
            if r.random() < .8: s.req(r.choice([0, 1, 'init']), 'initialize', {'capabilities': {}, 'processId': None, 'rootUri': None}, r); s.note('initialized', {}, r)
            for _ in range(r.randint(4, 22)):
                d = r.choice(DOCS)
                x = r.random()
                n += 1
                id = r.choice([n, n, 'r%d' % n, 'a "quoted" \xe9 id %d' % n, -n, 2 ** 50 + n])
                if x < .2 and pool: t = r.choice(pool); s.open(d, t, r); opened.add(d); cur[d] = t
                elif x < .4 and pool and opened:
                    d = r.choice(sorted(opened)); t = r.choice(pool); s.change(d, t, r, [r.choice(pool) for _ in range(r.choice([0, 0, 0, 1, 2]))]); cur[d] = t
                elif x < .47:
                    s.close(d, r)
                    if d in opened: opened.discard(d); cur.pop(d, None); cur.update({d: disk[d]} if d in disk else {})
                elif x < .52: s.save(d, r)
                elif x < .85:
                    for _ in range(r.choice([1, 1, 2, 4])):
                        n += 1
                        ln, ch = positions(r, cur.get(d, ' '))
                        s.query(n, r.choice(Q[:3] * 2 + Q[3:]), d, ln, ch, r)
                elif x < .88: s.req(id, r.choice(['textDocument/rename', 'workspace/symbol', '$/x', '', 'Initialize', 'textDocument/didOpen', 'textDocument/didClose', 'initialized']), r.choice([{}, None, [], {'textDocument': {'uri': s.uri(d)}}]), r)
                elif x < .91: s.note(r.choice(['$/cancelRequest', 'workspace/didChangeConfiguration', 'x', 'textDocument/hover', 'textDocument/formatting', 'shutdown', 'initialize']), r.choice([{}, None, {'id': 1}, {'textDocument': {'uri': s.uri(d)}, 'position': {'line': 0, 'character': 0}}]), r)
                elif x < .94:      # parameters that are not complete
                    u = {'uri': s.uri(d)}
                    p = r.choice([None, {}, [], 5, 'x', {'textDocument': None}, {'textDocument': {}}, {'textDocument': {'uri': 5}}, {'textDocument': [u]}, {'textDocument': u}, {'textDocument': u, 'position': None}, {'textDocument': u, 'position': {}}, {'textDocument': u, 'position': {'line': '1', 'character': 0}},
                                  {'textDocument': u, 'position': {'line': 0}}, {'textDocument': u, 'position': {'line': -1, 'character': -1}}, {'textDocument': u, 'position': {'line': 1e300, 'character': 1e300}}])
                    if r.random() < .6: s.req(n, 'textDocument/' + r.choice(Q[:3]), p, r, d=d, ok=0)
                    else: s.note('textDocument/' + r.choice(['didOpen', 'didChange', 'didClose', 'didSave']), r.choice([None, {}, [], {'textDocument': {}}, {'textDocument': {'uri': 5}, 'text': 5}, {'textDocument': {'uri': [], 'text': {}}},
                                  {'contentChanges': []}, {'textDocument': {'uri': None}, 'contentChanges': {'text': 1}}, {'textDocument': {'uri': 7}, 'contentChanges': [5]}, {'textDocument': {'uri': 7}, 'contentChanges': [{'text': 5}]}]), r, d=d, ok=0)
                elif x < .97: s.junk(r.choice([b'', b'{', b'nonsense', b'[1, 2]', b'5', b'null', b'"x"', b'{}', b'{"jsonrpc":"2.0"}', b'{"jsonrpc":"2.0","method":5}', b'{"method":', b'\xff\xfe{}', b'[' * 2000, b'{"a":' * 1200, b'{"id":{},"x":1']))
                elif x < .985: s.add('resp', 'response', {'jsonrpc': '2.0', 'id': n, 'result': None})
                elif x < .99: s.req(id, 'shutdown', None, r)
                else: s.note('exit', None, r)
            if r.random() < .1 and s.msgs: s.msgs[-1] = (dict(s.msgs[-1][0], k='junk', m='junk'), r.choice([s.msgs[-1][1][:-2], b'Content-Length: 99999999\r\n\r\n{}', b'Content-Length: 1', b'X: y\r\n', b'Content-Length: 18446744073709551615\r\n\r\n{"jsonrpc": "2.0"}']))
            sessions.append(s)
        recs = judge(sessions, slow=30)
        for _, show, s in recs[:2]: chk.sample({'messages': show['messages'][:6], 'output': show['output'][:800]})
        chk.cov['long_histories'] = chk.cov.get('long_histories', 0) + len(recs)
        shutil.rmtree(top, ignore_errors=True)
