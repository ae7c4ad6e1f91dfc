"""Schema-level checks: random schemas are compiled by the real compiler and run
on the real VM; every recorded run, and the compiler's verdict on every schema,
is validated by TLC against spec/Schema and spec/ConcordiaLang (LangTrace)."""
from common import *
import gen_lang

class Corpus:
    def __init__(self, chk):
        self.chk, self.cmds, self.schemas, self.srcs, self.gens, self.pairs = chk, [], [], [], [], []
        self.full = []
        self.dir = os.path.join(chk.work, 'src')
        os.makedirs(self.dir, exist_ok=True)

    def add_source(self, schema, files, main):
        pid = len(self.schemas)
        for n, t in files.items():
            os.makedirs(os.path.dirname(os.path.join(self.dir, n)), exist_ok=True)
            with open(os.path.join(self.dir, n), 'w') as f:
                f.write(t)
        self.schemas.append(schema)
        self.srcs.append(files)
        self.gens.append(None)
        self.full.append(None)
        self.cmds.append('SRC %d %s %s' % (pid, os.path.join(self.dir, main), os.path.join(self.dir, '%d.il' % pid)))
        return pid

    def add(self, r, **focus):
        g = gen_lang.Gen(r, **focus)
        return self.add_rendered(r, g, g.schema(), g.w['imports'])

    def add_rendered(self, r, g, s, imports=0, prefix=''):
        pid = len(self.schemas)
        files = gen_lang.Render(r, s).files('m%d' % pid, imports)
        self.add_source(gen_lang.strip(s), files, 'm%d.cnd' % pid)
        self.gens[pid] = g
        self.full[pid] = s
        self.cmds += g.pool_cmds(pid, None, prefix)
        return pid

    def pair(self, *p): self.pairs.append(p)

    def clear(self): shutil.rmtree(self.dir, ignore_errors=True)

    def run(self, ident, pid, md, cap, spec, seed, refuse=0, flags=0):
        self.cmds.append('R %s %d %s %s %s %d %d %d' % (ident, pid, md, cap, spec, seed, refuse, flags))

def std_runs(c, r, pid, n=1, mutate=2, refuse=.1):
    """encode into a roomy buffer, decode the result, decode damaged or cut-off messages"""
    for j in range(n):
        cap = r.choice([200] * 12 + [0, 1, 5, 20])
        fl = 0 if r.random() < .85 else r.choice([2, 8, 4])
        ref = r.randrange(1, 12) if r.random() < refuse else 0
        c.run('e%d.%d' % (pid, j), pid, 'e', cap, r.choice(['z', 'z', 'fff', 'f5a']), r.getrandbits(40), ref, fl)
        c.run('d%d.%d' % (pid, j), pid, 'd', '0', '=', r.getrandbits(40), r.randrange(1, 12) if r.random() < refuse else 0)
        for q in range(mutate):
            spec = r.choice(['=^%d' % r.randrange(0, 160), '=-%d' % r.randrange(1, 6), '=~%d:%02x' % (r.randrange(0, 12), r.choice([0, 1, 2, 255, r.randrange(256)])),
                             'x' + bytes(r.choice([0, 1, 2, 3, 255, r.randrange(256)]) for _ in range(r.randrange(0, 40))).hex()])
            c.run('g%d.%d.%d' % (pid, j, q), pid, 'd', '0', spec, r.getrandbits(40))

def named(runs, progs):
    """turn key numbers into names"""
    names = {p['prog']: p.get('names', []) for p in progs}
    for x in runs:
        nm = names[x['p']]
        for e in x['ev']:
            if e['t'] in ('exit', 'arre'):
                e['k'] = ''
            else:
                e['k'] = nm[e['k']] if e['k'] < len(nm) and nm[e['k']] is not None else '?%d' % e['k']

def relate(chk, pairs, what, srcs=None):
    """judge pairs (relation, run, run[, text, text]) with spec/Relations"""
    recs = [{'rel': p[0], 'a': p[1], 'b': p[2], 'x': p[3] if len(p) > 3 else '', 'y': p[4] if len(p) > 4 else ''} for p in pairs]
    for lo in range(0, len(recs), 20000):
        part = recs[lo:lo + 20000]
        v = validate(chk, 'RelTrace', part, {})
        for i in sorted(v):
            if v[i]:
                chk.violation('%s: %s, %s: %s' % (what, part[i]['a']['case'], part[i]['b']['case'], v[i]), dict(part[i], source=srcs[part[i]['a']['s'] - 1] if srcs else None))
    chk.cov['pairs_of_runs_related'] = chk.cov.get('pairs_of_runs_related', 0) + len(recs)

def settle(chk, host, c, maxev=200, compile_too=True, endless=False):
    """run everything in the corpus and judge it; returns (programs, runs, compile results)"""
    def oc(cur, rc, msg):
        import vmlib
        t = vmlib.cmd_of(c.cmds, cur)
        pid = next((int(x.split(' ')[1]) for x in t if x.startswith('SRC')), None)
        chk.violation('%s: crash: %s' % (cur, crash_text(msg)), {'commands': t, 'source': c.srcs[pid] if pid is not None else None, 'output': msg[-3000:]})
    out = run_host(host, c.cmds, chk.work, on_crash=oc)
    comp = {o['compile']: o['rc'] for o in out if 'compile' in o}
    progs = [o for o in out if 'prog' in o]
    runs = [o for o in out if 'case' in o]
    for p in progs:
        if p['load']:
            chk.violation('schema %d: the compiled image does not load (%d)' % (p['prog'], p['load']), {'source': c.srcs[p['prog']]})
    if endless:     # runs cut off by the clock get a second chance with more time
        late = [x['case'] for x in runs if x['err'] == 97]
        if late:
            again = [q for q in c.cmds if q.split(' ')[0] != 'R'] + [q for q in c.cmds if q.split(' ')[0] == 'R' and q.split(' ')[1] in late[:6]]
            more = {o['case']: o for o in run_host(host, again, chk.work, env={'HOST_MS': '12000'}) if 'case' in o}
            runs = [more.get(x['case'], x) for x in runs if x['err'] != 97 or x['case'] in more]
    skipped = [] if endless else [x for x in runs if x['err'] == 97 or len(x['ev']) > maxev]
    for x in skipped:
        if x['err'] == 97:
            chk.cov['timeouts'] = chk.cov.get('timeouts', 0) + 1
    runs = [x for x in runs if endless and len(x['ev']) <= maxev or not (x['err'] == 97 or len(x['ev']) > maxev)]
    named(runs, [p for p in progs if not p['load']])
    for x in runs:
        x['s'] = x['p'] + 1
    by = {x['case']: x for x in runs}
    recs = list(runs)
    if compile_too:
        for pid, rc in sorted(comp.items()):
            recs.append({'case': 'compile%d' % pid, 'md': 2, 's': pid + 1, 'rc': rc, 'ev': []})
    for i, s in enumerate(c.schemas):
        s['use'] = 1 if comp.get(i, 1) == 0 else 0
    v = validate(chk, 'LangTrace', recs, {'SCHEMAS': c.schemas})
    for i in sorted(v):
        if v[i]:
            x = recs[i]
            pid = x['s'] - 1
            chk.violation('schema %d, %s: %s' % (pid, x['case'], v[i]), {'source': c.srcs[pid], 'run': x, 'commands': [q for q in c.cmds if len(q.split(' ')) > 2 and (q.split(' ')[0] != 'R' and q.split(' ')[1] == str(pid) or q.split(' ')[0] == 'R' and q.split(' ')[2] == str(pid))][:60]})
    todo = [(p[0], by[p[1]], by[p[2]]) + tuple(p[3:]) for p in c.pairs if p[1] in by and p[2] in by]
    if todo and not [1 for i in v if v[i]]:
        relate(chk, todo, 'runs', c.srcs)
    for x in runs[:3]:
        chk.sample({'schema': c.srcs[x['s'] - 1], 'mode': 'decode' if x['md'] else 'encode', 'result': x['err'],
                    'notifications': [[e['t'], e['k'], hexs(e['v'])] for e in x['ev'][:12]], 'message': hexs(x['buf'][:x['cur'] + 1])})
    return progs, runs, comp

def rounds(chk, host, fill, n, more=8):
    """fill(corpus) repeatedly, judging each corpus"""
    for k in range(chk.n(1, more)):
        if k and chk.left() < 120: break
        c = Corpus(chk)
        for i in range(n): fill(c)
        settle(chk, host, c)
        c.clear()
        if chk.violations: break
