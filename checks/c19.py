"""The Go binding: the same runs as through the C interface. The answers of the
scripted host are those of a run of the C interface; what the Go host sees is
validated by TLC against the same machine."""
from langlib import *
import gen_il, vmlib, images as program_images

GO = os.path.join(VERIF, 'harness', 'gohost')

def gobuild(chk, name, flags=()):
    w = os.path.join(chk.work, 'gomod')
    env = dict(os.environ, HOME=chk.work, GOCACHE=os.path.join(chk.work, 'gocache'), GOPATH=os.path.join(chk.work, 'gopath'), GOTMPDIR=chk.work,
               GOFLAGS='-mod=mod', GOTOOLCHAIN='local', GOPROXY='off', GOSUMDB='off', GOTELEMETRY='off', CGO_ENABLED='1', CC='gcc')
    for v in ('CGO_CFLAGS', 'CGO_LDFLAGS'): env.pop(v, None)
    r = subprocess.run(['go', 'build', *flags, '-o', os.path.join(chk.work, name), '.'], cwd=w, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout

def consts_of(text):
    """names with a number, in any of the languages generated"""
    return {m.group(1): int(m.group(2), 0) for m in re.finditer(r'^\s*(\w+)(?:\s+\w+)?\s*=\s*(0[xX][0-9a-fA-F]+|-?\d+)\s*,?\s*$', text, re.M)}

def prepare(chk):
    """the module; returns the constants found in the sources"""
    w = os.path.join(chk.work, 'gomod')
    os.makedirs(w, exist_ok=True)
    for f in ('main.go', 'fill.go'): shutil.copy(os.path.join(GO, f), w)
    mod = re.search(r'^module\s+(\S+)', open(os.path.join(REPO, 'go.mod')).read(), re.M).group(1)
    ver = re.search(r'^go\s+(\S+)', open(os.path.join(REPO, 'go.mod')).read(), re.M).group(1)
    if mod != 'github.com/Toyz/concordia': raise ToolError('module ' + mod)
    with open(os.path.join(w, 'go.mod'), 'w') as f:
        f.write('module gohost\n\ngo %s\n\nrequire %s v0.0.0\n\nreplace %s => %s\n' % (ver, mod, mod, REPO))
    names = sorted(n for n in consts_of(open(os.path.join(REPO, 'go', 'consts.go')).read()) if n[0].isupper())
    with open(os.path.join(w, 'dump.go'), 'w') as f:
        f.write('package main\n\nimport concordia "github.com/Toyz/concordia/go"\n\nfunc init() {\n\tconsts = map[string]int{\n')
        for n in names: f.write('\t\t"%s": int(concordia.%s),\n' % (n, n))
        f.write('\t}\n}\n')

def rungo(chk, binary, jobs, env=None, timeout=240):
    res = os.path.join(chk.work, 'go%d.json' % os.getpid())
    if os.path.exists(res): os.unlink(res)
    inp = '\n'.join(json.dumps(j) for j in jobs) + '\n'
    rc, msg = 0, ''
    try:
        p = subprocess.run([os.path.join(chk.work, binary), res], input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0', GORACE='halt_on_error=1 exitcode=66', **(env or {})), timeout=timeout, cwd=chk.work)
        rc, msg = p.returncode, p.stdout.decode('latin-1')
    except subprocess.TimeoutExpired:
        rc = 'out of time'
    out = [json.loads(l) for l in open(res)] if os.path.exists(res) else []
    if rc:
        cur = [o['begin'] for o in out if 'begin' in o]
        job = next((j for j in jobs if cur and (cur[-1] in ('run %s' % j.get('run'), 'load %s' % j.get('load')) or 'group' in j and cur[-1] == 'group ' + j['group'][0]['run'])), None)
        chk.violation('the program using the binding ends with %s at %s: %s' % (rc, cur[-1:] or '?', crash_text(msg)), {'job': job, 'output': msg[-3000:]})
    return [o for o in out if 'begin' not in o]

def go_jobs(r, progs, runs, once=.2):
    """the same programs and, for the Go host, the answers the C host gave"""
    jobs = []
    for p in progs:
        jobs.append({'load': p['prog'], 'img': bytes(p['raw']).hex(), 'names': [bytes(b).hex() for b in p.get('namesb', []) if b != [-2]]})
    rj = []
    for x in runs:
        rj.append({'run': x['case'], 'p': x['prog'], 'md': x['md'], 'init': bytes(x['init']).hex(), 'once': r.random() < once,
                   'ans': [{'v': bytes(e['v']).hex(), 'r': e['r']} for e in x['ev']]})
    i = 0
    k = 0
    while i < len(rj):
        t = r.random()
        if t < .12 and i + 16 <= len(rj):
            jobs.append({'group': rj[i:i + 16]}); i += 16
        elif t < .2 and i + 2 <= len(rj):
            jobs.append(dict(rj[i], inner=rj[i + 1], at=r.randrange(4))); i += 2
        else:
            jobs.append(rj[i]); i += 1
        k += 1
    return jobs

def judge_go(chk, out, runs, progs, what):
    """validate what the Go host saw"""
    crun = {x['case']: x for x in runs}
    byid = {p['prog']: j + 1 for j, p in enumerate(progs)}
    recs = []
    for o in out:
        if 'closed' in o: chk.violation('a closed program runs or has names', {}); continue
        if 'case' not in o: continue
        x = crun[o['case']]
        o['cur'], o['bit'] = x['cur'], x['bit']
        # addresses become positions in the message: the first tells where it starts
        base = next((g['a'] - c['o'] for g, c in zip(o['ev'], x['ev']) if g['a'] and c['o'] >= 0 and c['t'] == g['t'] and c['t'] not in ('arrf', 'arrd')), None)
        for g in o['ev']:
            a = g.pop('a')
            if g['t'] in ('arrf', 'arrd'): n = int.from_bytes(bytes(g['v']), 'little'); g['o'] = min(n, 1073741824)
            elif not a: g['o'] = -1
            elif base is not None and 0 <= a - base <= len(o['init']): g['o'] = a - base
            else:
                g['o'] = -1
                g['v'] = [0] * {'str1': 1, 'str2': 2, 'str4': 4}.get(g['t'], 1)
        o['p'] = byid[o['p']]
        recs.append(o)
    seen = {o['case'] for o in recs}
    v = validate(chk, 'GoTrace', recs, {'PROGS': progs})
    for i in sorted(v):
        o = recs[i]; x = crun[o['case']]
        bad = v[i] or ('' if o['err'] == x['err'] and len(o['ev']) == len(x['ev']) and o['buf'] == x['buf'] else
                       'result %d (%s), %d notifications, message %s; through the C interface %d, %d, %s' % (o['err'], o['text'], len(o['ev']), hexs(o['buf']), x['err'], len(x['ev']), hexs(x['buf'])))
        if bad: chk.violation('%s %s through the Go binding: %s' % (what, o['case'], bad), {'program': hexs(progs[o['p'] - 1]['raw']), 'go': o, 'c': x})
    chk.cov['go_runs'] = chk.cov.get('go_runs', 0) + len(recs)
    return seen

def part(chk, host, binary, nprog, nschema):
    r = chk.rng
    c = Corpus(chk)
    c.cmds.append('IMAGES')
    for i in range(nschema):
        pid = c.add(r, **r.choice([{}, dict(str=4), dict(opt=.5, optend=.5, str=3), dict(arr=.5, struct=3), dict(expr=3, ifs=2), dict(bits=4, unal=.5), dict(endian=.6, ord=.4, str=3), dict(tr=.6)]))
        std_runs(c, r, pid, n=2, refuse=.3)
        c.run('z%d' % pid, pid, 'd', '0', 'x', r.getrandbits(40)); c.run('y%d' % pid, pid, 'e', '0', 'z', r.getrandbits(40))
    cmds = list(c.cmds)
    for i in range(nprog):
        pid = nschema + i
        code = gen_il.program(r, r.choice(list(gen_il.FOCUS)))
        if code: cmds += vmlib.rand_cmds(r, pid, code)
    crash = []
    out = run_host(host, cmds, chk.work, on_crash=lambda cur, rc, msg: crash.append(cur))   # crashes of the C interface are for other checks
    progs = [o for o in out if 'prog' in o and not o['load'] and o['img']]
    for p in progs: p['raw'] = p['img']
    ok = {p['prog'] for p in progs}
    runs = [o for o in out if 'case' in o and o['p'] in ok and o['err'] != 97 and len(o['ev']) <= 200]
    for x in runs: x['prog'] = x['p']
    got = rungo(chk, binary, go_jobs(r, progs, runs))
    if not chk.violations:
        seen = judge_go(chk, got, runs, progs, 'run')
    if not chk.violations:
        lost = [x['case'] for x in runs if x['case'] not in seen]
        # a nested run happens only if the outer one comes to the notification
        if len(lost) > len(runs) // 8: raise ToolError('%d of %d runs without a record' % (len(lost), len(runs)))
        loaded = [o for o in got if 'prog' in o]
        for o in loaded:
            if o['load']: chk.violation('program %d does not load: %s' % (o['prog'], o['text']), {'image': hexs(o['img'])})
    for x in runs[:2]: chk.sample({'program': hexs(x['buf'])[:1] and hexs(next(p['raw'] for p in progs if p['prog'] == x['prog'])), 'mode': x['md'], 'result': x['err'], 'message': hexs(x['buf'])})
    c.clear()

def images(chk, host, binary, n):
    """loading: damaged images are refused, and the names are those of the image"""
    r = chk.rng
    ims = []
    while len(ims) < n:
        im = program_images.rand_image(r)
        if r.random() < .1: im = im[:r.randrange(5, 17)]
        if im[:5] == b'CNDIL': ims.append(im)
    cout = {o['prog']: o for o in run_host(host, ['IMAGES'] + ['IM %d %s' % (i, im.hex()) for i, im in enumerate(ims)], chk.work) if 'prog' in o}
    jobs = [{'load': i, 'img': im.hex(), 'names': [bytes(b).hex() for b in cout[i].get('namesb', []) if b != [-2]]} for i, im in enumerate(ims)]
    out = [o for o in rungo(chk, binary, jobs) if 'prog' in o]
    for o in out:
        if not o['load']: o['code'] = cout[o['prog']].get('code', [])     # not visible through the binding
    v = validate(chk, 'ImageTrace', out, {})
    for i in sorted(v):
        if v[i]: chk.violation('image %d through the Go binding: %s' % (out[i]['prog'], v[i]), {'image': hexs(out[i]['img']), 'result': out[i]['text']})
    for o in out:
        if o['load'] != cout[o['prog']]['load'] and not v[out.index(o)]:
            chk.violation('image %d: the Go binding reports %d (%s), the C interface %d' % (o['prog'], o['load'], o['text'], cout[o['prog']]['load']), {'image': hexs(o['img'])})
    chk.cov['go_images'] = chk.cov.get('go_images', 0) + len(out)

def constants(chk, binary):
    out = rungo(chk, binary, [])
    recs = [{'src': 'binding', 'c': o['consts']} for o in out if 'consts' in o]
    if not recs: raise ToolError('no constants')
    gen = build(chk.work, 'gen_bindings', [os.path.join(REPO, 'src', 'tools', 'gen_bindings.c')])
    for lang in ('go', 'python', 'ts'):
        p = subprocess.run([gen, os.path.join(REPO, 'include', 'concordia.h'), lang], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, text=True, errors='replace')
        if p.returncode: chk.violation('gen_bindings for %s fails (%s)' % (lang, p.returncode), {'output': p.stderr[-2000:]}); continue
        recs.append({'src': lang, 'c': consts_of(p.stdout)})
    v = validate(chk, 'GoConsts', recs, {})
    for i in sorted(v):
        if v[i]: chk.violation('constants (%s): %s' % (recs[i]['src'], v[i]), recs[i])

def main(chk):
    host = build_host(chk.work)
    prepare(chk)
    rc, msg = gobuild(chk, 'gohost', ['-asan'])
    if rc:
        chk.violation('the Go binding cannot be built: ' + ' '.join(msg.split())[:600], {'output': msg[-3000:]})
        return
    constants(chk, 'gohost')
    images(chk, host, 'gohost', chk.n(800, 3000))
    for k in range(chk.n(1, 8)):
        if chk.violations or k and chk.left() < 150: break
        part(chk, host, 'gohost', chk.n(300, 500), chk.n(120, 200))
    if chk.violations: return
    rc, msg = gobuild(chk, 'gorace', ['-race'])
    if rc: raise ToolError(msg[-2000:])
    for k in range(chk.n(1, 3)):
        if chk.violations or k and chk.left() < 100: break
        part(chk, host, 'gorace', 100, 60)
