"""Shared machinery of the checks: building the harness from /repo's working
tree, driving it, running TLC on what it recorded, and reporting."""
import json, os, re, shutil, subprocess, sys, tempfile, time, atexit, random, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
TLAJARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CORES = os.cpu_count() or 8
FLAGS = ['-g', '-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-w']
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1',
           UBSAN_OPTIONS='halt_on_error=1:exitcode=77', MSAN_OPTIONS='exitcode=77', LC_ALL='C')

class ToolError(Exception):
    pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

class Check:
    def __init__(self, prop, level='model_checking'):
        self.prop = prop
        self.level = level
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
        self.thorough = self.tier == 'thorough'
        self.t0 = time.time()
        self.rng = random.Random((self.seed, prop).__repr__())
        self.work = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        atexit.register(lambda: shutil.rmtree(self.work, ignore_errors=True))
        self.violations = []
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.assumptions = []
        self.known = load_known(prop)
        self.known_hit = []

    def n(self, quick, thorough=None):
        return (thorough if thorough is not None else quick * 8) if self.thorough else quick

    def left(self, budget=None):
        return (budget or (780 if self.thorough else 240)) - (time.time() - self.t0)

    def violation(self, what, replay):
        """replay: a dict with everything needed to see the failure again"""
        for k in self.known:
            if k in what or k in json.dumps(replay):
                if k not in self.known_hit:
                    self.known_hit.append(k)
                    print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
                return
        self.violations.append((what, replay))

    def sample(self, x):
        if len(self.cov['samples']) < 6:
            self.cov['samples'].append(x)

    def finish(self):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': self.cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if self.violations:
            d = os.path.join(VERIF, 'build', 'replay')
            os.makedirs(d, exist_ok=True)
            for i, (what, replay) in enumerate(self.violations[:5]):
                p = os.path.join(d, '%s-%d.json' % (self.prop, i + 1))
                with open(p, 'w') as f:
                    json.dump({'property': self.prop, 'what': what, 'replay': replay}, f, indent=1)
                print('VIOLATION property=%s replay=%s' % (self.prop, p))
                print('  ' + what[:1500])
            if len(self.violations) > 5:
                print('  and %d more' % (len(self.violations) - 5))
            sys.exit(1)
        print('PASS %s: %s in %.1fs' % (self.prop, {k: v for k, v in self.cov.items() if isinstance(v, int)}, time.time() - self.t0))
        sys.exit(0)

def load_known(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) match="(.*?)"', line)
            if m and m.group(1) == prop:
                out.append(m.group(2))
    return out

# --------------------------------------------------------------------------
# building

def build(work, name, sources, extra=(), cc='gcc', flags=None, defs=()):
    """compile the sources in parallel and link them into work/name"""
    objs = []
    jobs = []
    d = os.path.join(work, name + '.o')
    os.makedirs(d, exist_ok=True)
    for i, s in enumerate(sources):
        o = os.path.join(d, '%d.o' % i)
        objs.append(o)
        jobs.append([cc] + (flags or FLAGS) + list(defs) + ['-I' + REPO + '/include', '-I' + REPO + '/src/vm', '-I' + REPO + '/src/compiler',
                    '-I/opt/vp/shims/cjson', '-I/usr/include/cjson', '-c', s, '-o', o])
    with cf.ThreadPoolExecutor(CORES) as ex:
        for r in ex.map(sh, jobs):
            if r.returncode:
                raise ToolError('build of %s failed:\n%s' % (name, r.stdout[-3000:]))
    out = os.path.join(work, name)
    r = sh([cc] + (flags or FLAGS) + objs + ['-o', out] + list(extra))
    if r.returncode:
        raise ToolError('link of %s failed:\n%s' % (name, r.stdout[-3000:]))
    return out

def csrc(*dirs):
    out = []
    for d in dirs:
        p = os.path.join(REPO, 'src', d)
        out += sorted(os.path.join(p, f) for f in os.listdir(p) if f.endswith('.c'))
    return out

def build_host(work, flags=None, name='host', cc='gcc'):
    return build(work, name, [os.path.join(VERIF, 'harness', 'host.c')] + csrc('vm', 'compiler'), ['-lm', '-lpthread'], flags=flags, cc=cc)
MSAN = ['-g', '-O1', '-fsanitize=memory', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-w']

# --------------------------------------------------------------------------
# driving the harness

def run_host(host, cmds, work, timeout=600, on_crash=None, env=None):
    """Run the commands; returns the list of JSON objects written. A crash is
    reported to on_crash(what was running, output) and the rest of the commands
    is run by a new process (definitions are repeated)."""
    out = []
    todo = list(cmds)
    defs = []       # commands that define programs, to be repeated
    runid = 0
    t_end = time.time() + timeout
    while todo:
        runid += 1
        res = os.path.join(work, 'out%d-%d.json' % (os.getpid(), runid))
        inp = '\n'.join(todo) + '\n'
        err = os.path.join(work, 'err.txt')
        with open(err, 'w') as ef:
            try:
                p = subprocess.run([host, res], input=inp.encode(), stdout=ef, stderr=subprocess.STDOUT, env=dict(ENV, **(env or {})),
                                   timeout=max(5, t_end - time.time()), cwd=work)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = 'timeout'
        objs = []
        for line in open(res, errors='replace') if os.path.exists(res) else []:
            try:
                objs.append(json.loads(line))
            except ValueError:
                pass
        if os.path.exists(res):
            os.unlink(res)
        out += [o for o in objs if 'begin' not in o]
        if rc == 0:
            break
        begun = [o['begin'] for o in objs if 'begin' in o]
        msg = open(err, errors='replace').read()
        cur = begun[-1] if begun else '?'
        if on_crash is None or not begun:
            raise ToolError('harness failed (%s) at %s: %s' % (rc, cur, msg[-2000:]))
        on_crash(cur, rc, msg)
        # find the command that was running
        kind, ident = cur.split(' ', 1)
        idx = None
        for i, c in enumerate(todo):
            w = c.split(' ')
            if kind == 'load' and w[0] in ('BC', 'IL', 'IM') and w[1] == ident: idx = i
            if kind == 'compile' and w[0] == 'SRC' and w[1] == ident: idx = i
            if kind == 'format' and w[0] == 'FMT' and w[1] == ident: idx = i
            if kind in ('run', 'threads', 'nested') and w[0] in ('R', 'T', 'N') and w[1] == ident: idx = i
            if idx is not None:
                break
        if idx is None:
            raise ToolError('cannot locate %s' % cur)
        if kind in ('threads', 'nested'):
            while idx < len(todo) and todo[idx].split(' ')[0] not in ('GO', 'NEST'):
                idx += 1
        done = todo[:idx] if kind in ('load', 'compile', 'format') else todo[:idx + 1]
        redo = []
        for c in done:
            w = c.split(' ')[0]
            if w in ('BC', 'IM', 'IL', 'V', 'VS', 'VN', 'VM', 'HOLD', 'FREE', 'IMAGES'):
                redo.append(c)
            elif w == 'SRC':
                a = c.split(' ')
                if os.path.exists(a[3]):
                    redo.append('IL %s %s' % (a[1], a[3]))
        todo = redo + todo[idx + 1:]
        if not [c for c in todo if c.split(' ')[0] in ('R', 'GO', 'NEST', 'SRC', 'FMT', 'BC', 'IM', 'IL')] or len(todo) == len(redo):
            break
    return out

def crash_text(msg):
    m = re.search(r'(runtime error: .*|ERROR: AddressSanitizer: .*|WARNING: MemorySanitizer: .*|ERROR: ThreadSanitizer.*|WARNING: ThreadSanitizer.*)', msg)
    loc = re.search(r'#\d+ .*?(/repo/\S+)', msg)
    return (m.group(1)[:200] if m else msg[-300:]) + (' at ' + loc.group(1) if loc else '')

# --------------------------------------------------------------------------
# TLC

def java_classes(work):
    d = os.path.join(work, 'classes')
    if not os.path.isdir(d):
        os.makedirs(d)
        r = sh(['javac', '-cp', TLAJARS, '-d', d] + [os.path.join(VERIF, 'java', f) for f in os.listdir(os.path.join(VERIF, 'java')) if f.endswith('.java')])
        if r.returncode:
            raise ToolError('javac: ' + r.stdout)
    return d

def tlc(work, module, cfg=None, env=None, workers=None, args=(), timeout=800, heap='6g', ok_codes=(0,)):
    cls = java_classes(work)
    meta = tempfile.mkdtemp(prefix='tlc-', dir=work)
    cmd = ['java', '-Xss64m', '-Xmx' + heap, '-XX:+UseParallelGC', '-Djava.io.tmpdir=' + work, '-cp', cls + ':' + TLAJARS, 'tlc2.TLC', '-metadir', meta,
           '-noGenerateSpecTE', '-workers', str(workers or CORES), '-config', cfg or module + '.cfg'] + list(args) + [module + '.tla']
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError('TLC on %s: out of time' % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.search(r'(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found', p.stdout)
    st = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    if p.returncode not in ok_codes:
        raise ToolError('TLC on %s ended with %s:\n%s' % (module, p.returncode, p.stdout[-4000:]))
    return p.stdout, st, p.returncode

def write_nd(path, items):
    with open(path, 'w') as f:
        for x in items:
            f.write(json.dumps(x, separators=(',', ':')) + '\n')

def validate(chk, module, runs, files, key='case'):
    """Check recorded runs against a trace specification. files: name -> list of
    records for the environment variables of the specification. Returns
    {index: verdict text ('' = accepted)}."""
    if not runs:
        return {}
    env = {}
    for nm, items in dict(files, RUNS=runs).items():
        p = os.path.join(chk.work, '%s-%s.json' % (module, nm))
        write_nd(p, items)
        env[nm] = p
    try:
        out, st, _ = tlc(chk.work, module, env=env)
    except ToolError as e:
        # a run the specification cannot even be evaluated on: find it
        if 'out of time' in str(e) or 'OutOfMemory' in str(e) or 'Semantic errors' in str(e) or 'Parsing or semantic' in str(e) or 'arse error' in str(e):
            raise
        if len(runs) == 1:
            return {0: 'the specification has no such run: ' + ' '.join(str(e).split())[:600]}
        h = len(runs) // 2
        a = validate(chk, module, runs[:h], files, key)
        b = validate(chk, module, runs[h:], files, key) if not [x for x in a.values() if x] else {}
        return {**a, **{h + i: x for i, x in b.items()}}
    res = {}
    for m in re.finditer(r'^"?(OK|BAD) (\d+)(?: (.*?))?"?$', out, re.M):
        res[int(m.group(2)) - 1] = '' if m.group(1) == 'OK' else (m.group(3) or '?')
    missing = [i for i in range(len(runs)) if i not in res]
    if missing:
        raise ToolError('%s gave no verdict on %d runs, e.g. %s\n%s' % (module, len(missing), json.dumps(runs[missing[0]])[:800], out[-1500:]))
    chk.cov['states'] += st[1]
    chk.cov['transitions'] += max(0, st[0] - len(runs))
    chk.cov['traces_validated_against_impl'] += len(runs)
    return res

def hexs(b):
    return bytes(b).hex()

def le(v, n):
    return (v & ((1 << (8 * n)) - 1)).to_bytes(n, 'little')

def build_cnd(work, flags=None, name='cnd'):
    """the command line tool"""
    return build(work, name, csrc('cli', 'vm', 'compiler'), ['-lcjson', '-lm', '-lpthread'], flags=flags, defs=['-DCND_VERSION="0"', '-DCND_GIT_HASH="0"'])

def cli(cnd, args, cwd, stdin=b'', timeout=20):
    """run the command line tool; (exit code or 'timeout', stdout, stderr)"""
    try:
        p = subprocess.run([cnd] + args, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=ENV, timeout=timeout)
        return p.returncode, p.stdout, p.stderr.decode('latin-1')
    except subprocess.TimeoutExpired as e:
        return 'timeout', e.stdout or b'', (e.stderr or b'').decode('latin-1')
