"""The formatter: schemas in every lay-out, formatted, formatted again, and compiled."""
from langlib import *
import gen_lang, mutate
from c16 import TEXTS

SMALL = dict(fields=(1, 5), structs=(0, 2), enums=(0, 2), depth=2, bigenum=0, bigsw=.02, alias=.1, long=0, imports=.15, arr=.3)

def main(chk):
    r = chk.rng
    host = build_host(chk.work)
    cnd = build_cnd(chk.work)
    d = os.path.join(chk.work, 'c17')
    def rd(p):
        return open(p, 'rb').read().decode('latin-1') if os.path.exists(p) else None
    for k in range(chk.n(1, 8)):
        if k and chk.left() < 120: break
        shutil.rmtree(d, ignore_errors=True)
        cmds, recs = ['IMAGES'], []
        def case(files, main):
            i = len(recs)
            for p, t in files.items():
                for v in ('a', 'b', 'c'): os.makedirs(os.path.dirname(os.path.join(d, str(i), v, p)), exist_ok=True)
                with open(os.path.join(d, str(i), 'a', p), 'wb') as f: f.write(t.encode('latin-1', 'replace'))
                cmds.append('FMT %d %s %s' % (2 * i, os.path.join(d, str(i), 'a', p), os.path.join(d, str(i), 'b', p)))
                cmds.append('FMT %d %s %s' % (2 * i + 1, os.path.join(d, str(i), 'b', p), os.path.join(d, str(i), 'c', p)))
            for v in (0, 1): cmds.append('SRC %d %s %s' % (2 * i + v, os.path.join(d, str(i), 'ab'[v], main), os.path.join(d, str(i), 'x%d.il' % v)))
            recs.append({'files': files, 'main': main})
        for q in range(chk.n(700, 1100)):
            g = gen_lang.Gen(r, **SMALL)
            s = g.schema()
            files = gen_lang.Render(r, s).files('m', g.w['imports'])
            if r.random() < .85: files = {p: mutate.respace(r, t, r.choice([.1, .3, .9])) for p, t in files.items()}
            if r.random() < .05: files = {p: r.choice([t.rstrip(), t + '/* open', t + '// end', t + '/* { ', '\n\n' + t, '\t ' + t, t.replace('\n', '\r\n'), t.replace('\n', ' ') if '//' not in t else t]) for p, t in files.items()}
            case(files, 'm.cnd')
        for t in TEXTS: case({'m.cnd': t}, 'm.cnd')
        def oc(cur, rc, msg):
            i = int(cur.split(' ')[-1]) // 2
            chk.violation('text %d: crash in %s: %s' % (i, cur, crash_text(msg)), {'source': recs[i]['files'], 'output': msg[-3000:]})
        rc = {o['compile']: o['rc'] for o in run_host(host, cmds, chk.work, on_crash=oc) if 'compile' in o}
        todo = []
        for i, x in enumerate(recs):
            if 2 * i not in rc or 2 * i + 1 not in rc: continue
            il = [open(os.path.join(d, str(i), 'x%d.il' % v), 'rb').read() if rc[2 * i + v] == 0 else b'' for v in (0, 1)]
            for p, t in x['files'].items():
                out, out2 = rd(os.path.join(d, str(i), 'b', p)), rd(os.path.join(d, str(i), 'c', p))
                if out is None or out2 is None: continue
                todo.append({'i': i, 'src': list(t.encode('latin-1', 'replace').decode('latin-1')), 'out': list(out), 'out2': list(out2), 'rc': rc[2 * i], 'rc2': rc[2 * i + 1], 'img': list(il[0]), 'img2': list(il[1])})
        v = validate(chk, 'FmtTrace', todo, {})
        for i in sorted(v):
            if v[i]: chk.violation('text %d: %s' % (todo[i]['i'], v[i]), {'source': ''.join(todo[i]['src']), 'formatted': ''.join(todo[i]['out']), 'again': ''.join(todo[i]['out2'])})
        chk.cov['formatted_schemas_that_compile'] = chk.cov.get('formatted_schemas_that_compile', 0) + len([x for x in todo if x['rc'] == 0])
        for x in todo[:2]: chk.sample({'source': ''.join(x['src']), 'formatted': ''.join(x['out'])})
        # the command line tool: to a file, to the terminal, in place
        for i in [x['i'] for x in todo[:40] if len(recs[x['i']]['files']) == 1]:
            src, want = os.path.join(d, str(i), 'a', 'm.cnd'), open(os.path.join(d, str(i), 'b', 'm.cnd'), 'rb').read()
            out = os.path.join(d, str(i), 'out.cnd')
            a = cli(cnd, ['fmt', src], chk.work)
            b = cli(cnd, ['fmt', src, out], chk.work)
            c = cli(cnd, ['fmt', src, src], chk.work)
            for what, x, text in (('to the terminal', a, a[1]), ('to a file', b, open(out, 'rb').read()), ('in place', c, open(src, 'rb').read())):
                if x[0] != 0 or text != want: chk.violation('cnd fmt %s: exit code %s, %s' % (what, x[0], 'text differs' if text != want else crash_text(x[2])), {'source': recs[i]['files'], 'got': text.decode('latin-1'), 'want': want.decode('latin-1')})
        for arg in ([os.path.join(d, 'missing.cnd')], [d], [d, os.path.join(d, 'o')], [os.path.join(d, '0', 'a', 'm.cnd'), os.path.join(d, 'no', 'such', 'o')]):
            x = cli(cnd, ['fmt'] + arg, chk.work)
            if x[0] in (0, 77, 'timeout') or x[0] < 0: chk.violation('cnd fmt %s: exit code %s %s' % (arg, x[0], crash_text(x[2])), {'arguments': arg, 'stderr': x[2][-2000:]})
        if chk.violations: break
