"""Images: what the loader makes of proper and damaged ones, and names."""
from langlib import *
import images, vmlib

def main(chk):
    host = build_host(chk.work)
    r = chk.rng
    for k in range(chk.n(1, 6)):
        if k and chk.left() < 150: break
        # names and numbers of compiled schemas: every notification names the field it is about
        c = Corpus(chk)
        c.cmds.append('IMAGES')
        for _ in range(chk.n(250, 400)):
            pid = c.add(r, **r.choice([dict(struct=4, structs=(1, 4), expr=3, const=3), dict(arr=.4, str=3), {}]))
            for j in range(2):
                c.run('e%d.%d' % (pid, j), pid, 'e', '100', 'z', r.getrandbits(40))
                c.run('d%d.%d' % (pid, j), pid, 'd', '0', '=', r.getrandbits(40))
        progs, _, _ = settle(chk, host, c)
        if chk.violations: break
        cmds = ['IMAGES'] + ['IM %d %s' % (i, images.rand_image(r).hex()) for i in range(chk.n(3000, 5000))]
        for p in progs:      # compiled images, damaged
            im = bytearray(p['img'])
            if len(im) > 500 or r.random() < .5: continue
            if r.random() < .3: im = im[:r.randrange(len(im) + 1)]
            for _ in range(r.randrange(1, 3)):
                if im: im[min(len(im) - 1, r.choice([r.randrange(20), r.randrange(len(im))]))] = r.choice([0, 1, 16, 255, r.getrandbits(8)])
            cmds.append('IM %d %s' % (len(cmds), bytes(im).hex()))
        def oc(cur, rc, msg):
            chk.violation('%s: crash: %s' % (cur, crash_text(msg)), {'commands': vmlib.cmd_of(cmds, cur), 'output': msg[-3000:]})
        out = [o for o in run_host(host, cmds, chk.work, on_crash=oc) if 'prog' in o] + [p for p in progs if len(p['img']) < 2000]
        v = validate(chk, 'ImageTrace', out, {})
        for i in sorted(v):
            if v[i]: chk.violation('image %d: %s' % (out[i]['prog'], v[i]), {'image': hexs(out[i]['img']), 'result': out[i]['load']})
        chk.cov['images'] = chk.cov.get('images', 0) + len(out)
        chk.cov['images_refused'] = chk.cov.get('images_refused', 0) + len([1 for o in out if o['load']])
        c.clear()
        if chk.violations: break
