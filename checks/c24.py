from langlib import *
import explore, edges

def fill(c):
    r = c.chk.rng
    pid = c.add(r, **r.choice([dict(struct=6, structs=(2, 4), imports=.7, alias=.3, num=3), dict(struct=5, structs=(2, 4), arr=.3, ifs=1, sw=1, expr=2, tr=.3, rng=.3), dict(struct=4, structs=(1, 3), unal=.6, endian=.6, ord=.4), dict(alias=1, structs=(1, 4), struct=3, expr=2, sw=1, arr=.3, imports=.5)]))
    seeds = [r.getrandbits(40) for _ in range(3)]
    def runs(p, tag):
        for j, s in enumerate(seeds):
            c.run('e%d.%d%s' % (pid, j, tag), p, 'e', '150', 'z', s)
            c.run('d%d.%d%s' % (pid, j, tag), p, 'd', '0', '=', s + 1)
            c.run('g%d.%d%s' % (pid, j, tag), p, 'd', '0', '=^%d' % (s % 70), s + 2)
    runs(pid, '')
    # the same schema divided into files another way
    g, s = c.gens[pid], c.full[pid]
    q = c.add_rendered(r, g, s, r.choice([0, 1]))
    runs(q, 'i')
    for j in range(3):
        for x in 'edg': c.pair('same', '%s%d.%d' % (x, pid, j), '%s%d.%di' % (x, pid, j))
    # the packet as a struct, being the packet itself or its only field
    a = [d for d in s['decls'] if d['d'] == 'packet']
    if a:
        i = s['decls'].index(a[0])
        st = {'d': 'struct', 'name': 'Whole', 'un': 0, 'b': a[0]['b']}
        one = dict(s, decls=s['decls'][:i] + [st, {'d': 'alias', 'name': a[0]['name'], 'of': 'Whole'}] + s['decls'][i + 1:])
        q1 = c.add_rendered(r, g, one, 0)
        runs(q1, 'p')
        blocks = s['blocks'] + [[g.field('whole', 'Whole')]]
        two = dict(s, decls=s['decls'][:i] + [st, {'d': 'packet', 'name': a[0]['name'], 'b': len(blocks)}] + s['decls'][i + 1:], blocks=blocks)
        q2 = c.add_rendered(r, g, two, 0, 'whole.')
        runs(q2, 'q')
        for j in range(3):
            for x in 'edg':
                c.pair('same', '%s%d.%d' % (x, pid, j), '%s%d.%dp' % (x, pid, j))
                c.pair('inside', '%s%d.%d' % (x, pid, j), '%s%d.%dq' % (x, pid, j), 'whole.', '')

def main(chk):
    host = build_host(chk.work)
    explore.small(chk, host)
    edges.edges(chk, host)
    rounds(chk, host, fill, chk.n(160, 480))
