from langlib import *
import explore

def group(c, pids):
    """several runs: each alone, each again after others, on threads, and inside one another"""
    r = c.chk.rng
    jobs = []
    for pid in pids:
        for j in range(2):
            buf = r.choice(['z', 'f5a']) if j == 0 else 'x' + bytes(r.choice([0, 1, 2, 3, 255, r.getrandbits(8)]) for _ in range(r.randrange(0, 50))).hex()
            jobs.append((pid, 'ed'[j], r.choice(['80', '80', '6', '0']), buf, r.getrandbits(40), r.choice([0] * 5 + [r.randrange(1, 9)]), r.choice([0, 0, 8, 256])))
    names = ['a%d.%d' % (pids[0], i) for i in range(len(jobs))]
    def put(tag, i, cmd='R'):
        c.run(tag + names[i], *jobs[i])
        if cmd != 'R': c.cmds[-1] = cmd + c.cmds[-1][1:]
    for i in range(len(jobs)): put('', i)
    order = list(range(len(jobs)))
    r.shuffle(order)
    for i in order:                       # the context keeps what the run before left in it
        put('r', i); c.pair('same', names[i], 'r' + names[i])
    for k in range(2):
        for i in order: put('t%d' % k, i, 'T'); c.pair('same', names[i], 't%d' % k + names[i])
        c.cmds.append('GO')
    for k in range(6):
        i, j = r.choice(order), r.choice(order)
        put('n%d' % k, i, 'T'); put('m%d' % k, j, 'T')
        c.cmds.append('NEST %d%s' % (r.randrange(0, 9), r.choice(['', ' after'])))
        c.pair('same', names[i], 'n%d' % k + names[i]); c.pair('same', names[j], 'm%d' % k + names[j])

def fill(c):
    r = c.chk.rng
    group(c, [c.add(r, **r.choice([{}, dict(sw=6, depth=2), dict(sw=5, arr=.4, crc=2), dict(opt=.4, optend=.5), dict(tr=.6, arr=.4), dict(expr=3, ifs=2), dict(bits=4, unal=.5), dict(endian=.6, ord=.4)])) for _ in range(3)])

def main(chk):
    host = build_host(chk.work)
    explore.small(chk, host)
    rounds(chk, host, fill, chk.n(60, 150))
    # the same under a data race detector: programs are shared, contexts are not
    tsan = build_host(chk.work, flags=['-g', '-O1', '-fsanitize=thread', '-w'], name='tsan')
    c = Corpus(chk)
    for _ in range(chk.n(40, 100)): fill(c)
    settle(chk, tsan, c, compile_too=False)
