from vmlib import *

def main(chk):
    host = build_host(chk.work)
    r = chk.rng
    rounds = chk.n(1, 10)
    for rnd in range(rounds):
        if chk.left() < 60:
            break
        cmds = []
        for i in range(chk.n(2500, 3000)):
            cmds += rand_cmds(r, i, gen_il.program(r, r.choice(list(gen_il.FOCUS))))
        run_and_validate(chk, host, cmds)
        if chk.violations:
            break
    chk.assumptions += ['random programs of up to 400 bytes and messages of up to 64 bytes; runs with more than 200 notifications are not followed']
