import sys; sys.path.insert(0, '/verif/lib')
from common import *
import gen_il
chk = Check('C25')
r = chk.rng
t=time.time()
host = '/tmp/host' if len(sys.argv)>2 else build_host(chk.work)
print('build', time.time()-t)
if len(sys.argv)>3: import random; r=random.Random(int(sys.argv[3]))
N=int(sys.argv[1])
cmds=[]
for i in range(N):
    p = gen_il.program(r, r.choice(list(gen_il.FOCUS)))
    cmds.append('BC %d %s' % (i, p.hex()))
    for key in range(10):
        if r.random()<.5:
            cmds.append('V %d %d %s' % (i, key, ','.join(le(r.choice([0,1,2,3,r.choice(gen_il.U64B)]),8).hex() for _ in range(3))))
    cap = r.choice([0,3,8,40,64])
    cmds.append('R e%d %d e %d %s %d %d %d' % (i,i,cap,r.choice(['z','ff','fff','f5a']) if False else r.choice(['z','fff','f5a']), r.getrandbits(40), r.choice([0]*6+[r.randrange(1,8)]), r.choice([0,0,2,4,8,32])))
    cmds.append('R d%d %d d = %s %d 0 0' % (i,i,'=', r.getrandbits(40)))
    cmds.append('R g%d %d d 0 %s %d %d 0' % (i,i, r.choice(['=^%d'%r.randrange(200), '=-%d'%r.randrange(1,5), 'x'+bytes(r.choice([0,1,2,3,255,r.randrange(256)]) for _ in range(r.randrange(0,40))).hex()]), r.getrandbits(40), r.choice([0]*6+[r.randrange(1,8)])))
def oc(cur, rc, msg): print('CRASH', cur, crash_text(msg))
t=time.time()
out = run_host(host, cmds, chk.work, on_crash=oc)
print('host', time.time()-t, len(out))
progs=[o for o in out if 'prog' in o]; runs=[o for o in out if 'case' in o]
ids={p['prog']:j+1 for j,p in enumerate(progs)}
for x in runs: x['p']=ids[x['p']]
import collections
print(collections.Counter(x['err'] for x in runs), sum(len(x['ev']) for x in runs))
runs=[x for x in runs if x['err']!=97 and len(x['ev'])<200]
t=time.time()
v=validate(chk,'VMTrace',runs,{'PROGS':progs})
print('tlc', time.time()-t, chk.cov)
bad=[(i,x) for i,x in v.items() if x]
print(len(bad),'bad')
for i,x in bad[:12]:
    print(x[:300]); print({k:runs[i][k] for k in ('case','md','err','cur','bit')}, 'init',bytes(runs[i]['init']).hex(),'code', bytes(progs[runs[i]['p']-1]['code']).hex()); print([ (e['t'],e['k'],bytes(e['v']).hex(),e['r']) for e in runs[i]['ev']][-6:])
