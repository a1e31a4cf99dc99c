import sys,time
sys.path.insert(0,'/verif')
from sim import check
prop=sys.argv[1]; g=sys.argv[2]; n=int(sys.argv[3]); st=int(sys.argv[4]) if len(sys.argv)>4 else 0
check.preload(prop) if prop in check.CHECKS else None
from sim.execute import execute
t=time.time(); stats={}; bad=0
for i in range(st,st+n):
    plan=check.make_plan(g,'x/%d'%i)
    r=execute(plan)
    for k,v in r['stats'].items(): stats[k]=stats.get(k,0)+v
    for v in r['violations']:
        bad+=1
        if bad<8: print(i,v)
print(n,'runs',time.time()-t,'s bad',bad); print(stats)
