"""run.py PROP SEED BUDGET_S TIER OUT [--replay FAMILY INDEX SEED]: evaluate the cases of one property"""
import sys, json, time, hashlib, os, warnings
sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from conc import core
def main():
    prop,seed,budget,tier,out=sys.argv[1],sys.argv[2],float(sys.argv[3]),sys.argv[4],sys.argv[5]
    t0=time.time()
    import dwave.gate; src=os.path.dirname(dwave.gate.__file__)
    from conc import cases; cases.load(prop)
    fams=core.FAM[prop]; cur=open(out+'.cur','w')
    res=dict(prop=prop,violation=None,evaluations=0,distinct=0,samples=[],families={},tested=src)
    def one(fam,i,sd):
        cur.seek(0); cur.write(json.dumps([fam,i,sd])+' '*40); cur.flush()
        t,st,msg=core.run_case(prop,fam,i,sd,tier)
        return t,st,msg
    if '--replay' in sys.argv:
        k=sys.argv.index('--replay'); fam,i,sd=sys.argv[k+1],int(sys.argv[k+2]),sys.argv[k+3]
        t,st,msg=one(fam,i,sd); res['evaluations']=1
        if st in('violation','timeout'): res['violation']=dict(family=fam,index=i,seed=sd,message=msg,log=t.log)
        json.dump(res,open(out,'w')); return
    seen=set(); idx={f:0 for f in fams}; dead=set(); cost={f:1e-4 for f in fams}
    rounds=0; order=list(fams); timeouts=[]
    while len(dead)<len(order):
        # time is shared between the families by weight; every family gets at least two cases
        live=[f for f in order if f not in dead]
        if time.time()-t0>budget and all(idx[f]>=2 for f in live): break
        f=min(live,key=lambda f:(idx[f]>=2,cost[f]/fams[f][1]))
        a=time.time(); t,st,msg=one(f,idx[f],seed); cost[f]+=time.time()-a
        idx[f]+=1
        if st=='done': dead.add(f); idx[f]-=1; continue
        if st=='skip': continue
        res['evaluations']+=1
        h=hashlib.md5((f+'|'+'\n'.join(t.log)).encode()).hexdigest()
        if t.log and h not in seen:
            seen.add(h)
            if len([s for s in res['samples'] if s['family']==f])<1: res['samples'].append(dict(family=f,index=idx[f]-1,log=t.log[:25]))
        if st=='timeout': timeouts.append((f,idx[f]-1)); dead.add(f)
        if st=='violation':
            res['violation']=dict(family=f,index=idx[f]-1,seed=seed,message=msg,log=t.log); break
    res['distinct']=len(seen); res['families']=idx; res['exhausted']=sorted(dead); res['timeouts']=timeouts; res['wall']=time.time()-t0
    json.dump(res,open(out,'w'))
main()
