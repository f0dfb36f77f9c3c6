#!/opt/veriftools/pyvenv/bin/python
"""check.py ID [--replay FILE]: decide one property for /repo's current working tree."""
import sys, os, json, time, tempfile, shutil, subprocess, threading, importlib, traceback, signal
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,HERE)
sys.dont_write_bytecode=True
from vlib import build, ded
T0=time.time()
SEED=int(os.environ.get('VERIF_SEED','1') or 1); TIER=os.environ.get('VERIF_TIER','quick')
BUDGET=dict(quick=40,thorough=420); WORKERS=dict(quick=3,thorough=7); HUNT=dict(quick=60,thorough=300)
RULE=('cases are deterministic functions of (property, family, index, seed) that build inputs with the public API, run the real '
      'library and evaluate the contract; a case counts as distinct and non-trivial if it performed at least one logged step and '
      'its step log differs from all earlier ones of its worker')

class Concrete:
    """evaluates the property's contract on the real code (scratch build of the tree) in several worker processes"""
    def __init__(s,prop,tree): s.prop=prop; s.tree=tree; s.k=0
    def start(s,budget,workers,only=None):
        ps=[]
        for w in range(workers):
            s.k+=1; out=os.path.join(s.tree,f'.conc{s.k}.json')
            seed=str(SEED if s.k==1 else SEED+1000003*(s.k-1))
            e=build.env(s.tree); e['PYTHONHASHSEED']=str(s.k%7)
            ps.append((subprocess.Popen([build.PY,'-B','-W','ignore',HERE+'/conc/run.py',s.prop,seed,str(budget),TIER,out]+(only or []),
                cwd=s.tree,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,start_new_session=True),out,seed))
        return ps
    def finish(s,ps,limit):
        """-> list of results; a worker that dies on a case is itself a result"""
        res=[]; end=time.time()+limit
        for p,out,seed in ps:
            try: txt,_=p.communicate(timeout=max(1,end-time.time())); rc=p.returncode
            except subprocess.TimeoutExpired:
                os.killpg(p.pid,signal.SIGKILL); txt,_=p.communicate(); rc='timeout'
            try:
                if os.path.exists(out): res.append(json.load(open(out))); continue
            except ValueError: pass       # died while writing it
            cur=None
            try: cur=json.loads(open(out+'.cur').read())
            except Exception: pass
            res.append(dict(crash=rc,output=txt[-1500:],cur=cur,seed=seed))
        return res
    def replay(s,v,limit=200):
        """a violation is only reported if it happens again in a fresh process"""
        ps=s.start(60,1,['--replay',v['family'],str(v['index']),str(v['seed'])])
        return s.finish(ps,limit)[0]

def judge(C,results,notes):
    """-> violation dict (replayed) or None"""
    for r in results:
        if 'crash' in r:
            if r['cur'] is None: raise RuntimeError('concrete part failed: '+r['output'][-600:])
            v=dict(family=r['cur'][0],index=r['cur'][1],seed=r['cur'][2],message=f'process ended with {r["crash"]}',log=[])
            r2=C.replay(v)
            if 'crash' in r2 and r2['crash']!='timeout' and not (isinstance(r2['crash'],int) and r2['crash']>0):
                v['message']=f'the process running the real code died with signal {r2["crash"]} on this case'; v['log']=[r2['output'][-800:]]; return v
            if r2.get('violation'): return r2['violation']
            if 'crash' in r2: raise RuntimeError('concrete part failed: '+str(r2)[-600:])
            notes.append(f'case {v["family"]}/{v["index"]} did not finish once; it did when repeated')
            continue
        v=r.get('violation')
        cand=[v] if v else []
        cand+=[dict(family=f,index=i,seed=r.get('seed',str(SEED)),message='timeout',log=[]) for f,i in r.get('timeouts',[])]
        for v in cand:
            r2=C.replay(v)
            if 'crash' in r2:
                v['log']=v['log']+['(replay ended with %s)'%r2['crash']]; return v
            if r2.get('violation'): return r2['violation']
            notes.append(f'case {v["family"]}/{v["index"]} failed once ({v["message"][:200]}) but not when repeated in a fresh process')
    return None

def main():
    prop=sys.argv[1]; notes=[]; tree=tempfile.mkdtemp(prefix='vtree')
    evd=os.path.join(HERE,'evidence'); os.makedirs(evd,exist_ok=True); rp=os.path.join(evd,f'{prop}.replay.json')
    try:
        if os.path.exists(rp) and '--replay' not in sys.argv: os.unlink(rp)
        if '--replay' in sys.argv:
            v=json.load(open(sys.argv[sys.argv.index('--replay')+1])); build.build(tree); C=Concrete(prop,tree)
            if 'family' not in v: print(json.dumps(v,indent=1)); return 1
            r=C.replay(v); print(json.dumps(r,indent=1)); return 1 if r.get('violation') or 'crash' in r else 0
        if os.path.exists(os.path.join(evd,prop+'.json')): os.unlink(os.path.join(evd,prop+'.json'))
        bt=time.time(); box={}
        def bld():
            try:
                box['how']=build.build(tree); C=box['C']=Concrete(prop,tree); box['ps']=C.start(BUDGET[TIER],WORKERS[TIER]); box['t']=time.time()
            except BaseException as e: box['err']=e
        th=threading.Thread(target=bld); th.start()
        D=ded.run(prop,TIER)                       # the deciding part: obligations from the current source
        th.join()
        if 'err' in box: raise box['err']
        C=box['C']; results=C.finish(box['ps'],BUDGET[TIER]*1.5+260)
        viol=judge(C,results,notes)
        # an invariant of a loop says how one loop establishes the contract: if it fails, inputs are searched for, but without one
        # the verdict is open (the loop may have been rewritten), whereas a failed postcondition, precondition or frame is a violation
        soft=[o for o in D['obligations'] if o['status']=='refuted' and o['kind']=='invariant']
        failed=[o for o in D['obligations'] if o['status']=='refuted' and o['kind']!='invariant']
        open_=soft+[o for o in D['obligations'] if o['status'] not in('proved','refuted')]
        if (failed or soft) and not viol:
            # look for a failing input for the failed obligations, with fresh seeds
            ps=C.start(HUNT[TIER],WORKERS[TIER]+3); r2=C.finish(ps,HUNT[TIER]*1.5+260); results+=r2; viol=judge(C,r2,notes)
        bounded=[o for o in D['obligations'] if o.get('bounded') and o['status']=='proved']; D['obligations']=[o for o in D['obligations'] if o not in bounded]
        if not D['obligations']: raise RuntimeError('no obligations were generated')
        ok=[r for r in results if 'evaluations' in r]
        ev=sum(r['evaluations'] for r in ok); dist=sum(r['distinct'] for r in ok)
        fams={}
        for r in ok:
            for f,n in r['families'].items(): fams[f]=fams.get(f,0)+n
        cov=dict(obligations=len(D['obligations']),discharged=sum(o['status']=='proved' for o in D['obligations']),
            checker_cmd=f'cd /verif && ./check.py {prop}',trusted_base=D['trusted'],
            functions_under_contract=D['functions'],backends=D['backends'],solver_seconds=round(D['solver_seconds'],2),
            undischarged=[{k:o[k] for k in('obligation','function','status','detail')} for o in failed+open_][:60],
            out_of_reach=D['unsupported'],bounded_stand_ins=D['bounded'],bounded_checks_held=[dict(o=o['obligation'],f=o['function'],t=o['seconds']) for o in bounded],obligation_list=[dict(o=o['obligation'],f=o['function'],k=o['kind'],s=o['status'],b=o['backend'],t=o['seconds']) for o in D['obligations']],
            evaluations=ev,distinct_nontrivial=dist,rule=RULE,families=fams,samples=(ok[0]['samples'] if ok else [])[:6],
            explanation='obligations/discharged: the deductive part, generated from the current source on this run; evaluations: '
            'contract evaluations on the real code (bounded; replays counter-models, validates the trusted contracts and stands in '
            'for what is listed under out_of_reach and bounded_stand_ins; never counted as proved)')
        level='proof'
        rec=dict(property=prop,tier=TIER,seed=SEED,level=level,coverage=cov,assumptions=D['assumptions'],wall_s=round(time.time()-T0,1),
                 violations=1 if (viol or failed) else 0,notes=notes)
        json.dump(rec,open(os.path.join(evd,prop+'.json'),'w'),indent=1)
        print(f'{prop}: {cov["discharged"]}/{cov["obligations"]} obligations discharged, {ev} contract evaluations, {len(D["unsupported"])} out of reach, {rec["wall_s"]} s')
        for o in failed+open_: print(f'  not discharged: {o["function"]}: {o["obligation"]} ({o["status"]}) {o["detail"][:160]}')
        for u in D['unsupported']: print('  out of reach:',u if isinstance(u,str) else json.dumps(u)[:200])
        for n in notes: print('  note:',n)
        known=[l.split('known:',1)[1].strip() for l in open(HERE+'/known-findings.txt') if l.startswith('known:')]
        if viol:
            for k in known:
                head,what=k.split('|',1)
                if f'property={prop}' in head.split() and head.split('match=',1)[1].strip() in viol['family']+': '+viol['message']:
                    print(f'KNOWN-FINDING: property={prop} {what.strip()}'); viol=None; break
        if not viol and not failed:
            return 0
        rec2=dict(property=prop,failed_obligations=failed,undischarged=open_,tier=TIER)
        if viol: rec2.update(viol)
        else: rec2['note']='no failing input was found; the failed obligations and the verifier output are listed above'
        json.dump(rec2,open(rp,'w'),indent=1,default=str)
        if viol:
            print(f'failing case {viol["family"]}/{viol["index"]} (seed {viol["seed"]}): {viol["message"][:700]}')
            for l in viol['log'][:30]: print('   ',l[:300])
            print(f'VIOLATION property={prop} replay={rp}')
        else: print(f'VIOLATION property={prop} replay={rp} no-failing-input-found')
        return 1
    finally:
        shutil.rmtree(tree,ignore_errors=True)
if __name__=='__main__':
    try: rc=main()
    except SystemExit: raise
    except BaseException: traceback.print_exc(); rc=3
    sys.stdout.flush(); os._exit(rc)
