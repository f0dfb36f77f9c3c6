"""Obligations: one named proof goal each, discharged by z3 (cvc5 as a second back end)."""
import time, threading
import z3

class Oblig:
    __slots__=('name','func','prop','status','backend','time','detail','model','hyps','goal','line','kind')
    def __init__(self,name,func,hyps=None,goal=None,kind='vc',line=None):
        self.name=name; self.func=func; self.hyps=hyps; self.goal=goal; self.kind=kind
        self.status='open'; self.backend=None; self.time=0.0; self.detail=''; self.model=None; self.line=line; self.prop=None
    def row(self):
        return dict(obligation=self.name,function=self.func,kind=self.kind,status=self.status,backend=self.backend,
                    seconds=round(self.time,4),detail=self.detail)

STATS=dict(z3_time=0.0,cvc5_time=0.0,queries=0)

def prove(ob, timeout_ms=10000, tactic=None, use_cvc5=True, keep_model=True):
    """discharge ob: hyps |= goal.  status: proved | refuted (sat) | unknown"""
    t=time.time()
    s=z3.Solver() if tactic is None else tactic.solver()
    s.set('timeout',timeout_ms)
    try: s.set('random_seed',1)
    except z3.Z3Exception: pass
    for h in ob.hyps: s.add(h)
    s.add(z3.Not(ob.goal))
    r=s.check()
    dt=time.time()-t
    STATS['queries']+=1; STATS['z3_time']+=dt
    ob.time=dt; ob.backend='z3'
    if r==z3.unsat: ob.status='proved'
    elif r==z3.sat:
        ob.status='refuted'
        if keep_model:
            ob.model=s.model()
    else:
        ob.status='unknown'; ob.detail='z3: '+s.reason_unknown()
        if use_cvc5:
            t=time.time()
            r2=_cvc5(s.to_smt2(),timeout_ms)
            dt=time.time()-t; STATS['cvc5_time']+=dt; ob.time+=dt
            if r2=='unsat': ob.status='proved'; ob.backend='cvc5'
            elif r2=='sat': ob.status='refuted'; ob.backend='cvc5'; ob.detail='cvc5: sat'
    ob.hyps=None if ob.status=='proved' else ob.hyps
    return ob

def _cvc5(smt2,timeout_ms):
    try:
        import cvc5
        slv=cvc5.Solver(); slv.setOption('tlimit-per',str(timeout_ms)); slv.setLogic('ALL')
        p=cvc5.InputParser(slv); p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6,smt2,'ob')
        sm=p.getSymbolManager(); res=None
        while True:
            c=p.nextCommand()
            if c.isNull(): break
            out=c.invoke(slv,sm)
            o=str(out).strip()
            if o.startswith(('sat','unsat','unknown')): res=o.split()[0]
        return res
    except Exception as e:
        return 'error '+repr(e)[:80]
