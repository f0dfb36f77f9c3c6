from .core import *
from .build_c import *
import copy, warnings
def random_inner(t,n,nb,cls=Circuit,cond=True,depth=None,p=0,meas=True):
    """-> circuit, description list: dict(cls,params,q,ctl,tgt,bits,cond)"""
    r=t.r; c=new_circuit(t,n,nb,cls=cls); D=[]
    with c.context as reg:
        if p: reg.p[p-1]
        for _ in range(r.randint(0,8) if depth is None else depth):
            x=r.random(); d=dict(params=None,bits=None,cond=None,ctl=None,tgt=None)
            if x<.18 and meas:
                k=r.randint(1,n); s=r.sample(range(n),k); op=Measurement([reg.q[i] for i in s])
                if nb>=k and r.random()<.8: b=r.sample(range(nb),k); op|[reg.c[i] for i in b]; d['bits']=b
            elif x<.24: s=r.sample(range(n),r.randint(1,n)); op=Barrier([reg.q[i] for i in s])
            elif x<.32:
                k=r.randint(1,min(2,n)); K=k
                class U(Operation): _num_qubits=K
                s=r.sample(range(n),k); op=U([reg.q[i] for i in s])
            elif x<.48 and n>=2:
                k=r.randint(1,min(3,n-1)); s=r.sample(range(n),k+1); q=[reg.q[i] for i in s]
                if r.random()<.5:
                    M,f=custom_controlled(t,k,True); a=[ref.angle(r) if not p or r.random()<.4 else reg.p[r.randrange(p)]]; op=M(a,control=q[:k],target=q[k]) if r.random()<.5 else M(a,qubits=q); d['params']=a
                else: M,f=custom_controlled(t,k); op=M(control=q[:k],target=q[k]) if r.random()<.5 else M(qubits=tuple(q))
                d['ctl'],d['tgt']=s[:k],s[k:]
            elif x<.56:
                ci=ParametricCircuit(1) if r.random()<.5 else Circuit(1)
                s=[r.randrange(n)]
                K=type(ci) is ParametricCircuit
                Op=CREATED[K]; a=[ref.angle(r) if not p or r.random()<.4 else reg.p[r.randrange(p)]] if K else None; op=Op(a,qubits=reg.q[s[0]]) if K else Op(qubits=reg.q[s[0]]); d['params']=a
            else:
                g,ps,s=pick(t,n); ps=[a if not p or r.random()<.4 else reg.p[r.randrange(p)] for a in ps]; op=apply_op(t,reg.q,g,ps,s); d['params']=ps if ps else None
                if isinstance(op,ControlledOperation): d['ctl'],d['tgt']=s[:1],s[1:]
            d['cls']=type(op); d['q']=s
            if cond and nb and r.random()<.3: cs=r.sample(range(nb),r.randint(1,nb)); op.conditional([reg.c[i] for i in cs] if len(cs)>1 or r.random()<.5 else reg.c[cs[0]]); d['cond']=cs
            if d['params'] is not None: d['params']=list(d['params'])
            t.step(d['cls'].__name__,d['q'],'params',d['params'],'bits',d['bits'],'cond',d['cond']); D.append(d)
    return c,D
def _created():
    c0=Circuit(1)
    with c0.context as reg: ops.Hadamard(reg.q[0])
    c1=ParametricCircuit(1)
    with c1.context as reg: ops.RX(reg.p[0],reg.q[0])
    return {False:create_operation(c0,'Made'),True:create_operation(c1,'MadeP')}
CREATED=_created()
def compare(t,got,D,q,b,params=lambda x:x,havebits=True):
    t.eq(len(got),len(D),'number of appended operations')
    for op,d in zip(got,D):
        t.ck(type(op) is d['cls'],'type of the appended operation',type(op),d['cls'])
        t.same(op.qubits,[q[i] for i in d['q']],f'qubits of the appended {d["cls"].__name__}')
        if d['ctl'] is not None: t.same(op.control,[q[i] for i in d['ctl']],'control qubits'); t.same(op.target,[q[i] for i in d['tgt']],'target qubits'); t.ck(op.num_control==len(d['ctl']),'number of controls')
        if d['params'] is not None:
            w=[params(x) for x in d['params']]; gp=list(op.parameters); t.ck(len(gp)==len(w) and all(x is y or (not isinstance(x,Variable) and not isinstance(y,Variable) and x==y) for x,y in zip(gp,w)),'parameters of the appended operation',gp,w)
        if isinstance(op,Measurement):
            if d['bits'] is None or not havebits: t.ck(op.bits is None,'measurement should be unstored',op.bits)
            else: t.same(op.bits,[b[i] for i in d['bits']],'measured bits')
        if havebits:
            conds=list(op._cond or []); w=[b[i] for i in d['cond'] or []]
            t.ck(len(conds)==len(w) and all(any(x is y for y in w) for x in conds),'condition bits of the appended operation',conds,w)
            for x in b:
                pass
def snapshot(c):
    return [(op,type(op),tuple(op.qubits),tuple(op.parameters) if isinstance(op,ParametricOperation) else None,getattr(op,'control',None),getattr(op,'target',None),getattr(op,'bits',None),tuple(op._cond or ())) for op in c.circuit]
def unchanged(t,c,snap,what='applied circuit changed'):
    now=snapshot(c); t.ck(len(now)==len(snap),what)
    for a,b in zip(now,snap):
        t.ck(a[0] is b[0] and a[1] is b[1] and len(a[2])==len(b[2]) and all(x is y for x,y in zip(a[2],b[2])),what,a,b)
        t.ck((a[3] is None)==(b[3] is None) and (a[3] is None or len(a[3])==len(b[3]) and all(x is y or x==y and not isinstance(x,Variable) and not isinstance(y,Variable) for x,y in zip(a[3],b[3]))),what,a,b)
        for k in (4,5,6,7): t.ck((a[k] is None)==(b[k] is None) and (a[k] is None or len(a[k])==len(b[k]) and all(x is y for x,y in zip(a[k],b[k]))),what,a,b)
def setbits(t,bs):
    for b in bs:
        x=t.r.random()
        if x<.6: b.set(t.r.randint(0,1),force=True)
        elif x<.8: b.reset()
@case('C12',4)
def apply_circuit(t):
    r=t.r; n=r.randint(1,4); nb=r.randint(0,4); inner,D=random_inner(t,n,nb)
    N=n+r.randint(0,2); NB=nb+r.randint(0,2); outer=new_circuit(t,N,NB,cls=r.choice([Circuit,Circuit,ParametricCircuit])); snap=snapshot(inner); setbits(t,inner.bits); setbits(t,outer.bits)
    vals=[b.value for b in inner.bits],[b.value for b in outer.bits]
    with outer.context as reg:
        pre=[ops.X(reg.q[0])] if r.random()<.5 else []; done=0
        for _ in range(r.randint(1,3)):
            qi=r.sample(range(N),n); qs=[reg.q[i] for i in qi]; use=nb and r.random()<.75; bi=r.sample(range(NB),nb); bs=[reg.c[i] for i in bi]
            frozen=r.random()<.1
            t.step('apply to qubits',qi,'bits',bi if use else None,'frozen' if frozen else '')
            Q=qs[0] if n==1 and r.random()<.5 else tuple(qs) if r.random()<.3 else reg.q if qi==list(range(N)) and r.random()<.5 else qs
            B=None if not use else bs[0] if nb==1 and r.random()<.5 else tuple(bs) if r.random()<.3 else bs
            start=len(outer.circuit)
            with warnings.catch_warnings(record=True) as W:
                warnings.simplefilter('always')
                call=(lambda:inner(Q,B)) if r.random()<.5 or not use else (lambda:inner(qubits=Q,bits=B))
                if not use and r.random()<.5: call=lambda:inner(Q)
                if frozen:
                    with outer.context.freeze: call()
                else: call()
            if not use and any(issubclass(d['cls'],Measurement) for d in D): t.ck(len(W)>0,'no warning about unstored measurements')
            if frozen: t.eq(len(outer.circuit),start,'operations appended while frozen')
            else: compare(t,outer.circuit[start:],D,qs,bs,havebits=bool(use)); t.ck(all(a is b for a,b in zip(outer.circuit,pre)),'earlier operations'); 
            unchanged(t,inner,snap)
    t.ck(([b.value for b in inner.bits],[b.value for b in outer.bits])==vals,'bit values changed by applying')
@case('C12',1)
def nested(t):
    r=t.r; n=r.randint(1,3); nb=r.randint(1,3); a,D=random_inner(t,n,nb); mid=new_circuit(t,n+1,nb+1); p1=r.sample(range(n+1),n); b1=r.sample(range(nb+1),nb)
    with mid.context as reg: a([reg.q[i] for i in p1],[reg.c[i] for i in b1])
    out=new_circuit(t,n+2,nb+2); p2=r.sample(range(n+2),n+1); b2=r.sample(range(nb+2),nb+1); t.step('via',p1,b1,'to',p2,b2); setbits(t,mid.bits); setbits(t,out.bits)
    with out.context as reg: mid([reg.q[i] for i in p2],[reg.c[i] for i in b2])
    compare(t,out.circuit,D,[out.qubits[p2[i]] for i in p1],[out.bits[b2[i]] for i in b1])
@case('C12',2)
def rejected(t):
    r=t.r; n=r.randint(1,3); nb=r.randint(0,3); inner,D=random_inner(t,n,nb); snap=snapshot(inner); outer=new_circuit(t,n+2,nb+2); k=r.choice(['nq','nb','none','own','frozen_none'])
    t.step(k)
    if k in('none','frozen_none'):
        t.raises(lambda:inner(list(outer.qubits)[:n]),'applying outside a context',CircuitError); t.ck(not outer.circuit,'nothing appended')
    elif k=='own':
        inner.unlock()
        with inner.context as reg: t.raises(lambda:inner(reg.q),'applying a circuit in its own context')
    else:
        with outer.context as reg:
            ops.X(reg.q[0]); q=list(reg.q); b=list(reg.c)
            if k=='nq':
                m=r.choice([x for x in range(0,n+3) if x!=n]); qs=q[:m] if m!=1 or r.random()<.5 else q[0]; t.step(m); t.raises(lambda:inner(qs),'wrong number of qubits',ValueError)
            else:
                m=r.choice([x for x in range(1,nb+3) if x!=nb]); bs=b[:m] if m!=1 or r.random()<.5 else b[0]; setbits(t,b); t.step(m); t.raises(lambda:inner(q[:n],bs),'wrong number of bits',ValueError)
            t.eq(len(outer.circuit),1,'operations appended by a rejected application')
    unchanged(t,inner,snap)
@case('C12',1)
def simulated(t):
    """the outer circuit's state is the one obtained by performing the inner operations on the mapped qubits"""
    r=t.r; n=r.randint(1,3); inner=new_circuit(t,n); E=[]
    with inner.context as reg:
        for _ in range(r.randint(0,6)): g,ps,s=pick(t,n); apply_op(t,reg.q,g,ps,s); E.append((mat(g,ps),s))
    N=n+r.randint(0,2); out=new_circuit(t,N); psi=ref.zero(N)
    with out.context as reg:
        for _ in range(2):
            p=r.sample(range(N),n); t.step('on',p); inner([reg.q[i] for i in p])
            for M,s in E: psi=ref.apply(M,[p[i] for i in s],N,psi)
    simulate(out); t.close(out.state,psi,'state of the outer circuit')
# ---------------------------------------------------------------- C13
def value(r): return r.choice([0,0,0.0,1,-2,.5,r.uniform(-5,5),2+1j,0j])
PT=[(ops.RX,1),(ops.RY,1),(ops.RZ,1),(ops.Rotation,3),(ops.CRX,1),(ops.CRotation,3),(CREATED[True],1)]
def isv(x): return isinstance(x,Variable)
def eqp(a,b): return a is b or (not isv(a) and not isv(b) and a==b)
@case('C13',3)
def eval_operation(t):
    r=t.r; cls,k=r.choice(PT); vs=[Variable(x) for x in 'abcd']; ps=[]
    for v in vs:
        if r.random()<.6: v.set(value(r))
    for _ in range(k): ps.append(r.choice(vs) if r.random()<.7 else value(r))
    qs=[Qubit(str(i)) for i in range(cls.num_qubits)] if r.random()<.7 else None; op=cls(list(ps),qubits=qs) if qs else cls(list(ps))
    given=None if r.random()<.4 else [value(r) for _ in range(k)]; inplace=r.random()<.4; vals=[v.value for v in vs]
    t.step(cls.__name__,[('v',p.name,p.value) if isv(p) else p for p in ps],'given',given,'inplace',inplace)
    want=[p if not isv(p) else given[i] if given else p.value for i,p in enumerate(ps)]
    f=lambda:op.eval(given if r.random()<.5 or given is None else tuple(given),inplace=inplace) if inplace or r.random()<.5 else op.eval(given)
    if any(isv(p) and not given and p.value is None for p in ps):
        t.raises(f,'evaluating a variable without a value',ValueError)
        if not inplace: t.ck(all(eqp(a,b) for a,b in zip(op.parameters,ps)),'original changed',op.parameters)
    else:
        o=f(); t.ck((o is op)==inplace,'identity of the result'); t.ck(len(o.parameters)==k and all(eqp(a,b) and not isv(a) for a,b in zip(o.parameters,want)),'evaluated parameters',o.parameters,want); t.ck(type(o) is cls,'type')
        if qs: t.ck(tuple(o.qubits)==tuple(qs),'qubits of the evaluated operation')
        if not inplace: t.ck(len(op.parameters)==k and all(eqp(a,b) for a,b in zip(op.parameters,ps)),'original changed',op.parameters,ps)
    t.ck(all(v.value is w or v.value==w and w is not None for v,w in zip(vs,vals)),'variables changed')
@case('C13',3)
def eval_circuit(t):
    r=t.r; n=r.randint(1,3); nb=r.randint(1,3); p=r.randint(1,3); c,D=random_inner(t,n,nb,cls=ParametricCircuit,p=p,meas=r.random()<.7)
    vs=[]
    for d in D:
        for x in d['params'] or []:
            if isv(x) and not any(x is y for y in vs): vs.append(x)
    c.unlock()
    with c.context as reg: allv=list(reg.p)
    for v in allv:
        if r.random()<.7: v.set(value(r))
    setbits(t,c.bits); vals=[v.value for v in allv]; bv=[b.value for b in c.bits]; snap=snapshot(c)
    given=None
    if r.random()<.5: given=[[value(r) for _ in d['params']] if d['params'] is not None else r.choice([None,[]]) for d in D]
    inplace=r.random()<.3; t.step('values',vals,'given',given,'inplace',inplace)
    def want(i): return [x if not isv(x) else given[i][j] if given else x.value for j,x in enumerate(D[i]['params'])]
    f=lambda:c.eval(given,inplace=inplace) if inplace or r.random()<.5 else (c.eval(given) if given else c.eval())
    if any(d['params'] and any(isv(x) and not given and x.value is None for x in d['params']) for d in D):
        t.raises(f,'evaluating a variable without a value',ValueError)
        if not inplace: unchanged(t,c,snap,'original circuit changed')
    else:
        e=f(); t.ck((e is c)==inplace,'identity of the result'); t.eq(len(e.circuit),len(D),'number of operations')
        for i,(op,d) in enumerate(zip(e.circuit,D)):
            t.ck(type(op) is d['cls'],'type'); t.ck(tuple(op.qubits)==tuple(c.qubits[j] for j in d['q']),'qubits')
            if d['params'] is not None: w=want(i); t.ck(len(op.parameters)==len(w) and all(eqp(a,b) and not isv(a) for a,b in zip(op.parameters,w)),'evaluated parameters',op.parameters,w)
            if isinstance(op,Measurement) and d['bits'] is not None: t.same(op.bits,[e.bits[j] for j in d['bits']],'measured bits of the evaluated circuit')
            cs=list(op._cond or []); w=[e.bits[j] for j in d['cond'] or []]; t.ck(len(cs)==len(w) and all(any(x is y for y in w) for x in cs),'condition bits of the evaluated circuit',cs,w)
            t.ck(bool(op.is_blocked)==any(e.bits[j].value==0 and e.bits[j].value is not None for j in d['cond'] or []),'blocked state in the evaluated circuit')
        t.ck([b.value for b in e.bits]==bv,'bit values of the evaluated circuit')
        if not inplace:
            unchanged(t,c,snap,'original circuit changed'); t.ck(all(x is not y for x in e.bits for y in c.bits) ,'the copy has its own bits')
            for b in e.bits: b.set(0,force=True)
            t.ck([b.value for b in c.bits]==bv,'bits of the original changed through the copy')
            for op,d in zip(e.circuit,D): t.ck(bool(op.is_blocked)==bool(d['cond']),'conditions follow the copy\'s bits')
            for op,d in zip(c.circuit,D): t.ck(bool(op.is_blocked)==any(bv[j]==0 and bv[j] is not None for j in d['cond'] or []),'conditions of the original follow its own bits')
    t.ck(all(v.value is w or v.value==w for v,w in zip(allv,vals)),'variables changed',allv,vals)
@case('C13',4)
def apply_parametric(t):
    r=t.r; n=r.randint(1,3); nb=r.randint(0,2); p=r.randint(1,3); c,D=random_inner(t,n,nb,cls=ParametricCircuit,p=p); snap=snapshot(c); names=[v.name for v in c._parameter_register] if False else None
    outp=r.random()<.4; out=new_circuit(t,n+r.randint(0,1),nb,cls=ParametricCircuit if outp else Circuit); N=out.num_qubits; exp=[]
    c.unlock()
    with c.context as reg: vs=list(reg.p)
    ix={id(v):i for i,v in enumerate(vs)}; boom=r.random()<.15
    class Boom(Exception): pass
    try:
        with out.context as reg:
            ov=[reg.p[0],reg.p[1]] if outp and r.random()<.7 else []
            if ov and r.random()<.5: ops.RX(ov[0],reg.q[0]); exp.append((None,None,None,None))
            for _ in range(r.randint(1,3)):
                vals=[r.choice(ov) if ov and r.random()<.5 else value(r) for _ in range(p)]; qi=r.sample(range(N),n); bs=list(reg.c)
                t.step('apply',[('outer',v.name) if isv(v) else v for v in vals],qi); start=len(out.circuit)
                args=(vals if r.random()<.7 else tuple(vals),[reg.q[i] for i in qi])
                c(*args,bs) if nb else c(*args)
                compare(t,out.circuit[start:],D,[reg.q[i] for i in qi],bs,params=lambda x:vals[ix[id(x)]] if isv(x) else x,havebits=bool(nb))
                exp+=[(d,qi,bs,vals) for d in D]
            if boom: raise Boom()
    except Boom: pass
    t.ck(all(v.value is None for v in vs),'variables not reset when the context ended',vs)
    for op,(d,qi,bs,vals) in zip(out.circuit,exp):
        if d is not None: compare(t,[op],[d],[out.qubits[i] for i in qi],bs,params=lambda x:vals[ix[id(x)]] if isv(x) else x,havebits=bool(nb))
    t.eq(len(out.circuit),len(exp),'number of operations'); unchanged(t,c,snap)
    if not outp: t.ck(not any(isv(x) for op in out.circuit if isinstance(op,ParametricOperation) for x in op.parameters),'unresolved variable in a non-parametric circuit')
@case('C13',2)
def no_unresolved(t):
    r=t.r; n=2; c=new_circuit(t,n); m=[]
    with c.context as reg:
        for _ in range(r.randint(1,5)):
            cls,k=r.choice(PT); vs=[Variable('a'),Variable('b')]
            for v in vs:
                if r.random()<.7: v.set(value(r))
            ps=[r.choice(vs) if r.random()<.6 else value(r) for _ in range(k)]; q=[reg.q[i] for i in r.sample(range(2),cls.num_qubits)]; way=r.choice(['ctx','append'])
            t.step(cls.__name__,[('v',p.value) if isv(p) else p for p in ps],way)
            def f():
                if way=='ctx': return cls(ps,qubits=q)
                with c.context.freeze: o=cls(ps,qubits=q)
                c.append(o); return o
            if any(isv(p) and p.value is None for p in ps): t.raises(f,'unresolved variable accepted by a non-parametric circuit',ValueError)
            else: o=f(); w=[p.value if isv(p) else p for p in ps]; m.append(w)
            t.eq(len(c.circuit),len(m),'number of operations')
            for o,w in zip(c.circuit,m): t.ck(len(o.parameters)==len(w) and all(eqp(a,b) and not isv(a) for a,b in zip(o.parameters,w)),'parameters in a non-parametric circuit',o.parameters,w)
@case('C13',1)
def nested_parametric(t):
    """parametric circuits inside parametric circuits, evaluated through two levels"""
    r=t.r; a=ParametricCircuit(1)
    perm=r.sample(range(3),3)
    with a.context as reg:
        reg.p[2]
        ops.Rotation([reg.p[i] for i in perm],reg.q[0]); ops.RX(.25,reg.q[0]); ops.RZ(reg.p[1],reg.q[0])
    b=ParametricCircuit(2); sel=[r.randrange(2) for _ in range(3)]; num=r.choice([None,0,.5])
    with b.context as reg:
        reg.p[1]
        a([reg.p[s] if i or num is None else num for i,s in enumerate(sel)],reg.q[1]); ops.RY(reg.p[0],reg.q[0])
    c=Circuit(2); v=[value(r),value(r)]; t.step(perm,sel,num,v)
    with c.context as reg: b(v,reg.q)
    A=[v[s] if i or num is None else num for i,s in enumerate(sel)]
    got=[list(o.parameters) for o in c.circuit]; t.ck(got==[[A[i] for i in perm],[.25],[A[1]],[v[0]]],'parameters through two levels',got,A)
    t.same(c.circuit[0].qubits,[c.qubits[1]],'qubit'); t.same(c.circuit[3].qubits,[c.qubits[0]],'qubit')
