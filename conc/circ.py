from .core import *
from .build_c import *
import contextlib
LABELS=['a','b','q','',0,1,False,'qreg0','qreg1','creg0',('x',1),None,2.5]
# ---------------------------------------------------------------- C09
class Side:
    """uniform view of the quantum / classical half of the circuit API"""
    def __init__(s,c,q):
        s.c=c; s.q=q; s.T=Qubit if q else Bit
        n=('qubit','qreg') if q else ('bit','creg')
        s.add=getattr(c,'add_'+n[0]); s.addreg=getattr(c,'add_'+n[1]+'ister'); s.get=getattr(c,'get_'+n[0]); s.find=getattr(c,'find_'+n[0]); s.lab=n[1]+'_label'
        s.m={}; s.nn='num_qubits' if q else 'num_bits'
    def regs(s): return s.c.qregisters if s.q else s.c.cregisters
    def items(s): return s.c.qubits if s.q else s.c.bits
    def num(s): return s.c.num_qubits if s.q else s.c.num_bits
    def flat(s): return [x for v in s.m.values() for x in v]
    def check(s,t,lookup=True):
        r=t.r; f=s.flat()
        order=['i','n','r']; r.shuffle(order)
        for o in order:
            if o=='i': t.same(s.items(),f,'circuit items')
            elif o=='n': t.eq(s.num(),len(f),s.nn); t.eq(len(s.items()),len(f),'length')
            else:
                t.ck(list(s.regs())==list(s.m),'register labels',list(s.regs()),list(s.m))
                for k in s.m: t.same(s.regs()[k],s.m[k],f'register {k!r}')
        t.ck(len({id(x) for x in s.items()})==len(f),'duplicates')
        if not lookup: return
        for i,(k,v) in enumerate(s.m.items()):
            for j,x in enumerate(v):
                if r.random()<.4:
                    t.ck(s.find(x)==(i,j),'find by index',s.find(x),(i,j)); a=s.find(x,True) if r.random()<.5 else s.find(x,**{s.lab:True}); t.ck(a[0] is k or a[0]==k and type(a[0])==type(k),'find by label',a,k); t.eq(a[1],j,'find by label')
                    t.ck(x in s.items() and s.items().index(x)==f.index(x) and s.items()[f.index(x)] is x,'position in the circuit')
        o=s.T('zz'); 
        if r.random()<.5 and not s.q: o.set(r.randint(0,1))
        t.raises(lambda:s.find(o),'find of a foreign item',ValueError)
        for L in r.sample(['0','1','2','a',0,'',None,'zz'],3):
            where=[None]+list(s.m); w=r.choice(where)
            pool=[x for x in (f if w is None else s.m[w]) if x.label==L]
            kw={} if w is None else {s.lab:w}
            if pool:
                t.ck(s.get(L,**kw) is pool[0],'get first by label',L,w); t.same(s.get(L,return_all=True,**kw),pool,'get all by label')
            else:
                t.raises(lambda:s.get(L,**kw),f'get of missing label {L!r} in {w!r}',ValueError); t.raises(lambda:s.get(L,return_all=True,**kw),'get all of a missing label',ValueError)
@case('C09',1)
def histories(t):
    r=t.r; nq=r.choice([None,0,1,2,3]); nb=r.choice([None,0,1,2,3]); c=r.choice([Circuit,Circuit,ParametricCircuit])(nq,nb); t.step('Circuit',nq,nb)
    S=[Side(c,True),Side(c,False)]
    for s,n in zip(S,(nq,nb)):
        if n is not None:
            t.ck(len(s.regs())==1,'one register'); k=list(s.regs())[0]; s.m[k]=list(s.regs()[k]); t.ck(len(s.m[k])==n and all(type(x) is s.T for x in s.m[k]),'initial items',s.m)
    other=Circuit(1,1); hist=[]
    for _ in range(r.randint(1,14)):
        s=r.choice(S); op=r.choice(['new','new','given','given','reg','reg','dup','wrong','reset','resetall','relabel','use'])
        t.step(s.nn,op)
        lab=r.choice(LABELS+list(s.m)) if r.random()<.6 else None; kw={} if lab is None else {s.lab:lab}
        if op in('new','given'):
            x=None
            if op=='given':
                x=s.T(r.choice(['a','0','1','',0]))
                if not s.q and r.random()<.7: x.set(r.randint(0,1))
                val=None if s.q else x.value; L=x.label
                if r.random()<.2: s2=other.qubits if s.q else other.bits; x=s2[0]; val=None if s.q else x.value; L=x.label
            t.step('label',lab)
            if x is not None and any(x is y for y in s.flat()):
                t.raises(lambda:s.add(x,**kw),'adding an item already in the circuit',ValueError)
                now=[y for v in s.regs().values() for y in v]; t.same(now,s.flat(),'items after a rejected addition')
                s.m={k:list(v) for k,v in s.regs().items()}
            else:
                key=lab if lab is not None else (list(s.m)[0] if s.m else None)
                if x is None:
                    s.add(**kw) if lab is None or r.random()<.5 else s.add(None,lab)
                else: s.add(x,**kw)
                if key is None: key=list(s.regs())[0]
                if key not in s.m: s.m[key]=[]
                got=list(s.regs()[key]); t.ck(len(got)==len(s.m[key])+1,'one item more in the register',got,s.m[key])
                if x is not None:
                    t.ck(got[-1] is x,'the given item itself is added',got,x); t.ck(x.label==L and (s.q or x.value==val),'label and value kept')
                t.ck(type(got[-1]) is s.T and all(got[-1] is not y for y in s.flat()),'a new item'); s.m[key].append(got[-1])
        elif op=='reg':
            n=r.randint(0,3); t.step('label',lab,'size',n)
            nk='num_qubits' if s.q else 'num_bits'
            f=lambda:(s.addreg(n,lab) if r.random()<.5 else s.addreg(**{nk:n},**({'label':lab} if lab is not None else {})))
            if lab is not None and lab in s.m: t.raises(f,'reusing a register label',ValueError)
            else:
                try: f()
                except ValueError:
                    t.ck(lab is None and any(str(k).endswith(str(len(s.m))) for k in s.m),'adding a register raised')
                    t.step('default label taken')
                else:
                    k=lab if lab is not None else list(s.regs())[-1]; t.ck(k not in s.m and k in s.regs(),'new register'); got=list(s.regs()[k]); t.ck(len(got)==n and all(type(x) is s.T for x in got) and all(x is not y for x in got for y in s.flat()),'fresh items',got); s.m[k]=got
        elif op=='dup' and s.flat():
            x=r.choice(s.flat()); t.raises(lambda:s.add(x,**kw),'adding an item already in the circuit',ValueError)
            now=[y for v in s.regs().values() for y in v]; t.same(now,s.flat(),'items after a rejected addition'); s.m={k:list(v) for k,v in s.regs().items()}
        elif op=='wrong':
            x=r.choice([(Bit if s.q else Qubit)('a'),'a',0,1,[],Variable('v'),[s.T('q')]]); t.step(x)
            t.raises(lambda:s.add(x,**kw),'adding something of the wrong type',TypeError)
        elif op=='reset': c.reset()
        elif op=='resetall':
            c.reset(keep_registers=False)
            for z in S: z.m={}
        elif op=='relabel' and s.flat(): x=r.choice(s.flat()); x.label=r.choice(['0','a','',0,'new'])
        elif op=='use' and S[0].flat():
            c.unlock()
            with c.context as reg: ops.X(reg.q[0]); t.same(reg.q,S[0].flat(),'context qubits'); t.same(reg.c,S[1].flat(),'context bits')
            if r.random()<.5: simulate(c) if len(S[0].flat())<7 else None
        for z in S:
            if r.random()<.7: z.check(t,r.random()<.6)
    for z in S: z.check(t)
# ---------------------------------------------------------------- C10
class Boom(Exception): pass
@case('C10',1)
def programs(t):
    r=t.r; cs=[]
    for i in range(r.randint(1,3)):
        p=r.random()<.3; c=(ParametricCircuit if p else Circuit)(r.randint(1,3),r.choice([None,1])); cs.append(c); t.step('circuit',i,type(c).__name__,c.num_qubits)
    M=[dict(ops=[],locked=False) for _ in cs]; st=dict(active=None,frozen=0,budget=r.randint(3,22))
    def verify():
        a=CircuitContext.active_context
        if st['active'] is None: t.ck(a is None,'no context should be active')
        else: t.ck(a is not None and a.circuit is cs[st['active']],'wrong active context'); t.ck(a.frozen==(st['frozen']>0),'frozen flag of the active context',a.frozen,st['frozen'])
        for c,m in zip(cs,M): t.same(c.circuit,m['ops'],'operations of a circuit'); t.ck(c.is_locked()==m['locked'],'locked',c.is_locked(),m['locked'])
    def construct(i,outside):
        c=cs[i]; q=c.qubits; n=len(q)
        k=r.choice(['X','CX','RX','Barrier','Measurement','custom'])
        if k=='CX' and n<2: k='X'
        if k=='X': return ops.X(q[r.randrange(n)])
        if k=='CX': a,b=r.sample(range(n),2); return ops.CX(q[a],q[b])
        if k=='RX': return ops.RX(r.uniform(0,3),q[r.randrange(n)])
        if k=='Barrier': return Barrier(list(q))
        if k=='custom':
            class Cst(Operation): _num_qubits=1
            return Cst(q[r.randrange(n)])
        return Measurement(q[r.randrange(n)])
    def block():
        while st['budget']>0:
            st['budget']-=1
            op=r.choice(['op','op','op','op','enter','enter','freeze','exit','raise','lock','unlock','reset','append','reapply','nope','call','extend'])
            a=st['active']
            if op=='op':
                i=a if a is not None and r.random()<.8 else r.randrange(len(cs))
                if a is None or st['frozen']:
                    o=construct(i,True); t.step('op on',i,'-> nowhere')
                elif i!=a:
                    t.step('op on foreign',i)
                    # qubits of another circuit: rejected
                    t.raises(lambda:construct(i,False),'operation on foreign qubits in a context',(ValueError,CircuitError))
                elif M[a]['locked']:
                    t.step('op on locked',a); t.raises(lambda:construct(a,False),'operation in a locked circuit',CircuitError)
                else: o=construct(a,False); M[a]['ops'].append(o); t.step('op on',i)
            elif op=='reapply' and a is not None and M[a]['ops'] and not M[a]['locked']:
                o=r.choice(M[a]['ops']); t.step('reapply')
                if isinstance(o,Measurement) and False: continue
                n=o()
                if not st['frozen']: M[a]['ops'].append(n)
                t.ck(n is not o,'reapplied operation is a new one')
            elif op=='enter':
                i=r.randrange(len(cs)); t.step('enter',i)
                if a is not None:
                    def f():
                        with cs[i].context: pass
                    t.raises(f,'entering a second context')
                elif M[i]['locked']:
                    def f():
                        with cs[i].context: pass
                    t.raises(f,'entering the context of a locked circuit',CircuitError)
                else:
                    fz=0
                    try:
                        with cs[i].context as reg:
                            st['active']=i; verify()
                            t.same(reg.q,list(cs[i].qubits),'context qubits'); block()
                    except Boom: t.step('boom caught')
                    st['active']=None; st['frozen']=0; M[i]['locked']=True; t.step('left',i)
            elif op=='freeze':
                t.step('freeze')
                src=cs[a].context if a is not None and r.random()<.5 and cs[a].context is CircuitContext.active_context else CircuitContext
                if a is None:
                    def f():
                        with src.freeze: pass
                    t.raises(f,'freezing without an active context',CircuitError)
                else:
                    b=st['frozen']
                    try:
                        with src.freeze: st['frozen']=b+1; verify(); block()
                    finally: st['frozen']=b
                    t.step('unfrozen')
            elif op=='exit' and a is not None: return
            elif op=='raise' and a is not None: t.step('boom'); raise Boom()
            elif op=='lock': i=r.randrange(len(cs)); cs[i].lock(); M[i]['locked']=True; t.step('lock',i)
            elif op=='unlock': i=r.randrange(len(cs)); cs[i].unlock(); M[i]['locked']=False; t.step('unlock',i)
            elif op=='reset':
                i=r.randrange(len(cs))
                if i==a: continue
                cs[i].reset(); M[i]=dict(ops=[],locked=False); t.step('reset',i)
            elif op in('append','extend'):
                i=r.randrange(len(cs)); 
                if a is not None and not st['frozen']: continue
                xs=[construct(i,True) for _ in range(1 if op=='append' else r.randint(0,3))]; t.step(op,i)
                f=lambda:cs[i].append(xs[0]) if op=='append' else cs[i].extend(xs)
                if M[i]['locked']:
                    if xs: t.raises(f,'appending to a locked circuit',CircuitError)
                else: f(); M[i]['ops']+=xs
            elif op=='nope':
                # a construction that fails must not append anything
                t.step('invalid construction')
                t.raises(lambda:ops.CX(qubits=[cs[0].qubits[0]]),'wrong qubit count')
                if a is not None: t.raises(lambda:ops.X(),'operation without qubits in a context')
                else: ops.X()
            elif op=='call' and a is not None and not M[a]['locked'] and not st['frozen']:
                inner=Circuit(1)
                for _ in range(r.randint(0,2)): o=None
                t.step('apply own circuit'); 
                t.raises(lambda:cs[a](cs[a].qubits) if not isinstance(cs[a],ParametricCircuit) else cs[a]([],cs[a].qubits),'applying a circuit in its own context')
            verify()
    while st['budget']>0:
        try: block()
        except Boom: t.ck(False,'exception left the context block without leaving the context')
    verify()
@case('C10',1)
def parametric_context(t):
    """same guarantees for parametric circuits whose variables are created in the context"""
    r=t.r; c=ParametricCircuit(2); n=0
    for k in range(r.randint(1,3)):
        t.step('round',k); boom=r.random()<.4
        try:
            with c.context as reg:
                t.ck(CircuitContext.active_context is not None and CircuitContext.active_context.circuit is c,'active')
                for _ in range(r.randint(0,3)): ops.RX(reg.p[r.randint(0,2)] if k==0 or True else .1,reg.q[0]); n+=1
                if r.random()<.5:
                    with c.context.freeze: ops.RX(.1,reg.q[0])
                if boom: raise Boom()
        except Boom: pass
        t.ck(CircuitContext.active_context is None,'context active after leaving'); t.ck(c.is_locked(),'locked after leaving'); t.eq(len(c.circuit),n,'number of operations')
        ops.X(c.qubits[0]); t.eq(len(c.circuit),n,'operation constructed outside'); c.unlock()
# ---------------------------------------------------------------- C11
ALL=list(ref.G)
def pre_use(t):
    """earlier uses of operation types that must not change what they accept"""
    r=t.r
    for _ in range(r.randint(0,4)):
        g=r.choice(ALL); cls=getattr(ops,g); nq,np_,_,_=ref.G[g]; P=[[.1]*np_] if np_ else []
        for what in r.sample(['cls.num_qubits','inst.num_qubits','cls.matrix','inst.matrix','bad','good','name','num_control'],2):
            try:
                if what=='cls.num_qubits': cls.num_qubits
                elif what=='inst.num_qubits': cls(*P).num_qubits
                elif what=='cls.matrix': cls.matrix
                elif what=='inst.matrix': cls(*P).matrix
                elif what=='bad': cls(*P,qubits=[Qubit(str(i)) for i in range(nq+1)])
                elif what=='good': cls(*P,qubits=[Qubit(str(i)) for i in range(nq)])
                elif what=='name': cls.name; cls(*P).name
                else: getattr(cls,'num_control',None)
            except ValueError: pass
            except Exception: pass
    t.step('after earlier uses')
def fresh_type(t):
    """user-defined types: counts must be checked however the type was used before"""
    r=t.r; k=r.choice(['single','multi','controlled','pcontrolled','param','free'])
    if k=='single':
        class A(Operation): _num_qubits=1
        return A,1,0,None
    if k=='multi':
        n=r.randint(2,4)
        class A(Operation): _num_qubits=n
        return A,n,0,None
    if k=='controlled':
        n=r.randint(1,3); base=r.choice([ops.CX,None])
        if base and n==1:
            class A(ops.CX): pass
        else:
            class A(ControlledOperation): _num_control=n; _num_target=1; _target_operation=ops.X
        return A,n+1,0,n
    if k=='pcontrolled':
        n=r.randint(1,2)
        class A(ParametricControlledOperation): _num_control=n; _num_target=1; _num_params=1; _target_operation=ops.RX
        return A,n+1,1,n
    if k=='param':
        p=r.randint(1,3); n=r.randint(1,2)
        class A(ParametricOperation): _num_qubits=n; _num_params=p
        return A,n,p,None
    return r.choice([Barrier,Measurement]),None,0,None
def a_type(t):
    r=t.r
    if r.random()<.4: return fresh_type(t)
    g=r.choice(ALL); nq,np_,_,_=ref.G[g]; cls=getattr(ops,g); return cls,nq,np_,(1 if issubclass(cls,ControlledOperation) else None)
@case('C11',.4)
def rejected_append(t):
    """appending an operation with a foreign qubit raises and leaves every operation in place, equal ones included"""
    r=t.r; n=r.randint(1,3); c=(ParametricCircuit if r.random()<.3 else Circuit)(n); F=[Qubit(f'f{i}') for i in range(3)]; O=[]
    mk=lambda q:r.choice([lambda:ops.X(q[0]),lambda:ops.RX(.5,q[0]),lambda:ops.CX(q[0],q[1]),lambda:Barrier(list(q[:2])),lambda:Measurement(q[0])])()
    for _ in range(r.randint(1,5)):
        q=[c.qubits[i] for i in range(n)]+F; o=mk(q[:2] if n>1 else [q[0],q[0]][:1]+[q[0]]) if n>1 else ops.X(q[0]); c.append(o); O.append(o); t.step('append',o.name)
    if r.random()<.7:
        o=r.choice(O); k=len(o.qubits); t.step('re-target',o.name)
        o.qubits=tuple(r.sample(F,k))
    for _ in range(r.randint(1,3)):
        b=mk(r.sample(F,2)) if r.random()<.6 else next((mk(list(o.qubits)+F) for o in O if o.qubits[0] in F),ops.X(F[0])); t.step('append foreign',b.name)
        t.raises(lambda:c.append(b),'appending an operation on foreign qubits',ValueError); t.same(c.circuit,O,'operations after a rejected append')
        for o in O:
            if o.qubits[0] in F:
                b=type(o)(*o.parameters,*o.qubits) if getattr(o,'parameters',None) else type(o)(list(o.qubits)) if type(o) is Barrier else type(o)(*o.qubits); t.raises(lambda:c.append(b),'appending an operation on foreign qubits',ValueError); t.same(c.circuit,O,'operations after a rejected append')
@case('C11',1)
def construct(t):
    r=t.r; pre_use(t); n=r.randint(1,5); c=new_circuit(t,n); other=Circuit(2); model=[]
    ctx=r.random()<.7
    def body(q):
        for _ in range(r.randint(1,8)):
            cls,nq,np_,nc=a_type(t); want=nq if nq is not None else r.randint(1,n)
            if want>n: continue
            cnt=want; pc=np_; foreign=False
            bad=r.random()
            if bad<.25 and nq is not None: cnt=r.choice([x for x in range(1,n+1) if x!=want] or [want])
            elif bad<.4 and np_: pc=r.choice([x for x in range(0,5) if x!=np_])
            elif bad<.5: foreign=True
            qs=r.sample(list(q),cnt)
            if foreign: qs[r.randrange(cnt)]=r.choice([other.qubits[0],Qubit('0')])
            ps=[r.choice([0,r.uniform(-3,3),1]) for _ in range(pc)]
            P=[] if not np_ else [ps if r.random()<.8 or pc!=1 else ps[0]]
            ok=cnt==want and pc==np_
            way=r.randint(0,3) if nc else r.randint(2,4)
            if nc and way<2 and (cnt<2 or cnt!=want): way=2
            t.step(cls.__name__,'qubits',cnt,'of',want,'params',pc,'of',np_,'way',way,'foreign',foreign,'ctx',ctx)
            if way==0: f=lambda:cls(*P,qs[:nc] if nc>1 or r.random()<.5 else qs[0],qs[nc])
            elif way==1: f=lambda:cls(*P,control=tuple(qs[:nc]),target=qs[nc:])
            elif way==2: f=lambda:cls(*P,qubits=tuple(qs))
            elif way==3: f=lambda:cls(*P,qubits=qs if cnt>1 else r.choice([qs,qs[0]]) if not nc else qs)
            else: f=lambda:cls(*P,qs if cnt>1 else qs[0])
            if not ok or (foreign and ctx):
                t.raises(f,'ill-formed operation accepted'); t.same(c.circuit,model,'circuit after a rejected operation'); continue
            op=f(); t.same(op.qubits,qs,'qubits of the operation'); t.eq(op.num_qubits,cnt,'num_qubits')
            if nc: t.same(op.control,qs[:nc],'control qubits'); t.same(op.target,qs[nc:],'target qubits')
            if np_: t.ck(list(op.parameters)==ps,'parameters',op.parameters,ps)
            if ctx: model.append(op); t.ck(c.circuit and c.circuit[-1] is op,'appended at the end')
            elif r.random()<.5:
                t.step('append')
                if foreign: t.raises(lambda:c.append(op),'appending an operation on foreign qubits',ValueError)
                else: c.append(op); model.append(op)
            t.same(c.circuit,model,'operations of the circuit')
            if r.random()<.4 and not foreign:
                # re-target
                k=r.choice([want,want,want+1,max(0,want-1)]) if nq is not None else want
                if k>n or (k==0): continue
                q2=r.sample(list(q),k); t.step('retarget to',k)
                if k!=want and nq is not None:
                    t.raises(lambda:setattr(op,'qubits',q2),'re-targeting with a wrong number of qubits'); t.same(op.qubits,qs,'qubits after a rejected re-targeting')
                    if nc: t.same(op.control,qs[:nc],'control after a rejected re-targeting'); t.same(op.target,qs[nc:],'target after a rejected re-targeting')
                else:
                    op.qubits=q2; t.same(op.qubits,q2,'re-targeted qubits')
                    if nc: t.same(op.control,q2[:nc],'re-targeted control'); t.same(op.target,q2[nc:],'re-targeted target')
            if r.random()<.2:
                t.step('call')
                q2=r.sample(list(q),want) if r.random()<.7 else r.sample(list(q),r.choice([x for x in range(1,n+1) if x!=want] or [want]))
                g=(lambda:op(q2)) if not nc else (lambda:op(q2[:nc],q2[nc:]))
                if nc and len(q2)<=nc: continue
                if nq is not None and len(q2)!=want: t.raises(g,'re-applying with a wrong number of qubits')
                else:
                    o2=g(); t.ck(o2 is not op,'new operation'); t.same(o2.qubits,q2,'qubits of the re-applied operation')
                    if np_: t.ck(list(o2.parameters)==list(op.parameters),'parameters of the re-applied operation')
                    if ctx: model.append(o2)
            t.same(c.circuit,model,'operations of the circuit')
    if ctx:
        with c.context as reg: body(reg.q)
    else: body(c.qubits)
    t.ck(all(any(x is y for y in c.qubits) for o in c.circuit for x in o.qubits),'every operation acts on qubits of the circuit')
@case('C11',1)
def counts_enumerated(t):
    """every library type x wrong counts x way of passing"""
    items=[(g,d,w) for g in ALL for d in (-2,-1,1,2) for w in ('kw','pos','split')]
    if t.i>=2*len(items): raise Done()
    g,d,w=items[(t.i*7919)%len(items)]; cls=getattr(ops,g); nq,np_,_,_=ref.G[g]; isc=issubclass(cls,ControlledOperation); P=[[.1]*np_] if np_ else []
    if t.i>=len(items): pre_use(t)
    k=nq+d
    if k<1 or (w=='split' and (not isc or k<2)): raise Skip()
    qs=[Qubit(str(i)) for i in range(k)]; t.step(g,k,w)
    f=(lambda:cls(*P,qubits=qs)) if w=='kw' or (isc and w=='pos') else (lambda:cls(*P,qs)) if w=='pos' else (lambda:cls(*P,control=qs[:k-1],target=qs[k-1:]))
    t.raises(f,f'{g} constructed with {k} qubits',ValueError)
    if np_:
        for pc in {0,1,2,3,4}-{np_}: t.raises(lambda:cls([.1]*pc,qubits=[Qubit(str(i)) for i in range(nq)]),f'{g} with {pc} parameters',ValueError)
        if np_>1: t.raises(lambda:cls(.1,qubits=[Qubit(str(i)) for i in range(nq)]),f'{g} with a single parameter',ValueError)
# ---------------------------------------------------------------- C21
def key(op): return (type(op).__name__,tuple(id(q) for q in op.qubits),tuple(op.parameters) if isinstance(op,ParametricOperation) else None)
@case('C21',3)
def removing(t):
    r=t.r; n=r.randint(1,3); c=new_circuit(t,n,2); par=r.choice([[.5],[.5,1.5],[0,.5]])
    few=r.sample(['X','Hadamard','RX','RZ','CX','CRX','SWAP','Rotation','CRotation'],3)
    def rnd(q):
        g=r.choice(few); 
        if ref.G[g][0]>n: g='X'
        nq,np_,_,_=ref.G[g]; ps=[r.choice(par) for _ in range(np_)]; tg=r.sample(range(n),nq); op=apply_op(t,q,g,ps,tg,r.choice([0,3])); return op
    with c.context as reg:
        for _ in range(r.randint(0,9)):
            x=r.random()
            if x<.1: Measurement(reg.q[0])|reg.c[0]
            elif x<.15: Barrier(list(reg.q))
            else: rnd(reg.q)
    m=list(c.circuit)
    for _ in range(r.randint(1,6)):
        if m and r.random()<.6: op=r.choice(m)
        else: op=rnd(c.qubits)
        if r.random()<.5 and op.qubits:
            # an equal operation that is another object
            op=type(op)(list(op.parameters),qubits=op.qubits) if isinstance(op,ParametricOperation) else type(op)(qubits=op.qubits)
        ks=[key(x) for x in m]; t.step('remove',key(op)[0],key(op)[2],'from',[k[0] for k in ks])
        if key(op) in ks:
            i=ks.index(key(op)); c.remove(op); del m[i]
        else: t.raises(lambda:c.remove(op),'removing an operation that is not in the circuit',ValueError)
        t.same(c.circuit,m,'operations after removal')
        if r.random()<.2: c.unlock(); 
@case('C21',2)
def resetting(t):
    r=t.r; P=r.random()<.3; n=r.randint(1,3); nb=r.randint(0,3); c=new_circuit(t,n,nb,cls=ParametricCircuit if P else Circuit)
    for rnd in range(r.randint(1,4)):
        n=c.num_qubits; nb=c.num_bits
        if n:
            c.unlock()
            with c.context as reg:
                for _ in range(r.randint(0,4)):
                    if P and r.random()<.5: ops.RX(reg.p[0],reg.q[0])
                    else: ops.X(reg.q[r.randrange(n)])
                if nb and r.random()<.6: Measurement(reg.q[0])|reg.c[0]
            if not P and r.random()<.6: simulate(c)
        for b in c.bits:
            if r.random()<.5: b.set(r.randint(0,1),force=True)
        if r.random()<.4: c.unlock()
        keep=r.choice([True,True,False,None]); q,b=list(c.qubits),list(c.bits); qr={k:list(v) for k,v in c.qregisters.items()}; cr={k:list(v) for k,v in c.cregisters.items()}
        t.step('reset keep_registers=',keep)
        c.reset() if keep is None else c.reset(keep_registers=keep) if r.random()<.7 else c.reset(keep)
        t.ck(c.circuit==[],'operations after reset',c.circuit); t.ck(c.is_locked() is False,'unlocked after reset')
        if keep is False:
            t.ck(len(c.qubits)==0 and len(c.bits)==0 and c.num_qubits==0 and c.num_bits==0 and not c.qregisters and not c.cregisters,'registers removed',c.qubits,c.bits)
            k=r.randint(1,3); c.add_qregister(k) if r.random()<.5 else [c.add_qubit() for _ in range(k)]; t.eq(c.num_qubits,k,'qubits after building anew'); t.eq(len(c.qubits),k,'qubits after building anew')
            if r.random()<.5: c.add_cregister(k); t.eq(c.num_bits,k,'bits after building anew')
        else:
            t.same(c.qubits,q,'qubits kept'); t.same(c.bits,b,'bits kept'); t.ck({k:list(v) for k,v in c.qregisters.items()}=={k:v for k,v in qr.items()} and list(c.cregisters)==list(cr),'registers kept')
            t.ck(all(x.value is None for x in c.bits),'bit values cleared',c.bits)
        if not P:
            with c.context as reg: o=ops.X(reg.q[0])
            t.same(c.circuit,[o],'rebuilt'); simulate(c)
            i=np.zeros(2**c.num_qubits); i[2**(c.num_qubits-1)]=1; t.close(c.state,i,'state of the rebuilt circuit'); c.reset()
