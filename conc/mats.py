from .core import *
from .build_c import *
import itertools, math
def params(r,k):
    return [r.choice([ref.angle(r),np.float64(r.uniform(-9,9)),r.uniform(-1e-6,1e-6),r.uniform(-1e4,1e4)]) if r.random()<.5 else ref.angle(r) for _ in range(k)]
NAMES=list(ref.G)+list(ref.ALIASES)
@case('C03',4)
def library_matrices(t):
    r=t.r; g=NAMES[t.i%len(NAMES)]; cls=getattr(ops,g); base=ref.ALIASES.get(g,g); nq,np_,f,nc=ref.G[base]
    ps=params(r,np_); t.step(g,ps); want=f(*ps)
    if np_:
        how=r.randint(0,3)
        if how==0 and np_==1: op=cls(ps[0])
        elif how==1: op=cls(tuple(ps))
        elif how==2: op=cls(list(ps),qubits=[Qubit(str(i)) for i in range(nq)])
        else: op=cls(list(ps))
        ms=[op.matrix]
    else:
        op=cls() if r.random()<.5 else cls(qubits=[Qubit(str(i)) for i in range(nq)])
        ms=[op.matrix,cls.matrix] if r.random()<.5 else [cls.matrix,op.matrix]
    if r.random()<.3: ms.append(op.matrix)
    for M in ms:
        t.close(M,want,f'{g}({ps}).matrix',1e-9); t.close(np.asarray(M)@np.asarray(M).conj().T,np.eye(2**nq),f'{g}({ps}) unitary',1e-9)
    if np_ and issubclass(cls,ControlledOperation): pass
    if nc==1:
        tgt=cls.target_operation; T=tgt(list(ps)).matrix if np_ else tgt.matrix
        M=np.asarray(ms[0]); h=M.shape[0]//2
        t.close(M[:h,:h],np.eye(h),'control-0 half'); t.close(M[h:,h:],T,'control-1 half is the target gate'); t.close(M[:h,h:],0*M[:h,h:],'off-diagonal block'); t.close(M[h:,:h],0*M[:h,h:],'off-diagonal block')
@case('C03',2)
def sequences(t):
    """matrices of several gates and parameters read in any order do not influence each other"""
    r=t.r; made=[]
    for _ in range(r.randint(2,10)):
        if made and r.random()<.4: op,g,ps=r.choice(made)
        else:
            g=r.choice(list(ref.G)); ps=params(r,ref.G[g][1]); cls=getattr(ops,g); op=cls(list(ps)) if ps else cls(); made.append((op,g,ps))
        t.step(g,ps); t.close(op.matrix,mat(g,ps),f'{g}({ps}).matrix')
        if not ps and r.random()<.3: t.close(getattr(ops,g).matrix,mat(g,ps),f'{g}.matrix')
@case('C03',2)
def in_circuit_after(t):
    """matrices of operations that were applied in a circuit, read outside the context"""
    r=t.r; n=r.randint(3,5); c=new_circuit(t,n); L=[]
    with c.context as reg:
        for _ in range(r.randint(1,5)):
            g,ps,tg=pick(t,n); L.append((apply_op(t,reg.q,g,ps,tg),g,ps))
    if r.random()<.5: simulate(c)
    for op,g,ps in L: t.close(op.matrix,mat(g,ps),f'{g}({ps}).matrix')
@case('C03',1)
def custom_controlled_matrix(t):
    r=t.r; k=r.randint(1,3)
    if r.random()<.5:
        cls,f=custom_controlled(t,k,True); a=ref.angle(r); M=f(a); op=cls([a]); t.step(a)
    else:
        cls,M=custom_controlled(t,k); op=cls()
        if r.random()<.5: t.close(cls.matrix,ref.ctrl(M,k),'class matrix')
    t.close(op.matrix,ref.ctrl(M,k),'matrix of a user-defined controlled gate')
# ---------------------------------------------------------------- C04
from dwave.gate.tools.unitary import build_controlled_unitary, build_unitary
def cu_ref(ctl,tg,U,n): return ref.embed(ref.ctrl(U,len(ctl)),list(ctl)+[tg],n)
COMBOS=[(n,k,p) for n in range(2,6) for k in range(1,n) for p in itertools.permutations(range(n),k+1)]
@case('C04',4)
def all_index_combinations(t):
    if t.i>=len(COMBOS): raise Done()
    n,k,p=COMBOS[(t.i*7919)%len(COMBOS)]; r=t.r; g=np.random.default_rng(r.getrandbits(32))
    U=ref.unitary(r) if r.random()<.5 else g.normal(size=(2,2))+1j*g.normal(size=(2,2))
    ctl,tg=p[:-1],p[-1]; t.step('n',n,'controls',ctl,'target',tg,U.tolist())
    cs=list(ctl) if r.random()<.7 else tuple(ctl)
    if k==1 and r.random()<.4: cs=ctl[0]
    tt=tg if r.random()<.5 else [tg]
    before=U.copy()
    t.close(build_controlled_unitary(cs,tt,U,n),cu_ref(ctl,tg,U,n),'controlled unitary'); t.close(U,before,'U unchanged')
    m=max(p)+1
    if r.random()<.4: t.close(build_controlled_unitary(cs,tt,U),cu_ref(ctl,tg,U,m),'controlled unitary with default qubit count')
    if r.random()<.3: t.close(build_controlled_unitary(cs,tt,U,num_qubits=n),cu_ref(ctl,tg,U,n),'controlled unitary (keyword)')
@case('C04',1)
def larger(t):
    r=t.r; n=r.randint(6,8); k=r.randint(1,n-1); p=r.sample(range(n),k+1); U=ref.unitary(r); t.step(n,p,U.tolist())
    t.close(build_controlled_unitary(p[:-1],p[-1],U,n),cu_ref(p[:-1],p[-1],U,n),'controlled unitary')
@case('C04',1)
def rejected(t):
    r=t.r; n=r.randint(2,5); U=ref.unitary(r); kind=r.choice(['overlap','range','rangec','multi'])
    k=r.randint(1,n-1); p=r.sample(range(n),k+1); ctl,tg=p[:-1],p[-1]
    if kind=='overlap':
        c2=list(ctl); c2.insert(r.randint(0,len(c2)),tg); args=(c2 if r.random()<.8 else tg,tg if r.random()<.5 else [tg],U,r.choice([n,None]))
    elif kind=='range': args=(ctl,n+r.randint(0,3),U,n)
    elif kind=='rangec':
        c2=list(ctl); c2[r.randrange(len(c2))]=n+r.randint(0,3); args=(c2,tg,U,n)
    else: args=(ctl[:1] if len(ctl)>1 else [n],[tg]+[x for x in range(n) if x not in p][:2]+([n+1] if n-len(p)<1 else []),U,r.choice([None,n+3]))
    t.step(kind,args[0],args[1],args[3]); t.raises(lambda:build_controlled_unitary(*args),'build_controlled_unitary with '+kind,(ValueError,NotImplementedError))
# ---------------------------------------------------------------- C05
CGATES=[g for g in ref.G if ref.G[g][0]==1 or ref.G[g][3]==1]
def cfill(t,c,n,depth,p=None,special=True):
    """single-qubit and controlled gates; parameters numeric or variables of register p; -> list of (fn(params),targets,[param spec])"""
    r=t.r; exp=[]
    with c.context as reg:
        q=reg.q
        for _ in range(depth):
            if special and n>=2 and r.random()<.2:
                k=r.randint(1,min(3,n-1)); tg=r.sample(range(n),k+1)
                if r.random()<.5:
                    cls,f=custom_controlled(t,k,True); spec=[ref.angle(r)]
                    if p is not None and r.random()<.6: v=r.randrange(p); spec=[('v',v)]
                    cls([reg.p[s[1]] if isinstance(s,tuple) else s for s in spec],control=[q[i] for i in tg[:-1]],target=q[tg[-1]])
                    exp.append((lambda a,f=f,k=k:ref.ctrl(f(a),k),tg,spec)); t.step('spec',spec,tg)
                else:
                    cls,M=custom_controlled(t,k); cls(control=[q[i] for i in tg[:-1]],target=q[tg[-1]]); exp.append((lambda M=M,k=k:ref.ctrl(M,k),tg,[])); t.step(tg)
            elif special and r.random()<.08:
                cls,M=custom_single(t); i=r.randrange(n); cls(q[i]); exp.append((lambda M=M:M,[i],[])); t.step('on',i)
            else:
                g,ps,tg=pick(t,n,CGATES,2); spec=[('v',r.randrange(p)) if p is not None and r.random()<.7 else a for a in ps]
                apply_op(t,q,g,[reg.p[s[1]] if isinstance(s,tuple) else s for s in spec],tg); exp.append((ref.G[g][2],tg,spec))
    return exp
def uni(exp,n,vals=()):
    U=np.eye(2**n,dtype=complex)
    for f,tg,spec in exp: U=ref.embed(f(*[vals[s[1]] if isinstance(s,tuple) else s for s in spec]),tg,n)@U
    return U
@case('C05',3)
def unitary_of_circuit(t):
    r=t.r; n=r.choice([1,2,2,3,3,4]); c=new_circuit(t,n); exp=cfill(t,c,n,r.randint(0,7))
    t.close(build_unitary(c),uni(exp,n),'build_unitary')
    for _ in range(r.choice([0,0,1,2])):
        what=r.choice(['more','remove','again','param']); t.step('then',what); c.unlock()
        if what=='more': exp+=cfill(t,c,n,r.randint(1,3))
        elif what=='remove' and exp:
            i=r.randrange(len(exp)); op=c.circuit[i]; j=[x for x,o in enumerate(c.circuit) if o==op][0]; c.remove(op); del exp[j]
        t.close(build_unitary(c),uni(exp,n),'build_unitary of the current contents')
@case('C05',2)
def created(t):
    r=t.r; n=r.choice([1,2,2,3,3]); c=new_circuit(t,n); exp=cfill(t,c,n,r.randint(0,6))
    cls=create_operation(c,name=r.choice([None,'MyOp'])); t.ck(cls.num_qubits==n,'number of qubits of the created operation',cls.num_qubits,n)
    U=uni(exp,n); t.close(cls.matrix,U,'matrix of the created class'); t.close(cls().matrix,U,'matrix of an instance'); t.close(cls([Qubit(str(i)) for i in range(n)]).matrix,U,'matrix of an applied instance'); t.close(cls.matrix,U,'repeated')
    ops_before=list(c.circuit); t.same(c.circuit,ops_before,'circuit kept')
@case('C05',4)
def created_parametric(t):
    r=t.r; n=r.choice([1,2,2,3]); c=new_circuit(t,n,cls=ParametricCircuit); p=r.randint(1,4)
    with c.context as reg: reg.p[p-1]
    c.unlock(); exp=cfill(t,c,n,r.randint(1,6),p)
    if c.num_parameters!=p: raise Skip()
    cls=create_operation(c,name=r.choice([None,'MyOp']))
    t.ck(cls.num_qubits==n,'number of qubits',cls.num_qubits); t.ck(cls.num_parameters==p,'number of parameters',cls.num_parameters,p)
    insts=[]
    orig=[list(o.parameters) for o in c.circuit if isinstance(o,ParametricOperation)]
    for _ in range(r.randint(1,3)):
        vals=[ref.angle(r) for _ in range(p)]; t.step('values',vals); op=cls(list(vals)) if r.random()<.7 else cls(list(vals),qubits=[Qubit(str(i)) for i in range(n)]); insts.append((op,vals))
        t.close(op.matrix,uni(exp,n,vals),'matrix with parameters '+repr(vals))
    for op,vals in insts: t.close(op.matrix,uni(exp,n,vals),'matrix read again')
    t.ck([[x for x in o.parameters] for o in c.circuit if isinstance(o,ParametricOperation)]==orig and all(isinstance(a,Variable)==isinstance(b,Variable) for o,l in zip([o for o in c.circuit if isinstance(o,ParametricOperation)],orig) for a,b in zip(o.parameters,l)),'the circuit keeps its variables')
    for k in {0,p-1+1,p+2}-{p}: t.raises(lambda:cls([0.1]*k),f'{k} parameters instead of {p}')
@case('C05',1)
def nested_created(t):
    """created single-qubit operations used inside circuits that are turned into operations again"""
    r=t.r; c1=Circuit(1); e1=cfill(t,c1,1,r.randint(1,3)); A=create_operation(c1,'A'); UA=uni(e1,1)
    c0=ParametricCircuit(1)
    with c0.context as reg: ops.RX(reg.p[1],reg.q[0]); ops.RZ(reg.p[0],reg.q[0])
    B=create_operation(c0,'B'); fB=lambda a,b:ref.RZ(a)@ref.RX(b)
    n=r.randint(1,3); c=new_circuit(t,n); U=np.eye(2**n,dtype=complex)
    with c.context as reg:
        for _ in range(r.randint(1,5)):
            i=r.randrange(n)
            if r.random()<.5: A(reg.q[i]); M=UA
            else: a,b=ref.angle(r),ref.angle(r); B([a,b],reg.q[i]); M=fB(a,b); t.step('B',a,b)
            t.step('on',i); U=ref.embed(M,[i],n)@U
    t.close(build_unitary(c),U,'build_unitary with created operations')
    if n<=2:
        C=create_operation(c,'C'); t.close(C.matrix,U,'matrix of the nested operation')
