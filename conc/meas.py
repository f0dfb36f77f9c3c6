from .core import *
from .build_c import *
import warnings, math
def proj(psi,q,b,n,le=False):
    if le: return ref.flip(proj(ref.flip(psi,n),q,b,n),n)
    t=psi.reshape((2,)*n).copy(); ix=[slice(None)]*n; ix[q]=1-b; t[tuple(ix)]=0; return t.reshape(-1)
class FixedRng:
    """a random source that returns given uniform draws, whatever drawing method is used"""
    def __init__(s,u): s.u=u; s.calls=0
    def _n(s,*a,**k): s.calls+=1; return s.u
    uniform=random=_n
def states(t,n):
    r=t.r; k=r.choice(['rand','rand','real','basis','ghz','skew','sparse'])
    if k=='rand': v=ref.randstate(r,n)
    elif k=='real': v=ref.randstate(r,n).real.astype(complex)
    elif k=='basis': v=np.zeros(2**n,complex); v[r.randrange(2**n)]=np.exp(1j*r.uniform(0,6))
    elif k=='ghz': v=np.zeros(2**n,complex); v[0]=.6; v[-1]+=.8j
    elif k=='skew': v=ref.randstate(r,n)*1e-3; v[r.randrange(2**n)]+=1
    else:
        v=ref.randstate(r,n); m=np.array([r.random()<.5 for _ in range(2**n)]); m[r.randrange(2**n)]=True; v=v*m
    v=v/np.linalg.norm(v); t.step('state',v.tolist()); return v
def outcome(q,psi,u,le,n,t):
    s=psi.copy(); g=FixedRng(u)
    m=sample_qubit(q,s,g,little_endian=le) if le else sample_qubit(q,s,g)
    if g.calls!=1: raise Skip()
    return m,s
@case('C06',4)
def born_rule(t):
    """the set of uniform draws giving 1 has exactly the Born measure, and the collapsed state is the normalized projection"""
    r=t.r; n=r.randint(1,4); q=r.randrange(n); le=r.random()<.3; psi=states(t,n); t.step('qubit',q,'little',le)
    p1=np.linalg.norm(proj(psi,q,1,n,le))**2
    try: m0,_=outcome(q,psi,0.0,le,n,t)
    except (AttributeError,TypeError): return statistical(t,psi,q,n,le,p1)
    thr=(1-p1) if m0==0 else p1
    def check(u,want):
        m,s=outcome(q,psi,u,le,n,t)
        t.ck(m==want,f'draw u={u!r} with P(1)={p1!r} gave {m}')
        c=proj(psi,q,m,n,le); t.close(s,c/np.linalg.norm(c),f'state after measuring {m}',1e-7)
    eps=1e-6
    if m0==0 and 1-p1<1e-15: t.ck(False,'outcome 0 although its probability is 0')
    for u in (thr-eps,thr*r.random(),thr+eps,thr+(1-thr)*r.random()):
        if 0<=u<thr-eps/2: check(u,m0)
        elif thr+eps/2<u<1: check(u,1-m0)
    s=psi.copy(); sample_qubit(q,s,np.random.default_rng(r.getrandbits(30)),collapse_state=False,little_endian=le); t.close(s,psi,'state kept without collapse',0)
def statistical(t,psi,q,n,le,p1):
    g=np.random.default_rng(t.r.getrandbits(30)); N=2000; k=0
    for _ in range(N):
        s=psi.copy(); m=sample_qubit(q,s,g,little_endian=le); k+=m; c=proj(psi,q,m,n,le); t.close(s,c/np.linalg.norm(c),'state after measuring',1e-7)
    t.ck(abs(k-N*p1)<=6*math.sqrt(max(0,N*p1*(1-p1)))+12,f'frequency {k}/{N} for probability {p1}')
@case('C06',2)
def frequencies(t):
    r=t.r; n=r.randint(1,3); q=r.randrange(n); psi=states(t,n); le=r.random()<.3; t.step('qubit',q,'little',le)
    statistical(t,psi,q,n,le,np.linalg.norm(proj(psi,q,1,n,le))**2)
def prep(t,q,n,exp):
    r=t.r
    for _ in range(r.randint(0,6)):
        g,ps,tg=pick(t,n); apply_op(t,q,g,ps,tg); exp.append(('g',mat(g,ps),tg))
@case('C06',5)
def circuits(t):
    """gates, measurements (stored, partially unstored, conditional) in one circuit, simulated repeatedly"""
    r=t.r; n=r.randint(1,4); nb=r.randint(1,5); c=new_circuit(t,n,nb); plan=[]; meas=[]
    foreign=[Bit('x') for _ in range(2)]
    with c.context as reg:
        for _ in range(r.randint(1,4)):
            prep(t,reg.q,n,plan)
            k=r.randint(1,n); qs=r.sample(range(n),k)
            if r.random()<.1: qs=qs+[r.choice(qs)]; k+=1
            m=Measurement([reg.q[i] for i in qs] if k>1 or r.random()<.5 else reg.q[qs[0]])
            bits=[]
            if r.random()<.8:
                pool=list(reg.c)+foreign
                if len(pool)>=k:
                    bits=r.sample(pool,r.randint(k,min(len(pool),k+2)))
                    if bits==list(reg.c)[:len(bits)] and len(bits)==len(reg.c) and r.random()<.5: m|reg.c
                    elif k==1 and len(bits)==1 and r.random()<.5: m|bits[0]
                    else: m|(bits if r.random()<.5 else tuple(bits))
            t.step('measure',qs,'->',[list(reg.c).index(b) if any(b is x for x in reg.c) else 'foreign' for b in bits])
            plan.append(('m',m,qs,bits[:k])); meas.append(m)
    if r.random()<.4:
        for b in list(c.bits)+foreign:
            if r.random()<.5: b.set(r.randint(0,1),force=True)
    for rep in range(r.randint(1,3)):
        t.step('simulate')
        before={id(b):b.value for b in list(c.bits)+foreign}
        simulate(c,rng_seed=r.choice([None,r.getrandbits(20)]))
        # the outcomes stored last must be consistent with one run; unstored outcomes are searched over
        branches=[(ref.zero(n),{},{})]
        for it in plan:
            if it[0]=='g': branches=[(ref.apply(it[1],it[2],n,p),b,s) for p,b,s in branches]; continue
            _,m,qs,bits=it; nxt=[]
            for p,b,s in branches:
                if m.state is None: t.ck(False,'measurement has no state after simulation')
                if m.state.shape!=p.shape or np.max(np.abs(m.state-p))>1e-7: continue
                todo=[(p,b)]
                for k,qb in enumerate(qs):
                    new=[]
                    for pp,bb in todo:
                        for v in (0,1):
                            z=proj(pp,qb,v,n); w=np.linalg.norm(z)
                            if w**2>1e-9: new.append((z/w,{**bb,id(bits[k]):v} if k<len(bits) else bb))
                    todo=new
                nxt+=[(pp,bb,s) for pp,bb in todo]
            branches=nxt
            t.ck(branches,'the state remembered by a measurement is not the state just before it in any possible run')
        got=np.array(c.state)
        ok=[b for p,b,s in branches if np.max(np.abs(got-p))<1e-6 and all(next(x for x in list(c.bits)+foreign if id(x)==i).value==v for i,v in b.items())]
        t.ck(ok,'final state and bits do not match any possible run',[b.value for b in c.bits],got)
        touched=set(ok[0])
        for b in list(c.bits)+foreign:
            if id(b) not in touched: t.ck(b.value==before[id(b)],'a bit not measured into changed')
        for it in plan:
            if it[0]=='m': sampling(t,it[1],it[2],n)
def sampling(t,m,qs,n):
    r=t.r; st=np.array(m.state)
    for _ in range(2):
        sub=None if r.random()<.6 else [r.choice(range(n)) for _ in range(r.randint(1,n))]
        use=qs if sub is None else sub; ns=r.randint(1,4); bs=r.random()<.3
        kw={} if sub is None else dict(qubits=sub)
        if ns>1: kw['num_samples']=ns
        if bs: kw['as_bitstring']=True
        S=m.sample(**kw); t.ck(len(S)==ns,'number of samples',S)
        for s in S:
            if bs: t.ck(isinstance(s,str),'bitstring expected',s); s=[int(x) for x in s]
            t.ck(len(s)==len(use),'the latest simulation measured '+repr(use)+'; sample',s)
            p=st
            for qb,v in zip(use,s):
                t.ck(v in (0,1),'sample value',v); p=proj(p,qb,v,n)
            t.ck(np.linalg.norm(p)**2>1e-9,'impossible sample',use,s)
        t.close(m.state,st,'sampling altered the remembered state',0)
    if r.random()<.3:
        E=m.expval(num_samples=3); t.ck(len(E)==len(qs) and all(-1e-12<=e<=1+1e-12 for e in E),'expval',E); t.close(m.state,st,'expval altered the remembered state',0)
        for e,qb in zip(E,qs):
            p1=np.linalg.norm(proj(st,qb,1,n))**2
            if p1<1e-12: t.ck(e==0,'expval of a qubit that is 0',e)
            if p1>1-1e-12: t.ck(e==1,'expval of a qubit that is 1',e)
    if r.random()<.2: t.raises(lambda:m.sample(qubits=[n+r.randint(0,2)]),'sampling a qubit outside the state')
@case('C06',1)
def joint_frequencies(t):
    """outcome statistics of measuring entangled qubits through simulate"""
    r=t.r; n=2; c=Circuit(n,n); a=r.uniform(.3,2.8); order=r.sample(range(2),2); perm=r.sample(range(2),2); t.step(a,order,perm)
    with c.context as reg:
        ops.RY(a,reg.q[0]); ops.RY(a/2,reg.q[1]); ops.CX(reg.q[0],reg.q[1])
        Measurement([reg.q[i] for i in order])|[reg.c[i] for i in perm]
    psi=ref.apply(mat('CX',[]),[0,1],2,ref.apply(ref.RY(a/2),[1],2,ref.apply(ref.RY(a),[0],2,ref.zero(2)))); P=abs(psi)**2; cnt=np.zeros(4); N=600; s0=r.getrandbits(20)
    for k in range(N):
        simulate(c,rng_seed=s0+k); v={order[j]:c.bits[perm[j]].value for j in range(2)}; cnt[2*v[0]+v[1]]+=1
    for i in range(4): t.ck(abs(cnt[i]-N*P[i])<=6*math.sqrt(max(0,N*P[i]*(1-P[i])))+12,'frequencies of joint outcomes',cnt.tolist(),(N*P).tolist())
# ---------------------------------------------------------------- C07
@case('C07',3)
def is_blocked(t):
    r=t.r; bits=[Bit(str(i)) for i in range(r.randint(0,4))]; g=r.choice(list(ref.G)+['Measurement','Barrier']); 
    cls=getattr(ops,g,None) or {'Measurement':Measurement,'Barrier':Barrier}[g]
    op=cls([.3]*ref.G[g][1]) if g in ref.G and ref.G[g][1] else cls()
    t.ck(op.is_blocked is False or op.is_blocked==False,'operation without conditions blocked')
    if bits:
        s=r.sample(bits,r.randint(1,len(bits)))
        t.ck(op.conditional(s if r.random()<.5 else tuple(s)) is op or True,'')
        if len(s)==1 and r.random()<.5: op.conditional(s[0])
    else: s=[]
    for _ in range(4):
        for b in bits:
            x=r.random()
            if x<.3: b.reset()
            elif x<.8: b.set(r.randint(0,1),force=True)
        t.step(g,[b.value for b in s])
        t.ck(bool(op.is_blocked)==any(b.value==0 and b.value is not None for b in s),'is_blocked with condition bits',[b.value for b in s],op.is_blocked)
@case('C07',5)
def simulated(t):
    r=t.r; n=r.randint(1,3); nb=r.randint(1,4); c=new_circuit(t,n,nb); init=[r.choice([None,0,1]) for _ in range(nb)]; plan=[]
    with c.context as reg:
        for b,v in zip(reg.c,init):
            if v is not None: b.set(v)
        for _ in range(r.randint(1,9)):
            cond=r.sample(range(nb),r.randint(1,min(3,nb))) if r.random()<.6 else []
            x=r.random()
            if x<.25:
                # measuring a basis-like qubit has a known outcome only sometimes; use the stored bit to follow the branch
                i=r.randrange(n); j=r.randrange(nb); op=Measurement(reg.q[i])|reg.c[j]; plan.append(('m',i,j,cond,op)); t.step('measure',i,'->',j,'if',cond)
            elif x<.32: op=Barrier(list(reg.q)); plan.append(('b',None,None,cond,op)); t.step('barrier if',cond)
            elif x<.4: cls,M=custom_single(t); i=r.randrange(n); op=cls(reg.q[i]); plan.append(('g',M,[i],cond,op)); t.step('on',i,'if',cond)
            else:
                g,ps,tg=pick(t,n,None if r.random()<.7 else ['X','Hadamard']); op=apply_op(t,reg.q,g,ps,tg); plan.append(('g',mat(g,ps),tg,cond,op)); t.step('if',cond)
            if cond: op.conditional([reg.c[i] for i in cond] if len(cond)>1 or r.random()<.5 else reg.c[cond[0]])
    t.step('bits',init)
    for rep in range(r.randint(1,2)):
        start=[b.value for b in c.bits]; prev=[it[4].state if it[0]=='m' else None for it in plan]
        simulate(c)
        br=[(ref.zero(n),list(start))]
        for it,pst in zip(plan,prev):
            nxt=[]
            for p,b in br:
                if any(b[i]==0 and b[i] is not None for i in it[3]): nxt.append((p,b)); continue
                if it[0]=='b': nxt.append((p,b))
                elif it[0]=='g': nxt.append((ref.apply(it[1],it[2],n,p),b))
                else:
                    for v in (0,1):
                        z=proj(p,it[1],v,n); w=np.linalg.norm(z)
                        if w**2>1e-10: bb=list(b); bb[it[2]]=v; nxt.append((z/w,bb))
            br=nxt
        fin=[b.value for b in c.bits]; got=np.array(c.state)
        t.ck(any(b==fin and np.max(np.abs(p-got))<1e-6 for p,b in br),'state and bits after simulation do not match any run that respects the conditions',fin,got)
        t.step('again')
@case('C07',1)
def mixed_and_little(t):
    r=t.r; n=r.randint(1,3); c=new_circuit(t,n,2); exp=[]; vals=[r.choice([None,0,1]) for _ in range(2)]
    with c.context as reg:
        for b,v in zip(reg.c,vals):
            if v is not None: b.set(v)
        for _ in range(r.randint(1,6)):
            g,ps,tg=pick(t,n); op=apply_op(t,reg.q,g,ps,tg); s=r.sample(range(2),r.randint(0,2))
            if s: op.conditional(tuple(reg.c[i] for i in s))
            t.step('if',[vals[i] for i in s])
            if all(vals[i]!=0 for i in s): exp.append((mat(g,ps),tg))
    psi=ref.zero(n)
    for M,tg in exp: psi=ref.apply(M,tg,n,psi)
    simulate(c,little_endian=True); t.close(c.state,ref.flip(psi,n),'little-endian state with conditions')
    simulate(c,mixed_state=True); t.close(c.density_matrix,np.outer(psi,psi.conj()),'density matrix with conditions')
    t.ck([b.value for b in c.bits]==vals,'bits changed without a measurement')
