from .core import *
from .build_c import *
import itertools
def run(c,**k): simulate(c,**k); return c.state
def fill(t,c,n,depth,gates=None,special=True,conds=None):
    """random operations in the context of c; returns [(matrix,targets)]"""
    r=t.r; exp=[]
    with c.context as reg:
        q=reg.q
        if r.random()<.8:
            for i in range(n):
                ps=[ref.angle(r) for _ in range(3)]; apply_op(t,q,'Rotation',ps,[i]); exp.append((mat('Rotation',ps),[i]))
        for _ in range(depth):
            x=r.random()
            if special and x<.08:
                k=r.randint(1,n); s=r.sample(range(n),k); Barrier([q[i] for i in s]); t.step('Barrier',s)
            elif special and x<.18:
                cls,M=custom_single(t); i=r.randrange(n); cls(q[i]); t.step('on',i); exp.append((M,[i]))
            elif special and x<.3 and n>=2:
                k=r.choice([1,2]) if n>2 else 1; tg=r.sample(range(n),k+1)
                if r.random()<.4:
                    cls,f=custom_controlled(t,k,True); a=ref.angle(r); cls([a],control=[q[i] for i in tg[:-1]],target=q[tg[-1]]); M=f(a)
                else:
                    cls,M=custom_controlled(t,k); cls(control=[q[i] for i in tg[:-1]],target=q[tg[-1]])
                t.step('on',tg); exp.append((ref.ctrl(M,k),tg))
            else:
                g,ps,tg=pick(t,n,gates); op=apply_op(t,q,g,ps,tg); exp.append((mat(g,ps),tg))
    return exp
def expect(exp,n,little=False,psi=None):
    psi=ref.zero(n) if psi is None else psi
    for M,tg in exp: psi=ref.apply(M,tg,n,psi)
    return ref.flip(psi,n) if little else psi
@case('C01',6)
def random_circuit(t):
    r=t.r; n=r.choice([1,1,2,2,3,3,3,4,4,5,6]); c=new_circuit(t,n); exp=fill(t,c,n,r.randint(0,14))
    for k in range(r.randint(1,2)):
        little=r.random()<.5; t.step('simulate little_endian=',little)
        t.close(run(c,**({} if not little and r.random()<.5 else dict(little_endian=little))),expect(exp,n,little),'state after simulation')
@case('C01',3)
def every_gate_every_operands(t):
    """enumerated: every library gate on every distinct operand tuple, n <= 4, random product input state"""
    items=[(n,g,tg,le) for n in (1,2,3,4) for g in ref.G for tg in itertools.permutations(range(n),ref.G[g][0]) for le in (False,True)]
    if t.i>=len(items): raise Done()
    n,g,tg,le=items[(t.i*7919)%len(items)]
    r=t.r; c=Circuit(n); ps=[ref.angle(r) for _ in range(ref.G[g][1])]; exp=[]
    with c.context as reg:
        for i in range(n):
            p=[r.uniform(-3,3) for _ in range(3)]; ops.Rotation(p,reg.q[i]); exp.append((mat('Rotation',p),[i]))
        for i in range(n-1): ops.CX(reg.q[i],reg.q[i+1]); exp.append((mat('CX',[]),[i,i+1]))
        apply_op(t,reg.q,g,ps,list(tg)); exp.append((mat(g,ps),list(tg)))
    t.step('n',n,'little',le)
    t.close(run(c,little_endian=le),expect(exp,n,le),f'{g} on {tg}')
@case('C01',1)
def larger(t):
    r=t.r; n=r.choice([7,8,9,10,11]); c=new_circuit(t,n); exp=fill(t,c,n,r.randint(3,8)); le=r.random()<.5; t.step('little',le)
    t.close(run(c,little_endian=le),expect(exp,n,le),'state after simulation')
@case('C01',1)
def repeated_and_extended(t):
    r=t.r; n=r.randint(1,4); c=new_circuit(t,n); exp=fill(t,c,n,r.randint(0,4))
    for _ in range(r.randint(1,3)):
        t.close(run(c),expect(exp,n),'state after simulation')
        what=r.choice(['more','remove','state','qubit','reset'])
        t.step('then',what); c.unlock()
        if what=='more': exp+=fill(t,c,n,r.randint(0,3))
        elif what=='state': c.set_state(ref.randstate(r,n),force=True)
        elif what=='qubit':
            c.add_qubit(qreg_label=list(c.qregisters)[-1]); n+=1; exp+=fill(t,c,n,1)
        elif what=='reset': c.reset(); exp=fill(t,c,n,r.randint(0,3))
        elif what=='remove':
            c.circuit.clear(); exp=[]
    t.close(run(c),expect(exp,n),'state after simulation')
@case('C01',1)
def unsupported_rejected(t):
    """operations the simulator cannot apply raise instead of being skipped or misapplied"""
    r=t.r; n=r.randint(2,5); kind=r.choice(['multi','multi_controlled','created','bigtarget'])
    c=new_circuit(t,n); exp=fill(t,c,n,r.randint(0,3),special=False); c.unlock(); k=2
    if kind=='multi_controlled' and n<4: kind='multi'
    t.step(kind)
    with c.context as reg:
        if kind=='multi':
            k=r.randint(2,n)
            class Multi(Operation):
                _num_qubits=k
                @mixedproperty
                def matrix(cls): return np.eye(2**k)[::-1].astype(complex)
            Multi([reg.q[i] for i in r.sample(range(n),k)])
        elif kind=='multi_controlled':
            k=r.randint(3,n-1); cls,M=custom_controlled(t,k); tg=r.sample(range(n),k+1); cls(control=[reg.q[i] for i in tg[:-1]],target=reg.q[tg[-1]])
        elif kind=='bigtarget':
            class CS(ControlledOperation):
                _num_control=1; _num_target=1; _target_operation=ops.SWAP
            tg=r.sample(range(n),2); CS(reg.q[tg[0]],reg.q[tg[1]])
    if kind=='created':
        inner=Circuit(2)
        with inner.context as reg2: ops.X(reg2.q[0]); ops.CX(reg2.q[0],reg2.q[1])
        cls=create_operation(inner,'Two'); c.unlock()
        with c.context as reg: cls([reg.q[i] for i in r.sample(range(n),2)])
    t.raises(lambda:simulate(c),'simulating an operation the simulator cannot apply')
# ---------------------------------------------------------------- C02
def outer(psi): return np.outer(psi,psi.conj())
@case('C02',5)
def mixed_equals_pure(t):
    r=t.r; n=r.choice([1,2,2,3,3,4]); c=new_circuit(t,n,r.choice([None,2])); exp=fill(t,c,n,r.randint(0,10))
    little=r.random()<.5; t.step('little_endian',little)
    simulate(c,mixed_state=True,little_endian=little); rho=np.array(c.density_matrix)
    want=expect(exp,n,little)
    t.close(rho,outer(want),'mixed-state simulation vs |psi><psi| (reference)')
    psi=run(c,little_endian=little)
    t.close(rho,outer(psi),'mixed-state simulation vs state-vector simulation')
    t.close(c.density_matrix,outer(psi),'density matrix of the computed pure state')
@case('C02',3)
def every_gate(t):
    items=[(n,g,tg,le) for n in (1,2,3) for g in ref.G for tg in itertools.permutations(range(n),ref.G[g][0]) for le in (False,True)]
    if t.i>=len(items): raise Done()
    n,g,tg,le=items[(t.i*7919)%len(items)]; r=t.r; c=Circuit(n); exp=[]; ps=[ref.angle(r) for _ in range(ref.G[g][1])]
    with c.context as reg:
        for i in range(n):
            p=[r.uniform(-3,3) for _ in range(3)]; ops.Rotation(p,reg.q[i]); exp.append((mat('Rotation',p),[i]))
        for i in range(n-1): ops.CX(reg.q[i],reg.q[i+1]); exp.append((mat('CX',[]),[i,i+1]))
        apply_op(t,reg.q,g,ps,list(tg)); exp.append((mat(g,ps),list(tg)))
    t.step('n',n,'little',le)
    simulate(c,mixed_state=True,little_endian=le); t.close(c.density_matrix,outer(expect(exp,n,le)),f'density matrix after {g} on {tg}')
@case('C02',3)
def pure_state_density(t):
    r=t.r; n=r.randint(1,4); c=new_circuit(t,n)
    for _ in range(r.randint(1,4)):
        what=r.choice(['set','set','simulate','mixed','read'])
        t.step(what)
        if what=='set':
            psi=ref.randstate(r,n); t.step(psi.tolist()); c.set_state(psi.copy(),force=True)
            t.close(c.density_matrix,outer(psi),'density matrix of the set state'); t.close(c.state,psi,'state kept')
        elif what=='simulate':
            c.reset(); exp=fill(t,c,n,r.randint(0,4)); run(c); t.close(c.density_matrix,outer(expect(exp,n)),'density matrix of the computed state')
        elif what=='mixed':
            c.reset(); exp=fill(t,c,n,r.randint(0,4)); simulate(c,mixed_state=True); t.close(c.density_matrix,outer(expect(exp,n)),'mixed-state simulation')
        elif c.density_matrix is not None: t.close(c.density_matrix,np.array(c.density_matrix),'second read')
@case('C02',2)
def conditional_mixed(t):
    """blocked and unblocked operations act alike in both simulations"""
    r=t.r; n=r.randint(1,3); c=new_circuit(t,n,3); exp=[]
    vals=[r.choice([None,0,1]) for _ in range(3)]
    with c.context as reg:
        for b,v in zip(reg.c,vals):
            if v is not None: b.set(v)
        for _ in range(r.randint(1,8)):
            g,ps,tg=pick(t,n); op=apply_op(t,reg.q,g,ps,tg); run_=True
            if r.random()<.6:
                s=r.sample(range(3),r.randint(1,3)); op.conditional([reg.c[i] for i in s]); t.step('if bits',[vals[i] for i in s]); run_=all(vals[i]!=0 for i in s)
            if run_: exp.append((mat(g,ps),tg))
    le=r.random()<.5
    simulate(c,mixed_state=True,little_endian=le); t.close(c.density_matrix,outer(expect(exp,n,le)),'mixed-state simulation with conditions')
    t.close(run(c,little_endian=le),expect(exp,n,le),'state-vector simulation with conditions')
@case('C02',1)
def unsupported_rejected_mixed(t):
    r=t.r; n=2; c=Circuit(2)
    class Multi(Operation):
        _num_qubits=2
        @mixedproperty
        def matrix(cls): return np.eye(4)[::-1].astype(complex)
    with c.context as reg: Multi(reg.q)
    t.step('two-qubit custom operation, mixed')
    if t.i>0: raise Done()
    t.raises(lambda:simulate(c,mixed_state=True),'simulating an operation the simulator cannot apply')
