"""C19 setting and reporting circuit states"""
from .core import *
from .build_c import *
def dm(r,n,rank):
    p=np.array([r.random()+.05 for _ in range(rank)]); p/=p.sum(); return sum(w*np.outer(v,v.conj()) for w,v in ((w,ref.randstate(r,n)) for w in p))
def mk(t,n):
    """-> array, validity class: (shape ok, pure?)"""
    r=t.r; N=2**n; k=r.random()
    if k<.3: a=ref.randstate(r,n)
    elif k<.55: a=dm(r,n,r.randint(1,min(4,N)) if N>1 else 1)
    elif k<.6: a=np.zeros(N); a[r.randrange(N)]=r.choice([1,-1])
    elif k<.65: a=np.diag([1/N]*N)
    elif k<.7: a=np.zeros((N,N)); a[0,0]=1; a=a.astype(int)
    elif k<.75: a=np.zeros(N,dtype=int); a[N-1]=1
    elif k<.85:
        m=r.choice([x for x in range(0,5) if x!=n]); a=ref.randstate(r,m) if r.random()<.5 else dm(r,m,1)
    elif k<.93: a=r.choice([lambda:np.eye(N)[:, :max(N//2,1)] if N>1 else np.ones((1,2)),lambda:np.full((N,1),N**-.5),lambda:np.full((1,N),N**-.5),lambda:np.zeros((N,N,N))+1/N,lambda:np.array(1.0),lambda:np.ones((N,2*N))/N,lambda:np.full((N,1,1),N**-.5),lambda:np.full((2,)*n if n!=1 and n!=2 else (2,1),N**-.5),lambda:np.full((N+1,N+1),1/(N+1))])()
    else: a=np.full(N,np.nan) if r.random()<.3 else np.zeros(N) if r.random()<.5 else np.zeros((N,N))
    if r.random()<.35: a=a*r.choice([2,.5,1+1e-3,1-1e-3,1j,-1,1e6,1e-6,1.02,3])
    return a
def verdict(a,n):
    """True/False/None (too close to the tolerance to judge)"""
    N=2**n
    if a.shape==(N,): v=np.linalg.norm(a)
    elif a.shape==(N,N): v=np.trace(a)
    else: return False
    if not np.isfinite(v): return False
    d=abs(v-1); return True if d<1e-9 else False if d>1e-4 else None
@case('C19',weight=4)
def histories(t):
    r=t.r; n=r.randint(1,4); c=new_circuit(t,n); cur=None
    def check(what):
        if cur is None: t.ck(c.state is None and c.density_matrix is None,what+': no state',c.state); return
        if cur.ndim==1:
            t.ck(c.state is not None,what); t.close(c.state,cur,what+': state',1e-12); t.close(c.density_matrix,np.outer(cur,cur.conj()),what+': density matrix',1e-9)
        else: t.close(c.density_matrix,cur,what+': density matrix',1e-12); t.raises(lambda:c.state,what+': pure state of a mixed state',CircuitError)
    for _ in range(r.randint(1,8)):
        a=mk(t,n); force=r.random()<.6; norm=r.random()<.4
        t.step('set_state',a.tolist() if a.size<=32 else a.shape,'force',force,'normalize',norm)
        kw={}
        if force or r.random()<.5: kw['force']=force
        if norm or r.random()<.5: kw['normalize']=norm
        orig=a.copy(); w=a
        if norm and a.ndim in(1,2) and (a.ndim==1 or a.shape[0]==a.shape[1]):
            with np.errstate(all='ignore'): w=a/(np.linalg.norm(a) if a.ndim==1 else np.trace(a))
        v=verdict(w,n)
        if v is None: continue
        with np.errstate(all='ignore'):
            if cur is not None and not force: t.raises(lambda:c.set_state(a,**kw),'state replaced without force',CircuitError)
            elif not v: t.raises(lambda:c.set_state(a,**kw),'invalid state accepted')
            else: c.set_state(a,**kw); cur=w
        t.ck(np.array_equal(orig,a,equal_nan=True),'set_state changed its argument'); check('after set_state')
@case('C19',weight=1)
def simulated(t):
    """states computed by simulation follow the same rules"""
    r=t.r; n=r.randint(1,3); c=new_circuit(t,n)
    with c.context as reg:
        for _ in range(r.randint(0,4)): g,ps,s=pick(t,n); apply_op(t,reg.q,g,ps,s)
    mixed=r.random()<.5; simulate(c,mixed_state=mixed)
    if mixed: t.raises(lambda:c.state,'pure state of a mixed state',CircuitError); t.ck(c.density_matrix.shape==(2**n,2**n),'density matrix')
    else: t.ck(c.state.shape==(2**n,),'state')
    a=ref.randstate(r,n) if r.random()<.5 else dm(r,n,2) if n>1 else dm(r,n,1); old=np.array(c.density_matrix)
    t.raises(lambda:c.set_state(a),'state replaced without force',CircuitError); t.close(c.density_matrix,old,'state unchanged')
    c.set_state(a,force=True); t.step('set_state force'); t.close(c.density_matrix,a if a.ndim==2 else np.outer(a,a.conj()),'new state')
    if a.ndim==1: t.close(c.state,a,'new state')
    else: t.raises(lambda:c.state,'pure state of a mixed state',CircuitError)
