"""symx_run.py OUT PART: runs the real matrix functions of the tree on PYTHONPATH on symbolic parameters (in the project's own
interpreter) and decides their postconditions.

A symbolic number is a finite sum of  coefficient * monomial in the variables * exp(i * sum of rational multiples of the
variables).  These functions are linearly independent over the complex numbers, so two of them are equal for all real values of
the variables exactly when all coefficients agree (up to the rounding of the constants in the source: 1e-9).  A comparison or any
other branch on a symbolic number, and any operation outside +, -, *, /constant, powers, cos, sin, exp(i...), conjugation, is
refused: the function is then out of reach, never wrongly accepted."""
import sys, json, time, math, cmath, itertools, types, importlib, builtins
from fractions import Fraction as Fr
import numpy as np
TOL=1e-9
class Out(Exception): pass
def rat(x):
    if isinstance(x,complex):
        if abs(x.imag)>1e-15: raise Out('complex coefficient of an angle')
        x=x.real
    f=Fr(x).limit_denominator(10**4)
    if abs(float(f)-float(x))>1e-12: f=Fr(x)
    return f
def num(x): return isinstance(x,(int,float,complex,np.number)) and not isinstance(x,bool) or isinstance(x,(bool,np.bool_))
class Sym:
    __slots__=('t',)
    def __init__(s,t): s.t={k:c for k,c in t.items() if abs(c)>1e-14}
    @staticmethod
    def of(x):
        if isinstance(x,Sym): return x
        if isinstance(x,np.ndarray) and x.ndim==0: return Sym.of(x.item())
        if num(x): return Sym({((),()):complex(x)})
        return None
    def __add__(s,o):
        o=Sym.of(o)
        if o is None: return NotImplemented
        t=dict(s.t)
        for k,c in o.t.items(): t[k]=t.get(k,0)+c
        return Sym(t)
    __radd__=__add__
    def __neg__(s): return Sym({k:-c for k,c in s.t.items()})
    def __pos__(s): return s
    def __sub__(s,o):
        o=Sym.of(o); return NotImplemented if o is None else s+(-o)
    def __rsub__(s,o):
        o=Sym.of(o); return NotImplemented if o is None else o+(-s)
    def __mul__(s,o):
        o=Sym.of(o)
        if o is None: return NotImplemented
        t={}
        for (m,e),c in s.t.items():
            for (m2,e2),c2 in o.t.items():
                k=(join(m,m2),join(e,e2)); t[k]=t.get(k,0)+c*c2
        return Sym(t)
    __rmul__=__mul__
    def const(s):
        if not s.t: return 0j
        if set(s.t)=={((),())}: return s.t[((),())]
        return None
    def __truediv__(s,o):
        o=Sym.of(o)
        if o is None: return NotImplemented
        c=o.const()
        if c is None:
            if len(o.t)==1:
                (m,e),c=next(iter(o.t.items()))
                if not m: return s*Sym({((),tuple((v,-q) for v,q in e)):1/c})
            raise Out('division by a symbolic number')
        return s*(1/c)
    def __rtruediv__(s,o):
        o=Sym.of(o); return NotImplemented if o is None else o/s
    def __pow__(s,k):
        if not isinstance(k,(int,np.integer)): raise Out('power')
        if k<0: return Sym.of(1)/s**(-k)
        r=Sym.of(1)
        for _ in range(k): r=r*s
        return r
    def conjugate(s): return Sym({(m,tuple((v,-q) for v,q in e)):c.conjugate() for (m,e),c in s.t.items()})
    conj=conjugate
    @property
    def real(s): return (s+s.conjugate())*.5
    @property
    def imag(s): return (s-s.conjugate())*-.5j
    def isreal(s): return zero(s-s.conjugate())
    def angle(s):
        """s = i*a for a real linear form a -> (rational multiples, constant)"""
        q={}; c0=0
        for (m,e),c in s.t.items():
            if e or len(m)>1 or (m and m[0][1]!=1): raise Out('exponential of a non-linear expression')
            if m: q[m[0][0]]=rat(c/1j)
            else: c0=c
        return q,c0
    def exp(s):
        q,c0=s.angle(); return Sym({((),tuple(sorted((v,x) for v,x in q.items() if x))):cmath.exp(c0)})
    def cos(s): a=(s*1j).exp(); return (a+(s*-1j).exp())*.5
    def sin(s): a=(s*1j).exp(); return (a-(s*-1j).exp())*-.5j
    def sqrt(s):
        c=s.const()
        if c is None: raise Out('square root')
        return Sym.of(cmath.sqrt(c))
    def refuse(s,*a): raise Out('the function branches on, or converts, a symbolic number')
    __bool__=__lt__=__le__=__gt__=__ge__=__float__=__complex__=__int__=__abs__=__index__=__floordiv__=__mod__=__divmod__=__round__=refuse
    __eq__=__ne__=refuse
    def __hash__(s): return id(s)
    def __repr__(s): return ' + '.join(f'{complex(round(c.real,6),round(c.imag,6))}'+''.join(f'*{v}^{p}' for v,p in m)+(f'*exp(i({" + ".join(f"{q}*{v}" for v,q in e)}))' if e else '') for (m,e),c in sorted(s.t.items(),key=str)) or '0'
def join(a,b):
    if not a: return b
    if not b: return a
    d=dict(a)
    for v,p in b: d[v]=d.get(v,0)+p
    return tuple(sorted((v,p) for v,p in d.items() if p))
def zero(x): return all(abs(c)<=TOL for c in Sym.of(x).t.values())
def var(n): return Sym({(((n,1),),()):1})
# ---------------------------------------------------------------- the numeric library the code sees
def has(x): return isinstance(x,Sym) or (isinstance(x,np.ndarray) and x.dtype==object)
def lift1(f,name):
    def g(x,*a,**k):
        if isinstance(x,Sym): return getattr(x,name)()
        return f(x,*a,**k)
    return g
WRAP={}
for mod in (math,cmath):
    for nm in ('cos','sin','exp','sqrt'):
        if hasattr(mod,nm): WRAP[getattr(mod,nm)]=lift1(getattr(mod,nm),nm)
def proxy(mod):
    p=types.ModuleType(mod.__name__); p.__dict__.update(mod.__dict__)
    for k,v in list(p.__dict__.items()):
        try:
            if v in WRAP: p.__dict__[k]=WRAP[v]
        except TypeError: pass
    return p
def isnumdt(dt): 
    if dt is None: return None
    k=np.dtype(dt).kind; return k
def conv(x,dt,copy=True):
    """an array of the given type: complex entries are kept symbolic, other types refuse entries they would change"""
    a=np.array(x,dtype=object); k=isnumdt(dt)
    if k is None or k in 'cO': return a
    for v in a.flat:
        s=Sym.of(v)
        if s is None or not s.isreal(): raise Out('an array of type %s gets a complex entry'%np.dtype(dt))
        if k!='f': raise Out('an array of type %s gets a symbolic entry'%np.dtype(dt))
    return a
def anysym(x):
    a=np.array(x,dtype=object) if not isinstance(x,np.ndarray) else x
    return a.dtype==object and any(isinstance(v,Sym) for v in a.flat)
class NP(types.ModuleType):
    def __getattr__(s,k): return getattr(np,k)
NPX=NP('numpy')
def _array(x,dtype=None,*a,**k):
    return conv(x,dtype) if anysym(x) else np.array(x,dtype,*a,**k)
def _asarray(x,dtype=None,*a,**k):
    return (x if isinstance(x,np.ndarray) and isnumdt(dtype) in(None,'c','O') else conv(x,dtype)) if anysym(x) else np.asarray(x,dtype,*a,**k)
def objm(f):
    """complex matrices the code fills in later are kept as objects"""
    def g(*a,**k):
        r=f(*a,**k)
        return r.astype(object) if r.dtype.kind=='c' else r
    return g
NPX.array=_array; NPX.asarray=_asarray
for nm in('eye','zeros','ones','identity','empty','diag','full'): setattr(NPX,nm,objm(getattr(np,nm)))
for nm in('cos','sin','exp','sqrt'): setattr(NPX,nm,lift1(getattr(np,nm),nm))
def patch(mods):
    for m in mods:
        for k,v in list(vars(m).items()):
            if v is np: setattr(m,k,NPX)
            elif v is math or v is cmath: setattr(m,k,proxy(v))
            else:
                try:
                    if v in WRAP: setattr(m,k,WRAP[v])
                    elif isinstance(v,type(np.array)) and getattr(np,getattr(v,'__name__','?'),None) is v and v.__name__ in('array','asarray','eye','zeros','ones','identity','empty','diag','full'): setattr(m,k,getattr(NPX,v.__name__))
                except TypeError: pass
# ---------------------------------------------------------------- rows
ROWS=[]; UNS=[]; BOUND=[]
def row(fn,name,ok,sec,det='',kind='post',be='exponential-polynomial normal form'):
    ROWS.append(dict(bounded=kind=='bounded',obligation=name,function=fn,kind=kind,status='proved' if ok else 'refuted',backend=be,seconds=round(sec,4),detail=det[:300]))
def same(a,b): 
    """first differing entry or None"""
    a=np.asarray(a); b=np.asarray(b)
    if a.shape!=b.shape: return f'shape {a.shape}, expected {b.shape}'
    for ix in np.ndindex(a.shape):
        d=Sym.of(a[ix])-Sym.of(b[ix])
        if not zero(d): return f'entry {ix}: {Sym.of(a[ix])!r}, expected {Sym.of(b[ix])!r}'
    return None
def mm(*M):
    r=np.array(M[0],dtype=object)
    for m in M[1:]:
        m=np.array(m,dtype=object); r=np.array([[sum((r[i,k]*m[k,j] for k in range(r.shape[1])),Sym.of(0)) for j in range(m.shape[1])] for i in range(r.shape[0])],dtype=object)
    return r
def dag(m): return np.array([[Sym.of(m[j,i]).conjugate() for j in range(m.shape[0])] for i in range(m.shape[1])],dtype=object)
def symm(m): return np.array([[Sym.of(x) for x in r] for r in np.asarray(m)],dtype=object)
def std():
    i=1j; h=math.sqrt(.5); I2=np.eye(2); X=np.array([[0,1],[1,0]]); Y=np.array([[0,-i],[i,0]]); Z=np.diag([1,-1])
    def R(P): return lambda a: symm(I2)*(a/2).cos()+symm(P)*((a/2).sin()*-i)
    rx,ry,rz=R(X),R(Y),R(Z); rot=lambda b,g,d: mm(rz(d),ry(g),rz(b))
    def ctl(f,k=1):
        def g(*p):
            U=symm(f(*p)); n=U.shape[0]; M=symm(np.eye(n*2**k)); M[-n:,-n:]=U; return M
        return g
    c=lambda M: (lambda: symm(M))
    SW=np.eye(4)[[0,2,1,3]]
    return dict(Identity=(0,c(I2)),X=(0,c(X)),Y=(0,c(Y)),Z=(0,c(Z)),Hadamard=(0,c(h*np.array([[1,1],[1,-1]]))),S=(0,c(np.diag([1,i]))),T=(0,c(np.diag([1,cmath.exp(i*math.pi/4)]))),
      RX=(1,rx),RY=(1,ry),RZ=(1,rz),Rotation=(3,rot),SWAP=(0,c(SW)),CSWAP=(0,ctl(c(SW))),CCX=(0,ctl(c(X),2)),
      CX=(0,ctl(c(X))),CY=(0,ctl(c(Y))),CZ=(0,ctl(c(Z))),CHadamard=(0,ctl(c(h*np.array([[1,1],[1,-1]])))),CRX=(1,ctl(rx)),CRY=(1,ctl(ry)),CRZ=(1,ctl(rz)),CRotation=(3,ctl(rot)))
def c03():
    from dwave.gate import operations as ops
    from dwave.gate.operations import base, operations as om
    from dwave.gate.tools import unitary as un
    from dwave.gate.primitives import Qubit
    patch([base,om,un,ops])
    S=std(); P=['beta','gamma','delta']
    for g,(k,f) in S.items():
        cls=getattr(ops,g,None)
        if cls is None: UNS.append(f'{g}: gate not found'); continue
        fn=f'dwave.gate.operations:{g}.matrix'; ps=[var(P[i]) for i in range(k)]; ps2=[var(P[i]+"'") for i in range(k)]
        try:
            nq=cls.num_qubits if isinstance(cls.num_qubits,int) else None
            def check(name,get,want):
                t=time.time(); m=get(); d=same(m,want); row(fn,name,d is None,time.time()-t,d or '')
            want=f(*ps)
            mk=lambda *q: cls(*([list(ps)] if k else []),**(dict(qubits=q) if q else {}))
            o=mk(); check('on an object without qubits it is the standard matrix',lambda: o.matrix,want)
            check('reading it again gives the same',lambda: o.matrix,want)
            q=[Qubit(str(i)) for i in range(int(math.log2(want.shape[0])))]; oq=mk(*q)
            check('on an object with qubits it is the standard matrix',lambda: oq.matrix,want)
            if k:
                o2=cls(list(ps2)); check('another object has the matrix of its own parameters',lambda: o2.matrix,f(*ps2))
                check('and leaves that of the first object',lambda: o.matrix,want)
                o.parameters[:]=ps2; check('it follows the parameters',lambda: o.matrix,f(*ps2)); o.parameters[:]=ps
            else: check('on the class it is the standard matrix',lambda: cls.matrix,want)
            t=time.time(); m=symm(o.matrix); d=same(mm(m,dag(m)),symm(np.eye(m.shape[0]))); row(fn,'it is unitary for all real parameters',d is None,time.time()-t,d or '')
        except Out as e: UNS.append(f'{fn}: {e}')
        except Exception as e: UNS.append(f'{fn}: not executable on symbolic numbers ({type(e).__name__}: {str(e)[:120]})')
def c04(nmax):
    from dwave.gate.tools import unitary as un
    patch([un]); U=np.array([[var(f'u{i}{j}') for j in range(2)] for i in range(2)],dtype=object); fn='dwave.gate.tools.unitary:build_controlled_unitary'; f=un.build_controlled_unitary
    def expect(cs,t,n):
        N=2**n; M=np.zeros((N,N),dtype=object)
        for x in range(N):
            b=lambda q: x>>(n-1-q)&1
            if all(b(c) for c in cs):
                for v in(0,1): M[(x&~(1<<(n-1-t)))|v<<(n-1-t),x]=U[v,b(t)]
            else: M[x,x]=1
        return M
    cases=0
    for n in range(1,nmax+1):
        bad=None; t0=time.time(); cnt=0
        try:
            for t in range(n):
                rest=[q for q in range(n) if q!=t]
                for r in range(0,n):
                    for cs in (itertools.permutations(rest,r) if n<=4 else itertools.combinations(rest,r)):
                        if not cs: continue
                        d=same(f(list(cs),[t],U,n),expect(cs,t,n)); cnt+=1
                        if d and not bad: bad=f'controls {cs}, target {t}: {d}'
                        if len(cs)==1:
                            d=same(f(cs[0],t,U,n),expect(cs,t,n)); cnt+=1
                            if d and not bad: bad=f'control {cs[0]}, target {t} as numbers: {d}'
                        if max(cs+(t,))==n-1:
                            d=same(f(list(cs),[t],U),expect(cs,t,n)); cnt+=1
                            if d and not bad: bad=f'controls {cs}, target {t}, no qubit count: {d}'
            if cnt: row(fn,f'it applies U to the target where all controls are 1, for every 2x2 matrix U and all {cnt} choices of operands among {n} qubits',bad is None,time.time()-t0,bad or '',kind='bounded',be='polynomial normal form'); cases+=cnt
        except Out as e: UNS.append(f'{fn}: {e}'); return
        except Exception as e: UNS.append(f'{fn}: not executable on symbolic numbers ({type(e).__name__}: {str(e)[:120]})'); return
    BOUND.append(f'build_controlled_unitary: n <= {nmax} qubits, every target and set of controls (all orders up to 4 qubits), all 2x2 matrices ({cases} choices)')
if __name__=='__main__':
    out,part=sys.argv[1:3]
    if part=='c03': c03()
    else: c04(int(sys.argv[3]))
    json.dump(dict(rows=ROWS,unsupported=UNS,bounded=BOUND),open(out,'w'))
