"""C01, C02, C06, C07, C22: the Python/Cython layer between circuits and the kernels (simulator.pyx, generated ops.pxd, Operation)

A numpy vector is an object with a ghost value $st (abstract state) and a ghost size $nq (it has 2**$nq entries); the kernels are
the functions verified on the generated C++ code (vlib/ckern), here uninterpreted functions of exactly their arguments."""
from .common import *
from . import regs, core
from .core import Vocab, A
M='dwave.gate.simulator.simulator:'; W='dwave.gate.simulator.ops:'
St=z3.DeclareSort('St'); Mx=z3.DeclareSort('Mx'); RS=z3.RealSort()
HSORT.update({'$base':I,'$st':St,'$nq':I,'$rk':I,'$ln':I,'$lop':EL,'$lts':z3.ArraySort(I,EL),'$lln':z3.ArraySort(I,I),'$lad':z3.ArraySort(I,I),'$lnq':z3.ArraySort(I,I),'$lle':z3.ArraySort(I,B),'$lrk':z3.ArraySort(I,I)})
IB=(I,St,Mx,I)
F1=z3.Function('k_single',I,St,Mx,I,B,St); FC=z3.Function('k_control',I,St,Mx,I,I,B,St); FCC=z3.Function('k_two_control',I,St,Mx,I,I,I,B,St)
FSW=z3.Function('k_swap',I,St,I,I,B,St); FCS=z3.Function('k_cswap',I,St,I,I,I,B,St)
NORM=z3.Function('k_norm',I,St,I,I,B,RS); COL=z3.Function('k_collapse',I,St,I,I,RS,B,St)
conjM=z3.Function('conjM',Mx,Mx); opmat=z3.Function('opmat',V,Mx); clsmat=z3.Function('clsmat',I,Mx); tgtmat=z3.Function('tgtmat',I,EL,I,Mx); XM=z3.Const('matX',Mx); tcid=z3.Function('tcid',I,I); ncid=z3.Function('ncid',I,I)
setat=z3.Function('setat',St,I,RS,St); zeros=z3.Function('zeros',I,St); udraw=z3.Function('udraw',I,I,RS)
rejects=z3.Function('rejects',V,I,B)
OUT=z3.Function('outcome',St,I,RS,I)
class Mat:
    def __init__(s,t,contig=False,two=True): s.t=t; s.contig=contig; s.two=two
class TgtV:
    """target operation made with parameters"""
    def __init__(s,cid,arr,n): s.cid=cid; s.arr=arr; s.n=n
class AddrV:
    def __init__(s,x): s.x=x
class CFun:
    def __init__(s,name): s.name=name
class LogV:
    def __init__(s,t): s.t=t
def isR(x): return isinstance(x,z3.ExprRef) and x.sort()==RS
def toR(x):
    if isinstance(x,bool): x=int(x)
    if isinstance(x,int): return z3.RealVal(x)
    if isinstance(x,float): return z3.RealVal(repr(x)) if x==x and abs(x)<1e300 else None
    if isz(x,I): return z3.ToReal(x)
    if isR(x): return x
    return None
class NpVerifier(Verifier):
    def isnd(s,x):
        if not isinstance(x,Ref): return False
        ps=s.possible(x.ad); return bool(ps) and len(ps)==1 and ps[0] is s.ND
    def isrng(s,x):
        if not isinstance(x,Ref): return False
        ps=s.possible(x.ad); return bool(ps) and len(ps)==1 and ps[0] is s.RNG
    def isMD(s,x):
        if not isinstance(x,Ref): return False
        ps=s.possible(x.ad); return bool(ps) and len(ps)==1 and ps[0] is s.MD
    def reshape(s,x,args):
        sh=args[0] if len(args)==1 else tuple(args)
        n,at,_=s.iterview(sh); n=s.concretize(n)
        if n!=2: raise Unsupported('shape')
        q=[]
        for i in range(2):
            d=at(i)
            if isinstance(d,Bx): d=s.resolve(d)
            if isz(d,I) and z3.is_app(d) and d.decl().eq(pow2): q.append(d.arg(0))
            else: raise Unsupported('shape')
        s.prove('reshaping keeps the number of entries',q[0]+q[1]==s.read('$nq',x.ad),kind='pre'); s.prove('the matrix is square',q[0]==q[1],kind='pre')
        m=s.alloc(s.MD); s.write('$st',m.ad,s.read('$st',x.ad)); s.write('$nq',m.ad,q[0]); s.write('$base',m.ad,x.ad); return m
    def nd(s,nq,st):
        r=s.alloc(s.ND); s.write('$nq',r.ad,zi(nq)); s.write('$st',r.ad,st); return r
    def attr(s,x,a):
        if isinstance(x,Bx): x=s.resolve(x)
        if isinstance(x,Mat):
            if a=='shape' : return (2,2) if x.two else s.unsup('shape')
            if a in('conjugate','conj','copy','astype'): return Prim(a,x)
            raise Unsupported('matrix attribute '+a)
        if isinstance(x,TgtV):
            if a=='matrix': return Mat(tgtmat(x.cid,x.arr,zi(x.n)))
            raise Unsupported('target operation attribute '+a)
        if s.isnd(x):
            n=s.read('$nq',x.ad); s.fact(n>=0)
            if a=='shape': return (s.pw(n),)
            if a=='size': return s.pw(n)
            if a=='ndim': return 1
            return Prim(a,x)
        if s.isrng(x): return Prim(a,x)
        if a=='bit_length' and isz(x,I) and z3.is_app(x) and x.decl().eq(pow2): return Prim('bit_length',LogV(x.arg(0)))
        return super().attr(x,a)
    def pw(s,n): p=pow2(zi(n)); s.fact(p>=1); return p
    def length(s,x):
        if s.isnd(x): return s.pw(s.read('$nq',x.ad))
        return super().length(x)
    def truth(s,x):
        if isR(x): return x!=0
        return super().truth(x)
    def instattr(s,x,a):
        ps=s.possible(x.ad)
        if a in('target_operation','_target_operation') and ps and all(p.sub(s.K['CO']) for p in ps):
            # the class attribute of the operation's class
            return ClsVal(s.tcof(x.ad),bound=s.K['Op'])
        if a in('num_control','_num_control') and a=='num_control' and ps and all(p.sub(s.K['CO']) for p in ps):
            n=s.ncof(x.ad); s.fact(n>=1); return n
        return super().instattr(x,a)
    def tcof(s,ad):
        """id of the target operation class of the operation at ad"""
        t=tcid(clsof(ad))
        for p in s.src.subs(s.K['CO']):
            o,d=p.find('_target_operation')
            if isinstance(d,tuple) and not(isinstance(d[1],ast.Constant) and d[1].value is None):
                c=s.clsdefattr(d,o,'_target_operation')
                if isinstance(c,Cls): s.fact(tcid(z3.IntVal(p.id))==c.id)
        return t
    def ncof(s,ad):
        for p in s.src.subs(s.K['CO']):
            v=core.constof(s,p,'_num_control')
            if v is not None: s.fact(ncid(z3.IntVal(p.id))==v)
        return ncid(clsof(ad))
    def mixed(s,d,cls,inst):
        if d.name=='matrix':
            if inst is not None: return Mat(opmat(s.box(inst)),True)
            cid=zi(cls.id) if isinstance(cls,Cls) else cls.cid
            if isinstance(cls,Cls) and cls.name=='X' and cls.mod is not None: return Mat(XM,True)
            return Mat(clsmat(cid))
        return super().mixed(d,cls,inst)
    def clsvalattr(s,x,a):
        if a=='matrix': return Mat(clsmat(x.cid))
        return super().clsvalattr(x,a)
    def instantiate_sym(s,f,args,kw):
        if f.bound is s.K['Op']:
            p=args[0] if args else kw.get('parameters')
            if p is None or (not isinstance(p,Ref)): raise Unsupported('target operation without parameters')
            return TgtV(f.cid,s.read('$el',p.ad),s.length(p))
        return super().instantiate_sym(f,args,kw)
    def call(s,f,args,kw):
        if isinstance(f,CFun): return s.kernel(f.name,args)
        return super().call(f,args,kw)
    def prim(s,p,args,kw):
        x=p.self; n=p.name
        if isinstance(x,LogV) and n=='bit_length': return z3.simplify(x.t+1)
        if isinstance(x,Mat):
            if n in('conjugate','conj'): return Mat(conjM(x.t),False,x.two)
            if n in('copy','astype'): return Mat(x.t,x.contig and n=='copy',x.two)
        if s.isnd(x):
            if n=='copy': return s.nd(s.read('$nq',x.ad),s.read('$st',x.ad))
            if n=='reshape': return s.reshape(x,args)
            raise Unsupported('array method '+n)
        if s.isrng(x):
            if n=='uniform' and not args and not kw: return s.draw(x)
            if n=='random' and not args and not kw: return s.draw(x)
            raise Unsupported('random generator method '+n)
        return super().prim(p,args,kw)
    def draw(s,x):
        k=s.read('$rk',x.ad); u=udraw(x.ad,k); s.fact(z3.And(u>=0,u<1)); s.write('$rk',x.ad,z3.simplify(k+1)); return u
    def eq(s,a,b):
        if (isR(a) or isR(b)) and toR(a) is not None and toR(b) is not None: return toR(a)==toR(b)
        return super().eq(a,b)
    def compare(s,op,l,r):
        if (isR(l) or isR(r)) and type(op) in CMPR and toR(l) is not None and toR(r) is not None: return s.pyb(z3.simplify(CMPR[type(op)](toR(l),toR(r))))
        return super().compare(op,l,r)
    def setitem(s,b,i,v):
        if isinstance(b,Bx): b=s.resolve(b)
        if s.isnd(b):
            x=toR(v)
            if isinstance(v,complex) and v.imag==0: x=toR(v.real)
            if x is None or not(isinstance(i,int) or isz(i,I)): raise Unsupported('array assignment')
            s.write('$st',b.ad,setat(s.read('$st',b.ad),zi(i),x)); return
        return super().setitem(b,i,v)
    def kernel(s,name,args):
        """contract of a kernel: what it does to the state it is given (verified on the generated C++ code)"""
        le=name.endswith('_little_endian'); base=name.replace('_little_endian','').replace('_big_endian',''); leb=z3.BoolVal(le)
        if not name.endswith(('_little_endian','_big_endian')): raise Unsupported('kernel '+name)
        n,sv,gm=zi(args[0]),args[1],args[2]; ts=args[3:]
        if not isinstance(sv,AddrV) or not s.isnd(sv.x): raise Unsupported('kernel state argument')
        st=s.read('$st',sv.x.ad); x=sv.x.ad
        meas=base.startswith('measurement_computational_basis_op')
        if base not in KERN and not meas: raise Unsupported('kernel '+name)
        qs=[zi(t) for t in (ts if not meas else ts[:1])]
        s.prove(f'call of {base}: the number of qubits is the one of the state',n==s.read('$nq',x),kind='pre')
        s.prove(f'call of {base}: operands are qubits of the state',zand([z3.And(q>=0,q<n) for q in qs]),kind='pre')
        if len(qs)>1: s.prove(f'call of {base}: operands are distinct',z3.Distinct(*qs),kind='pre')
        if meas:
            k=int(base[len('measurement_computational_basis_op'):][0])
            if base.endswith('_norm'):
                r=NORM(n,st,qs[0],z3.IntVal(k),leb); s.fact(r>=0); return r
            if base.endswith('_apply'):
                f=toR(ts[1]); s.write('$st',x,COL(n,st,qs[0],z3.IntVal(k),f,leb)); return None
            raise Unsupported('kernel '+name)
        if base in('single_qubit','apply_gate_control','apply_gate_two_control'):
            if not isinstance(gm,AddrV) or not isinstance(gm.x,Mat): raise Unsupported('kernel matrix argument')
            s.prove(f'call of {base}: the gate matrix is stored row by row without gaps',z3.BoolVal(gm.x.contig),kind='pre')
            g=gm.x.t
        f={'single_qubit':lambda: F1(n,st,g,qs[0],leb),'apply_gate_control':lambda: FC(n,st,g,qs[0],qs[1],leb),'apply_gate_two_control':lambda: FCC(n,st,g,*qs,leb),'apply_swap':lambda: FSW(n,st,*qs,leb),'apply_cswap':lambda: FCS(n,st,*qs,leb)}[base]
        s.write('$st',x,f()); return None
KERN=('single_qubit','apply_gate_control','apply_gate_two_control','apply_swap','apply_cswap')
CMPR={ast.Lt:lambda a,b:a<b,ast.LtE:lambda a,b:a<=b,ast.Gt:lambda a,b:a>b,ast.GtE:lambda a,b:a>=b}
def symm(E):
    """operands of a swap, and controls of a doubly controlled gate, may be given in any order (matrices are symmetric under it)"""
    n,a,b,c=z3.Ints('sn sa sb sc'); s_=z3.Const('ss',St); g=z3.Const('sg',Mx); l=z3.Bool('sl')
    for f in (z3.ForAll([n,s_,a,b,l],FSW(n,s_,a,b,l)==FSW(n,s_,b,a,l),patterns=[FSW(n,s_,a,b,l)]),z3.ForAll([n,s_,a,b,c,l],FCS(n,s_,a,b,c,l)==FCS(n,s_,b,a,c,l),patterns=[FCS(n,s_,a,b,c,l)]),
      z3.ForAll([n,s_,g,a,b,c,l],FCC(n,s_,g,a,b,c,l)==FCC(n,s_,g,a,c,b,l),patterns=[FCC(n,s_,g,a,b,c,l)])): E.fact(f)
def gate_sem(k,n,st,ts,le,g):
    """what the kernels must have done for the gate kinds: operand order as in the operation (controls first)"""
    return {'1':lambda: F1(n,st,g,ts[0],le),'c':lambda: FC(n,st,g,ts[1],ts[0],le),'cc':lambda: FCC(n,st,g,ts[2],ts[0],ts[1],le),'sw':lambda: FSW(n,st,ts[0],ts[1],le),'csw':lambda: FCS(n,st,ts[1],ts[2],ts[0],le)}[k]()
def blocked(o,x):
    """some condition bit has the value 0"""
    cv=o.f('_cond',x); l=V.ad(cv); j=z3.Int('jc')
    return A(cv!=none,z3.Exists([j],A(j>=0,j<o.len(l),o.f('_value',V.ad(o.el(l,j)))==V.i(0))))
def load(tree):
    src=source(tree); K={k:src.cls(q) for k,q in dict(ctx=C+'CircuitContext',Ci=C+'Circuit',PC=C+'ParametricCircuit',Op=O+'Operation',PO=O+'ParametricOperation',CO=O+'ControlledOperation',PCO=O+'ParametricControlledOperation',Me=O+'Measurement',Ba=O+'Barrier',Q=P+'Qubit',B=P+'Bit',Va=P+'Variable',QR=R+'QuantumRegister',CR=R+'ClassicalRegister',SR=R+'SelfIncrementingRegister').items()}
    G='dwave.gate.operations.operations:'
    for k,n in(('SW','SWAP'),('CSW','CSWAP'),('CCX','CCX'),('X','X'),('Id','Identity')): K[k]=src.cls(G+n)
    ND=src.builtin_class('ndarray'); RNG=src.builtin_class('Generator'); MD=src.builtin_class('matrix'); src.mod('dwave.gate.simulator.simulator'); src.mod('dwave.gate.simulator.ops')
    cells={'_active_context':('opt',('obj',K['ctx'])),'on_exit_functions':('list',('fn',)),'_num_qubits':('opt',('int',))}
    cs=[]; add=lambda *a,**k: cs.append(Contract(*a,**k))
    SV=('exact',ND); RG=('exact',RNG)
    # ---------------------------------------------------------------- wrappers of the kernels (generated ops.pxd)
    gate=lambda E: Mat(z3.Const('arg_gate',Mx),True)
    def wreq(nt,contig=True):
        def f(E,a):
            n=a[0]; ts=a[3:3+nt]; out=[('the number of qubits is the one of the state',A(zi(n)==rd(E,'$nq',a[1]),zi(n)>=1)),('operands are qubits of the state',zand([A(zi(t)>=0,zi(t)<zi(n)) for t in ts]))]
            if nt>1: out.append(('operands are distinct',z3.Distinct(*[zi(t) for t in ts])))
            if contig: out.append(('the gate matrix is stored row by row without gaps',z3.BoolVal(isinstance(a[2],Mat) and a[2].contig)))
            symm(E); return out
        return f
    def wcase(base,nt):
        def f(E,a,old):
            n=zi(a[0]); st=old.read('$st',a[1].ad); ts=[zi(t) for t in a[3:3+nt]]; le=zb(E.truth(a[3+nt])); g=a[2].t if isinstance(a[2],Mat) else None
            want=lambda l:{'single_qubit':lambda: F1(n,st,g,ts[0],l),'apply_gate_control':lambda: FC(n,st,g,ts[0],ts[1],l),'apply_gate_two_control':lambda: FCC(n,st,g,*ts,l),'apply_swap':lambda: FSW(n,st,*ts,l),'apply_cswap':lambda: FCS(n,st,*ts,l)}[base]()
            return [Case('little-endian',le,modifies=[('$st',a[1].ad)],ensures=lambda E,a,ol,r:[('the state is transformed by the little-endian kernel with the operands in order',E.read('$st',a[1].ad)==want(z3.BoolVal(True)))]),
                    Case('big-endian',modifies=[('$st',a[1].ad)],ensures=lambda E,a,ol,r:[('the state is transformed by the big-endian kernel with the operands in order',E.read('$st',a[1].ad)==want(z3.BoolVal(False)))])]
        return f
    wc={}
    for base,nt in(('single_qubit',1),('apply_gate_control',2),('apply_gate_two_control',3),('apply_swap',2),('apply_cswap',3)):
        c=Contract(W+base,[('num_qubits',('int',)),('state_vector',SV),('gate_matrix',gate)]+[(f't{i}',('int',)) for i in range(nt)]+[('little_endian',('bool',))],wcase(base,nt),requires=wreq(nt,base in('single_qubit','apply_gate_control','apply_gate_two_control')),props=('C01','C22')); cs.append(c); wc[W+base]=c
    # measuring: outcome 0 iff the draw is below the squared norm of the component in which the qubit is 0
    def mreq(E,a): return [('the number of qubits is the one of the state',A(zi(a[0])==rd(E,'$nq',a[1]),zi(a[0])>=1)),('the qubit is one of the state',A(zi(a[2])>=0,zi(a[2])<zi(a[0])))]
    def mcases(E,a,old,n,st,x,q,rng,le,app):
        u=udraw(rng,old.read('$rk',rng)); n0,n1=[NORM(n,st,q,z3.IntVal(k),le) for k in(0,1)]; E.fact(A(n0>=0,n1>=0,u>=0,u<1)); app=zb(E.truth(app))
        def ens(k,p):
            def f(E,a,ol,r):
                s2=E.read('$st',x); fz=z3.Real('fz'); j=z3.Const('jf',RS)
                out=[(f'the outcome is {k}',zb(E.eq(r,k))),('one random number is drawn',E.read('$rk',rng)==old.read('$rk',rng)+1)]
                # the factor is the positive root of 1/p
                t=z3.simplify(s2)
                fac=facof(t)
                out.append(('without collapse the state stays',z3.Implies(z3.Not(app),s2==st)))
                if fac is not None: out.append(('the state collapses onto the outcome and is divided by the root of its probability',z3.Implies(app,A(s2==COL(n,st,q,z3.IntVal(k),fac,le),fac>0,fac*fac*p==1))))
                else: out.append(('the state collapses onto the outcome and is divided by the root of its probability',z3.Implies(app,z3.Exists([fz],A(s2==COL(n,st,q,z3.IntVal(k),fz,le),fz>0,fz*fz*p==1)))))
                return out
            return f
        m=[('$st',x),('$rk',rng)]
        return [Case('outcome 0',u<n0,modifies=m,ensures=ens(0,n0),result=lambda E,A_,o: 0),
                Case('outcome 1',n1>0,modifies=m,ensures=ens(1,n1),result=lambda E,A_,o: 1),
                Case('impossible outcome',raises='RuntimeError',modifies=[('$rk',rng)],ensures=lambda E,a,ol,r:[])]
    def facof(t):
        st=[t]
        while st:
            y=st.pop()
            if z3.is_app(y) and y.decl().eq(COL): return y.arg(4)
            st+=y.children()
        return None
    def mcase(E,a,old): return mcases(E,a,old,zi(a[0]),old.read('$st',a[1].ad),a[1].ad,zi(a[2]),a[3].ad,zb(E.truth(a[4])),a[5])
    c=Contract(W+'measurement_computational_basis',[('num_qubits',('int',)),('state_vector',SV),('target0',('int',)),('rng',RG),('little_endian',('bool',)),('apply_operator',('bool',))],mcase,requires=mreq,props=('C06','C22')); cs.append(c); wc[W+'measurement_computational_basis']=c
    # ---------------------------------------------------------------- sample_qubit
    def scase(E,a,old):
        x=a[1].ad; n=old.read('$nq',x); q=zi(a[0])
        bad=z3.Not(A(q>=0,q<n))
        return [Case('no such qubit',bad,raises='ValueError')]+mcases(E,a,old,n,old.read('$st',x),x,q,a[2].ad,zb(E.truth(a[4])),a[3])
    c=Contract(M+'sample_qubit',[('qubit',('int',)),('state',SV),('rng',RG),('collapse_state',('bool',)),('little_endian',('bool',))],scase,props=('C06','C22')); cs.append(c); wc[M+'sample_qubit']=c
    # ---------------------------------------------------------------- conditions
    def isb(E,a):
        x=a[0].ad; cv=Vocab(E).t('_cond',x,E.types.field(K['Op'],'_cond')); l=V.ad(cv); j=z3.Int('jb'); v=z3.Select(E.h('_value'),V.ad(z3.Select(E.read('$el',l),j)))
        return [('bits hold nothing, 0 or 1',z3.ForAll([j],z3.Implies(A(cv!=none,j>=0,j<E.read('$len',l)),z3.Or(v==none,v==V.i(0),v==V.i(1)))))]
    add(O+'Operation.is_blocked',[('self',('obj',K['Op']))],lambda E,a,old:[Case('read',ensures=lambda E,a,ol,r:[('blocked exactly if some condition bit has the value 0',zb(E.truth(r))==blocked(Vocab(E,old),a[0].ad))])],requires=isb,props=('C07',))
    def condc(E,a,old):
        o=Vocab(E,old); x=a[0].ad; b=a[1]; one=isinstance(b,Ref) and E.kindof(b)=='obj'
        def ens(E,a,ol,r):
            N=Vocab(E); cv=N.f('_cond',x); l=V.ad(cv); j=z3.Int('jc'); out=[('is the same operation',E.box(r)==V.r(x))]
            if one: out.append(('is conditional on that bit',A(V.is_r(cv),N.len(l)==1,N.el(l,0)==V.r(b.ad))))
            else: out.append(('is conditional on exactly those bits',A(V.is_r(cv),N.len(l)==o.len(b.ad),z3.ForAll([j],z3.Implies(A(j>=0,j<o.len(b.ad)),N.el(l,j)==o.el(b.ad,j))))))
            return out
        return [Case('made conditional',modifies=[('_cond',x)],ensures=ens,allocates=True)]
    add(O+'Operation.conditional',[('self',('obj',K['Op'])),('bits',('or',('obj',K['B']),('list',('obj',K['B'])),('tuple',('obj',K['B']))))],condc,setup=lambda E,a: a.__setitem__(1,E.resolve(a[1])),props=('C07',))
    # ---------------------------------------------------------------- one instruction
    libs=[c for c in src.subs(K['Op']) if c not in(K['PO'],K['CO'],K['PCO'])]+[K['CO'],K['PCO'],K['PO']]
    def need(E,x):
        """number of operands of an operation: what its type requires"""
        t=core.reqn(E,clsof(x),Vocab(E)); return t
    def tlist(E,a): return a[3]
    def operands(E,a):
        L=a[3].ad; el=E.read('$el',L); return [V.iv(z3.Select(el,z3.IntVal(i))) for i in range(3)],E.read('$len',L)
    def areq(E,a):
        n,x=zi(a[0]),a[2].ad; L=a[3].ad; N=Vocab(E); i,j=z3.Ints('ti tj'); E.keep+=[i,j]; rq=need(E,x); ln=N.len(L)
        e=lambda i: z3.Select(E.read('$el',L),i)
        symm(E)
        return [('no circuit context is active',Vocab(E).active()==none),('the number of qubits is the one of the state',A(n==rd(E,'$nq',a[1]),n>=1)),('operands are qubits of the state',z3.ForAll([i],z3.Implies(A(i>=0,i<ln),A(V.is_i(e(i)),V.iv(e(i))>=0,V.iv(e(i))<n)))),
          ('operands are distinct',z3.ForAll([i,j],z3.Implies(A(i>=0,i<j,j<ln),V.iv(e(i))!=V.iv(e(j))))),
          ('operands start in range',zand([z3.Implies(ln>k,A(V.is_i(e(z3.IntVal(k))),V.iv(e(z3.IntVal(k)))>=0,V.iv(e(z3.IntVal(k)))<n)) for k in range(3)])),
          ('operands differ',zand([z3.Implies(ln>l,V.iv(e(z3.IntVal(k)))!=V.iv(e(z3.IntVal(l)))) for k in range(3) for l in range(3) if k<l])),
          ('there are as many operands as the operation requires',A(z3.Implies(rq!=none,ln==V.iv(rq)),ln>=1)),
          ('controlled operations have one target',z3.Implies(E.isa(x,K['CO']),ln==E.ncof(x)+1))]+isb(E,[a[2]])
    global AREQ; AREQ=areq
    def nqof(E,o,x):
        v=o.f('_num_qubits',x); return z3.If(v==absent,core.reqn(E,clsof(x),o),v)
    def iac(E,a,old):
        o=Vocab(E,old); n,x,s=zi(a[0]),a[2].ad,a[1].ad; st=old.read('$st',s); (t0,t1,t2),ln=operands(E,a); ts=[t0,t1,t2]; le=zb(E.truth(a[4])); cj=zb(E.truth(a[6]) if len(a)>6 else False)
        isc=lambda *ks: zor([E.isa(x,K[k]) for k in ks]); out=lambda E: E.read('$st',s)
        md=[('$st',s)]
        g1=opmat(V.r(x)); g1=z3.If(cj,conjM(g1),g1); tc=E.tcof(x); pl=o.plist(x)
        gc=z3.If(isc('PO'),tgtmat(tc,o.f('$el',pl),o.len(pl)),clsmat(tc)); gc=z3.If(cj,conjM(gc),gc)
        nq=nqof(E,o,x); nc=E.ncof(x)
        sem=lambda nm,k,g: (lambda E,a,ol,r:[(nm,out(E)==gate_sem(k,n,st,ts,le,g))])
        C_=[Case('blocked',blocked(o,x)),
          Case('measurement, little-endian',A(isc('Me'),le),raises='CircuitError'),
          Case('measurement',isc('Me'),modifies=[('$st',s),('_value',ALL),('_measured_state',x),('_measured_qubit_indices',x),('$rk',a[5].ad),('$ln',0),('$lop',0),('$lts',0),('$lad',0)],allocates=True,ensures=lambda E,a,ol,r:[('the qubits are measured once, in the given order',A(E.read('$ln',0)==old.read('$ln',0)+1,z3.Select(E.read('$lop',0),old.read('$ln',0))==V.r(x),z3.Select(E.read('$lts',0),old.read('$ln',0))==old.read('$el',a[3].ad),z3.Select(E.read('$lad',0),old.read('$ln',0))==s))]),
          Case('barrier',isc('Ba')),
          Case('swap',isc('SW'),modifies=md,ensures=sem('exchanges the two operands','sw',None)),
          Case('controlled swap',isc('CSW'),modifies=md,ensures=sem('exchanges the last two operands, controlled by the first','csw',None)),
          Case('Toffoli',isc('CCX'),modifies=md,ensures=sem('flips the last operand, controlled by the first two','cc',XM)),
          Case('one control',A(isc('CO'),nc==1),modifies=md,ensures=sem('applies the target gate to the last operand, controlled by the first','c',gc)),
          Case('two controls',A(isc('CO'),nc==2),modifies=md,ensures=sem('applies the target gate to the last operand, controlled by the first two','cc',gc)),
          Case('more controls',isc('CO'),raises='ValueError'),
          Case('single-qubit gate',nq==V.i(1),modifies=md,ensures=sem('applies the matrix of the operation to its operand','1',g1)),
          Case('other operation',raises='ValueError')]
        ps=E.possible(x); has=lambda *ks: any(p.sub(K[k]) for p in ps for k in ks); oth=any(not p.sub(K['CO']) and p not in(K['Me'],K['Ba'],K['SW'],K['CSW'],K['CCX']) for p in ps); two=any(core.constof(E,p,'_num_control')!=1 for p in ps if p.sub(K['CO']) and not p.sub(K['CCX']))
        ok={'measurement, little-endian':has('Me'),'measurement':has('Me'),'barrier':has('Ba'),'swap':has('SW'),'controlled swap':has('CSW'),'Toffoli':has('CCX'),'one control':any(p.sub(K['CO']) and not p.sub(K['CCX']) for p in ps),'two controls':two,'more controls':two,'single-qubit gate':oth,'other operation':oth and any(p in(K['Op'],K['PO']) for p in ps)}
        for c_ in C_: c_.cover=ok.get(c_.name,True)
        return C_
    iaparams=lambda ops: [('num_qubits',('int',)),('state',SV),('op',('among',ops)),('targets',('list',('int',))),('little_endian',('bool',)),('rng',RG),('conjugate_gate',('bool',))]
    par=[c for c in libs if c.sub(K['CO'])]; grp=[('measurements, barriers',[c for c in libs if c in(K['Me'],K['Ba'])]),('swaps and Toffoli',[c for c in libs if c.sub(K['SW']) or c.sub(K['CSW']) or c.sub(K['CCX'])])]
    done={c.id for _,g in grp for c in g}; rest=[c for c in libs if c.id not in done]
    grp+=[('controlled',[c for c in rest if c.sub(K['CO']) and not c.sub(K['PO'])]),('controlled with parameters',[c for c in rest if c.sub(K['CO']) and c.sub(K['PO'])]),('single gates',[c for c in rest if not c.sub(K['CO']) and not c.sub(K['PO'])]),('single gates with parameters',[c for c in rest if not c.sub(K['CO']) and c.sub(K['PO'])])]
    grp=[(nm+(f' {i//5+1}' if len(g)>7 else ''),g[i:i+5]) if len(g)>7 else (nm,g) for nm,g in grp for i in (range(0,len(g),5) if len(g)>7 else [0])]
    for nm,g in grp:
        if g: c=Contract(M+'apply_instruction',iaparams(g),iac,requires=areq,props=('C01','C07','C22'),note=nm); cs.append(c)
    # model of _measure inside apply_instruction: logs its arguments
    def m_measure(E,a,k):
        op,state,targets,rng=[E.resolve(x) if isinstance(x,Bx) else x for x in a]
        E.bump(); n=E.read('$ln',0)
        E.write('$lop',z3.IntVal(0),z3.Store(E.read('$lop',0),n,E.box(op))); E.write('$lts',z3.IntVal(0),z3.Store(E.read('$lts',0),n,E.read('$el',targets.ad))); E.write('$lad',z3.IntVal(0),z3.Store(E.read('$lad',0),n,state.ad)); E.write('$ln',z3.IntVal(0),n+1)
        E.havoc('$st',state.ad); E.havoc('_measured_state',op.ad); E.havoc('_measured_qubit_indices',op.ad); E.havoc('$rk',rng.ad)
        b=z3.Const(f'mv_value!{E.nfresh}',E.hsort('_value')); E.nfresh+=1; E.h('_value'); E.H['_value']=b; E.hbase[b.get_id()]=(b,E.now()); return None
    # ---------------------------------------------------------------- engine
    ext={'call:__cfun':lambda E,a,k: CFun(a[0]),'call:__addr':lambda E,a,k: AddrV(E.resolve(a[0]) if isinstance(a[0],Bx) else a[0]),'call:__c_int':lambda E,a,k: a[0] if not isinstance(a[0],LogV) else E.unsup('int of a logarithm'),
      'call:numpy.empty':lambda E,a,k: Opaque('array'),'call:numpy.random.default_rng':lambda E,a,k: newrng(E,a,k),'call:warnings.warn':lambda E,a,k: None}
    def newrng(E,a,k):
        r=E.alloc(RNG); v=a[0] if a else k.get('seed'); E.write('$seed',r.ad,E.box(v)); return r
    def mkarr(E,a,k):
        x=a[0]
        if isinstance(x,Mat): return Mat(x.t,x.contig,x.two)
        n,at,_=E.iterview(x); n=E.concretize(n)
        if n==2:
            rows=[E.iterview(at(i)) for i in range(2)]
            v=[E.resolve(r[1](j)) if isinstance(r[1](j),Bx) else r[1](j) for r in rows for j in range(2)]
            if v==[0,1,1,0]: return Mat(XM,True)
        raise Unsupported('array literal')
    ext['call:numpy.array']=mkarr
    def contig(E,a,k):
        x=a[0]
        if isinstance(x,Mat): return Mat(x.t,True,x.two)
        raise Unsupported('ascontiguousarray')
    for n in('ascontiguousarray',): ext['call:numpy.'+n]=contig
    for n in('asarray',): ext['call:numpy.'+n]=lambda E,a,k: a[0]
    for n in('conj','conjugate'): ext['call:numpy.'+n]=lambda E,a,k: Mat(conjM(a[0].t),False,a[0].two) if isinstance(a[0],Mat) else E.unsup('conj')
    def npzeros(E,a,k):
        x=a[0]
        if isz(x,I) and z3.is_app(x) and x.decl().eq(pow2): q=x.arg(0)
        else: raise Unsupported('size of an array')
        return E.nd(q,zeros(q))
    ext['call:numpy.zeros']=npzeros
    def nplog2(E,a,k):
        x=a[0]
        if isz(x,I) and z3.is_app(x) and x.decl().eq(pow2): return LogV(x.arg(0))
        raise Unsupported('logarithm')
    ext['call:numpy.log2']=nplog2; ext['call:math.log2']=nplog2
    ext['call:round']=lambda E,a,k: a[0].t if isinstance(a[0],LogV) else E.bi_round(a,k)
    def npsqrt(E,a,k):
        p=toR(a[0])
        if p is None: raise Unsupported('square root')
        r=E.fresh('root',RS); E.fact(z3.Implies(p>=0,z3.And(r>=0,r*r==p))); return r
    for n in('numpy.sqrt','math.sqrt'): ext['call:'+n]=npsqrt
    def bino(E,k,l,r):
        if not(isR(l) or isR(r)): return None
        x,y=toR(l),toR(r)
        if x is None or y is None: return None
        if k=='+': return x+y
        if k=='-': return x-y
        if k=='*': return x*y
        if k=='/':
            if E.branch(y==0,'division by zero'): raise Unsupported('division by zero')
            return x/y
        return None
    ext['binop']=bino
    m_q=lambda f,k: (lambda E,a,kw: E.unbox(E.read(f,a[0].ad),('obj',K[k])))
    models={C+'Circuit.qubits':m_q('$cq','QR'),C+'Circuit.bits':m_q('$cb','CR')}
    F,EL_=fields(src); F['Measurement'].update({'_measured_state':('opt',('obj',ND))})
    E=NpVerifier(src,Types(src,F,EL_,cells,('_active_context','on_exit_functions'),core.numfact(K)),{},models,{},ext)
    regs.attach(E); E.K=K; E.constof=lambda c,a: core.constof(E,c,a); E.ND=ND; E.RNG=RNG; E.MD=MD
    E.contracts.update(wc)
    E.models[M+'_measure']=m_measure
    from . import sim2
    sim2.add(E,src,K,cs,dict(SV=SV,RG=RG,iac=iac,blocked=blocked,isb=isb,need=need,mcases=mcases))
    return E,cs,dict(trusted=[regs.TRUST,'numpy: zeros, array, ascontiguousarray, conj, copy, sqrt, log2 and Generator.uniform per their documentation','the kernels compute what the obligations on the generated C++ code state'],assumptions=['amplitude and probability arithmetic is exact','classes created by create_operation behave like the declared ones'])
