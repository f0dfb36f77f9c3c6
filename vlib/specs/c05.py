"""C04, C05: unitaries of circuits and of controlled gates (dwave/gate/tools/unitary.py, create_operation).

Matrices are values of an uninterpreted sort with the product mm, the Kronecker product kron and eye(n), the identity on n qubits."""
from .common import *
from . import regs, core, sim, sim2
from .core import Vocab, A
from .sim import Mat, Mx, opmat, clsmat, tgtmat
U='dwave.gate.tools.unitary:'
mm=z3.Function('mm',Mx,Mx,Mx); kron=z3.Function('kron',Mx,Mx,Mx); eye=z3.Function('eye',I,Mx)
G=z3.Function('embed1',Mx,I,I,Mx)          # the matrix on qubit q, identities elsewhere, of the first i qubits (qubit 0 the most significant)
BCU=z3.Function('controlled',EL,I,EL,I,Mx,I,Mx)
AP1=z3.Function('apply_single',I,Mx,Mx); APC=z3.Function('apply_controlled',I,Mx,Mx)   # specified by the contracts of the functions of those names
PR=z3.Function('product',I,Mx)
class SetOf:
    """set of the elements of a sequence of integers"""
    def __init__(s,n,at): s.n=n; s.at=at
class Common:
    """intersection of two sets, of which only emptiness is known"""
    def __init__(s,c): s.c=c
qkey=z3.Function('qkey',V,Key); qid=z3.Function('qid',Key,V)
class Ver(sim.NpVerifier):
    def canonk(s,v):
        k=super().canonk(v); v=z3.simplify(v)
        if v.get_id() not in s.qk:
            s.qk[v.get_id()]=v; i=s.read('_id',V.ad(v)); s.fact(z3.Implies(A(V.is_r(v),clsof(V.ad(v))==s.K['Q'].id),A(k==qkey(i),qid(qkey(i))==i)))
        return k
    def dkey(s,d,i):
        k=super().dkey(d,i); s.canonk(k); return k
    def reset(s,*a,**k): s.qk={}; return super().reset(*a,**k)
    def new_set(s,a,k):
        n,at=s.intseq(a[0]); return SetOf(n,at)
    def intseq(s,x):
        """length and elements of a sequence of integers"""
        if isinstance(x,Bx): x=s.resolve(x)
        if isinstance(x,SetOf): return x.n,x.at
        n,at,T=s.iterview(x); arr=s.seqarr(Seq(n,at,T)); return zi(n),(lambda i: V.iv(z3.Select(arr,i)))
    def attr(s,x,a):
        if isinstance(x,SetOf) and a in('isdisjoint','intersection'): return Prim(a,x)
        return super().attr(x,a)
    def prim(s,p,args,kw):
        if isinstance(p.self,SetOf):
            n2,a2=s.intseq(args[0]); n1,a1=p.self.n,p.self.at; i,j=z3.Ints('si sj')
            c=z3.Exists([i,j],A(i>=0,i<n1,j>=0,j<n2,a1(i)==a2(j)))
            if p.name=='isdisjoint': return z3.Not(c)
            if p.name=='intersection': return Common(c)
        return super().prim(p,args,kw)
    def truth(s,x):
        if isinstance(x,Common): return x.c
        if isinstance(x,SetOf): return x.n>0
        return super().truth(x)
def load(tree):
    E,cs0,meta=sim.load(tree); src=E.src; K=E.K; cs=[]; add=lambda *a,**k: cs.append(Contract(*a,**k))
    E.__class__=Ver; src.mod('dwave.gate.tools.unitary')
    ext=E.extern; mat0=ext['binop']; j=z3.Int('jm')
    def exps(x):
        if isz(x,I) and z3.is_app(x) and x.decl().eq(sim.pow2): return x.arg(0)
        if isinstance(x,int) and x>0 and x&(x-1)==0: return z3.IntVal(x.bit_length()-1)
        if isz(x,I):
            y=z3.simplify(x)
            if z3.is_int_value(y): return exps(y.as_long())
        return None
    def bino(E,k,l,r):
        if k=='@' and isinstance(l,Mat) and isinstance(r,Mat): return Mat(mm(l.t,r.t),True)
        if k=='**' and isinstance(l,int) and l==2:
            if isinstance(r,Bx): r=E.resolve(r)
            if isz(r,I): return E.pw(r)
        return mat0(E,k,l,r)
    ext['binop']=bino
    def np_eye(E,a,k):
        n=exps(E.resolve(a[0]) if isinstance(a[0],Bx) else a[0])
        if n is None or len(a)>1 and a[1] is not None: raise Unsupported('size of an identity')
        return Mat(eye(n),True)
    def np2(f):
        def g(E,a,k):
            l,r=a
            if not(isinstance(l,Mat) and isinstance(r,Mat)): raise Unsupported('matrix arguments')
            return Mat(f(l.t,r.t),True)
        return g
    ext['call:numpy.eye']=np_eye; ext['call:numpy.identity']=np_eye; ext['call:numpy.kron']=np2(kron)
    for n in('matmul','dot'): ext['call:numpy.'+n]=np2(mm)
    def defs(E):
        m=z3.Const('mg',Mx); q,i=z3.Ints('gq gi')
        E.fact(z3.ForAll([m,q],G(m,q,1)==z3.If(q==0,m,eye(1)),patterns=[G(m,q,1)]),quant=True)
        E.gdef=lambda m,q,i: E.fact(z3.Implies(i>=1,G(m,q,i+1)==kron(G(m,q,i),z3.If(q==i,m,eye(1)))))
    def bound(v):
        st=[v]
        while st:
            y=st.pop()
            if y.eq(j): return True
            st+=y.children()
        return False
    mparam=lambda nm: (lambda E: Mat(z3.Const('arg_'+nm,Mx),True))
    def pos(o,r,v):
        if bound(v): return z3.Select(o.f('$dp',r),canon(v))
        k=E.canonk(v); p=z3.Select(o.f('$dp',r),k); w=z3.Select(o.f('$dk',r),p); E.fact(z3.Implies(p>=0,A(E.canonk(w)==k,p<o.f('$dn',r)))); return p
    # ---------------------------------------------------------------- a single-qubit gate
    def sreq(E,a):
        o=Vocab(E); x,r=a[1].ad,a[2].ad; qv=o.f('_qubits',x); l=V.ad(qv); defs(E)
        return [('the operation has one qubit',A(V.is_r(qv),o.len(l)==1,nq1(o,x))),('the qubit is one of the register',A(o.inreg(r,o.el(l,0)))),('the register has qubits',o.f('$dn',r)>=1)]
    def squal(E,o,a):
        x,r=a[1].ad,a[2].ad; l=V.ad(o.f('_qubits',x)); return mm(G(opmat(V.r(x)),pos(o,r,o.el(l,0)),o.f('$dn',r)),a[0].t)
    def nq1(o,x): core.reqn(E,clsof(x),Vocab(E)); v=o.f('_num_qubits',x); return z3.Or(v==absent,v==V.i(1))
    def ret(E,r): return r.t if isinstance(r,Mat) else z3.Const('nomatrix',Mx)
    singles=[c for c in src.subs(K['Op']) if not c.sub(K['CO']) and c not in(K['Me'],K['Ba'])]
    fixed=[c for c in singles if core.constof(E,c,'_num_qubits')==1]
    QP=('obj',K['QR'])
    def scase(E,a,old):
        return [Case('applied',ensures=lambda E,a,ol,r:[('the result is the gate on its qubit, identities on the others, times the state',ret(E,r)==squal(E,Vocab(E,old),a))],modifies=[('C._num_qubits',ALL)])]
    add(U+'_apply_single_qubit_gate',[('state',mparam('state')),('op',('among',fixed)),('qubits',QP)],scase,requires=sreq,props=('C05',))
    def sl_inv(E,L):
        a=E.topargs; o=Vocab(E,E.oldview); x,r=a[1].ad,a[2].ad; l=V.ad(o.f('_qubits',x)); q=pos(o,r,o.el(l,0)); m=opmat(V.r(x)); t=E.getname('mat')
        E.gdef(m,q,L.i+1); i=z3.simplify(L.i)
        return [('it is the embedding in the qubits so far',ret(E,t)==G(m,q,L.i+1))]
    def fmat(E,L): return Mat(E.fresh('mat',Mx),True)
    E.loops[(U+'_apply_single_qubit_gate',0)]=LoopSpec(sl_inv,lambda E,L:[],env={'mat':fmat},allocates=False)
    # ---------------------------------------------------------------- a controlled gate
    def cpos(o,r,fv): 
        l=V.ad(fv); return l
    def creq(E,a):
        o=Vocab(E); x,r=a[1].ad,a[2].ad; out=[]
        for f in('_control','_target'):
            v=o.f(f,x); l=V.ad(v)
            out.append((f'{f[1:]} qubits are in the register',A(V.is_r(v),clsof(l)==E.kinds['tuple'].id,z3.ForAll([j],z3.Implies(A(j>=0,j<o.len(l)),o.inreg(r,o.el(l,j))),patterns=[o.el(l,j)]))))
        return out+[('the operation has controls and a target',A(o.len(V.ad(o.f('_control',x)))>=1,o.len(V.ad(o.f('_target',x)))==1))]
    def cens(E,a,old,r):
        o=Vocab(E,old); x,g=a[1].ad,a[2].ad; t=ret(E,r); t=z3.simplify(t); out=[]
        def isf(t,f): return z3.is_app(t) and t.decl().eq(f)
        tc=E.tcof(x); pl=o.plist(x); um=z3.If(E.isa(x,K['PO']),tgtmat(tc,o.f('$el',pl),o.len(pl)),clsmat(tc))
        ca,ta=z3.Const('wit_ca',EL),z3.Const('wit_ta',EL)
        cl,tl=V.ad(o.f('_control',x)),V.ad(o.f('_target',x))
        W=lambda ca,ta,cn,tn: A(cn==o.len(cl),tn==o.len(tl),z3.ForAll([j],z3.Implies(A(j>=0,j<o.len(cl)),z3.Select(ca,j)==V.i(pos(o,g,o.el(cl,j))))),z3.ForAll([j],z3.Implies(A(j>=0,j<o.len(tl)),z3.Select(ta,j)==V.i(pos(o,g,o.el(tl,j))))))
        nm='the result is the controlled matrix of the gate times the state'
        if isf(t,mm) and isf(t.arg(0),BCU):
            b=t.arg(0)
            return [(nm+': the positions of the controls and the target',W(b.arg(0),b.arg(2),b.arg(1),b.arg(3))),(nm+': the target matrix',b.arg(4)==um),(nm+': the number of qubits',b.arg(5)==o.f('$dn',g)),(nm+': times the state',t.arg(1)==a[0].t)]
        return [(nm,z3.Exists([ca,ta],A(W(ca,ta,o.len(cl),o.len(tl)),t==mm(BCU(ca,o.len(cl),ta,o.len(tl),um,o.f('$dn',g)),a[0].t))))]
    ctrl=[c for c in src.subs(K['CO']) if c not in(K['CO'],K['PCO']) and not c.sub(K['CSW'])]
    for nm,g in(('with parameters',[c for c in ctrl if c.sub(K['PO'])]),('without parameters',[c for c in ctrl if not c.sub(K['PO'])])):
        if g: add(U+'_apply_controlled_gate',[('state',mparam('state')),('op',('among',g)),('qubits',QP)],lambda E,a,old:[Case('applied',ensures=lambda E,a,ol,r: cens(E,a,old,r))],requires=creq,props=('C05',),note=nm)
    def m_bcu(E,a,k):
        names=('control','target','unitary','num_qubits','dtype'); d=dict(zip(names,a)); d.update(k)
        if 'dtype' in d: raise Unsupported('type of the matrix')
        def sq(x):
            if isinstance(x,Bx): x=E.resolve(x)
            if isinstance(x,int) or isz(x,I): return z3.Store(z3.K(I,V.i(0)),0,E.box(x)),z3.IntVal(1)
            n,at,T=E.iterview(x); return E.seqarr(Seq(n,at,T)),zi(n)
        ca,cn=sq(d['control']); ta,tn=sq(d['target']); u=d['unitary']; n=d['num_qubits']
        if isinstance(n,Bx): n=E.resolve(n)
        if not isinstance(u,Mat) or not(isinstance(n,int) or isz(n,I)): raise Unsupported('arguments of build_controlled_unitary')
        return Mat(BCU(ca,cn,ta,tn,u.t,zi(n)),True)
    E.models[U+'build_controlled_unitary']=m_bcu
    # ---------------------------------------------------------------- the whole circuit
    def breq(E,a):
        o=Vocab(E); c=a[0].ad; L=o.oplist(c); r=o.qreg(c); i=z3.Int('io'); x=V.ad(o.el(L,i)); g=A(i>=0,i<o.len(L)); qv=o.f('_qubits',x)
        E.fact(PR(z3.IntVal(0))==eye(o.f('$dn',r)))
        co=E.isa(x,K['CO']); k=z3.Int('ko'); rr=lambda f: A(V.is_r(o.f(f,x)),clsof(V.ad(o.f(f,x)))==E.kinds['tuple'].id,z3.ForAll([k],z3.Implies(A(k>=0,k<o.len(V.ad(o.f(f,x)))),o.inreg(r,o.el(V.ad(o.f(f,x)),k))),patterns=[o.el(V.ad(o.f(f,x)),k)]))
        return [('the operations are single-qubit gates or controlled gates',z3.ForAll([i],z3.Implies(g,zor([E.isa(x,q) for q in fixed+ctrl])),patterns=[o.el(L,i)])),
          ('single-qubit gates have one qubit of the circuit',z3.ForAll([i],z3.Implies(A(g,z3.Not(co)),A(V.is_r(qv),o.len(V.ad(qv))==1,nq1(o,x),o.inreg(r,o.el(V.ad(qv),0)))),patterns=[o.el(L,i)])),
          ('controlled gates have controls and one target in the circuit',z3.ForAll([i],z3.Implies(A(g,co),A(rr('_control'),rr('_target'),o.len(V.ad(o.f('_control',x)))>=1,o.len(V.ad(o.f('_target',x)))==1)),patterns=[o.el(L,i)])),
          ('the circuit has qubits',o.f('$dn',r)>=1)]
    add(U+'build_unitary',[('circuit',('obj',K['Ci']))],lambda E,a,old:[Case('built',modifies=[('C._num_qubits',ALL)],ensures=lambda E,a,ol,r:[('the result is the ordered product of the embedded operations',ret(E,r)==PR(Vocab(E,old).len(Vocab(E,old).oplist(a[0].ad))))])],requires=breq,props=('C05',))
    def bl_inv(E,L):
        o=Vocab(E,E.oldview); c=E.topargs[0].ad; l=o.oplist(c); x=V.ad(o.el(l,L.i))
        E.fact(z3.Implies(A(L.i>=0,L.i<o.len(l)),PR(L.i+1)==z3.If(E.isa(x,K['CO']),APC(x,PR(L.i)),AP1(x,PR(L.i)))))
        return [('it is the product of the operations so far',ret(E,E.getname('state'))==PR(L.i))]
    E.loops[(U+'build_unitary',0)]=LoopSpec(bl_inv,lambda E,L:[('C._num_qubits',ALL)],env={'state':fmat},allocates=False)
    def callee(fn,req):
        def m(E,a,k):
            a=[E.resolve(x) if isinstance(x,Bx) else x for x in a]
            if k or not isinstance(a[0],Mat): raise Unsupported('arguments of the gate application')
            o=Vocab(E)
            E.prove('the qubits passed are the ones of the circuit',V.r(a[2].ad)==V.r(o.qreg(E.topargs[0].ad)) if isinstance(a[2],Ref) else z3.BoolVal(False),kind='pre')
            for nm,f in req(E,a): E.prove('application of an operation: '+nm,f,kind='pre')
            return Mat(fn(a[1].ad,a[0].t),True)
        return m
    bu=cs[-1]; base=dict(E.models)
    def runner(E):
        E.models[U+'_apply_single_qubit_gate']=callee(AP1,sreq); E.models[U+'_apply_controlled_gate']=callee(APC,creq)
        return E.verify(bu)
    bu.runner=runner
    # ---------------------------------------------------------------- build_controlled_unitary
    def mkchain(E,xs):
        ps=[]
        for x in xs:
            if isinstance(x,Bx): x=E.resolve(x)
            n,at,T=E.iterview(x); ps.append((zi(n),E.seqarr(Seq(n,at,T))))
        if len(ps)!=2: raise Unsupported('chain of several sequences')
        (n1,a1),(n2,a2)=ps
        return Seq(E.pyi(z3.simplify(n1+n2)),lambda i: V.iv(z3.If(zi(i)<n1,z3.Select(a1,zi(i)),z3.Select(a2,zi(i)-n1))),('int',),'iterator')
    def chain_it(E,a,k):
        n,at,_=E.iterview(a[0]); n=E.concretize(n)
        if not isinstance(n,int): raise Unsupported('chain')
        return mkchain(E,[at(i) for i in range(n)])
    ext['call:itertools.chain.from_iterable']=chain_it; ext['call:itertools.chain']=lambda E,a,k: mkchain(E,a)
    def isq(E,x):
        if isinstance(x,int) or isz(x,I): return z3.IntVal(1),(lambda i: zi(x))
        return E.intseq(x)
    def bcreq(E,a):
        out=[]
        for nm,x in(('control',a[0]),('target',a[1])):
            n,at=isq(E,x); out.append((f'{nm} indices are not negative',z3.ForAll([j],z3.Implies(A(j>=0,j<n),at(j)>=0))))
        return out
    def bccase(E,a,old):
        (n1,a1),(n2,a2)=isq(E,a[0]),isq(E,a[1]); i=z3.Int('im'); n=a[3]
        over=z3.Exists([i,j],A(i>=0,i<n1,j>=0,j<n2,a1(i)==a2(j)))
        small=z3.BoolVal(False) if n is None else zor([z3.Exists([j],A(j>=0,j<nn,at(j)>=zi(n))) for nn,at in((n1,a1),(n2,a2))])
        return [Case('an index is control and target',over,raises=('ValueError','NotImplementedError')),Case('an index beyond the number of qubits',small,raises=('ValueError','NotImplementedError'),cover=n is not None),
                Case('not one target',n2!=1,raises=('ValueError','NotImplementedError'),cover=not isz(a[1],I)),
                Case('built',ensures=lambda E,a,ol,r:[('the result is a matrix',z3.BoolVal(isinstance(r,Mat)))])]
    IS=('or',('int',),('list',('int',)),('tuple',('int',)))
    def bcset(E,a):
        for k_ in(0,1,3): a[k_]=E.resolve(a[k_]) if isinstance(a[k_],Bx) else a[k_]
    def mateye(E,a,k):
        n=exps(E.resolve(a[0]) if isinstance(a[0],Bx) else a[0])
        if n is None: raise Unsupported('size of an identity')
        return Mat(eye(n),True)
    add(U+'build_controlled_unitary',[('control',IS),('target',IS),('unitary',mparam('unitary')),('num_qubits',('opt',('int',))),('dtype',lambda E: Opaque('dtype'))],bccase,requires=bcreq,setup=bcset,props=('C04',))
    bc=cs[-1]
    def runner4(E):
        E.models.pop(U+'build_controlled_unitary',None); E.extern['call:numpy.eye']=mateye
        E.loops[(U+'build_controlled_unitary',0)]=LoopSpec(lambda E,L:[],lambda E,L:[],env={'state':fmat},allocates=True,opaque=True)
        E.extern['call:itertools.product']=lambda E,a,k: Seq(E.fresh('np',I),lambda i: E.unsup('bit strings'),('any',),'iterator')
        return E.verify(bc)
    bc.runner=runner4
    return E,cs,dict(trusted=[regs.TRUST,'numpy: eye, kron and @ per their documentation'],assumptions=['two qubits are the same register item exactly if they have the same id (C18)','arithmetic on matrix entries is exact','mm, kron and eye are uninterpreted: a rewriting of the code that needs their algebra (associativity, mixed products) is reported as undecided'])
