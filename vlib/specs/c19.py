"""C19, C02 (outer product): setting and reading the state of a circuit.

An array is an object with a number of dimensions, a shape and contents (ghost); norm, trace, division and closeness to 1 are
uninterpreted functions of the contents."""
from .common import *
from . import regs, core
from .core import Vocab, A
Ct=z3.DeclareSort('Ct'); Cx=z3.DeclareSort('Cx')
HSORT.update({'$ad':I,'$d0':I,'$d1':I,'$ct':Ct})
entry=z3.Function('entry',Ct,I,I,Cx); cmul=z3.Function('cmul',Cx,Cx,Cx); cconj=z3.Function('cconj',Cx,Cx)
anorm=z3.Function('anorm',Ct,Cx); atrace=z3.Function('atrace',Ct,Cx); adiv=z3.Function('adiv',Ct,Cx,Ct); close=z3.Function('isclose',Cx,z3.RealSort(),B)
class ShapeV:
    def __init__(s,x): s.x=x
class CxV:
    def __init__(s,t): s.t=t
class ArrVerifier(Verifier):
    def isnd(s,x):
        if not isinstance(x,Ref): return False
        ps=s.possible(x.ad); return bool(ps) and len(ps)==1 and ps[0] is s.ND
    def arr(s,nd,d0,d1,ct):
        r=s.alloc(s.ND); s.write('$ad',r.ad,zi(nd)); s.write('$d0',r.ad,zi(d0)); s.write('$d1',r.ad,zi(d1)); s.write('$ct',r.ad,ct); return r
    def g(s,f,x): return s.read(f,x.ad)
    def attr(s,x,a):
        if isinstance(x,Bx): x=s.resolve(x)
        if s.isnd(x):
            s.fact(z3.And(s.g('$ad',x)>=0,s.g('$d0',x)>=0,s.g('$d1',x)>=0))
            if a=='ndim': return s.g('$ad',x)
            if a=='shape': return ShapeV(x)
            if a=='T': return s.transpose(x)
            return Prim(a,x)
        return super().attr(x,a)
    def eq(s,a,b):
        if isinstance(b,ShapeV) and not isinstance(a,ShapeV): a,b=b,a
        if isinstance(a,ShapeV):
            x=a.x
            if isinstance(b,ShapeV): y=b.x; return A(s.g('$ad',x)==s.g('$ad',y),z3.Implies(s.g('$ad',x)>=1,s.g('$d0',x)==s.g('$d0',y)),z3.Implies(s.g('$ad',x)>=2,s.g('$d1',x)==s.g('$d1',y)),z3.Implies(s.g('$ad',x)>2,z3.Bool('shapes_equal')))
            n,at,_=s.iterview(b); n=s.concretize(n)
            if not isinstance(n,int): raise Unsupported('shape comparison')
            f=[s.g('$ad',x)==n]+[s.g('$d%d'%i,x)==zi(at(i)) for i in range(min(n,2))]
            if n>2: raise Unsupported('shape of more than two dimensions')
            return zand(f)
        return super().eq(a,b)
    def length(s,x):
        if isinstance(x,ShapeV): return s.g('$ad',x.x)
        if s.isnd(x): return s.g('$d0',x)
        return super().length(x)
    def getitem(s,b,i):
        if isinstance(b,Bx): b=s.resolve(b)
        if isinstance(b,ShapeV):
            if isinstance(i,int) and i in(0,1,-1):
                nd=s.g('$ad',b.x)
                if i==-1:
                    if s.branch(nd==1,'one dimension'): return s.g('$d0',b.x)
                    if s.branch(nd==2,'two dimensions'): return s.g('$d1',b.x)
                    raise Unsupported('shape[-1]')
                if s.branch(nd<=i,'index beyond the dimensions'): raise s.pyexc('IndexError','tuple index')
                return s.g('$d%d'%i,b.x)
            raise Unsupported('shape item')
        return super().getitem(b,i)
    def isnot_none(s,x): return True
    def elementwise(s,x,f):
        """array of the same shape whose entries are f of the entries of x"""
        ct=s.fresh('ct',Ct); i,j=z3.Ints('ci cj'); s.fact(z3.ForAll([i,j],entry(ct,i,j)==f(entry(s.g('$ct',x),i,j)),patterns=[entry(ct,i,j)])); return s.arr(s.g('$ad',x),s.g('$d0',x),s.g('$d1',x),ct)
    def only(s,x,n,what):
        if s.branch(s.g('$ad',x)!=n,f'not {n} dimensions'): raise Unsupported(what+' of an array of another dimension')
    def transpose(s,x):
        s.only(x,2,'transpose'); ct=s.fresh('ct',Ct); i,j=z3.Ints('ci cj'); s.fact(z3.ForAll([i,j],entry(ct,i,j)==entry(s.g('$ct',x),j,i),patterns=[entry(ct,i,j)])); return s.arr(2,s.g('$d1',x),s.g('$d0',x),ct)
    def reshape(s,x,sh):
        s.only(x,1,'reshape'); i,j=z3.Ints('ci cj'); n=s.g('$d0',x); o=s.g('$ct',x); ct=s.fresh('ct',Ct)
        sh=[s.resolve(y) if isinstance(y,Bx) else y for y in sh]
        col=len(sh)==2 and sh[1]==1 and (sh[0]==-1 or (isz(sh[0],I) and z3.simplify(sh[0]==n).eq(z3.BoolVal(True)))) if not isz(sh[1],I) else False
        row=(not col) and len(sh)==2 and not isz(sh[0],I) and sh[0]==1 and (isz(sh[1],I) or sh[1]==-1)
        if col: s.fact(z3.ForAll([i,j],entry(ct,i,j)==entry(o,i,0),patterns=[entry(ct,i,j)])); return s.arr(2,n,1,ct)
        if row: s.fact(z3.ForAll([i,j],entry(ct,i,j)==entry(o,j,0),patterns=[entry(ct,i,j)])); return s.arr(2,1,n,ct)
        raise Unsupported('reshape')
    def matmul(s,x,y):
        s.only(x,2,'product'); s.only(y,2,'product')
        if not s.sat([s.g('$d1',x)==1]) or s.sat([s.g('$d1',x)!=1]): raise Unsupported('product of matrices')
        if s.branch(s.g('$d0',y)!=1,'shapes do not fit'): raise s.pyexc('ValueError','matmul')
        ct=s.fresh('ct',Ct); i,j=z3.Ints('ci cj'); s.fact(z3.ForAll([i,j],entry(ct,i,j)==cmul(entry(s.g('$ct',x),i,0),entry(s.g('$ct',y),0,j)),patterns=[entry(ct,i,j)])); return s.arr(2,s.g('$d0',x),s.g('$d1',y),ct)
    def outer(s,x,y):
        s.only(x,1,'outer product'); s.only(y,1,'outer product'); ct=s.fresh('ct',Ct); i,j=z3.Ints('ci cj'); s.fact(z3.ForAll([i,j],entry(ct,i,j)==cmul(entry(s.g('$ct',x),i,0),entry(s.g('$ct',y),j,0)),patterns=[entry(ct,i,j)])); return s.arr(2,s.g('$d0',x),s.g('$d0',y),ct)
    def prim(s,p,args,kw):
        x=p.self
        if s.isnd(x):
            if p.name in('conj','conjugate'): return s.elementwise(x,cconj)
            if p.name=='copy': return s.arr(s.g('$ad',x),s.g('$d0',x),s.g('$d1',x),s.g('$ct',x))
            if p.name=='reshape': return s.reshape(x,args if len(args)>1 else list(args[0]))
            if p.name=='transpose' and not args: return s.transpose(x)
            if p.name=='trace' and not args: return CxV(atrace(s.g('$ct',x)))
            raise Unsupported('array method '+p.name)
        return super().prim(p,args,kw)
def load(tree):
    src=source(tree); K={k:src.cls(q) for k,q in dict(ctx=C+'CircuitContext',Ci=C+'Circuit',PC=C+'ParametricCircuit',Op=O+'Operation',PO=O+'ParametricOperation',CO=O+'ControlledOperation',Q=P+'Qubit',B=P+'Bit',Va=P+'Variable',QR=R+'QuantumRegister',CR=R+'ClassicalRegister',SR=R+'SelfIncrementingRegister').items()}
    ND=src.builtin_class('ndarray'); F,EL_=fields(src); F['Circuit'].update({'_state':('opt',('obj',ND)),'_density_matrix':('opt',('obj',ND))})
    cs=[]; add=lambda *a,**k: cs.append(Contract(*a,**k)); ci=('obj',K['Ci']); N2=('exact',ND)
    def two(E,c,n):
        return pow2(n)
    def st(E,a,old):
        c=a[0].ad; x=a[1].ad; o=lambda f,y: old.read(f,y); n=o('$dn',V.ad(o('$cq',c))); E.fact(n>=0); N=pow2(n)
        nd,d0,d1,ct=o('$ad',x),o('$d0',x),o('$d1',x),o('$ct',x); set_=z3.Or(o('_state',c)!=none,o('_density_matrix',c)!=none); force,nz=zb(E.truth(a[2])),zb(E.truth(a[3]))
        size=lambda t: z3.If(nd==2,atrace(t),anorm(t)); ct2=z3.If(nz,adiv(ct,size(ct)),ct)
        shape=z3.Or(A(nd==1,d0==N),A(nd==2,d0==N,d1==N))
        def ens(vec):
            def f(E,a,ol,r):
                sv,dm=E.read('_state',c),E.read('_density_matrix',c); v=V.ad(sv if vec else dm)
                return [('exactly the other kind of state is dropped',(dm if vec else sv)==none),('the state is set',A(V.is_r(sv if vec else dm),E.read('$ad',v)==nd,E.read('$d0',v)==d0,z3.Implies(nd==2,E.read('$d1',v)==d1),E.read('$ct',v)==ct2))]
            return f
        md=[('_state',c),('_density_matrix',c)]
        return [Case('already set',A(set_,z3.Not(force)),raises='CircuitError',allocates=True),
                Case('wrong shape',z3.Not(shape),raises='ValueError',allocates=True),
                Case('not normalised',z3.Not(close(size(ct2),z3.RealVal(1))),raises='ValueError',allocates=True),
                Case('vector',nd==1,modifies=md,ensures=ens(True),allocates=True),Case('matrix',modifies=md,ensures=ens(False),allocates=True)]
    def stq(E,a): 
        n=E.read('$dn',Vocab(E).qreg(a[0].ad)); x=a[1].ad; E.fact(A(E.read('$ad',x)>=0,E.read('$d0',x)>=0,E.read('$d1',x)>=0)); E.fact(pow2(n)>=1)
        return [('the circuit has qubits',n>=1)]
    add(C+'Circuit.set_state',[('self',ci),('state',N2),('force',('bool',)),('normalize',('bool',))],st,requires=stq,props=('C19','C02'))
    add(C+'Circuit.state',[('self',ci)],lambda E,a,old:[Case('mixed',A(old.read('_state',a[0].ad)==none,old.read('_density_matrix',a[0].ad)!=none),raises='CircuitError'),
        Case('pure or not set',ensures=lambda E,a,ol,r:[('is exactly the state that was set',E.box(r)==old.read('_state',a[0].ad))])],props=('C19',))
    def outer_of(E,rd_,dm,sv):
        i,j=z3.Ints('pi pj'); N=rd_('$d0',sv); return [('is a square matrix of the size of the state',A(rd_('$ad',dm)==2,rd_('$d0',dm)==N,rd_('$d1',dm)==N)),
            ('entry (i,j) is psi_i times the conjugate of psi_j',z3.ForAll([i,j],z3.Implies(A(i>=0,i<N,j>=0,j<N),entry(rd_('$ct',dm),i,j)==cmul(entry(rd_('$ct',sv),i,0),cconj(entry(rd_('$ct',sv),j,0))))))]
    def dreq(E,a):
        c=a[0].ad; sv,dm=E.read('_state',c),E.read('_density_matrix',c); f=zand([x for _,x in outer_of(E,E.read,V.ad(dm),V.ad(sv))])
        return [('a cached density matrix belongs to the state',z3.Implies(A(sv!=none,dm!=none),f)),('states are vectors',z3.Implies(sv!=none,E.read('$ad',V.ad(sv))==1))]
    def dcase(E,a,old):
        c=a[0].ad; sv,dm=old.read('_state',c),old.read('_density_matrix',c)
        def ens(E,a,ol,r):
            v=E.box(r); return [(nm,f) for nm,f in outer_of(E,E.read,V.ad(v),V.ad(sv))]+[('is an array',V.is_r(v)),('the state stays',E.read('_state',c)==sv),('it is remembered at most as itself',z3.Or(E.read('_density_matrix',c)==none,E.read('_density_matrix',c)==v))]
        return [Case('no pure state',sv==none,ensures=lambda E,a,ol,r:[('is exactly the matrix that was set, or none',E.box(r)==dm)]),
                Case('pure state',modifies=[('_density_matrix',c)],ensures=ens,allocates=True)]
    add(C+'Circuit.density_matrix',[('self',ci)],dcase,requires=dreq,props=('C19','C02'))
    ext={'call:numpy.isclose':lambda E,a,k: isclose(E,a,k),'call:numpy.trace':lambda E,a,k: CxV(atrace(E.g('$ct',rz(E,a[0])))),'call:numpy.linalg.norm':lambda E,a,k: CxV(anorm(E.g('$ct',rz(E,a[0])))) if len(a)==1 and not k else E.unsup('norm'),
         'call:numpy.outer':lambda E,a,k: E.outer(rz(E,a[0]),rz(E,a[1])),'call:numpy.conj':lambda E,a,k: E.elementwise(rz(E,a[0]),cconj),'call:numpy.conjugate':lambda E,a,k: E.elementwise(rz(E,a[0]),cconj),'call:numpy.ndim':lambda E,a,k: E.g('$ad',rz(E,a[0]))}
    def rz(E,x):
        if isinstance(x,Bx): x=E.resolve(x)
        if not E.isnd(x): raise Unsupported('argument of a numpy function')
        return x
    def isclose(E,a,k):
        x,y=a[0],a[1]
        if k or len(a)>2: raise Unsupported('tolerances')
        if isinstance(y,CxV): x,y=y,x
        if not isinstance(x,CxV) or not isinstance(y,(int,float)): raise Unsupported('isclose')
        return close(x.t,z3.RealVal(y))
    def bino(E,k,l,r):
        if E.isnd(l) and isinstance(r,CxV) and k=='/': return E.arr(E.g('$ad',l),E.g('$d0',l),E.g('$d1',l),adiv(E.g('$ct',l),r.t))
        if E.isnd(l) and E.isnd(r) and k=='@': return E.matmul(l,r)
        return None
    ext['binop']=bino
    m_q=lambda f,k: (lambda E,a,kw: E.unbox(E.read(f,a[0].ad),('obj',K[k])))
    E=ArrVerifier(src,Types(src,F,EL_,{'_active_context':('opt',('obj',K['ctx']))},('_active_context',)),{},{C+'Circuit.qubits':m_q('$cq','QR'),C+'Circuit.bits':m_q('$cb','CR')},{},ext)
    regs.attach(E); E.K=K; E.ND=ND; E.constof=lambda c,a: core.constof(E,c,a)
    return E,cs,dict(trusted=[regs.TRUST,'numpy: ndim, shape, linalg.norm, trace, division, isclose, reshape, conj, outer and matrix products per their documentation'],assumptions=['complex arithmetic on entries is exact; norm, trace and closeness to 1 are the functions numpy computes','Circuit.qubits has as many items as the circuit has qubits (C09)'])
