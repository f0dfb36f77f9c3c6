"""C10, C11, C21: circuits, contexts and operation construction"""
from .common import *
from . import regs
A=z3.And
def sel(h,*ix):
    for i in ix: h=z3.Select(h,zi(i))
    return h
class Vocab:
    """terms the contracts speak about, read from a heap (old: an earlier one)"""
    def __init__(s,E,old=None): s.E=E; s.o=old
    def f(s,name,ad): return s.o.read(name,ad) if s.o is not None else s.E.read(name,ad)
    def t(s,name,ad,T,g=None):
        """a field read at its declared type, where g holds"""
        v=s.f(name,ad); s.E.fact(z3.Implies(g,s.E.tyfact(v,T,False)) if g is not None else s.E.tyfact(v,T,False)); return v
    def active(s): return s.t('C._active_context',s.E.K['ctx'].id,('opt',('obj',s.E.K['ctx'])))
    def circ_of(s,ctxv): return V.ad(s.t('_circuit',V.ad(ctxv),('obj',s.E.K['Ci']),ctxv!=none))
    def frozen(s,ctxv): return V.bv(s.t('_frozen',V.ad(ctxv),('bool',),ctxv!=none))
    def g(s,c):
        act=s.active(); return z3.Or(s.E.isa(c,s.E.K['Ci']),A(act!=none,V.ad(s.f('_circuit',V.ad(act)))==c))
    def oplist(s,c): return V.ad(s.t('_circuit',c,('list',),s.g(c)))
    def locked(s,c): return V.bv(s.t('_locked',c,('bool',),s.g(c)))
    def qreg(s,c): return V.ad(s.t('$cq',c,('obj',s.E.K['QR']),s.g(c)))
    def breg(s,c): return V.ad(s.t('$cb',c,('obj',s.E.K['CR']),s.g(c)))
    def len(s,l): return s.f('$len',l)
    def el(s,l,j): return z3.Select(s.f('$el',l),zi(j))
    def plist(s,op): return V.ad(s.t('_parameters',op,('list',),s.isPO(op)))
    def isPO(s,op): return s.E.isa(op,s.E.K['PO'])
    def isvar(s,v): return A(V.is_r(v),s.E.isa(V.ad(v),s.E.K['Va']))
    def varval(s,v): return s.f('_value',V.ad(v))
    def preg(s,c): return V.ad(s.t('_parameter_register',c,('obj',s.E.K['SR']),s.E.isa(c,s.E.K['PC'])))
    def parametric(s,c): return A(s.E.isa(c,s.E.K['PC']),s.f('$dn',s.preg(c))>0)
    def inreg(s,r,v): return z3.Select(s.f('$dp',r),canon(v))>=0
    def novalue(s,op):
        j=z3.Int('jv'); l=s.plist(op); return z3.Exists([j],A(j>=0,j<s.len(l),s.isvar(s.el(l,j)),s.varval(s.el(l,j))==none))
    def foreign(s,c,op):
        j=z3.Int('jq'); qv=s.f('_qubits',op); l=V.ad(qv)
        return A(qv!=none,z3.Exists([j],A(j>=0,j<s.len(l),z3.Not(s.inreg(s.qreg(c),s.el(l,j))))))
    def foreign_seq(s,c,n,arr):
        j=z3.Int('jq'); return z3.Exists([j],A(j>=0,j<zi(n),z3.Not(s.inreg(s.qreg(c),arr(j)))))
def seteq_list(E,N,o,l,extra):
    """the list l is what it was, followed by `extra`"""
    j=z3.Int('jl'); n=o.len(l)
    return [('one longer',N.len(l)==n+1),('ends with the operation',N.el(l,n)==extra),('is otherwise what it was',z3.ForAll([j],z3.Implies(A(j>=0,j<n),N.el(l,j)==o.el(l,j))))]
def same_list(E,N,o,l):
    j=z3.Int('jl'); return [('has the same operations',A(N.len(l)==o.len(l),z3.ForAll([j],z3.Implies(A(j>=0,j<o.len(l)),N.el(l,j)==o.el(l,j)))))]
def evaluated(E,N,o,op,when):
    """parameters after evaluation"""
    j=z3.Int('je'); l=o.plist(op); e=o.el(l,j)
    return ('parameters are those given, variables by their values',z3.Implies(when,A(N.plist(op)==l,N.len(l)==o.len(l),z3.ForAll([j],z3.Implies(A(j>=0,j<o.len(l)),N.el(l,j)==z3.If(o.isvar(e),o.varval(e),e))))))
# ---------------------------------------------------------------- operations
def reqn(E,cid,o):
    """number of qubits class cid requires (boxed; none: any number)"""
    t=none; K=E.K
    for c in E.src.subs(K['Op']):
        E.clsconst(c,'_num_qubits'); cell=o.f('C._num_qubits',z3.IntVal(c.id))
        nc,nt=E.constof(c,'_num_control'),E.constof(c,'_num_target')
        v=z3.If(z3.Or(cell==none,cell==V.i(0)),V.i(z3.IntVal(nc+nt)),cell) if isinstance(nc,int) and isinstance(nt,int) and nc and nt else cell
        t=z3.If(cid==c.id,v,t)
    return t
def reqp(E,cid):
    t=none
    for c in E.src.subs(E.K['PO']):
        v=E.constof(c,'_num_params'); t=z3.If(cid==c.id,E.box(v),t)
    return t
def constof(E,c,a):
    o,d=c.find(a)
    if isinstance(d,tuple) and isinstance(d[1],ast.Constant): return d[1].value
    if d is None: return None
    raise Unsupported(f'{c.name}.{a} is not a constant')
def seq_of(E,q):
    """(length, boxed element function, is given) of a qubit argument"""
    if q is None: return None
    if isinstance(q,Ref) and E.kindof(q)=='obj' and not regs.isreg(E,q): return 1,lambda j: E.box(q)
    if isinstance(q,Ref) and E.kindof(q) in('list','tuple'): 
        arr=E.read('$el',q.ad); n=E.length(q); return n,lambda j: z3.Select(arr,zi(j))
    if isinstance(q,(tuple,list)):
        vs=[E.box(x) for x in q]
        def at(j):
            if isinstance(j,int): return vs[j]
            t=vs[-1]
            for k in range(len(vs)-2,-1,-1): t=z3.If(zi(j)==k,vs[k],t)
            return t
        return len(vs),at
    if regs.isreg(E,q): arr=E.read('$dk',q.ad); return E.pyi(regs.rlen(E,q)),lambda j: z3.Select(arr,zi(j))
    raise Unsupported('qubit argument')
def holds(E,N,tup,n,at):
    j=z3.Int('jh'); return A(N.len(tup)==zi(n),z3.ForAll([j],z3.Implies(A(j>=0,j<zi(n)),N.el(tup,j)==at(j))))
def init_cases(E,self,sq,old,extra_mods=(),extra_ens=None,pre=(),cond_missing=None,params=None):
    """cases of constructing an operation `self` on the qubits sq (None: none given)"""
    o=Vocab(E,old); act=o.active(); isact=act!=none; c=o.circ_of(act); fz=o.frozen(act); apx=A(isact,z3.Not(fz)); L=o.oplist(c); x=self.ad
    cid=clsof(x); rq=reqn(E,cid,o)
    base=[('_qubits',x),('_cond',x),('_num_qubits',x),('C._num_qubits',cid)]+list(extra_mods)
    lmods=[('$len',L),('$el',L)]
    isPO=o.isPO(x)
    def pl(E): return [('$el',V.ad(E.read('_parameters',x)))] 
    pm=params[1] if params else [('$el',z3.If(isPO,o.plist(x),-1))]
    nov=params[0] if params else A(isPO,o.novalue(x))
    def good(E,a,old2,r):
        N=Vocab(E); out=[]
        if sq is None: out.append(('has no qubits',N.f('_qubits',x)==none))
        elif len(sq)>2:
            l=V.ad(N.f('_qubits',x)); j=z3.Int('jh'); (nx,fx),(ny,fy)=sq[2]
            out+=[('has as many qubits as given',A(V.is_r(N.f('_qubits',x)),N.len(l)==zi(sq[0]))),('the first qubits are the controls, in order',z3.ForAll([j],z3.Implies(A(j>=0,j<zi(nx)),N.el(l,j)==fx(j)))),('the others are the targets, in order',z3.ForAll([j],z3.Implies(A(j>=0,j<zi(ny)),N.el(l,zi(nx)+j)==fy(j))))]
        else: out.append(('has exactly the qubits given, in order',A(V.is_r(N.f('_qubits',x)),holds(E,N,V.ad(N.f('_qubits',x)),sq[0],sq[1]))))
        if sq is not None: out.append(('has the number of qubits its type requires',z3.Implies(rq!=none,N.len(V.ad(N.f('_qubits',x)))==V.iv(rq))))
        out.append(('is unconditional',N.f('_cond',x)==none))
        return out+(extra_ens(E,N,o) if extra_ens else [])
    cs=list(pre)
    if sq is None:
        cs.append(Case('no qubits in a context',isact,raises='TypeError',modifies=base,ensures=lambda E,a,ol,r:same_list(E,Vocab(E),o,L)))
        cs.append(Case('outside of a context',modifies=base,ensures=good,allocates=True)); return cs
    n=zi(sq[0])
    if any(E.constof(k,'_num_qubits') is not None or k.sub(E.K['CO']) for k in E.possible(x)): cs.append(Case('wrong number of qubits',A(rq!=none,V.iv(rq)!=n),cover=False,raises='ValueError',modifies=base,ensures=lambda E,a,ol,r:[(nm,z3.Implies(isact,f)) for nm,f in same_list(E,Vocab(E),o,L)]))
    cs.append(Case('no active context',z3.Not(isact),modifies=base,ensures=good,allocates=True))
    cs.append(Case('frozen context',fz,modifies=base,ensures=lambda E,a,ol,r:good(E,a,ol,r)+same_list(E,Vocab(E),o,L),allocates=True))
    cs.append(Case('locked circuit',o.locked(c),raises='CircuitError',modifies=base,allocates=True,ensures=lambda E,a,ol,r:same_list(E,Vocab(E),o,L)))
    cs.append(Case('variable without value in a non-parametric circuit',A(z3.Not(o.parametric(c)),nov),raises='ValueError',modifies=base+pm,allocates=True,ensures=lambda E,a,ol,r:same_list(E,Vocab(E),o,L)))
    cs.append(Case('qubit of another circuit',o.foreign_seq(c,n,sq[1]),raises='ValueError',modifies=base+pm,allocates=True,ensures=lambda E,a,ol,r:same_list(E,Vocab(E),o,L)))
    def app(E,a,ol,r):
        N=Vocab(E); ev=[] if params else [evaluated(E,N,o,x,A(isPO,z3.Not(o.parametric(c))))]+[('parameters stay',z3.Implies(A(isPO,o.parametric(c)),N.f('$el',o.plist(x))==o.f('$el',o.plist(x))))]
        return good(E,a,ol,r)+seteq_list(E,N,o,L,V.r(x))+ev
    cs.append(Case('appended',modifies=base+pm+lmods,ensures=app,allocates=True))
    return cs
def fresh_op(E,a):
    x=a[0].ad; o=Vocab(E); act=o.active(); c=o.circ_of(act)
    return [('the object is new (no instance number of qubits yet)',E.read('_num_qubits',x)==absent)]+sepreq(E,x)
def sepreq(E,x):
    o=Vocab(E); act=o.active(); c=o.circ_of(act)
    return [('the parameter list is not an operation list',z3.Implies(A(act!=none,o.isPO(x)),o.plist(x)!=o.oplist(c)))]
def numfact(K):
    def factf(E,c,a,d,o):
        """class-level numbers of qubits: the declared value, or the one cached by controlled operations"""
        if a!='_num_qubits': return None
        cell=E.read('C.'+a,z3.IntVal(c.id)); v=constof(E,c,a); nc,nt=constof(E,c,'_num_control'),constof(E,c,'_num_target')
        f=cell==E.box(v)
        if c.sub(K['CO']) and v is None and nc and nt: f=z3.Or(f,cell==V.i(z3.IntVal(nc+nt)))
        return f
    return factf
def load(tree):
    src=source(tree); K={k:src.cls(q) for k,q in dict(ctx=C+'CircuitContext',pctx=C+'ParametricCircuitContext',PC=C+'ParametricCircuit',Ci=C+'Circuit',Op=O+'Operation',PO=O+'ParametricOperation',CO=O+'ControlledOperation',PCO=O+'ParametricControlledOperation',Me=O+'Measurement',Ba=O+'Barrier',Q=P+'Qubit',B=P+'Bit',Va=P+'Variable',SR=R+'SelfIncrementingRegister',QR=R+'QuantumRegister',CR=R+'ClassicalRegister').items()}
    E=None; factf=numfact(K)
    m_q=lambda f,k: (lambda E,a,kw: E.unbox(E.read(f,a[0].ad),('obj',K[k])))
    models={C+'Circuit.qubits':m_q('$cq','QR'),C+'Circuit.bits':m_q('$cb','CR')}
    qarg=('or',('none',),('obj',K['Q']),('list',('obj',K['Q'])),('tuple',('obj',K['Q'])),('obj',K['QR']))
    cells={'_active_context':('opt',('obj',K['ctx'])),'on_exit_functions':('list',('fn',)),'_num_qubits':('opt',('int',))}
    cs=[]
    def resolve(*ix):
        def setup(E,a):
            for i in ix: a[i]=E.resolve(a[i])
        return setup
    add=lambda *a,**k: cs.append(Contract(*a,**k))
    ci,cx,op=('obj',K['Ci']),('obj',K['ctx']),('obj',K['Op'])
    # ---- Circuit
    def bit(a,v): return lambda E,args,old,r: [(f'{"is locked" if v else "is unlocked"}',rd(E,a,args[0])==V.b(v))]
    add(C+'Circuit.lock',[('self',ci)],lambda E,a,old:[Case('lock',modifies=[('_locked',a[0].ad)],ensures=bit('_locked',True))],props=('C10',))
    def unlock(E,a,old):
        pr=V.ad(old.read('_parameter_register',a[0].ad))
        return [Case('parametric',E.isa(a[0].ad,K['PC']),modifies=[('_locked',a[0].ad),('_frozen',pr)],ensures=lambda E,a,old,r:bit('_locked',False)(E,a,old,r)+[('accepts new parameters',E.read('_frozen',pr)==V.b(False))]),
                Case('unlock',modifies=[('_locked',a[0].ad)],ensures=bit('_locked',False))]
    add(C+'Circuit.unlock',[('self',('exact',K['Ci']))],lambda E,a,old: unlock(E,a,old)[1:],props=('C10','C21'))
    add(C+'ParametricCircuit.unlock',[('self',('obj',K['PC']))],lambda E,a,old: unlock(E,a,old)[:1],props=('C10','C21'))
    add(C+'Circuit.is_locked',[('self',ci)],lambda E,a,old:[Case('read',ensures=lambda E,a,old,r:[('tells whether it is locked',E.box(r)==old.read('_locked',a[0].ad))])],props=('C10',))
    def par(E,a,old):
        o=Vocab(E,old); return [Case('read',ensures=lambda E,a,old,r:[('tells whether there are parameters',zb(E.truth(r))==o.parametric(a[0].ad))])]
    add(C+'Circuit.parametric',[('self',('exact',K['Ci']))],par,props=('C10','C11'))
    add(C+'ParametricCircuit.parametric',[('self',('obj',K['PC']))],par,props=('C10','C11'))
    def ctx_cases(E,a,old):
        v=old.read('_circuit_context',a[0].ad); pc=E.isa(a[0].ad,K['PC'])
        return [Case('made before',v!=none,ensures=lambda E,a,old,r:[('is the same context',E.box(r)==v)]),
          Case('first use',modifies=[('_circuit_context',a[0].ad)],allocates=True,ensures=lambda E,a,old,r:[('is a new context of this circuit',A(E.box(r)==rd(E,'_circuit_context',a[0]),E.read('_circuit',r.ad)==V.r(a[0].ad))),('is not frozen',E.read('_frozen',r.ad)==V.b(False))])]
    add(C+'Circuit.context',[('self',('exact',K['Ci']))],ctx_cases,props=('C10',))
    def ctxreq(E,a): v=rd(E,'_circuit_context',a[0]); return [('contexts of parametric circuits are parametric',z3.Or(v==none,E.isa(V.ad(v),K['pctx'])))]
    add(C+'ParametricCircuit.context',[('self',('obj',K['PC']))],ctx_cases,requires=ctxreq,props=('C10',))
    # ---- contexts
    def enter(E,a,old):
        o=Vocab(E,old); c=V.ad(old.read('_circuit',a[0].ad)); lk=o.locked(c); act=o.active(); cc=z3.IntVal(K['ctx'].id)
        same=lambda E,a,old,r:[('the active context stays',E.read('C._active_context',K['ctx'].id)==act)]
        return [Case('locked circuit',lk,raises='CircuitError',ensures=same),Case('a context is active',act!=none,raises='RuntimeError',ensures=same),
            Case('entered',modifies=[('C._active_context',cc)],allocates=True,ensures=lambda E,a,old,r:[('is the active context',E.read('C._active_context',cc)==V.r(a[0].ad))]+
              [('returns the circuit registers',A(E.box(r[-2])==old.read('$cq',c),E.box(r[-1])==old.read('$cb',c)))]+([('returns the parameters first',E.box(r[0])==old.read('_parameter_register',c))] if len(r)==3 else []))]
    def pcreq(E,a): return [('the circuit of a parametric context is parametric',E.isa(V.ad(rd(E,'_circuit',a[0])),K['PC']))]
    add(C+'CircuitContext.__enter__',[('self',('exact',K['ctx']))],enter,props=('C10',))
    add(C+'ParametricCircuitContext.__enter__',[('self',('obj',K['pctx']))],enter,requires=pcreq,props=('C10',))
    def exit_(par):
        def f(E,a,old):
            o=Vocab(E,old); c=V.ad(old.read('_circuit',a[0].ad)); cc=z3.IntVal(K['ctx'].id); l=V.ad(old.read('C.on_exit_functions',cc))
            mods=[('C._active_context',cc),('$len',l),('_locked',c),('_value',ALL)]+([('_frozen',V.ad(old.read('_parameter_register',c)))] if par else [])
            def ens(E,a,old,r):
                out=[('no context is active',E.read('C._active_context',cc)==none),('the circuit is locked',E.read('_locked',c)==V.b(True)),('no exit functions are left',E.read('$len',l)==0),
                  ('exceptions are not swallowed',z3.Not(zb(E.truth(r))))]
                if par: out.append(('accepts no new parameters',E.read('_frozen',V.ad(old.read('_parameter_register',c)))==V.b(True)))
                return out
            return [Case('left',modifies=mods,ensures=ens,allocates=True)]
        return f
    three=[('type',('any',)),('value',('any',)),('traceback',('any',))]
    add(C+'CircuitContext.__exit__',[('self',('exact',K['ctx']))]+three,exit_(False),props=('C10',))
    add(C+'ParametricCircuitContext.__exit__',[('self',('obj',K['pctx']))]+three,exit_(True),requires=pcreq,props=('C10',))
    def cinit(E,a,old): return [Case('made',modifies=[('_circuit',a[0].ad),('_frozen',a[0].ad)],ensures=lambda E,a,old,r:[('belongs to the circuit',rd(E,'_circuit',a[0])==V.r(a[1].ad)),('is not frozen',rd(E,'_frozen',a[0])==V.b(False))])]
    add(C+'CircuitContext.__init__',[('self',('exact',K['ctx'])),('circuit',ci)],cinit,props=('C10',))
    def pcinit(E,a,old): return [Case('circuit without parameters',z3.Not(E.isa(a[1].ad,K['PC'])),raises='TypeError')]+cinit(E,a,old)
    add(C+'ParametricCircuitContext.__init__',[('self',('obj',K['pctx'])),('circuit',ci)],pcinit,props=('C10',))
    add(C+'CircuitContext.active_context',[('cls',('cls',K['ctx']))],lambda E,a,old:[Case('read',ensures=lambda E,a,old,r:[('is the one active context',E.box(r)==Vocab(E,old).active())])],props=('C10',))
    add(C+'CircuitContext.frozen',[('self',cx)],lambda E,a,old:[Case('read',ensures=lambda E,a,old,r:[('tells whether it is frozen',E.box(r)==old.read('_frozen',a[0].ad))])],props=('C10',))
    # ---- frozen contexts, as used by a client: with ctx.freeze: <anything that keeps the frozen flag> 
    c=Contract(C+'CircuitContext.freeze',[],None,props=('C10',),note='client'); c.runner=freeze_client; cs.append(c)
    # ---- append
    def appc(E,a,old):
        o=Vocab(E,old); c,x=a[0].ad,a[1].ad; L=o.oplist(c); isPO=o.isPO(x); par=o.parametric(c); pm=[('$el',z3.If(isPO,o.plist(x),-1))]
        same=lambda E,a,ol,r: same_list(E,Vocab(E),o,L)
        return [Case('locked',o.locked(c),raises='CircuitError',ensures=same),
           Case('variable without value in a non-parametric circuit',A(z3.Not(par),isPO,o.novalue(x)),raises='ValueError',modifies=pm,ensures=same),
           Case('qubit of another circuit',o.foreign(c,x),raises='ValueError',modifies=pm,ensures=same),
           Case('appended',modifies=pm+[('$len',L),('$el',L)],ensures=lambda E,a,ol,r: seteq_list(E,Vocab(E),o,L,V.r(x))+[evaluated(E,Vocab(E),o,x,A(isPO,z3.Not(par))),('parameters stay',z3.Implies(A(isPO,par),Vocab(E).f('$el',o.plist(x))==o.f('$el',o.plist(x))))])]
    def appreq(E,a): o=Vocab(E); return [('the parameter list is not the operation list',z3.Implies(o.isPO(a[1].ad),o.plist(a[1].ad)!=o.oplist(a[0].ad)))]
    add(C+'Circuit.append',[('self',ci),('operation',op)],appc,requires=appreq,props=('C10','C11'))
    # ---- evaluation of variables, as used by append
    def evreq(E,a): return []
    def evc(E,a,old):
        o=Vocab(E,old); x=a[0].ad; l=o.plist(x)
        return [Case('variable without value',o.novalue(x),raises='ValueError',modifies=[('$el',l)]),
            Case('evaluated',modifies=[('$el',l)],result=lambda E,A_,old:A_[0],ensures=lambda E,a,old,r:[('is the same operation',E.box(r)==V.r(x)),evaluated(E,Vocab(E),o,x,T_)])]
    def evset(E,a): return {'inplace':True}
    c=Contract(O+'ParametricOperation.eval',[('self',('obj',K['PO']))],evc,setup=evset,props=('C10','C11'),note='in place, own values'); cs.append(c); E_eval=c
    # ---- construction
    def opinit(E,a,old): return init_cases(E,a[0],seq_of(E,a[1]),old)
    add(O+'Operation.__init__',[('self',op),('qubits',qarg)],opinit,requires=fresh_op,setup=resolve(1),props=('C10','C11'))
    parg=('or',('obj',K['Va']),('num',),('list',('any',)),('tuple',('any',)))
    def pre_params(E,x,p,mods):
        if isinstance(p,Ref) and E.kindof(p) in('list','tuple'): n=E.length(p); arr=E.read('$el',p.ad); at=lambda j: z3.Select(arr,zi(j))
        else: n=1; at=lambda j: E.box(p)
        rp=reqp(E,clsof(x))
        return n,at,A(rp!=V.i(zi(n)))
    def pinit(E,a,old,qi=2,extra=(),ens2=None,sq=None,more=()):
        x=a[0].ad; n,at,bad=pre_params(E,x,a[1],None); o=Vocab(E,old); j=z3.Int('jp'); c=o.circ_of(o.active())
        nov=z3.Exists([j],A(j>=0,j<zi(n),o.isvar(at(j)),o.varval(at(j))==none)); par=o.parametric(c); apx=A(o.active()!=none,z3.Not(o.frozen(o.active())))
        def ens(E,N,o):
            l=N.plist(x); e=at(j)
            out=[('has the number of parameters its type requires',A(N.len(l)==zi(n),reqp(E,clsof(x))==V.i(N.len(l)))),
              ('has exactly the parameters given, in order (variables by their values in a non-parametric circuit)',z3.ForAll([j],z3.Implies(A(j>=0,j<zi(n)),N.el(l,j)==z3.If(A(apx,z3.Not(par),o.isvar(e)),o.varval(e),e))))]
            return out+(ens2(E,N,o) if ens2 else [])
        pre=list(more)+[Case('wrong number of parameters',bad,raises='ValueError',modifies=list(extra)+[('_parameters',x)])]
        return init_cases(E,a[0],seq_of(E,a[qi]) if sq is None else sq[0],old,extra_mods=[('_parameters',x)]+list(extra),extra_ens=ens,pre=pre,params=(nov,[]))
    ponly=lambda E: [c for c in src.subs(K['PO']) if not c.sub(K['CO'])]
    add(O+'ParametricOperation.__init__',[('self',('among',[c for c in src.subs(K['PO']) if not c.sub(K['CO'])])),('parameters',parg),('qubits',qarg)],pinit,requires=lambda E,a: fresh_op(E,a)[:1],setup=resolve(1,2),props=('C11','C10'))
    # controlled operations: controls first, then targets
    def join(E,x,y):
        """sequence of the controls followed by the targets"""
        nx,fx=x; ny,fy=y; return z3.simplify(zi(nx)+zi(ny)),(lambda j: z3.If(zi(j)<zi(nx),fx(j),fy(zi(j)-zi(nx)))),(x,y)
    def cgiven(E,ctl,tgt):
        f=lambda q: q is not None and (True if not(isinstance(q,Ref) and (E.kindof(q) in('list','tuple') or regs.isreg(E,q))) else E.test(q))
        g1,g2=f(ctl),f(tgt); return (join(E,seq_of(E,ctl),seq_of(E,tgt)) if g1 and g2 else None),(seq_of(E,ctl) if g1 else None),(seq_of(E,tgt) if g2 else None)
    def csplit(E,N,x,parts):
        out=[]
        for fl,nm,pt in(('_control','controls',parts[0]),('_target','targets',parts[1])):
            v=N.f(fl,x)
            out.append((f'has the {nm} given, in order',holdsv(E,N,v,pt) if pt is not None else v==none))
        return out
    def holdsv(E,N,v,pt):
        ad=V.ad(v); n,at=pt; j=z3.Int('jh')
        isr=E.isa(ad,K['QR']); ln=z3.If(isr,N.f('$dn',ad),N.f('$len',ad)); el=lambda j: z3.If(isr,z3.Select(N.f('$dk',ad),j),z3.Select(N.f('$el',ad),j))
        return A(V.is_r(v),ln==zi(n),z3.ForAll([j],z3.Implies(A(j>=0,j<zi(n)),el(j)==at(j))))
    cmods=lambda x: [('_control',x),('_target',x),('_num_control',x),('_num_target',x)]
    newc=lambda E,x: [('the object is new (no instance numbers of controls and targets yet)',A(E.read('_num_control',x)==absent,E.read('_num_target',x)==absent))]
    creq=lambda E,a: fresh_op(E,a)[:1]+newc(E,a[0].ad)
    def coinit(E,a,old):
        sq,c1,t1=E.cg; x=a[0].ad
        return init_cases(E,a[0],sq,old,extra_mods=cmods(x),extra_ens=lambda E,N,o: csplit(E,N,x,(c1,t1)))
    conly=('among',[c for c in src.subs(K['CO']) if not c.sub(K['PO'])])
    def coset(E,a): resolve(1,2)(E,a); E.cg=cgiven(E,a[1],a[2])
    for ct in qarg[1:]:
        nn=lambda t: {'none':'none','obj':t[-1].name if t[0]=='obj' else '','list':'list','tuple':'tuple'}[t[0]]
        add(O+'ControlledOperation.__init__',[('self',conly),('control',ct),('target',qarg)],coinit,requires=creq,setup=coset,props=('C11',),note='controls '+nn(ct))
    def kwset(i):
        def f(E,a):
            q=E.unbox(z3.Const('arg_qubits',V),('or',('none',),('list',('obj',K['Q'])),('tuple',('obj',K['Q'])),('obj',K['QR']))); q=E.resolve(q); E.kwq=q
            if i: a[1]=E.resolve(a[1])
            E.given=q is not None and E.test(q); nc=None
            cs_=E.possible(a[0].ad); E.sqk=seq_of(E,q) if E.given else None
            return {'qubits':q}
        return f
    def ncof(E,x):
        t=none
        for c in E.possible(x): t=z3.If(clsof(x)==c.id,E.box(constof(E,c,'_num_control')),t)
        return t
    def kparts(E,x):
        if not E.given: return None,None
        n,at=E.sqk; n=zi(n); nc=ncof(E,x); k=z3.If(nc==none,n,z3.If(V.iv(nc)<n,V.iv(nc),n))
        return (z3.simplify(k),at),(z3.simplify(z3.If(nc==none,n,n-k)),lambda j: at(z3.If(nc==none,zi(j),zi(j)+k)))
    def kcase(E,a,old):
        x=a[0].ad; pts=kparts(E,x); return init_cases(E,a[0],E.sqk,old,extra_mods=cmods(x),extra_ens=lambda E,N,o: csplit(E,N,x,pts))
    def kreq(E,a): return fresh_op(E,a)[:1]+newc(E,a[0].ad)+[('the class tells its number of controls',ncof(E,a[0].ad)!=none),('numbers of controls are positive',V.iv(ncof(E,a[0].ad))>0)]
    add(O+'ControlledOperation.__init__',[('self',conly)],kcase,requires=kreq,setup=kwset(0),props=('C11',),note='all qubits at once')
    pco=('obj',K['PCO'])
    def pcoset(E,a): resolve(1,2,3)(E,a); E.cg=cgiven(E,a[2],a[3])
    def pcoinit(E,a,old):
        sq,c1,t1=E.cg; x=a[0].ad; return pinit(E,a,old,extra=cmods(x),ens2=lambda E,N,o: csplit(E,N,x,(c1,t1)),sq=[sq])
    for ct in qarg[1:]:
        for tg in qarg[1:]:
            nn=lambda t: {'none':'none','obj':t[-1].name if t[0]=='obj' else '','list':'list','tuple':'tuple'}[t[0]]
            add(O+'ParametricControlledOperation.__init__',[('self',pco),('parameters',parg),('control',ct),('target',tg)],pcoinit,requires=creq,setup=pcoset,props=('C11',),note=f'controls {nn(ct)}, targets {nn(tg)}')
    def pkcase(E,a,old):
        x=a[0].ad; pts=kparts(E,x); return pinit(E,a,old,extra=cmods(x),ens2=lambda E,N,o: csplit(E,N,x,pts),sq=[E.sqk])
    add(O+'ParametricControlledOperation.__init__',[('self',pco),('parameters',parg)],pkcase,requires=kreq,setup=kwset(1),props=('C11',),note='all qubits at once')
    def minit(E,a,old):
        x=a[0].ad; return init_cases(E,a[0],seq_of(E,a[1]),old,extra_mods=[('_bits',x),('_measured_state',x),('_measured_qubit_indices',x)],extra_ens=lambda E,N,o:[('stores nothing yet',A(N.f('_bits',x)==none,N.f('_measured_state',x)==none))])
    add(O+'Measurement.__init__',[('self',('obj',K['Me'])),('qubits',qarg)],minit,requires=lambda E,a: fresh_op(E,a)[:1],setup=resolve(1),props=('C11','C10'))
    # ---- re-targeting
    def qset(E,a,old,split=False):
        o=Vocab(E,old); x=a[0].ad; sq=seq_of(E,a[1]); rq=reqn(E,clsof(x),o); mods=[('_qubits',x),('C._num_qubits',clsof(x))]
        def ens(E,a,old,r):
            N=Vocab(E); v=N.f('_qubits',x); out=[('has exactly the qubits given, in order',A(V.is_r(v),holds(E,N,V.ad(v),*sq))),('has the number of qubits its type requires',z3.Implies(rq!=none,N.len(V.ad(v))==V.iv(rq)))]
            if split:
                nc=ncof(E,x); n=zi(sq[0]); k=z3.If(V.iv(nc)<n,V.iv(nc),n); out+=csplit(E,N,x,((k,sq[1]),(n-k,lambda j: sq[1](zi(j)+k))))
            return out
        return [Case('wrong number of qubits',A(rq!=none,V.iv(rq)!=zi(sq[0])),raises='ValueError',modifies=[('C._num_qubits',clsof(x))]),
                Case('re-targeted',modifies=mods+([('_control',x),('_target',x)] if split else []),ensures=ens,allocates=True)]
    qarg1=('or',)+qarg[2:]
    notc=('among',[c for c in src.subs(K['Op']) if not c.sub(K['CO'])])
    add(O+'Operation.qubits.setter',[('self',notc),('qubits',qarg1)],qset,setup=resolve(1),props=('C11',))
    add(O+'ControlledOperation.qubits.setter',[('self',('obj',K['CO'])),('qubits',qarg1)],lambda E,a,old: qset(E,a,old,True),setup=resolve(1),requires=lambda E,a: [('the class tells its number of controls',ncof(E,a[0].ad)!=none),('numbers of controls are positive',V.iv(ncof(E,a[0].ad))>0)],props=('C11',))
    add(O+'Operation.qubits',[('self',op)],lambda E,a,old:[Case('read',ensures=lambda E,a,old,r:[('are the stored ones',E.box(r)==old.read('_qubits',a[0].ad))])],props=('C11',))
    # ---- removing and resetting
    def remc(E,a,old):
        o=Vocab(E,old); c=a[0].ad; L=o.oplist(c); j,i=z3.Int('jr'),z3.Int('ir'); x=V.r(a[1].ad); n=o.len(L)
        same=lambda v: z3.Or(v==x,opeq(v,x))
        first=lambda k: A(k>=0,k<n,same(o.el(L,k)),z3.ForAll([j],z3.Implies(A(j>=0,j<k),z3.Not(same(o.el(L,j))))))
        def ens(E,a,old,r):
            N=Vocab(E); k=z3.Int('kr')
            gone=lambda k: A(first(k),N.len(L)==n-1,z3.ForAll([i],z3.Implies(A(i>=0,i<n-1),N.el(L,i)==z3.If(i<k,o.el(L,i),o.el(L,i+1)))))
            # witness: the index the code used is the first equal one; stated for every first equal index (there is one)
            return [('exactly one operation less',N.len(L)==n-1),('the first equal operation is gone and the others keep their order',z3.ForAll([k],z3.Implies(first(k),gone(k))))]
        return [Case('not in the circuit',z3.ForAll([j],z3.Implies(A(j>=0,j<n),z3.Not(same(o.el(L,j))))),raises='ValueError',ensures=lambda E,a,ol,r: same_list(E,Vocab(E),o,L)),
                Case('removed',modifies=[('$len',L),('$el',L)],ensures=ens)]
    add(C+'Circuit.remove',[('self',ci),('op',op)],remc,props=('C21',))
    def reset(E,a,old):
        o=Vocab(E,old); c=a[0].ad; L=o.oplist(c); qd,cd=V.ad(old.read('_qregisters',c)),V.ad(old.read('_cregisters',c)); pc=E.isa(c,K['PC']); pr=z3.If(pc,V.ad(old.read('_parameter_register',c)),-1)
        base=[('$len',L),('_circuit_context',c),('_locked',c),('_frozen',pr)]
        common=lambda E: [('has no operations',Vocab(E).len(L)==0),('is unlocked',Vocab(E).locked(c)==False),('has a new context',Vocab(E).f('_circuit_context',c)==none)]
        y=z3.Int('yb'); br=o.breg(c)
        inb=lambda y: z3.Exists([z3.Int('jb')],A(z3.Int('jb')>=0,z3.Int('jb')<o.f('$dn',br),z3.Select(o.f('$dk',br),z3.Int('jb'))==V.r(y)))
        keep=lambda E,a,ol,r: common(E)+[('all bits are cleared',z3.ForAll([y],z3.Implies(A(y>=0,y<o.f('$dn',br)),E.h_at('_value',V.ad(z3.Select(o.f('$dk',br),y)))==none))),
             ('no other value changes',z3.ForAll([y],z3.Implies(z3.Not(inb(y)),E.h_at('_value',y)==old.read('_value',y))))]
        drop=lambda E,a,ol,r: common(E)+[('no registers are left',A(E.read('$dn',qd)==0,E.read('$dn',cd)==0)),('no labels are taken',A(noneset(E.read('$dp',qd)),noneset(E.read('$dp',cd)))),
             ('cached qubits and bits are dropped',A(E.read('@qubits',c)==absent,E.read('@bits',c)==absent))]
        return [Case('keeps the registers',zb(E.truth(a[1])),modifies=base+[('_value',ALL)],ensures=keep),
                Case('removes the registers',modifies=base+[(f,d) for d in(qd,cd) for f in('$dn','$dp')]+[('@qubits',c),('@bits',c)],ensures=drop)]
    def rreq(E,a):
        o=Vocab(E); c=a[0].ad; return [('quantum and classical registers are kept apart',V.ad(rd(E,'_qregisters',a[0]))!=V.ad(rd(E,'_cregisters',a[0])))]
    add(C+'Circuit.reset',[('self',ci),('keep_registers',('bool',))],reset,requires=rreq,props=('C21','C10'))
    # equality of operations
    def eqc(E,a,old):
        o=Vocab(E,old); x,y=a[0].ad,a[1].ad
        def ens(E,a,old,r):
            t=zb(E.truth(r)); qx,qy=o.f('_qubits',x),o.f('_qubits',y); j=z3.Int('jx'); lx,ly=V.ad(qx),V.ad(qy)
            qeq=z3.Or(A(qx==none,qy==none),A(V.is_r(qx),V.is_r(qy),z3.Or(lx==ly,A(o.len(lx)==o.len(ly),z3.ForAll([j],z3.Implies(A(j>=0,j<o.len(lx)),qubeq(o,o.el(lx,j),o.el(ly,j))))))))
            sn=clsname(clsof(x))==clsname(clsof(y))
            return [('equal operations have the same type and qubits',z3.Implies(t,A(sn,qeq))),('operations of different types or qubits differ',z3.Implies(z3.Not(A(sn,qeq)),z3.Not(t)))]+([('the same type and qubits are enough',z3.Implies(A(sn,qeq),t))] if not E.withp else [('operations with different numbers of parameters differ',z3.Implies(A(o.isPO(y),o.len(o.plist(x))!=o.len(o.plist(y))),z3.Not(t)))])
        return [Case('compared',ensures=ens)]
    def qubeq(o,u,v): return z3.Or(u==v,o.f('_id',V.ad(u))==o.f('_id',V.ad(v)))
    def eset(p):
        def f(E,a): E.withp=p
        return f
    add(O+'Operation.__eq__',[('self',('among',[c for c in src.subs(K['Op']) if not c.sub(K['PO'])])),('op',op)],eqc,setup=eset(False),props=('C21',))
    add(O+'ParametricOperation.__eq__',[('self',('obj',K['PO'])),('op',op)],eqc,setup=eset(True),props=('C21',))
    # ---------------------------------------------------------------- engine
    opeq=z3.Function('opeq',V,V,B)
    def m_opeq(E,a,k):
        x,y=a; 
        if isinstance(y,Bx): y=E.resolve(y)
        return opeq(E.box(x),E.box(y))
    def noneset(dp): return dp==z3.K(Key,z3.IntVal(-1))
    loops={}
    def ev_inv(E,L):
        o=Vocab(E,Old(E,L.H0)); N=Vocab(E); x=E.topargs[0].ad; l=o.plist(x); j=z3.Int('je'); e=o.el(l,j)
        return [('parameters seen so far are evaluated',z3.ForAll([j],z3.Implies(A(j>=0,j<L.i),A(N.el(l,j)==z3.If(o.isvar(e),o.varval(e),e),z3.Implies(o.isvar(e),o.varval(e)!=none))))),
                ('the others are untouched',z3.ForAll([j],z3.Implies(z3.Or(j<0,j>=L.i),N.el(l,j)==o.el(l,j))))]
    loops[(O+'ParametricOperation.eval',0)]=LoopSpec(ev_inv,lambda E,L:[('$el',Vocab(E).plist(E.topargs[0].ad))],allocates=False)
    def rs_inv(E,L):
        y,j=z3.Int('yb'),z3.Int('jb'); at=lambda j: V.ad(E.box(L.at(j))); o=Old(E,L.H0); br=E.read('$cb',E.topargs[0].ad); dk=E.read('$dk',V.ad(br))
        return [('bits seen so far are cleared',z3.ForAll([j],z3.Implies(A(j>=0,j<L.i),E.h_at('_value',V.ad(z3.Select(dk,j)))==none))),
                ('no other value changes',z3.ForAll([y],z3.Or(E.h_at('_value',y)==z3.Select(L.H0.get('_value',E.h0('_value')),y),z3.Exists([j],A(j>=0,j<L.i,z3.Select(dk,j)==V.r(y))))))]
    loops[(C+'Circuit.reset',0)]=LoopSpec(rs_inv,lambda E,L:[('_value',ALL)],allocates=False)
    loops[(C+'CircuitContext.__exit__',0)]=LoopSpec(lambda E,L:[],lambda E,L:[('_value',ALL)],allocates=True)
    def exitfn(E,f,args,kw):
        """functions registered for the end of a context: the only ones are ParametricCircuit.reset_variables"""
        E.assumed.add('the functions registered for the end of a context only reset variables (the library registers no others)')
        a=z3.Const(f'xf_value!{E.nfresh}',E.hsort('_value')); E.nfresh+=1; E.h('_value'); E.H['_value']=a; E.hbase[a.get_id()]=(a,E.now()); return None
    E=Core(src,Types(src,*fields(src),cells,('_active_context','on_exit_functions'),factf),{},models,loops,{'call:opaque':exitfn})
    regs.attach(E); E.K=K; E.constof=lambda c,a: constof(E,c,a)
    E.models[O+'Operation.__eq__']=m_opeq; E.models[O+'ParametricOperation.__eq__']=m_opeq
    E.K['ctx']=K['ctx']
    for q in (C+'Circuit.append',O+'Operation.__init__',O+'ParametricOperation.eval'):
        for c in cs:
            if c.qual==q: E.contracts[q]=c
    return E,cs,dict(trusted=[regs.TRUST,'Circuit.qubits and Circuit.bits are the registers of the circuit laid end to end (verified for C09)'],assumptions=['classes created by create_operation behave like the declared ones'])
class Core(Verifier):
    def verify(s,c,fn=None,label=None):
        # the abstract equality is used by containers, not when the equality itself is verified
        if c.qual.endswith('.__eq__'): s.models={k:v for k,v in s.models.items() if not k.endswith('Operation.__eq__')}
        return super().verify(c,fn,label)
    def h_at(s,f,y): return z3.Select(s.h(f),y)
def freeze_client(E):
    """a client that freezes the active context, twice, and leaves again"""
    E.top=C+'CircuitContext.freeze'; E.rows=[]; t0=time.time(); K=E.K; err=None
    def body():
        E.frames=[dict(env={'$up':None},mod=E.src.mod('dwave.gate.circuit'),cls=None,qual='client',loop=0)]
        ctx=E.unbox(z3.Const('ctx',V),('obj',K['ctx'])); N=Vocab(E); act=N.active(); cid=K['ctx'].id
        onclass=E.choose(2)
        fz=E.attr(K['ctx'],'freeze') if onclass else E.attr(ctx,'freeze')
        E.prove('asking for a frozen context changes nothing',E.read('C._active_context',cid)==act)
        H0=dict(E.H); A0=E.now()
        try: E.call(E.attr(fz,'__enter__'),[],{})
        except PyRaise as e:
            E.prove('only without an active context freezing raises, and it raises CircuitError',A(act==none,zb(e.cls.name=='CircuitError'))); E.checkframe(H0,[],A0,'refused'); return
        E.prove('freezing needs an active context',act!=none)
        was=z3.Select(H0.get('_frozen',E.h0('_frozen')),V.ad(act))
        E.prove('the active context is frozen inside',E.read('_frozen',V.ad(act))==V.b(True)); E.prove('the active context stays the same',E.read('C._active_context',cid)==act)
        E.checkframe(H0,[('_frozen',V.ad(act)),('_frozen',fz.ad)],A0,'entering')
        fz2=E.attr(K['ctx'],'freeze'); E.call(E.attr(fz2,'__enter__'),[],{})
        E.call(E.attr(fz2,'__exit__'),[None,None,None],{})
        E.prove('still frozen after an inner freeze ends',E.read('_frozen',V.ad(act))==V.b(True))
        H1=dict(E.H); r=E.call(E.attr(fz,'__exit__'),[Bx(z3.Const('x1',V)),Bx(z3.Const('x2',V)),Bx(z3.Const('x3',V))],{})
        E.prove('the earlier state returns when the outermost ends',E.read('_frozen',V.ad(act))==was); E.prove('exceptions are not swallowed',z3.Not(zb(E.truth(r)))); E.checkframe(H1,[('_frozen',V.ad(act))],E.now(),'leaving')
    try: E.explore(body)
    except Unsupported as e: err=str(e)
    return E.aggregate(E.rows,E.top),([(E.top,err)] if err else []),round(time.time()-t0,2)
