"""C13: evaluation of parametric operations and circuits.

copy.deepcopy is modelled as one renaming dc of addresses applied to everything allocated so far: the copy of an object has the same
class, and every field, element and plain value of it is the renamed one; nothing that existed before changes."""
from .common import *
from . import regs, core
from .core import Vocab, A
OPF=['_parameters','$el','$len','_value']; CF=OPF+['_cond','_bits','_qubits','_circuit','_cregisters','_qregisters']
def cpv(dc,v): return z3.If(V.is_r(v),V.r(dc(V.ad(v))),v)
def m_deepcopy(E,a,k):
    x=a[0]
    if isinstance(x,Bx): x=E.resolve(x)
    if not isinstance(x,Ref) or E.kindof(x)!='obj': raise Unsupported('deepcopy of something other than an object')
    for f in E.dcfields: E.h(f)
    n=E.nfresh; E.nfresh+=1
    dc,un=z3.Function(f'dc!{n}',I,I),z3.Function(f'undc!{n}',I,I); A0=E.now(); E.bump(); A1=E.now(); y=z3.Const('ydc',I); j=z3.Int('jdc')
    old=z3.And(y>=1,y<A0)
    E.fact(z3.ForAll([y],z3.Implies(old,z3.And(dc(y)>=A0,dc(y)<A1,clsof(dc(y))==clsof(y),un(dc(y))==y)),patterns=[dc(y)],qid='dcrange'),quant=True)
    for f in sorted(E.H):
        if f not in E.dcfields: continue
        h=E.H[f]; so=E.hsort(f); h1=z3.Const(f'dc_{f}!{n}',so); E.H[f]=h1; E.hbase[h1.get_id()]=(h1,A1)
        E.fact(z3.ForAll([y],z3.Implies(y<A0,z3.Select(h1,y)==z3.Select(h,y)),patterns=[z3.Select(h1,y)],qid='old_'+f),quant=True)
        if so.range()==V: E.fact(z3.ForAll([y],z3.Implies(old,z3.Select(h1,dc(y))==cpv(dc,z3.Select(h,y))),patterns=[z3.Select(h1,dc(y))],qid='new_'+f),quant=True)
        elif f in('$el','$dk'):
            E.fact(z3.ForAll([y,j],z3.Implies(old,z3.Select(z3.Select(h1,dc(y)),j)==cpv(dc,z3.Select(z3.Select(h,y),j))),patterns=[z3.Select(z3.Select(h1,dc(y)),j),z3.MultiPattern(z3.Select(z3.Select(h,y),j),dc(y))],qid='el'+f),quant=True)
        elif f in('$len','$dn'): E.fact(z3.ForAll([y],z3.Implies(old,z3.Select(h1,dc(y))==z3.Select(h,y)),patterns=[z3.Select(h1,dc(y))],qid='new_'+f),quant=True)
    ad=dc(x.ad); E.fact(z3.And(ad>=A0,ad<A1,clsof(ad)==clsof(x.ad),un(ad)==x.ad)); E.restrict(ad,E.possible(x.ad)); E.dcs.append((dc,A0,un))
    if E.aftercopy: E.aftercopy(Ref(ad,x.el))
    E.assumed.add('copy.deepcopy copies everything reachable, each object once (no class of the library customises it)')
    return Ref(ad,x.el)
class Ev:
    """what evaluating operation x with the (boxed) parameters p means, in the heap o"""
    def __init__(s,o,x,p): s.o=o; s.x=x; s.p=p; s.l=o.plist(x); s.T=A(V.is_r(p),o.len(V.ad(p))>0)
    def e(s,j): return s.o.el(s.l,j)
    def par(s,j): return s.o.el(V.ad(s.p),j)
    def want(s,j): return z3.If(s.o.isvar(s.e(j)),z3.If(s.T,s.par(j),s.o.varval(s.e(j))),s.e(j))
    def bad(s,j): return A(j>=0,j<s.o.len(s.l),s.o.isvar(s.e(j)),z3.If(s.T,j>=s.o.len(V.ad(s.p)),s.o.varval(s.e(j))==none))
    def fails(s):
        j=z3.Int('jbad'); return z3.Exists([j],s.bad(j),patterns=[s.e(j)])
def boxed(E,x): return E.box(x)
def resolve(*ix):
    def setup(E,a):
        for i in ix: a[i]=E.resolve(a[i])
    return setup
def load(tree):
    E,cs0,meta=core.load(tree); src=E.src; K=E.K; E.dcfields=OPF; cs=[]; add=lambda *a,**k: cs.append(Contract(*a,**k)); E.dcs=[]; E.aftercopy=None; E.first_ms=300
    E.__class__=type('Eval',(E.__class__,),{})
    reset=E.reset
    def reset_(*a,**k): E.dcs=[]; return reset(*a,**k)
    E.reset=reset_
    E.extern['call:copy.deepcopy']=m_deepcopy
    pargs=('or',('none',),('list',('any',)),('tuple',('any',)))
    j=z3.Int('jv')
    # ---- operations
    def opeval(E,a,old):
        o=Vocab(E,old); x=a[0].ad; p=boxed(E,a[1]); ev=Ev(o,x,p); l=ev.l; inpl=zb(E.truth(a[2])); m=[('$el',z3.If(inpl,l,-1))]
        def ens(E,a,old,r):
            N=Vocab(E); rl=N.plist(r.ad); n=o.len(l); g=A(j>=0,j<n); e=ev.e(j)
            return [('in place it is the operation itself, otherwise a new one of the same type',A(clsof(r.ad)==clsof(x),z3.If(inpl,r.ad==x,r.ad>=E.A0_))),
              ('has as many parameters',N.len(rl)==n),
              ('variables are replaced by the given values or else by their own',z3.ForAll([j],z3.Implies(A(g,o.isvar(e)),N.el(rl,j)==z3.If(ev.T,ev.par(j),o.varval(e))))),
              ('explicit numbers never change',z3.ForAll([j],z3.Implies(A(g,z3.Not(V.is_r(e))),N.el(rl,j)==e))),
              ('in place, everything else stays',z3.Implies(inpl,z3.ForAll([j],z3.Implies(A(g,z3.Not(o.isvar(e))),N.el(rl,j)==e)))),
              ('the copy has its own parameter list',z3.Implies(z3.Not(inpl),rl!=l))]
        return [Case('no value for a variable',ev.fails(),raises=('ValueError','IndexError'),modifies=m,allocates=True),
                Case('evaluated',modifies=m,ensures=ens,allocates=True,result=lambda E,a,old: a[0])]
    def opreq(E,a):
        E.A0_=E.now(); o=Vocab(E); l=o.plist(a[0].ad); e=o.el(l,j)
        return [('variables are allocated',z3.ForAll([j],z3.Implies(A(j>=0,j<o.len(l),V.is_r(e)),A(V.ad(e)>=1,V.ad(e)<E.A0_)),patterns=[e])),
                ('values of variables are numbers',z3.ForAll([j],z3.Implies(A(j>=0,j<o.len(l),o.isvar(e)),z3.Not(V.is_r(o.varval(e)))),patterns=[e]))]
    add(O+'ParametricOperation.eval',[('self',('obj',K['PO'])),('parameters',pargs),('inplace',('bool',))],opeval,requires=opreq,setup=resolve(1),props=('C13',))
    def ev_inv(E,L):
        x=L.env['op']; o=Vocab(E,Old(E,L.H0)); N=Vocab(E); p=E.box(L.env['parameters']); ev=Ev(o,x.ad,p); k=z3.Int('je')
        return [('parameters seen so far are evaluated',z3.ForAll([k],z3.Implies(A(k>=0,k<L.i),N.el(ev.l,k)==ev.want(k)),patterns=[N.el(ev.l,k)])),
                ('they had values',z3.ForAll([k],z3.Implies(A(k>=0,k<L.i),z3.Not(ev.bad(k))),patterns=[ev.e(k)])),
                ('the others are untouched',z3.ForAll([k],z3.Implies(z3.Or(k<0,k>=L.i),N.el(ev.l,k)==ev.e(k)),patterns=[N.el(ev.l,k)]))]
    E.loops[(O+'ParametricOperation.eval',0)]=LoopSpec(ev_inv,lambda E,L:[('$el',Vocab(E,Old(E,L.H0)).plist(L.env['op'].ad))],allocates=False)
    # as callee, evaluated in place
    def callee(E,a,old):
        o=Vocab(E,old); x=a[0].ad; ev=Ev(o,x,boxed(E,a[1])); l=ev.l; m=[('$el',l)]
        def ens(E,a,old,r):
            N=Vocab(E); n=o.len(l); g=A(j>=0,j<n)
            return [('evaluated',z3.ForAll([j],z3.Implies(g,N.el(l,j)==ev.want(j)),patterns=[N.el(l,j)]))]
        return [Case('no value for a variable',ev.fails(),raises=('ValueError','IndexError'),modifies=m),
                Case('evaluated',modifies=m,ensures=ens,result=lambda E,a,old: a[0])]
    ce=Contract(O+'ParametricOperation.eval',[],callee,requires=lambda E,a:[('in place',zb(E.truth(a[2])))],props=('none',))
    # ---- circuits
    plist_args=('or',('none',),('list',pargs),('tuple',pargs))
    class CV:
        """evaluating circuit c (list of operations L in heap o) with parameters p; ren renames a heap value (identity or copy)"""
        def __init__(s,o,c,p):
            s.o=o; s.c=c; s.p=p; s.L=o.oplist(c); s.n=o.len(s.L); s.T=A(V.is_r(p),o.len(V.ad(p))>0)
        def op(s,i): return V.ad(s.o.el(s.L,i))
        def pi(s,i): return z3.If(s.T,s.o.el(V.ad(s.p),i),none)
        def ev(s,i): return Ev(s.o,s.op(i),s.pi(i))
        def bad(s,i): return A(i>=0,i<s.n,z3.Or(A(s.T,i>=s.o.len(V.ad(s.p))),A(s.o.isPO(s.op(i)),s.ev(i).fails())))
        def fails(s): i=z3.Int('ibad'); return z3.Exists([i],s.bad(i))
    i=z3.Int('ivv'); i2=z3.Int('iw')
    def creq(E,a):
        E.A0_=E.now(); return wf(E,a)
    idxof=z3.Function('idxof',I,I)
    def wf(E,a,own_of=idxof):
        A0=E.now(); o=Vocab(E); c=a[0].ad; L=o.oplist(c); n=o.len(L); op=lambda i: V.ad(o.el(L,i)); rng=lambda i: A(i>=0,i<n)
        own=lambda i: z3.Implies(A(rng(i),o.isPO(op(i))),A(V.is_r(o.f('_parameters',op(i))),clsof(V.ad(o.f('_parameters',op(i))))==E.kinds['list'].id,V.ad(o.f('_parameters',op(i)))>=1,V.ad(o.f('_parameters',op(i)))<A0))
        P_=lambda i: V.ad(o.f('_parameters',op(i)))
        jj=z3.Int('jx')
        out=[('the operations are operations',z3.ForAll([i],z3.Implies(rng(i),A(V.is_r(o.el(L,i)),op(i)>=1,op(i)<A0,E.isa(op(i),K['Op']))),patterns=[o.el(L,i)])),
             ('parametric operations have parameter lists',z3.ForAll([i],own(i),patterns=[o.el(L,i)])),
             ('operations do not share parameter lists',z3.ForAll([i],z3.Implies(A(rng(i),o.isPO(op(i))),own_of(P_(i))==i),patterns=[o.el(L,i)])),
             ('parameter lists are not the operation list',z3.ForAll([i],z3.Implies(A(rng(i),o.isPO(op(i))),A(P_(i)!=L)),patterns=[o.el(L,i)])),
             ('variables are allocated',z3.ForAll([i,jj],z3.Implies(A(rng(i),o.isPO(op(i)),jj>=0,jj<o.len(P_(i)),V.is_r(o.el(P_(i),jj))),A(V.ad(o.el(P_(i),jj))>=1,V.ad(o.el(P_(i),jj))<A0)),patterns=[o.el(P_(i),jj)])),
             ('values of variables are numbers',z3.ForAll([i,jj],z3.Implies(A(rng(i),o.isPO(op(i)),jj>=0,jj<o.len(P_(i)),o.isvar(o.el(P_(i),jj))),z3.Not(V.is_r(o.varval(o.el(P_(i),jj))))),patterns=[o.el(P_(i),jj)]))]
        p=E.box(a[1])
        if a[1] is not None:
            pl=V.ad(p); out+=[('the given values are not the operation list or a parameter list',A(pl!=L,z3.ForAll([i],z3.Implies(A(rng(i),o.isPO(op(i))),A(P_(i)!=pl)),patterns=[o.el(L,i)]))),
              ('nor are the values given for an operation',z3.ForAll([i,i2],z3.Implies(A(rng(i),o.isPO(op(i)),i2>=0,i2<o.len(pl),V.is_r(o.el(pl,i2))),A(P_(i)!=V.ad(o.el(pl,i2)),L!=V.ad(o.el(pl,i2)))),patterns=[z3.MultiPattern(o.el(L,i),o.el(pl,i2))])),
              ('the values given for an operation are a sequence or none',z3.ForAll([i],z3.Implies(A(i>=0,i<o.len(pl)),A(E.tyfact(o.el(pl,i),pargs,False),z3.Implies(V.is_r(o.el(pl,i)),A(V.ad(o.el(pl,i))>=1,V.ad(o.el(pl,i))<A0)))),patterns=[o.el(pl,i)]))]
            out+=[('numbers of values are not negative',z3.ForAll([i],z3.Implies(A(i>=0,i<o.len(pl),V.is_r(o.el(pl,i))),o.len(V.ad(o.el(pl,i)))>=0),patterns=[o.el(pl,i)]))]
        return out
    def ceval(E,a,old):
        o=Vocab(E,old); c=a[0].ad; p=boxed(E,a[1]); cv=CV(o,c,p); L=cv.L; inpl=zb(E.truth(a[2])); ALLm=[('$el',ALL)]
        def frame(E):
            # in place only parameter lists of the circuit's parametric operations (and the operation list, with the same operations) change
            y=z3.Int('yl'); h1,h0=E.h('$el'),z3.Select
            return []
        def ens(E,a,old,r):
            N=Vocab(E); rc=r.ad; rL=N.oplist(rc); n=cv.n; g=A(i>=0,i<n); gj=A(j>=0,j<o.len(cv.ev(i).l)); e=cv.ev(i).e(j); rop=V.ad(N.el(rL,i)); rl=V.ad(N.f('_parameters',rop))
            out=[('has as many operations',N.len(rL)==n),
              ('variables are replaced by the given values or else by their own',z3.ForAll([i,j],z3.Implies(A(g,o.isPO(cv.op(i)),gj,o.isvar(e)),N.el(rl,j)==z3.If(cv.ev(i).T,cv.ev(i).par(j),o.varval(e))))),
              ('explicit numbers never change',z3.ForAll([i,j],z3.Implies(A(g,o.isPO(cv.op(i)),gj,z3.Not(V.is_r(e))),N.el(rl,j)==e)))]
            if E.inplace: out+=[('it is the circuit itself',rc==c),('with the same operations',z3.ForAll([i],z3.Implies(g,N.el(rL,i)==o.el(L,i))))]
            else:
                ok=len(E.dcs)==1; dc=E.dcs[0][0] if ok else z3.Function('nodc',I,I); cp=lambda v: cpv(dc,v); oi=cv.op(i)
                out+=[('it is a new circuit of the same type',A(rc>=E.A0_,clsof(rc)==clsof(c))),
                  ('operations are copies, in order',z3.ForAll([i],z3.Implies(g,N.el(rL,i)==V.r(dc(oi))))),
                  ("conditions refer to the copy's own bits",z3.ForAll([i],z3.Implies(g,N.f('_cond',dc(oi))==cp(o.f('_cond',oi))))),
                  ("measurements refer to the copy's own bits",z3.ForAll([i],z3.Implies(A(g,E.isa(oi,K['Me'])),N.f('_bits',dc(oi))==cp(o.f('_bits',oi))))),
                  ("operations refer to the copy's own qubits",z3.ForAll([i],z3.Implies(g,N.f('_qubits',dc(oi))==cp(o.f('_qubits',oi))))),
                  ('the registers are the copied ones',A(N.f('_cregisters',rc)==cp(o.f('_cregisters',c)),N.f('_qregisters',rc)==cp(o.f('_qregisters',c))))]
            return out
        m=ALLm if E.inplace else []
        def fr(E,a,old,r):
            y=z3.Int('yf'); h1=E.h('$el'); ii=z3.Int('if')
            return [('only parameter lists change',z3.ForAll([y],z3.Or(y>=E.A0_,y==L,z3.Select(h1,y)==old.read('$el',y),z3.Exists([ii],A(ii>=0,ii<cv.n,o.isPO(cv.op(ii)),y==cv.ev(ii).l)))))] if E.inplace else []
        return [Case('no value for a variable',cv.fails(),raises=('ValueError','IndexError'),modifies=m,allocates=True,ensures=fr),
                Case('evaluated',modifies=m,ensures=lambda E,a,old,r: ens(E,a,old,r)+fr(E,a,old,r),allocates=True)]
    def cset(inplace):
        def f(E,a): a[1]=E.resolve(a[1]); E.inplace=inplace; a[2:]=[inplace]
        return f
    for ip in (True,False):
        for nm,pt in (('without values',('none',)),('values in a list',plist_args[2]),('values in a tuple',plist_args[3])):
            add(C+'ParametricCircuit.eval',[('self',('obj',K['PC'])),('parameters',pt),('inplace',('bool',))],ceval,requires=creq,setup=cset(ip),props=('C13',),note=('in place, ' if ip else 'copy, ')+nm)
    def c_inv(E,L):
        o=Vocab(E,Old(E,L.H0)); N=Vocab(E); c=L.env['circuit'].ad; p=E.box(L.env['parameters']); cv=CV(o,c,p); k,m=z3.Int('ki'),z3.Int('kj'); evk=cv.ev(k); e=evk.e(m); y=z3.Int('yf')
        gk=A(k>=0,k<cv.n); gm=A(m>=0,m<o.len(evk.l))
        return [('the same operations',A(N.oplist(c)==cv.L,N.len(cv.L)==cv.n,z3.ForAll([k],z3.Implies(gk,N.el(cv.L,k)==o.el(cv.L,k)),patterns=[N.el(cv.L,k)]))),
                ('operations seen so far are evaluated',z3.ForAll([k,m],z3.Implies(A(gk,k<L.i,o.isPO(cv.op(k)),gm),N.el(evk.l,m)==evk.want(m)),patterns=[z3.MultiPattern(o.el(cv.L,k),N.el(evk.l,m))])),
                ('they had all values',z3.ForAll([k],z3.Implies(A(gk,k<L.i),z3.Not(cv.bad(k))),patterns=[o.el(cv.L,k)])),
                ('the others are untouched',z3.ForAll([k],z3.Implies(A(gk,k>=L.i,o.isPO(cv.op(k))),N.f('$el',evk.l)==o.f('$el',evk.l)),patterns=[o.el(cv.L,k)])),
                ('only parameter lists change',z3.ForAll([y],z3.Or(N.f('$el',y)==o.f('$el',y),y==cv.L,z3.Exists([k],A(gk,o.isPO(cv.op(k)),y==evk.l))),patterns=[N.f('$el',y)]))]
    E.loops[(C+'ParametricCircuit.eval',0)]=LoopSpec(c_inv,lambda E,L:[('$el',ALL)],allocates=False)
    # ---- variables
    def rv(E,a,old):
        o=Vocab(E,old); pr=o.preg(a[0].ad); y,jj=z3.Int('yb'),z3.Int('jb'); n=o.f('$dn',pr); dk=o.f('$dk',pr)
        return [Case('reset',modifies=[('_value',ALL)],ensures=lambda E,a,ol,r:[('all variables are cleared',z3.ForAll([jj],z3.Implies(A(jj>=0,jj<n),E.h_at('_value',V.ad(z3.Select(dk,jj)))==none))),
            ('no other value changes',z3.ForAll([y],z3.Or(E.h_at('_value',y)==old.read('_value',y),z3.Exists([jj],A(jj>=0,jj<n,z3.Select(dk,jj)==V.r(y))))))])]
    add(C+'ParametricCircuit.reset_variables',[('self',('obj',K['PC']))],rv,props=('C13',))
    def rv_inv(E,L):
        y,jj=z3.Int('yb'),z3.Int('jb'); dk=E.read('$dk',Vocab(E).preg(E.topargs[0].ad)); h0=L.H0.get('_value',E.h0('_value'))
        return [('variables seen so far are cleared',z3.ForAll([jj],z3.Implies(A(jj>=0,jj<L.i),E.h_at('_value',V.ad(z3.Select(dk,jj)))==none))),
                ('no other value changes',z3.ForAll([y],z3.Or(E.h_at('_value',y)==z3.Select(h0,y),z3.Exists([jj],A(jj>=0,jj<L.i,z3.Select(dk,jj)==V.r(y))))))]
    E.loops[(C+'ParametricCircuit.reset_variables',0)]=LoopSpec(rv_inv,lambda E,L:[('_value',ALL)],allocates=False)
    verify=E.verify
    def verify_(c,fn=None,label=None):
        E.aftercopy=None
        if c.note.startswith('copy'):
            def after(r):
                for nm,f in wf(E,[r,E.topargs[1]],lambda y: idxof(E.dcs[-1][2](y))): E.prove('the copy is well formed: '+nm,f); E.fact(f,quant=True)
            E.aftercopy=after
        E.contracts=dict(E.contracts); E.contracts.pop(O+'ParametricOperation.eval',None)
        E.dcfields=OPF
        if c.qual.endswith('ParametricCircuit.eval'): E.contracts[ce.qual]=ce; E.dcfields=CF
        return verify(c,fn,label)
    E.verify=verify_
    cs+= [c for c in cs0 if c.qual==C+'Circuit.append']
    for c in cs:
        if c.qual==C+'Circuit.append':
            c.props=tuple(c.props)+('C13',)
            ap=[x for x in cs0 if x.qual==O+'ParametricOperation.eval'][0]
            def run(E,c=c,ap=ap): E.contracts[ap.qual]=ap; return verify(c)
            c.runner=run
    return E,cs,meta
