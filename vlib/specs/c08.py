"""C08: registers (cyregister.pyx, registers.py) as sequences of distinct items.

Representation invariant of a register with n items that are not numbers: _index_to_label has exactly the keys 0..n-1, its values
are the items; _label_to_index maps item k to k and has no other keys; _stop is n."""
from .common import *
from . import regs, core
from .core import A
CR=CY+'cyRegister.'
class Rep:
    """the sequence a register object represents in a heap"""
    def __init__(s,E,x,o=None):
        s.E=E; s.x=x; s.o=o or E; rd_=s.o.read
        s.IL=V.ad(rd_('_index_to_label',x)); s.LI=V.ad(rd_('_label_to_index',x)); s.n=V.iv(rd_('_stop',x))
        s.dvI,s.dpI,s.dnI=rd_('$dv',s.IL),rd_('$dp',s.IL),rd_('$dn',s.IL); s.dvL,s.dpL,s.dnL=rd_('$dv',s.LI),rd_('$dp',s.LI),rd_('$dn',s.LI)
    def key(s,k): return canon(V.i(zi(k)))
    def item(s,k): return z3.Select(s.dvI,s.key(k))
    def has(s,v): return z3.Select(s.dpL,canon(v))>=0
    def pos(s,v): return V.iv(z3.Select(s.dvL,canon(v)))
    def use(s,v):
        """what the invariant says about the value v (redundant)"""
        p=s.pos(v); w=z3.Select(s.dvL,canon(v)); s.E.canonk(V.i(p)); s.E.canonk(s.item(p))
        return [('instance',z3.Implies(s.has(v),A(V.is_i(w),p>=0,p<s.n,canon(s.item(p))==canon(v))))]
    def inv(s,tag=''):
        k=z3.Int('kr'); K=z3.Const('KR',Key); it=s.item(k); g=A(k>=0,k<s.n)
        w=z3.Select(s.dvL,K); q=s.item(V.iv(w))
        ck=A(s.E.key2(V.i(k)))
        return [(tag+'it has two dictionaries and a size',A(s.IL!=s.LI,s.n>=0,s.dnI==s.n,s.dnL==s.n,V.is_i(s.o.read('_stop',s.x)),V.is_r(s.o.read('_index_to_label',s.x)),V.is_r(s.o.read('_label_to_index',s.x)))),
          (tag+'the positions are the keys of the first dictionary',z3.ForAll([k],(z3.Select(s.dpI,s.key(k))>=0)==g,patterns=[s.key(k)])),
          (tag+'item k is not a number and is found at k',z3.ForAll([k],z3.Implies(g,A(z3.Or(V.is_r(it),V.is_s(it)),z3.Implies(V.is_r(it),A(V.ad(it)>=1,V.ad(it)<s.E.now())),z3.Not(s.E.numk(canon(it))),z3.Select(s.dpL,canon(it))>=0,z3.Select(s.dvL,canon(it))==V.i(k))),patterns=[it])),
          (tag+'everything found is an item',z3.ForAll([K],z3.Implies(z3.Select(s.dpL,K)>=0,A(V.is_i(w),V.iv(w)>=0,V.iv(w)<s.n,canon(q)==K,z3.Not(s.E.numk(K)))),patterns=[z3.Select(s.dpL,K)]))]
vkey=z3.Function('vkey',V,Key); vname=z3.Function('vname',Key,V)      # variables are equal if their names are
class Ver(Verifier):
    vars_=False
    numk_=z3.Function('numkey',Key,B)
    def numk(s,k): return s.numk_(k)
    def key2(s,v): return z3.BoolVal(True)
    def canonk(s,v):
        k=super().canonk(v); v=z3.simplify(v)
        if s.vars_: n=s.read('_name',V.ad(v)); s.fact(z3.Implies(A(V.is_r(v),clsof(V.ad(v))==s.K['Va'].id),A(k==vkey(n),vname(vkey(n))==n)))
        if v.get_id() not in s.nk: s.nk[v.get_id()]=v; s.fact(s.numk_(k)==z3.Or(V.is_i(v),V.is_b(v)))
        return k
    def reset(s,*a,**k): s.nk={}; return super().reset(*a,**k)
    def attr(s,x,a):
        if isinstance(x,SliceV) and a=='indices': return Prim('indices',x)
        if a=='__new__' and isinstance(x,Ref): return Prim('__new__',x)
        return super().attr(x,a)
    def prim(s,p,args,kw):
        if p.name=='indices':
            q=p.self; n=zi(args[0] if not isinstance(args[0],Bx) else s.resolve(args[0])); st=1 if q.st is None else q.st
            if not isinstance(st,int) or st==0: raise Unsupported('slice with a symbolic step')
            if st>0: return (s.clampidx(q.lo,n,0),s.clampidx(q.hi,n,s.pyi(n)),st)
            f=lambda v,d: d if v is None else z3.simplify(z3.If(zi(v)<0,z3.If(zi(v)+n<0,-1,zi(v)+n),z3.If(zi(v)>=n,n-1,zi(v))))
            return (f(q.lo,z3.simplify(n-1)),f(q.hi,-1),st)
        if p.name=='__new__' and isinstance(p.self,Ref):
            x=p.self; c=args[0] if args else None; ps=s.possible(x.ad)
            if not(isinstance(c,ClsVal) or isinstance(c,Cls)): raise Unsupported('__new__')
            if isinstance(c,Cls): return s.alloc(c)
            ad=s.now(); s.aoff+=1; s.fact(clsof(ad)==c.cid); s.restrict(ad,ps); r=Ref(ad,('any',))
            for fl in s.types.maybes(ps[0]): s.write(fl,ad,absent)
            return r
        return super().prim(p,args,kw)
    def new_bool(s,a,k): return s.pyb(s.truth(a[0]))
def load(tree):
    src=source(tree); K={k:src.cls(q) for k,q in dict(Rg=R+'Register',QR=R+'QuantumRegister',CR=R+'ClassicalRegister',SR=R+'SelfIncrementingRegister',CY=CY+'cyRegister',Va=P+'Variable',Q=P+'Qubit',B=P+'Bit').items()}
    cs=[]; add=lambda *a,**k: cs.append(Contract(*a,**k))
    dt=('dict',('any',),('any',)); F,EL_=fields(src)
    F['cyRegister']={'_index_to_label':dt,'_label_to_index':dt,'_stop':('int',)}
    ext={'isinstance:numbers.Number':lambda E,x: False,'call:__c_int':lambda E,a,k: a[0],'call:__cfun':lambda E,a,k: CFn(a[0])}
    E=Ver(src,Types(src,F,EL_,None,()),{},{},{},ext); E.K=K; E.first_ms=500
    E.types.iterf=None
    REG=[K['Rg'],K['QR'],K['CR']]; ALLR=REG+[K['SR']]
    class CFn:
        def __init__(s,n): s.n=n
    def getitem(E,a,k):
        d,key=a
        if isinstance(key,Bx): key=E.resolve(key)
        kv=E.box(key)
        if E.branch(E.dpos(d,kv)<0,'no such key'): return None
        return E.unbox(E.dget(d,kv),('any',))
    def contains(E,a,k):
        d,key=a
        if isinstance(key,Bx): key=E.resolve(key)
        return E.pyb(z3.simplify(E.dpos(d,E.box(key))>=0))
    def islong(E,a,k):
        x=a[0]
        if isinstance(x,Bx): x=E.resolve(x)
        return isinstance(x,(int,bool)) or isz(x,I) or isz(x,B)
    ext['call:PyDict_GetItemWithError']=getitem; ext['call:PyDict_Contains']=contains; ext['call:PyLong_Check']=islong
    ext['call:PyDict_Size']=lambda E,a,k: E.length(a[0])
    E.extern.update(ext)
    for n in('PyDict_GetItemWithError','PyDict_Contains','PyLong_Check','PyDict_Size'): E.cnames=getattr(E,'cnames',set())|{n}
    # iteration over a register: its items by position (the contract of __iter__)
    def iterf(E,x):
        ps=E.possible(x.ad)
        if not ps or not all(p.sub(K['CY']) for p in ps): return None
        r=Rep(E,x.ad)
        return E.pyi(z3.simplify(r.n)),(lambda i: item_at(E,r,i)),('any',)
    def item_at(E,r,i):
        E.canonk(V.i(zi(i))); return E.unbox(z3.simplify(r.item(i)),('any',))
    E.types.iterf=iterf
    def S(*cl): return ('among',list(cl) or ALLR)
    selfp=('self',S()); obj=lambda v: z3.Or(V.is_r(v),V.is_s(v))
    def keysdistinct(E):
        k=z3.Int('kx'); c=canon(V.i(k)); E.fact(z3.ForAll([k],A(E.inv_(c)==V.i(k),E.numk(c)),patterns=[c]),quant=True)
    def rq(*ix,item=None):
        def f(E,a):
            out=[]; keysdistinct(E)
            for i in ix: out+=Rep(E,a[i].ad).inv()
            if item is not None:
                v=E.box(a[item]); E.canonk(v); out.append(('the item is not a number',A(obj(v),z3.Implies(V.is_r(v),A(V.ad(v)>=1,V.ad(v)<E.now()))))); out+=Rep(E,a[ix[0]].ad).use(v)
            return out
        return f
    def same(E,a,o,N,n,upto=None):
        k=z3.Int('ks'); return z3.ForAll([k],z3.Implies(A(k>=0,k<n),N.item(k)==o.item(k)))
    def st(E,o,N): return [('the length stays',N.n==o.n),('the items stay',same(E,None,o,N,o.n))]
    def ro(E,a): return Rep(E,a[0].ad)
    def mods(o,x): return [('$dn',o.IL),('$dp',o.IL),('$dk',o.IL),('$dv',o.IL),('$dn',o.LI),('$dp',o.LI),('$dk',o.LI),('$dv',o.LI),('_stop',x)]
    # ---- reading
    def num(E,r):
        if isinstance(r,Bx): r=E.resolve(r)
        if isinstance(r,bool) or isz(r,B): return z3.If(zb(r),1,0)
        return zi(r)
    def rcase(f): return lambda E,a,old: [Case('read',ensures=lambda E,a,ol,r: f(E,a,Rep(E,a[0].ad,old),r))]
    add(CR+'size',[selfp],rcase(lambda E,a,o,r:[('it is the number of items',zi(E.resolve(r) if isinstance(r,Bx) else r)==o.n)]),requires=rq(0),props=('C08',))
    add(CR+'__len__',[selfp],rcase(lambda E,a,o,r:[('it is the number of items',zi(E.resolve(r) if isinstance(r,Bx) else r)==o.n)]),requires=rq(0),props=('C08',))
    def atc(E,a,old):
        o=Rep(E,a[0].ad,old); i=zi(a[1]); j=z3.If(i<0,i+o.n,i); E.canonk(V.i(z3.simplify(j)))
        return [Case('out of range',z3.Not(A(j>=0,j<o.n)),raises='IndexError'),Case('in range',ensures=lambda E,a,ol,r:[('it is the item at that position, from the end if negative',E.box(r)==o.item(z3.simplify(j)))])]
    add(CR+'at',[selfp,('idx',('int',))],atc,requires=rq(0),props=('C08',))
    anyv=('v',('any',))
    def itq(E,a): E.canonk(E.box(a[1])); return rq(0,item=1)(E,a)
    add(CR+'count',[selfp,anyv],rcase(lambda E,a,o,r:[('1 if it is an item, else 0',zi(E.resolve(r) if isinstance(r,Bx) else r if not isinstance(r,bool) and not isz(r,B) else z3.If(zb(r),1,0))==z3.If(o.has(E.box(a[1])),1,0))]),requires=itq,props=('C08',))
    add(CR+'__contains__',[selfp,anyv],rcase(lambda E,a,o,r:[('whether it is an item',zb(E.truth(r))==o.has(E.box(a[1])))]),requires=itq,props=('C08',))
    def numq(E,a):
        v=E.box(a[1]); E.canonk(v); return rq(0)(E,a)
    add(CR+'__contains__',[selfp,('v',('int',))],rcase(lambda E,a,o,r:[('no number is an item',z3.Not(zb(E.truth(r))))]),requires=numq,props=('C08',),note='of a number')
    def ixc(E,a,old):
        o=Rep(E,a[0].ad,old); v=E.box(a[1])
        return [Case('no item',z3.Not(o.has(v)),raises='ValueError'),Case('item',ensures=lambda E,a,ol,r:[('it is the position of the item',A(num(E,r)>=0,num(E,r)<o.n,canon(o.item(num(E,r)))==canon(v)))])]
    add(CR+'index',[selfp,anyv],ixc,requires=itq,props=('C08',))
    # ---- adding
    def newseq(E,o,N,v): return [('one more item',N.n==o.n+1),('it is the last one',N.item(o.n)==v),('the other items stay',same(E,None,o,N,o.n))]
    def apc(E,a,old):
        x=a[0].ad; o=Rep(E,x,old); v=E.box(a[1]); pm=zb(E.truth(a[2])); E.canonk(V.i(o.n))
        inv=lambda E: [(nm,f) for nm,f in Rep(E,x).inv('afterwards ')]
        return [Case('already there',A(o.has(v),z3.Not(pm)),raises='ValueError'),
                Case('already there, permitted',o.has(v),ensures=lambda E,a,ol,r:[('it is returned',E.box(r)==v)]),
                Case('new',modifies=mods(o,x),ensures=lambda E,a,ol,r: newseq(E,o,Rep(E,x),v)+inv(E))]
    add(CR+'_append',[selfp,anyv,('permissive',('bool',))],apc,requires=itq,props=('C08',))
    def clc(E,a,old):
        x=a[0].ad; o=Rep(E,x,old); return [Case('cleared',modifies=mods(o,x),ensures=lambda E,a,ol,r:[('no items are left',Rep(E,x).n==0)]+Rep(E,x).inv('afterwards '))]
    add(CR+'_clear',[selfp],clc,requires=rq(0),props=('C08',))
    # ---- adding several
    it_params=[('iterable',('list',('any',))),('iterable',('tuple',('any',))),('iterable',S())]
    def seqv(E,x):
        if isinstance(x,Bx): x=E.resolve(x)
        if not isinstance(x,Ref):
            n,at,T=E.iterview(x); arr=E.seqarr(Seq(n,at,T)); return zi(n),lambda i: z3.Select(arr,i)
        n,at,T=E.iterview(x); n=zi(n)
        if isinstance(x,Ref) and E.kindof(x)!='obj':
            arr=E.read('$el',x.ad); return n,lambda i: z3.Select(arr,i)
        r=Rep(E,x.ad); return n,lambda i: r.item(i)
    def seqreq(E,x,selfad=None):
        j=z3.Int('jq'); out=[]
        if isinstance(x,Ref) and E.kindof(x)=='obj':
            r=Rep(E,x.ad); out+=[('the other: '+nm,f) for nm,f in r.inv()]
            if selfad is not None:
                q=Rep(E,selfad); out.append(('it is another register',A(x.ad!=selfad,z3.Distinct(q.IL,q.LI,r.IL,r.LI))))
            return out
        n,at=seqv(E,x)
        return [('the items are not numbers',z3.ForAll([j],z3.Implies(A(j>=0,j<n),A(obj(at(j)),z3.Not(E.numk(canon(at(j)))),z3.Implies(V.is_r(at(j)),A(V.ad(at(j))>=1,V.ad(at(j))<E.now())))),patterns=[at(j)]))]
    def dup(E,o,n,at,i=None):
        j,k=z3.Ints('jd kd'); n=n if i is None else i
        return z3.Exists([j],A(j>=0,j<n,z3.Or(o.has(at(j)),z3.Exists([k],A(k>=0,k<j,canon(at(k))==canon(at(j)))))))
    nl=nl0=z3.Function('firsts',I,I)          # length after the first p items, when repetitions are skipped
    def exinv(E,x,o,n,at,i,pm,nl):
        N=Rep(E,x); j,k=z3.Ints('je ke')
        strict=A(N.n==o.n+i,z3.ForAll([j],z3.Implies(A(j>=0,j<i),A(canon(N.item(o.n+j))==canon(at(j)),N.item(o.n+j)==at(j))),patterns=[at(j)]))
        skip=A(N.n==nl(i),nl(0)==o.n,z3.ForAll([j],z3.Implies(A(j>=0,j<i),A(N.has(at(j)),N.pos(at(j))<nl(j+1),nl(j)>=o.n,nl(j)<=nl(j+1),nl(j+1)<=N.n,z3.Or(A(nl(j+1)==nl(j),N.pos(at(j))<nl(j)),A(nl(j+1)==nl(j)+1,N.item(nl(j))==at(j))))),patterns=[at(j)]))
        return N.inv('afterwards ')+[('the items before stay',A(N.n>=o.n,same(E,None,o,N,o.n))),
           ('the items follow in order'+(', repetitions skipped' if pm else ''),skip if pm else strict)]
    def exc(E,a,old):
        x=a[0].ad; o=Rep(E,x,old); n,at=seqv(E,a[1]); pm=a[2]; nl=nl0 if E.exown else newnl(E,o.n)
        def ens(E,a,ol,r):
            N=Rep(E,x); k=z3.Int('kp')
            return exinv(E,x,o,n,at,n,pm,nl)+([] if pm else [('the items follow, by position',z3.ForAll([k],z3.Implies(A(k>=o.n,k<o.n+n),N.item(k)==at(k-o.n)),patterns=[N.item(k)]))])
        m=mods(o,x)
        if pm: return [Case('extended',modifies=m,ensures=ens)]
        return [Case('an item is there already or repeated',dup(E,o,n,at),raises='ValueError',modifies=m),Case('extended',modifies=m,ensures=ens)]
    def newnl(E,n0):
        f=z3.Function(f'firsts!{E.nfresh}',I,I); E.nfresh+=1; E.fact(f(0)==n0); E.lastnl=f; return f
    def exreq(E,a):
        if a[2] and E.exown: E.fact(nl(0)==Rep(E,a[0].ad).n)
        return rq(0)(E,a)+seqreq(E,a[1],a[0].ad)
    def exl(E,L):
        a=E.topargs; x=a[0].ad; o=Rep(E,x,E.oldview); n,at=E.exseq; pm=a[2]; i=L.i
        N=Rep(E,x); g=A(i>=0,i<n); E.canonk(at(i))
        E.fact(z3.Implies(g,A(obj(at(i)),z3.Implies(V.is_r(at(i)),A(V.ad(at(i))>=1,V.ad(at(i))<E.now())))))     # from the precondition
        if pm: E.fact(z3.Implies(g,nl(i+1)==z3.If(N.has(at(i)),nl(i),nl(i)+1)))                                   # definition of nl
        out=exinv(E,x,o,n,at,i,pm,nl)
        if not pm:
            p=N.pos(at(i)); hs=A(g,N.has(at(i))); out+=[(nm,z3.Implies(g,f)) for nm,f in N.use(at(i))]+[('instance',z3.Implies(hs,z3.If(p<o.n,o.has(o.item(p)),canon(N.item(p))==canon(at(p-o.n)))))]; out.append(('instance2',z3.Implies(A(hs,p<o.n),N.item(p)==o.item(p))))
            j,k=z3.Ints('jn kn'); out.append(('there were no repetitions',z3.ForAll([j],z3.Implies(A(j>=0,j<i),A(z3.Not(o.has(at(j))),z3.ForAll([k],z3.Implies(A(k>=0,k<j),canon(at(k))!=canon(at(j)))))),patterns=[at(j)])))
        return out
    for pmv in(False,True):
        for it in it_params:
            def sset(E,a,pmv=pmv): E.exseq=seqv(E,a[1]); a[2:]=[pmv]
            add(CR+'_extend',[selfp,it,('permissive',('bool',))],exc,requires=exreq,setup=sset,props=('C08',),note=f'{"skipping repetitions, " if pmv else ""}{it[1][0] if it[1][0]!="among" else "register"}')
    E.loops[(CR+'_extend',0)]=LoopSpec(exl,lambda E,L: mods(Rep(E,E.topargs[0].ad,E.oldview),E.topargs[0].ad),allocates=False)
    # ---- called: _extend, _append through their contracts
    def callee(fn,cases,req,names):
        c=Contract(CR+fn,[],cases,requires=req,props=('none',))
        def adapt(E,a):
            a=[E.resolve(x) if isinstance(x,Bx) and i!=vx else x for i,x in enumerate(a)]; return a
        vx=1 if fn=='_append' else -1
        c.adapt=adapt; return c
    cal={CR+'_extend':callee('_extend',exc,exreq,None),CR+'_append':callee('_append',apc,itq,None)}
    def m_at(E,a,k):
        if isinstance(a[1],Bx): a[1]=E.resolve(a[1])
        if not(isinstance(a[1],int) or isz(a[1],I)): raise E.pyexc('TypeError','an integer is required')
        f=E.src.cls(CY+'cyRegister').attrs['at']; m=E.models.pop(CR+'at')
        try: return E.callfn(f,a,k)
        finally: E.models[CR+'at']=m
    verify=E.verify
    def verify_(c,fn=None,label=None):
        E.exown=c.qual==CR+'_extend'; E.contracts=dict(cal) if c.qual not in(CR+'_extend',CR+'_append') else {}
        E.models.pop(CR+'at',None); E.vars_=False; E.gen=None
        if c.qual!=CR+'at': E.models[CR+'at']=m_at
        return verify(c,fn,label)
    E.verify=verify_; E.exown=False

    # ---- copies
    def cpc(E,a,old):
        x=a[0].ad; o=Rep(E,x,old); A0=E.now()
        def ens(E,a,ol,r):
            N=Rep(E,r.ad); S0=Rep(E,x)
            return [('it is a new register of the same type',A(r.ad>=A0,clsof(r.ad)==clsof(x))),('with dictionaries of its own',A(N.IL>=A0,N.LI>=A0)),('it is not frozen',E.read('_frozen',r.ad)==absent),
               ('the copy: same length',N.n==o.n),('the copy: same items',same(E,None,o,N,o.n))]+[('the copy: '+nm,f) for nm,f in N.inv()]+[('the original: '+nm,f) for nm,f in st(E,o,S0)]
        return [Case('copied',ensures=ens,allocates=True,result=lambda E,a,o: newobj(E,x))]
    def newobj(E,x):
        ps=E.possible(x); ad=E.now(); E.aoff+=1; E.fact(clsof(ad)==clsof(x)); E.restrict(ad,ps); return Ref(ad,('any',))
    for fn in('copy','__copy__'): add(CR+fn,[('self',S(c)) if fn=='x' else selfp],cpc,requires=rq(0),props=('C08',))
    # ---- making
    def blank(E,a):
        return []
    def fresh_reg(E,a,old,N,A0): return [('with dictionaries of its own',A(N.IL>=A0,N.LI>=A0))]+N.inv('afterwards ')
    def mk(fn,cl,seqT,note):
        def set_(E,a): a[1]=E.resolve(a[1]) if isinstance(a[1],Bx) else a[1]
        def req(E,a):
            keysdistinct(E)
            return [] if a[1] is None else seqreq(E,a[1])+([('it is another register',a[1].ad!=a[0].ad)] if E.kindof(a[1])=='obj' else [])
        def case(E,a,old):
            x=a[0].ad; A0=E.now(); it=a[1]
            md=[('_index_to_label',x),('_label_to_index',x),('_stop',x),('_frozen',x)]
            if it is None: want=lambda E,N: [('it is empty',N.n==0)]
            elif E.kindof(it)=='obj':
                q=Rep(E,it.ad,old); want=lambda E,N: [('as many items',N.n==q.n),('the same items',same(E,None,q,N,q.n)),('the given register stays',A(Rep(E,it.ad).n==q.n,same(E,None,q,Rep(E,it.ad),q.n)))]
            else:
                n,at=seqv(E,it); E.lastnl=None; j=z3.Int('jw')
                def want(E,N):
                    nl=E.lastnl
                    if nl is None: return [('every given item is in it',n==0)]
                    return [('every given item is in it, at its first occurrence',z3.ForAll([j],z3.Implies(A(j>=0,j<n),A(N.has(at(j)),N.pos(at(j))<nl(j+1),z3.Or(A(nl(j+1)==nl(j),N.pos(at(j))<nl(j)),A(nl(j+1)==nl(j)+1,N.item(nl(j))==at(j)))))),),('it has as many items as there are first occurrences',A(nl(0)==0,N.n==nl(n)))]
            return [Case('made',modifies=md,allocates=True,ensures=lambda E,a,ol,r: want(E,Rep(E,x))+fresh_reg(E,a,old,Rep(E,x),A0)+([('it is not frozen',E.read('_frozen',x)==V.b(False))] if cl is not K['CY'] else []))]
        add((CR if cl is K['CY'] else R+cl.name+'.')+'__init__',[('self',('exact',cl)),('data',seqT)],case,requires=req,setup=set_,props=('C08',),note=note)
    for cl in [K['Rg'],K['QR'],K['CR'],K['SR']]:
        for nm,T in(('nothing',('none',)),('list',('list',('any',))),('tuple',('tuple',('any',))),('register',S())): mk('__init__',cl,T,f'{cl.name} from {nm}')
    # ---- Register
    RG=R+'Register.'
    add(RG+'freeze',[selfp],lambda E,a,old:[Case('frozen',modifies=[('_frozen',a[0].ad)],ensures=lambda E,a,ol,r:[('it is frozen',E.read('_frozen',a[0].ad)==V.b(True))])],props=('C08',))
    add(RG+'frozen',[selfp],rcase(lambda E,a,o,r:[('whether it was frozen',zb(E.truth(r))==(E.read('_frozen',a[0].ad)==V.b(True)))]),props=('C08',))
    def dac(E,a,old):
        o=Rep(E,a[0].ad,old); j=z3.Int('jd')
        return [Case('listed',allocates=True,ensures=lambda E,a,ol,r:[('as long as the register',zi(E.length(r))==o.n),('the items in order',z3.ForAll([j],z3.Implies(A(j>=0,j<o.n),z3.Select(E.read('$el',r.ad) if isinstance(r,Ref) else E.seqarr(r),j)==o.item(j))))])]
    add(RG+'data',[selfp],dac,requires=rq(0),props=('C08',))
    def adc(E,a,old):
        x=a[0].ad; o=Rep(E,x,old); d=a[1]; fz=old.read('_frozen',x)==V.b(True)
        if isinstance(d,Ref) and (E.kindof(d) in('list','tuple') or E.possible(d.ad) and all(p.sub(K['CY']) for p in E.possible(d.ad))): n,at=seqv(E,d)
        else: bv=E.box(d); arr1=E.fresh('one',EL); E.fact(z3.Select(arr1,0)==bv); n,at=z3.IntVal(1),(lambda i: z3.Select(arr1,i))
        return [Case('frozen',fz,raises='RegisterError'),Case('an item is there already or repeated',dup(E,o,n,at),raises='ValueError',modifies=mods(o,x)),
                Case('added',modifies=mods(o,x),ensures=lambda E,a,ol,r: exinv(E,x,o,n,at,n,False,nl0))]
    def adreq(E,a):
        d=a[1]; out=rq(0)(E,a)
        if isinstance(d,Ref) and (E.kindof(d) in('list','tuple') or E.possible(d.ad) and all(p.sub(K['CY']) for p in E.possible(d.ad))): return out+seqreq(E,d,a[0].ad)
        v=E.box(d); E.canonk(v); return out+[('the item is allocated',z3.Implies(V.is_r(v),A(V.ad(v)>=1,V.ad(v)<E.now())))]
    for nm,T in(('a list',('list',('any',))),('a tuple',('tuple',('any',))),('a register',S()),('a qubit',('obj',K['Q'])),('a bit',('obj',K['B'])),('a variable',('obj',K['Va'])),('a string',('str',))):
        add(RG+'add',[selfp,('data',T)],adc,requires=adreq,props=('C08',),note=nm)
    def plc(E,a,old):
        x,y=a[0].ad,a[1].ad; o=Rep(E,x,old); q=Rep(E,y,old); A0=E.now(); n,at=q.n,q.item
        def ens(E,a,ol,r):
            N=Rep(E,r.ad); j=z3.Int('jp')
            return [('it is a new register of the same type',A(r.ad>=A0,clsof(r.ad)==clsof(x))),('it is not frozen',E.read('_frozen',r.ad)==absent),('the lengths add up',N.n==o.n+q.n),('it starts with the items of the first',same(E,None,o,N,o.n)),
              ('the items of the second follow',z3.ForAll([j],z3.Implies(A(j>=0,j<q.n),N.item(o.n+j)==q.item(j)),patterns=[q.item(j)]))]+[('the sum: '+nm,f) for nm,f in N.inv()]+[('the first stays: '+nm,f) for nm,f in st(E,o,Rep(E,x))]+[('the second stays: '+nm,f) for nm,f in st(E,q,Rep(E,y))]
        return [Case('an item is in both',dup(E,o,n,at),raises='ValueError',allocates=True),Case('added',allocates=True,ensures=ens)]
    def plreq(E,a):
        q,r=Rep(E,a[0].ad),Rep(E,a[1].ad); return rq(0,1)(E,a)+[('the registers are independent',A(a[0].ad!=a[1].ad,z3.Distinct(q.IL,q.LI,r.IL,r.LI)))]
    add(RG+'__add__',[selfp,('qreg',S())],plc,requires=plreq,props=('C08',))
    # ---- indexing
    add(CR+'__getitem__',[selfp,('idx',('int',))],atc,requires=rq(0),props=('C08',),note='index')
    # ---- slices
    def slc(E,a,old):
        o=Rep(E,a[0].ad,old); A0=E.now(); q=a[1]; st=q.st or 1; n=o.n
        def cl(v,d): return d if v is None else zi(E.clampidx(v,n,d))
        if st>0: lo,hi=cl(q.lo,z3.IntVal(0)),cl(q.hi,n); m=z3.If(hi>lo,(hi-lo+st-1)/st,0)
        else:
            f=lambda v,d: d if v is None else z3.If(zi(v)<0,z3.If(zi(v)+n<0,-1,zi(v)+n),z3.If(zi(v)>=n,n-1,zi(v)))
            lo,hi=f(q.lo,n-1),f(q.hi,z3.IntVal(-1)); m=z3.If(lo>hi,(lo-hi-st-1)/(-st),0)
        E.slice=(o,lo,st,m)
        def ens(E,a,ol,r):
            N=Rep(E,r.ad); k=z3.Int('ksl')
            return [('it is a new register of the same type',A(r.ad>=A0,clsof(r.ad)==clsof(a[0].ad))),('it has the items of the slice',A(N.n==m,z3.ForAll([k],z3.Implies(A(k>=0,k<m),N.item(k)==o.item(lo+st*k)),patterns=[N.item(k)])))]+[('the slice: '+nm,f) for nm,f in N.inv()]+[('the original: '+nm,f) for nm,f in st_(E,o,Rep(E,a[0].ad))]
        return [Case('sliced',allocates=True,ensures=ens)]
    st_=st
    def sl_inv(E,L):
        o,lo,stp,m=E.slice; k=z3.Int('ksl'); new=E.getname('new'); N=Rep(E,new.ad); y=z3.simplify(lo+stp*L.i); E.canonk(V.i(y))
        E.fact(z3.Implies(A(L.i>=0,L.i<m),A(lo+stp*L.i>=0,lo+stp*L.i<o.n)))     # a position of the slice
        p=N.pos(o.item(y)); g=A(L.i>=0,L.i<L.n); g2=A(g,N.has(o.item(y)))
        out=[('as many as the slice has',L.n==m),('one item per position',N.n==L.i),('the items so far',z3.ForAll([k],z3.Implies(A(k>=0,k<L.i),N.item(k)==o.item(lo+stp*k)),patterns=[N.item(k)])),('the slice is a new register',A(new.ad>=E.slA0,N.IL>=E.slA0,N.LI>=E.slA0,clsof(new.ad)==clsof(E.topargs[0].ad)))]+N.inv('the slice: ')
        E.canonk(o.item(y))
        it=o.item(y); out.append(('an item',z3.Implies(g,A(obj(it),z3.Implies(V.is_r(it),A(V.ad(it)>=1,V.ad(it)<E.now())),o.pos(it)==y))))
        pp=z3.simplify(lo+stp*p); out+=[('nothing repeats',z3.Implies(g2,A(p>=0,p<L.i,canon(N.item(p))==canon(it),N.item(p)==o.item(pp),o.pos(o.item(pp))==pp)))]
        return out
    def slmods(E,L):
        N=Rep(E,E.getname('new').ad); return mods(N,E.getname('new').ad)
    E.loops[(CR+'__getitem__',0)]=LoopSpec(sl_inv,slmods,allocates=False)
    def slset(step):
        def f(E,a):
            E.slA0=E.now(); lo,hi=[E.resolve(x) if isinstance(x,Bx) else x for x in a[1:3]]; a[1:]=[SliceV(lo,hi,step)]
        return f
    for stp in(None,2,-1):
        add(CR+'__getitem__',[('self',S()),('lo',('opt',('int',))),('hi',('opt',('int',)))],slc,requires=rq(0),setup=slset(stp),props=('C08',),note=f'slice with step {stp or 1}')
    # ---- iterating
    def itset(E,a): E.gen=E.newlist([]).ad; E.oldgen=E.gen
    def itc(E,a,old):
        o=Rep(E,a[0].ad,old); j=z3.Int('ji'); g=E.gen
        return [Case('iterated',modifies=[('$len',g),('$el',g)],ensures=lambda E,a,ol,r:[('it yields as many items as there are',E.read('$len',g)==o.n),('it yields the items in order',z3.ForAll([j],z3.Implies(A(j>=0,j<o.n),z3.Select(E.read('$el',g),j)==o.item(j))))])]
    add(CR+'__iter__',[selfp],itc,requires=rq(0),setup=itset,props=('C08',))
    def it_inv(E,L):
        o=Rep(E,E.topargs[0].ad,E.oldview); j=z3.Int('ji'); E.canonk(V.i(zi(L.i)))
        return [('as many as positions',E.read('$len',E.gen)==L.i),('the items so far',z3.ForAll([j],z3.Implies(A(j>=0,j<L.i),z3.Select(E.read('$el',E.gen),j)==o.item(j))))]
    for k_ in(0,1): E.loops[(CR+'__iter__',k_)]=LoopSpec(it_inv,lambda E,L:[('$len',E.gen),('$el',E.gen)],allocates=False)
    def m_iter(E,a,k):
        r=Rep(E,a[0].ad); return Seq(E.pyi(z3.simplify(r.n)),lambda i: item_at(E,r,i),('any',),'iterator')
    E.models[CR+'__iter__']=m_iter
    def ric(E,a,old):
        o=Rep(E,a[0].ad,old); j=z3.Int('ji')
        def ens(E,a,ol,r):
            n,at,T=E.iterview(r); return [('it has as many items as there are',zi(n)==o.n),('its items are the items in order',z3.ForAll([j],z3.Implies(A(j>=0,j<o.n),E.box(at(j))==o.item(j))))]
        return [Case('iterated',ensures=ens)]
    add(RG+'__iter__',[selfp],ric,requires=rq(0),props=('C08',))
    # ---- SelfIncrementingRegister: the register grows when indexed past its end
    SI=R+'SelfIncrementingRegister.__getitem__'
    def nm(E,i): return V.s(istr(zi(i)))
    def sic(E,a,old):
        x=a[0].ad; o=Rep(E,x,old); i=zi(a[1]); fz=old.read('_frozen',x)==V.b(True); j=z3.If(i<0,i+o.n,i); E.canonk(V.i(z3.simplify(j))); k=z3.Int('kn')
        past=A(i>=o.n,z3.Not(fz))
        def ens(E,a,ol,r):
            N=Rep(E,x); rv=E.box(r); w=V.ad(N.item(k))
            return [('it has grown up to that index',N.n==i+1),('the items before stay',same(E,None,o,N,o.n)),('the new ones are variables named by their position',z3.ForAll([k],z3.Implies(A(k>=o.n,k<=i),A(V.is_r(N.item(k)),clsof(w)==K['Va'].id,E.read('_name',w)==nm(E,k),E.read('_value',w)==none)))),('it is the item at that position',rv==N.item(i))]+N.inv('afterwards ')
        return [Case('a variable of such a name is there',A(past,z3.Exists([k],A(k>=o.n,k<=i,z3.Select(o.dpL,vkey(nm(E,k)))>=0))),raises='ValueError',modifies=mods(o,x),allocates=True),
            Case('past the end',past,modifies=mods(o,x),allocates=True,ensures=ens),
            Case('out of range',z3.Not(A(j>=0,j<o.n)),raises='IndexError'),
            Case('in range',ensures=lambda E,a,ol,r:[('it is the item at that position, from the end if negative',E.box(r)==o.item(z3.simplify(j)))])]
    def siset(E,a):
        E.vars_=True; k=z3.Int('kst'); sinv=z3.Function('strtoint',Str,I); E.fact(z3.ForAll([k],sinv(istr(k))==k,patterns=[istr(k)]),quant=True); vn=z3.Const('vnm',V); E.fact(z3.ForAll([vn],vname(vkey(vn))==vn,patterns=[vkey(vn)]),quant=True)     # different numbers are written differently
    add(SI,[('self',S(K['SR'])),('index',('int',))],sic,requires=rq(0),setup=siset,props=('C08',))
    def sic_inv(E,L):
        o=Rep(E,E.topargs[0].ad,E.oldview); j=z3.Int('jv'); v=z3.Select(L.acc,j); w=V.ad(v)
        if not z3.is_int_value(L.i): E.canonk(z3.Select(L.acc,z3.simplify(L.i-1)))
        return [('the elements so far are new variables named by their position',z3.ForAll([j],z3.Implies(A(j>=0,j<L.i),A(V.is_r(v),w>=L.A0,w<E.now(),clsof(w)==K['Va'].id,E.read('_name',w)==nm(E,o.n+j),E.read('_value',w)==none,canon(v)==vkey(nm(E,o.n+j)),z3.Not(E.numk(canon(v))))),patterns=[v]))]
    E.loops[(SI,'comp',0)]=LoopSpec(sic_inv,lambda E,L: [],allocates=True,kinds=('obj',K['Va']))
    return E,cs,dict(trusted=['CPython C API: PyDict_Size, PyDict_Contains, PyDict_GetItemWithError and PyLong_Check per their documentation'],assumptions=['items of registers are hashable, not numbers, and never equal to a number','C integers are mathematical integers'])
