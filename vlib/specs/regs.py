"""Abstract contract of the register classes, as used by their clients: a register is a sequence of distinct items ($dn items,
$dk item by position, $dp position by item).  The implementation (cyregister.pyx) is verified against the same contract for C08."""
from .common import *
RF=('$dn','$dk','$dp')
def rlen(E,x): n=E.read('$dn',x.ad); E.fact(n>=0); return n
def regclasses(src): 
    try: return src.subs(src.cls(CY+'cyRegister'))
    except S_.SrcError: return []
def isreg(E,x): 
    if not isinstance(x,Ref): return False
    ps=E.possible(x.ad); return bool(ps) and all(p in E.regset for p in ps)
def elT(E,x):
    if x.el: return x.el
    ps=E.possible(x.ad) or []
    for p in ps:
        t=E.types.elem(p)
        if t: return t
    return ('any',)
def itemv(E,x,i): return E.dkey(x,i)
def item(E,x,i): return E.unbox(itemv(E,x,i),elT(E,x))
def view(E,x): return E.pyi(rlen(E,x)),(lambda i: item(E,x,i)),elT(E,x)
def empty(E,x):
    E.write('$dn',x.ad,z3.IntVal(0)); E.write('$dp',x.ad,z3.K(Key,z3.IntVal(-1))); E.write('$dk',x.ad,E.fresh('dk',EL))
def append(E,x,v,permissive):
    """appends v if it is new; branches"""
    kv=E.box(v); E.hashable(v); p=E.dpos(x,kv)
    if E.branch(p>=0,'already in the register'):
        if permissive: return
        raise E.pyexc('ValueError','already in register')
    E.elemtype(x,kv,elT(E,x),'item')
    n=rlen(E,x); E.write('$dk',x.ad,z3.Store(E.read('$dk',x.ad),n,kv)); E.write('$dp',x.ad,z3.Store(E.read('$dp',x.ad),E.canonk(kv),n)); E.write('$dn',x.ad,z3.simplify(n+1))
def extend(E,x,it,permissive):
    if isinstance(it,Bx): it=E.resolve(it)
    n,at,T=E.iterview(it); n=E.concretize(n)
    if isinstance(n,int):
        for i in range(n): append(E,x,at(i),permissive)
        return
    # symbolic number of items: all are new and distinct, or the first one that is not ends the call (or is skipped)
    arr=E.seqarr(Seq(n,at,T)); n=zi(n); j,k=E.fresh('j',I),E.fresh('j',I); E.keep+=[j,k]
    dk,dp,dn=E.read('$dk',x.ad),E.read('$dp',x.ad),rlen(E,x); K=z3.Const('kq',Key); e=lambda i: z3.Select(arr,i)
    E.elemtype_all(x,arr,n,elT(E,x)) if hasattr(E,'elemtype_all') else None
    src=z3.Const(f'src!{E.nfresh}',KI); E.nfresh+=1
    new=z3.And(z3.ForAll([j],z3.Implies(z3.And(j>=0,j<n),z3.And(z3.Select(dp,canon(e(j)))<0,z3.Select(src,canon(e(j)))==j)),patterns=[e(j)]))
    c=E.choose(2)
    if c==0:
        E.assume(new)
        nk,np_=E.fresh('dk',EL),E.fresh('dp',KI)
        E.fact(z3.ForAll([j],z3.Implies(z3.And(j>=0,j<dn+n),z3.Select(nk,j)==z3.If(j<dn,z3.Select(dk,j),e(j-dn))),patterns=[z3.Select(nk,j)]))
        E.fact(z3.ForAll([j],z3.Implies(z3.And(j>=0,j<n),z3.Select(nk,dn+j)==e(j)),patterns=[e(j)]))
        E.fact(z3.ForAll([j],z3.Implies(z3.And(j>=0,j<dn),z3.Select(nk,j)==z3.Select(dk,j)),patterns=[z3.Select(dk,j)]))
        E.fact(z3.ForAll([j],z3.Implies(z3.And(j>=0,j<n),z3.Select(np_,canon(e(j)))==dn+j),patterns=[e(j)]))
        E.fact(z3.ForAll([K],z3.And(z3.Or(z3.Select(np_,K)==z3.Select(dp,K),z3.And(z3.Select(dp,K)<0,z3.Select(np_,K)>=dn,canon(z3.Select(nk,z3.Select(np_,K)))==K)),z3.Select(np_,K)>=-1,z3.Select(np_,K)<dn+n),patterns=[z3.Select(np_,K)]))
        E.write('$dk',x.ad,nk); E.write('$dp',x.ad,np_); E.write('$dn',x.ad,z3.simplify(dn+n)); return
    # some item is in the register already or occurs twice
    w=E.fresh('w',I); u=E.fresh('u',I)
    E.assume(z3.And(w>=0,w<n,z3.Or(z3.Select(dp,canon(e(w)))>=0,z3.And(u>=0,u<w,canon(e(u))==canon(e(w))))))
    if not E.sat([]): raise PathEnd()
    E.loose_dup=True
    for f in RF: E.havoc(f,x.ad)
    if permissive:
        E.imprecise('register made from a sequence with repetitions')
        return
    raise E.pyexc('ValueError','already in register')
def copy_of(E,x,cls=None):
    ps=E.possible(x.ad); 
    if len(ps)==1: r=E.alloc(ps[0],x.el)
    else:
        ad=E.now(); E.aoff+=1; E.fact(clsof(ad)==clsof(x.ad)); E.restrict(ad,ps); r=Ref(ad,elT(E,x))
        for fl in E.types.maybes(ps[0]): E.write(fl,ad,absent)
    for f in RF: E.write(f,r.ad,E.read(f,x.ad))
    return r
def m_init(E,a,k):
    x=a[0]; it=a[1] if len(a)>1 else k.get('iterable'); empty(E,x)
    if isinstance(it,Bx): it=E.resolve(it)
    if it is None: return None
    if isreg(E,it):
        for f in RF: E.write(f,x.ad,E.read(f,it.ad))
        return None
    extend(E,x,it,True)
def m_getitem(E,a,k):
    x,i=a[0],a[1]
    if isinstance(i,Bx): i=E.resolve(i)
    n=rlen(E,x)
    if isinstance(i,SliceV):
        if i.st is not None and not(isinstance(i.st,int) and i.st==1): raise Unsupported('register slice with a step')
        lo=zi(E.clampidx(i.lo,n,0)); hi=zi(E.clampidx(i.hi,n,n)); ps=E.possible(x.ad); r=copy_of(E,x)
        m=z3.simplify(z3.If(hi>lo,hi-lo,0)); nk,np_=E.fresh('dk',EL),E.fresh('dp',KI); j=E.fresh('j',I); E.keep.append(j); K=z3.Const('kq',Key); dk,dp=E.read('$dk',x.ad),E.read('$dp',x.ad)
        E.fact(z3.ForAll([j],z3.Implies(z3.And(j>=0,j<m),z3.Select(nk,j)==z3.Select(dk,lo+j)),patterns=[z3.Select(nk,j)]))
        E.fact(z3.ForAll([K],z3.Select(np_,K)==z3.If(z3.And(z3.Select(dp,K)>=lo,z3.Select(dp,K)<hi),z3.Select(dp,K)-lo,-1),patterns=[z3.Select(np_,K)]))
        E.write('$dn',r.ad,m); E.write('$dk',r.ad,nk); E.write('$dp',r.ad,np_); return r
    j=E.normidx(i,E.pyi(n)); return item(E,x,zi(j))
def m_contains(E,a,k):
    v=a[1]
    if isinstance(v,Bx): v=E.resolve(v)
    if isinstance(v,Ref) and E.kindof(v) in('list','dict','set'): return False
    return E.pyb(z3.simplify(E.dpos(a[0],E.box(v))>=0))
def m_index(E,a,k):
    if len(a)>2 or k: raise Unsupported('permissive index')
    v=a[1]
    if isinstance(v,Bx): v=E.resolve(v)
    p=E.dpos(a[0],E.box(v))
    if E.branch(p<0,'not in the register'): raise E.pyexc('ValueError','unknown register item')
    return p
MODELS={CY+'cyRegister.__init__':m_init,CY+'cyRegister.__len__':lambda E,a,k:E.pyi(rlen(E,a[0])),CY+'cyRegister.size':lambda E,a,k:E.pyi(rlen(E,a[0])),
 CY+'cyRegister.__getitem__':m_getitem,CY+'cyRegister.at':m_getitem,CY+'cyRegister.__contains__':m_contains,CY+'cyRegister.count':lambda E,a,k: z3.If(zb(m_contains(E,a,k)),1,0),
 CY+'cyRegister.index':m_index,CY+'cyRegister.copy':lambda E,a,k: copy_of(E,a[0]),CY+'cyRegister.__copy__':lambda E,a,k: copy_of(E,a[0]),
 CY+'cyRegister._extend':lambda E,a,k: extend(E,a[0],a[1],(a[2] if len(a)>2 else k.get('permissive',False))),
 CY+'cyRegister._append':lambda E,a,k: append(E,a[0],a[1],(a[2] if len(a)>2 else k.get('permissive',False))),
 CY+'cyRegister._clear':lambda E,a,k: empty(E,a[0]),
 CY+'cyRegister.__iter__':lambda E,a,k: Seq(*view(E,a[0]),'iterator')}
TRUST='registers behave as sequences of distinct items (the abstract contract verified for C08)'
def iterf(E,x): return view(E,x) if isreg(E,x) else None
def attach(E):
    E.regset=set(regclasses(E.src)); E.models.update({k:v for k,v in MODELS.items() if k not in E.models}); E.types.iterf=iterf; return E
