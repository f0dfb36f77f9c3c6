"""C17: the ID counter.  A generator of combinations is an object with an alphabet, a length r and a position p (ghost); the k-th
combination of length r is cstr(alphabet,r,k), and as the alphabet has distinct characters different (r,k) give different strings.
H is an arbitrary set of strings: the IDs handed out so far."""
from .common import *
K_='dwave.gate.tools.counters:IDCounter'
SetS=z3.ArraySort(Str,B)
HSORT.update({'$gr':I,'$gp':I,'$ga':Str,'$set':SetS,'$sz':I})
cstr=z3.Function('cstr',Str,I,I,Str); crof=z3.Function('crof',Str,Str,I); cpof=z3.Function('cpof',Str,Str,I); ncomb=z3.Function('ncomb',Str,I,I)
A=z3.And
class CombV:
    def __init__(s,al,r,p): s.al=al; s.r=r; s.p=p
class IdVerifier(Verifier):
    def kindof(s,x):
        if isinstance(x,Ref):
            ps=s.possible(x.ad)
            if ps and len(ps)==1 and ps[0].name in('idset','combgen') and ps[0].mod is None: return ps[0].name
        return super().kindof(x)
    def attr(s,x,a):
        if isinstance(x,Bx): x=s.resolve(x)
        if isinstance(x,Ref) and s.kindof(x) in('idset','combgen'): return Prim(a,x)
        return super().attr(x,a)
    def size(s,x):
        n=s.read('$sz',x.ad); S=s.read('$set',x.ad); k=s.fresh('mem',Str); y=z3.Const('yset',Str)
        s.fact(A(n>=0,z3.Implies(n>0,z3.Select(S,k)))); s.fact(z3.Implies(n==0,z3.ForAll([y],z3.Not(z3.Select(S,y)),patterns=[z3.Select(S,y)])),quant=True); return n
    def truth(s,x):
        if isinstance(x,Ref) and s.kindof(x)=='idset': return s.size(x)>0
        return super().truth(x)
    def length(s,x):
        if isinstance(x,Ref) and s.kindof(x)=='idset': return s.size(x)
        return super().length(x)
    def new_set(s,a,k):
        if a: raise Unsupported('set(...)')
        r=s.alloc(s.SETC); s.write('$set',r.ad,z3.K(Str,z3.BoolVal(False))); s.write('$sz',r.ad,z3.IntVal(0)); return r
    def idset_add(s,x,a,k):
        v=s.tostr(a[0]); S=s.read('$set',x.ad); n=s.size(x)
        s.write('$sz',x.ad,n+z3.If(z3.Select(S,v),0,1)); s.write('$set',x.ad,z3.Store(S,v,True)); return None
    def idset_pop(s,x,a,k):
        n=s.size(x); S=s.read('$set',x.ad)
        if not s.branch(n>0,'the set is not empty'): raise s.pyexc('KeyError','pop from an empty set')
        v=s.fresh('popped',Str); s.assume(z3.Select(S,v)); s.write('$set',x.ad,z3.Store(S,v,False)); s.write('$sz',x.ad,n-1); return v
    def idset_clear(s,x,a,k): s.write('$set',x.ad,z3.K(Str,z3.BoolVal(False))); s.write('$sz',x.ad,z3.IntVal(0))
    def bi_next(s,a,k):
        g=a[0]
        if isinstance(g,Bx): g=s.resolve(g)
        if not(isinstance(g,Ref) and s.kindof(g)=='combgen') or len(a)!=1: raise Unsupported('next')
        r,p,al=s.read('$gr',g.ad),s.read('$gp',g.ad),s.read('$ga',g.ad)
        s.combfacts(al,r,p)
        if not s.branch(p<ncomb(al,r),'the generator has another combination'): raise PyRaise(s.src.classes.get('StopIteration') or s.excls('StopIteration'),(),'next')
        s.write('$gp',g.ad,p+1); return CombV(al,r,p)
    def combfacts(s,al,r,p):
        N=s.N
        s.fact(A(ncomb(al,r)>=0,z3.Implies(A(r>=0,r<=N),ncomb(al,r)>=1),z3.Implies(r>N,ncomb(al,r)==0)))
        s.fact(z3.Implies(A(r>=0,p>=0,p<ncomb(al,r)),A(crof(al,cstr(al,r,p))==r,cpof(al,cstr(al,r,p))==p)))
    def strmeth(s,x,n,a,k):
        if n=='join' and a and isinstance(a[0],CombV):
            if x!='': raise Unsupported('join of a combination with a separator')
            c=a[0]; return cstr(c.al,c.r,c.p)
        return super().strmeth(x,n,a,k)
def m_comb(E,a,k):
    al=a[0]; r=a[1] if len(a)>1 else k['r']
    if not isinstance(al,str) or len(al)!=E.N or al!=E.ALPHA: raise Unsupported('combinations of something other than the alphabet')
    r=E.resolve(r) if isinstance(r,Bx) else r
    if E.branch(zi(r)<0,'negative length'): raise E.pyexc('ValueError','r must be non-negative')
    g=E.alloc(E.GEN); E.write('$gr',g.ad,zi(r)); E.write('$gp',g.ad,z3.IntVal(0)); E.write('$ga',g.ad,E.lit(al)); return g
class St:
    """the state of the counter in a heap"""
    def __init__(s,E,cid,old=None):
        rd_=(lambda f,ad: E.read(f,ad)) if old is None else old.read
        c=z3.IntVal(cid); s.c=c; s.E=E
        s.L=V.iv(rd_('C.length',c)); s.b=V.iv(rd_('C.batch',c)); s.bL=rd_('C.length',c); s.bb=rd_('C.batch',c); g=rd_('C._id_gen',c); S=rd_('C.id_set',c); s.gv=g; s.Sv=S
        s.g=V.ad(g); s.S=V.ad(S); s.r=rd_('$gr',s.g); s.p=rd_('$gp',s.g); s.al=rd_('$ga',s.g); s.set=rd_('$set',s.S); s.sz=rd_('$sz',s.S)
    def before(s,x): al=s.E.lit(s.E.ALPHA); return z3.Or(crof(al,x)<s.r,A(crof(al,x)==s.r,cpof(al,x)<s.p))
    def full(s): al=s.E.lit(s.E.ALPHA); return A(s.p==ncomb(al,s.r),s.L+1>s.E.N)
def inv(E,q,H=None):
    al=E.lit(E.ALPHA); x=z3.Const('xid',Str); N=E.N
    out=[('numbers are numbers',A(V.is_i(q.bL),V.is_i(q.bb),V.is_r(q.gv),V.is_r(q.Sv),clsof(q.g)==E.GEN.id,clsof(q.S)==E.SETC.id)),
      ('batch size and length are positive',A(q.b>=1,q.L>=1,q.r>=1)),('the generator runs over the alphabet',q.al==al),
      ('the position is within the combinations',A(q.p>=0,q.p<=ncomb(al,q.r))),
      ('the generator has the current length, or the supply is exhausted',z3.Or(q.r==q.L,A(q.L>N,q.p==ncomb(al,q.r)))),
      ('the available IDs come from earlier positions',z3.ForAll([x],z3.Implies(z3.Select(q.set,x),q.before(x)),patterns=[z3.Select(q.set,x)]))]
    if H is not None:
        out.append(('no ID handed out is available, and all come from earlier positions',z3.ForAll([x],z3.Implies(z3.Select(H,x),A(q.before(x),z3.Not(z3.Select(q.set,x)))),patterns=[z3.Select(H,x)])))
    return out
def contracts(src,E0):
    K=src.cls(K_); cid=K.id; H=z3.Const('handed',SetS); out=[]
    pc=lambda E: K
    def pre(E,a):
        q=St(E,cid); E.combfacts(E.lit(E.ALPHA),q.r,q.p); E.combfacts(E.lit(E.ALPHA),q.L+1,z3.IntVal(0)); E.size(Ref(q.S)); return inv(E,q,H)
    def added(E,q0,q):
        x=z3.Const('xid',Str)
        return [('available IDs stay available',z3.ForAll([x],z3.Implies(z3.Select(q0.set,x),z3.Select(q.set,x)),patterns=[z3.Select(q0.set,x)])),
          ('new IDs come from new positions',z3.ForAll([x],z3.Implies(A(z3.Select(q.set,x),z3.Not(z3.Select(q0.set,x))),z3.Not(q0.before(x))),patterns=[z3.Select(q.set,x)])),
          ('positions only advance',z3.Or(q.r>q0.r,A(q.r==q0.r,q.p>=q0.p)))]
    mods=lambda old: [('C.length',z3.IntVal(cid)),('C._id_gen',z3.IntVal(cid)),('$set',V.ad(old.read('C.id_set',z3.IntVal(cid)))),('$sz',V.ad(old.read('C.id_set',z3.IntVal(cid)))),('$gp',ALL)]
    def refresh(E,a,old):
        q0=St(E,cid,old); 
        def ens(E,a,old,r):
            q=St(E,cid); q0=St(E,cid,old); 
            return inv(E,q,H)+added(E,q0,q)+[('an ID is available',q.sz>0),('the set and the batch size stay',A(q.Sv==q0.Sv,q.bb==q0.bb))]
        return [Case('the supply is exhausted',A(q0.full(),q0.sz==0),raises='ValueError',modifies=mods(old),
                    ensures=lambda E,a,old,r: inv(E,St(E,cid),H)),
                Case('refreshed',modifies=mods(old),ensures=ens,allocates=True)]
    out.append(Contract(K_+'.refresh',[('cls',pc)],refresh,requires=pre))
    def nxt(E,a,old):
        q0=St(E,cid,old)
        def ens(E,a,old,r):
            q=St(E,cid); rs=E.tostr(r)
            return [('the ID was not handed out before',z3.Not(z3.Select(H,rs)))]+inv(E,q,z3.Store(H,rs,True))
        return [Case('the supply is exhausted',A(q0.full(),q0.sz==0),raises='ValueError',modifies=mods(old),ensures=lambda E,a,old,r: inv(E,St(E,cid),H)),
                Case('handed out',modifies=mods(old),ensures=ens,allocates=True)]
    out.append(Contract(K_+'.next',[('cls',pc)],nxt,requires=pre))
    def reset(E,a,old):
        c,ln,bt=a
        def numof(x): 
            v=E.box(x); return z3.If(A(V.is_i(v),V.iv(v)!=0),V.iv(v),0)
        l,b=numof(ln),numof(bt); c_=z3.IntVal(cid)
        ms=[('C.length',c_),('C.batch',c_),('C._id_gen',c_),('C.id_set',c_)]
        def ens(E,a,old,r):
            q=St(E,cid); E.combfacts(E.lit(E.ALPHA),q.r,q.p); E.size(Ref(q.S))
            return [('the length is the given one',z3.Implies(l>0,q.L==l)),('the batch size is the given one',z3.Implies(b>0,q.b==b))]+[(n,z3.Implies(b>=0,f)) for n,f in inv(E,q,z3.K(Str,z3.BoolVal(False)))]
        return [Case('negative length',l<0,raises='ValueError',modifies=ms),Case('reset',modifies=ms,ensures=ens,allocates=True)]
    out.append(Contract(K_+'.reset',[('cls',pc),('length',('opt',('int',))),('batch',('opt',('int',)))],reset))
    def loopinv(E,L):
        q0=St(E,cid,L.old); q=St(E,cid)
        E.combfacts(E.lit(E.ALPHA),q.r,q.p); E.combfacts(E.lit(E.ALPHA),q.L+1,z3.IntVal(0)); E.combfacts(E.lit(E.ALPHA),q.L,z3.IntVal(0)); E.size(Ref(q.S))
        return inv(E,q,H)+added(E,q0,q)+[('an ID is available after the first round',z3.Implies(L.i>0,A(q.sz>0,z3.Not(A(q0.full(),q0.sz==0))))),('the set and the batch size stay',A(q.Sv==q0.Sv,q.bb==q0.bb)),
           ('before the first round nothing has changed',z3.Implies(L.i==0,A(q.r==q0.r,q.p==q0.p,q.L==q0.L,q.sz==q0.sz)))]
    loops={(K_+'.refresh',0):LoopSpec(loopinv,modifies=lambda E,L: mods(L.old),allocates=True)}
    # two separately created objects
    def two(cls):
        def runner(E):
            E.top='lemma'; E.rows=[]; t0=time.time()
            def body():
                E.frames=[dict(env={'$up':None},mod=src.cls(cls).mod,cls=None,qual='spec',loop=0)]
                E.depth=0; hist=[z3.Const('handed',SetS)]
                E.hist=hist
                x=E.instantiate(src.cls(cls),['a'],{}); y=E.instantiate(src.cls(cls),['b'],{})
                for u,w in((x,y),(y,x)):
                    r=E.eq(u,w); E.prove('two separately created objects are unequal',z3.Not(zb(r)))
                E.prove('an object equals itself',zb(E.eq(x,x)))
            try: E.explore(body); uns=[]
            except Unsupported as e: uns=[(cls,str(e))]
            return E.aggregate(E.rows,'lemma'),uns,time.time()-t0
        c=Contract(cls+'.__init__',[],None,note='two objects'); c.runner=runner; return c
    out+= [two(P+'Qubit'),two(P+'Bit')]
    def alpha(E):
        al=E.ALPHA; return [dict(obligation='the alphabet consists of distinct characters',function=K_,kind='post',status='proved' if len(set(al))==len(al) else 'refuted',backend='evaluation',seconds=0,detail=repr(al))],[],0
    c=Contract(K_,[],None,note='alphabet'); c.runner=alpha; out.append(c)
    return out,loops
def nextid(E,args,kw):
    v=E.fresh('newid',Str)
    if getattr(E,'hist',None): E.fact(z3.Not(z3.Select(E.hist[-1],v))); E.hist.append(z3.Store(E.hist[-1],v,True))
    return v
def load(tree):
    src=source(tree); GEN=src.builtin_class('combgen'); SETC=src.builtin_class('idset'); K=src.cls(K_)
    al=None
    for st in K.node.body:
        if isinstance(st,(ast.Assign,ast.AnnAssign)) and isinstance(st.value,ast.Constant) and isinstance(st.value.value,str):
            t=st.targets[0] if isinstance(st,ast.Assign) else st.target
            if isinstance(t,ast.Name): al=st.value.value
    if al is None: raise S_.SrcError('no alphabet')
    F,EL=fields(src)
    cattrs={'length':('int',),'batch':('int',),'_id_gen':('obj',GEN),'id_set':('obj',SETC)}
    E=IdVerifier(src,Types(src,F,EL,cattrs,tuple(cattrs)),{},{P+'x':None},{}, {'call:itertools.combinations':m_comb})
    E.models={}; E.GEN=GEN; E.SETC=SETC; E.ALPHA=al; E.N=len(al)
    cs,loops=contracts(src,E); E.loops=loops
    E.contracts={c.qual:c for c in cs if c.cases is not None and c.qual.endswith('.refresh')}
    m={K_+'.next':nextid}; E.models=m
    return E,cs,dict(trusted=['itertools.combinations of a string of distinct characters yields each combination of the given length once; strings of different combinations differ',
       'a set of strings is a mathematical set; set.pop returns an arbitrary member'],assumptions=['the counter is used through next, refresh and reset, and the batch size given to reset is not negative'])
