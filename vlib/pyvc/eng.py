"""Symbolic execution of the real source (Python syntax trees) for verification-condition generation.

One path at a time: the interpreter below runs a function over symbolic values; every symbolic branch asks `branch`, and
the explorer re-runs the function for every feasible sequence of answers.  Calls to functions with a contract use the
contract only; calls to functions without one are inlined.  Loops over symbolic sequences use either the search rule
(bodies without effects: no invariant needed) or an invariant of the sidecar.  All heap locations, list lengths, dictionary
contents etc. are unbounded."""
import ast, time, os, z3
from . import src as S_
from .src import Cls, Fn, Ext, Mod

# ------------------------------------------------------------------ logic
Str=z3.DeclareSort('Str'); Key=z3.DeclareSort('Key')
_V=z3.Datatype('V')
_V.declare('none'); _V.declare('absent'); _V.declare('b',('bv',z3.BoolSort())); _V.declare('i',('iv',z3.IntSort())); _V.declare('s',('sv',Str))
_V.declare('r',('ad',z3.IntSort())); _V.declare('c',('cv',z3.IntSort())); _V.declare('o',('ov',z3.IntSort()))
V=_V.create(); I=z3.IntSort(); B=z3.BoolSort()
none=V.none; absent=V.absent
cat=z3.Function('cat',Str,Str,Str); istr=z3.Function('istr',I,Str); vstr=z3.Function('vstr',V,Str); shash=z3.Function('shash',Str,I); vhash=z3.Function('vhash',V,I)
clsof=z3.Function('clsof',I,I); canon=z3.Function('canon',V,Key); veq=z3.Function('veq',V,V,B); truthy=z3.Function('truthy',V,B); isnum=z3.Function('isnum',V,B)
clsname=z3.Function('clsname',I,Str)
EL=z3.ArraySort(I,V); LA=z3.ArraySort(I,EL); LN=z3.ArraySort(I,I); KA=z3.ArraySort(Key,V); KI=z3.ArraySort(Key,I)
HSORT={'$len':I,'$el':EL,'$dn':I,'$dk':EL,'$dv':KA,'$dp':KI,'$pos':KI}

class PyRaise(Exception):
    def __init__(s,cls,args=(),where=''): s.cls=cls; s.a=args; s.where=where
class PathEnd(Exception): pass
class Unsupported(Exception): pass
class Ret(Exception):
    def __init__(s,v): s.v=v
class Brk(Exception): pass
class Cnt(Exception): pass

# ------------------------------------------------------------------ engine values
class Ref:
    def __init__(s,ad,el=None): s.ad=ad; s.el=el
    def __repr__(s): return f'Ref({s.ad})'
class Bx:
    def __init__(s,v,ty=('any',)): s.v=v; s.ty=ty
    def __repr__(s): return f'Bx({s.v})'
class Seq:
    """immutable sequence value (tuples, ranges, snapshots); n may be a python int"""
    def __init__(s,n,at,ty=None,kind='tuple'): s.n=n; s.at=at; s.ty=ty; s.kind=kind
class StrV:
    def __init__(s,parts): s.parts=parts
class ClsVal:
    """class value whose id is symbolic (type(obj)); of: the object it is the class of"""
    def __init__(s,cid,of=None,bound=None): s.cid=cid; s.of=of; s.bound=bound
class Bound:
    def __init__(s,fn,self): s.fn=fn; s.self=self
class Clo:
    def __init__(s,node,env,mod,cls=None,name='<lambda>'): s.node=node; s.env=env; s.mod=mod; s.cls=cls; s.name=name
class SuperV:
    def __init__(s,cls,obj): s.cls=cls; s.obj=obj
class Prim:
    """builtin method bound to a value"""
    def __init__(s,name,self): s.name=name; s.self=self
class Opaque:
    """a value that is only passed around (formatted messages, annotations)"""
    def __init__(s,why): s.why=why
class LClass:
    """class defined inside a function"""
    def __init__(s,cls,env): s.cls=cls; s.env=env

def zand(l):
    l=[x for x in l if not z3.is_true(x)]
    return z3.BoolVal(True) if not l else (l[0] if len(l)==1 else z3.And(*l))
def zor(l):
    l=[x for x in l if not z3.is_false(x)]
    return z3.BoolVal(False) if not l else (l[0] if len(l)==1 else z3.Or(*l))
def zb(x): return z3.BoolVal(x) if isinstance(x,bool) else x
def zi(x): return z3.IntVal(x) if isinstance(x,int) else x
def isz(x,sort=None): return isinstance(x,z3.ExprRef) and (sort is None or x.sort()==sort)
def rsel(h,ad):
    """simplified select(h,ad); walks past stores at addresses that differ by a constant"""
    while z3.is_store(h):
        d=z3.simplify(h.arg(1)-ad) if h.arg(1).sort()==I else None
        if d is None or not z3.is_int_value(d): break
        if d.as_long()==0: return z3.simplify(h.arg(2))
        h=h.arg(0)
    return z3.simplify(z3.Select(h,ad))
def same(a,b): return isinstance(a,z3.ExprRef) and isinstance(b,z3.ExprRef) and a.eq(b)

class Case:
    def __init__(s,name,when=True,raises=None,ensures=None,modifies=None,ret=None,allocates=False,result=None,cover=True):
        s.cover=cover; s.name=name; s.when=when; s.raises=raises; s.ensures=ensures; s.modifies=modifies or []; s.ret=ret; s.allocates=allocates; s.result=result

class Contract:
    """requires(E,a)->[(name,formula)]; cases(E,a,old)->[Case]; Case.ensures(E,a,old,res)->[(name,formula)];
    Case.modifies: [(field,address)].  `a` is the list of argument values."""
    def __init__(s,qual,params,cases,requires=None,setup=None,ret=None,pure=False,props=None,note='',verify=True):
        s.props=props; s.note=note; s.verified=verify; s.runner=None; s.qual=qual; s.params=params; s.cases=cases; s.requires=requires; s.setup=setup; s.ret=ret; s.pure=pure

class Engine:
    FEAS_MS=1500
    def __init__(s,source,types,contracts=None,models=None,loops=None,extern=None,prove_ms=20000,inline_depth=14):
        s.src=source; s.types=types; s.contracts=contracts or {}; s.models=models or {}; s.loops=loops or {}; s.extern=extern or {}
        s.prove_ms=prove_ms; s.rows=[]; s.trust=set(); s.inline_depth=inline_depth; s.feas={}; s.top=None; s.lits={}; s.solver_s=0; s.quiet=0
        s.maxpaths=4000; s.assumed=set(); s.used=set(); s.deadline=time.time()+float(os.environ.get('PYVC_LIMIT','500'))
        s.paths=0; s.kinds=s.src.classes
    # ---------------------------------------------------------------- exploration
    def reset(s,prefix):
        s.dec=list(prefix); s.pos=0; s.pc=[]; s.facts=[]; s.H={}; s.H0={}; s.nfresh=0; s.frames=[]; s.bounds={}; s.depth=0
        s.abase=z3.Int('A0'); s.aoff=0; s.hbase={}; s.branchlog=[]; s.factset=set(); s.trace=[]; s.keep=[]; s.qdone=set(); s.classfacts=set(); s.canons={}
        s.clsenv={}; s.loose=[]
        s.fact(s.abase>=1)
    def explore(s,body):
        """runs body once per feasible path; body gets the engine in its initial state"""
        s.stack=[[]]; n=0
        while s.stack:
            if n>s.maxpaths or time.time()>s.deadline: raise Unsupported(f'{"path" if n>s.maxpaths else "time"} limit')
            p=s.stack.pop(); s.reset(p); s.pend=s.stack; n+=1
            try: body()
            except PathEnd: pass
        s.paths+=n
        return n
    def fresh(s,name,sort):
        s.nfresh+=1; return z3.Const(f'{name}!{s.nfresh}',sort)
    def fact(s,f,quant=False):
        f=zb(f)
        if z3.is_true(f): return
        k=f.get_id()
        if k in s.factset: return
        s.factset.add(k); s.keep.append(f); s.facts.append(f)
    def assume(s,f):
        f=zb(f); s.pc.append(f); s.keep.append(f)
        if z3.is_false(z3.simplify(f)): raise PathEnd()
    def hyps(s): return s.facts+s.pc
    def litax(s):
        l=[c for c in s.lits.values()]
        return [z3.Distinct(*l)] if len(l)>1 else []
    @staticmethod
    def hasq(f,cache={}):
        k=f.get_id()
        if k in cache and cache[k][0].eq(f): return cache[k][1]
        st=[f]; seen=set(); r=False
        while st:
            x=st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_quantifier(x): r=True; break
            st.extend(x.children())
        cache[k]=(f,r); return r
    def sat(s,extra,ms=None):
        """is the path so far with `extra` possibly feasible? (quantified facts are left out: over-approximation)"""
        fs=[f for f in s.hyps()+extra if not s.hasq(f)]
        key=tuple(sorted(set(f.get_id() for f in fs)))
        if key in s.feas: return s.feas[key][0]
        sol=z3.Solver(); sol.set('timeout',ms or s.FEAS_MS); sol.add(*fs,*s.litax()); t=time.time(); r=sol.check(); s.solver_s+=time.time()-t
        s.feas[key]=(r!=z3.unsat,fs); return r!=z3.unsat
    def branch(s,c,tag=None):
        if isinstance(c,bool): return c
        c=z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if s.pos<len(s.dec):
            d=s.dec[s.pos]; s.pos+=1
        else:
            t=s.sat([c]); f=s.sat([z3.Not(c)])
            if not t and not f: raise PathEnd()
            d=t
            if t and f: s.pend.append(s.dec+[False])
            s.dec.append(d); s.pos+=1
        s.assume(c if d else z3.Not(c)); s.branchlog.append(tag or str(c)[:60])
        return d
    def choose(s,n):
        """non-deterministic choice among n alternatives"""
        if s.pos<len(s.dec): d=s.dec[s.pos]; s.pos+=1; return d
        for k in range(n-1,0,-1): s.pend.append(s.dec+[k])
        s.dec.append(0); s.pos+=1; return 0
    def sub(s,f):
        """explores f from the present state; returns [(branch conditions, kind, value)] and restores the state"""
        sv=(s.dec,s.pos,list(s.pc),dict(s.H),s.pend,dict(s.bounds),None,[dict(x) if isinstance(x,dict) else x for x in s.frames],s.abase,s.aoff,dict(s.hbase),s.depth,list(s.trace),list(s.branchlog),set(s.qdone),list(s.loose))
        envs=[(e,dict(e)) for e in s.liveenvs()]
        out=[]; st=[[]]; npc=len(s.pc); cnt=s.nfresh; top=cnt
        try:
            while st:
                p=st.pop(); s.dec=list(p); s.pos=0; s.pend=st; s.pc=list(sv[2]); s.H=dict(sv[3]); s.bounds=dict(sv[5]); s.abase,s.aoff=sv[8],sv[9]; s.hbase=dict(sv[10]); s.depth=sv[11]; s.trace=list(sv[12]); s.nfresh=cnt; s.qdone=set(sv[14])
                for e,c in envs: e.clear(); e.update(c)
                if len(out)>200 or time.time()>s.deadline: raise Unsupported('too many alternatives in a loop body')
                try: r=('val',f())
                except PyRaise as e: r=('raise',e)
                except Ret as e: r=('ret',e.v)
                except Brk: r=('brk',None)
                except Cnt: r=('val',None)
                except PathEnd: continue
                top=max(top,s.nfresh)
                out.append((list(s.pc[npc:]),r[0],r[1],dict(s.H),list(s.trace),[(e,dict(e)) for e,_ in envs],(s.abase,s.aoff)))
        finally:
            s.dec,s.pos,s.pc,s.H,s.pend,s.bounds=sv[0],sv[1],sv[2],sv[3],sv[4],sv[5]; s.abase,s.aoff,s.hbase,s.depth,s.trace,s.branchlog,s.qdone=sv[8],sv[9],sv[10],sv[11],sv[12],sv[13],sv[14]
            for e,c in envs: e.clear(); e.update(c)
            s.nfresh=top
        return out
    def liveenvs(s):
        out=[]; seen=set()
        for fr in s.frames:
            e=fr['env']
            while e is not None and id(e) not in seen:
                seen.add(id(e)); out.append(e); e=e.get('$up')
        return out
    # ---------------------------------------------------------------- obligations
    def prove(s,name,goal,kind='post',fn=None):
        if s.quiet: return True
        goal=zb(goal); fn=fn or s.top; t=time.time()
        g=z3.simplify(goal); st='proved'; be='simplifier'; det=''
        if not z3.is_true(g):
            hy=s.hyps()+s.litax()
            st,be,det=s.solve(hy,goal)
        s.rows.append(dict(obligation=name,function=fn,kind=kind,status=st,backend=be,seconds=round(time.time()-t,3),detail=det))
        if st!='proved' and os.environ.get('PYVC_DEBUG'):
            print('--',st,fn,name,'\n   path:',s.branchlog[-12:],'\n   goal:',str(goal)[:600],'\n  ',det[:800])
        return st=='proved'
    def solve(s,hy,goal):
        sol=z3.Solver(); f1=min(getattr(s,'first_ms',2500),s.prove_ms); sol.set('timeout',f1); sol.add(*hy); sol.add(z3.Not(goal)); t=time.time(); r,info=s.forked(sol,f1/1000+.5); s.solver_s+=time.time()-t
        if r=='unsat': return 'proved','z3',''
        if r=='sat':
            if s.loose: return 'unknown','z3','counter-model of an abstraction ('+', '.join(s.loose[:4])+'): '+info
            return 'refuted','z3','counter-model: '+info
        why=info; txt=sol.to_smt2()
        if os.environ.get('PYVC_DUMP'): open(os.path.join(os.environ['PYVC_DUMP'],f'q{s.nfresh}_{len(s.rows)}.smt2'),'w').write(txt)
        r2,be=s.portfolio(txt)
        if r2=='unsat': return 'proved',be,''
        if r2=='sat': return ('unknown' if s.loose else 'refuted'),be,'counter-model found by '+be+' path '+'; '.join(s.branchlog[-6:])[:300]
        return 'unknown','z3','unknown: '+why+(' path '+'; '.join(s.branchlog[-6:])[:300])
    def forked(s,sol,sec):
        """the check in a child process: some queries do not heed the solver's own time limit"""
        import select, signal
        rd,wr=os.pipe(); pid=os.fork()
        if pid==0:
            try:
                r=sol.check(); o='unsat|' if r==z3.unsat else 'sat|'+s.model_text(sol.model()) if r==z3.sat else 'unknown|'+sol.reason_unknown()
            except BaseException as e: o='unknown|'+type(e).__name__
            try: os.write(wr,o.encode()[:60000])
            finally: os._exit(0)
        os.close(wr); buf=b''; end=time.time()+sec
        try:
            while True:
                w=select.select([rd],[],[],max(0,end-time.time()))[0]
                if not w: break
                d=os.read(rd,65536)
                if not d: break
                buf+=d
        finally:
            os.close(rd)
            try: os.kill(pid,signal.SIGKILL)
            except OSError: pass
            os.waitpid(pid,0)
        if not buf: return 'unknown','time limit'
        a,_,b=buf.decode().partition('|'); return a,b
    def portfolio(s,txt):
        """other solver configurations, side by side; the first definite answer counts"""
        import subprocess, tempfile
        sec=max(5,s.prove_ms//1000); ps=[]; f=tempfile.NamedTemporaryFile('w',suffix='.smt2',delete=False); f.write(txt); f.close()
        g=tempfile.NamedTemporaryFile('w',suffix='.smt2',delete=False); g.write('(set-logic ALL)\n'+txt); g.close()
        cmds=[('z3',['z3-new',f'-T:{sec}',f.name]),('z3',['z3-new',f'-T:{sec}','smt.auto_config=false','smt.mbqi=false','smt.random_seed=7',f.name]),('cvc5',['cvc5',f'--tlimit={sec*1000}','--lang=smt2',g.name])]
        try:
            t=time.time()
            for be,c in cmds:
                try: ps.append((be,c,subprocess.Popen(c,stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True)))
                except OSError: pass
            live=list(ps)
            while live and time.time()-t<sec+10:
                for x in list(live):
                    if x[2].poll() is None: continue
                    live.remove(x); o=x[2].stdout.read(); bad='(error' in o; a=next((w for w in o.split() if w in('sat','unsat','unknown')),None)
                    if bad and a!='unsat': continue     # a fact that could not be read back was left out
                    if a=='unsat' or (a=='sat' and x[0]=='z3' and len(x[1])==3): return a,x[0]
                time.sleep(.02)
            return 'unknown','z3'
        finally:
            for _,_,p in ps:
                if p.poll() is None: p.kill()
                p.wait()
            for q in (f.name,g.name):
                try: os.unlink(q)
                except OSError: pass
            s.solver_s+=time.time()-t
    def model_text(s,m):
        try:
            d={str(x):str(m[x])[:60] for x in m.decls() if '!' in str(x) and m[x] is not None and x.arity()==0}
            return ', '.join(f'{k}={v}' for k,v in sorted(d.items())[:24])+' | path: '+'; '.join(s.branchlog[-8:])
        except Exception: return ''
    # ---------------------------------------------------------------- heap
    def hsort(s,f): return z3.ArraySort(I,HSORT.get(f,V))
    def h(s,f):
        if f not in s.H:
            a=z3.Const('H0_'+f,s.hsort(f)); s.H[f]=a; s.H0.setdefault(f,a); s.hbase[a.get_id()]=(a,z3.Int('A0'))
        return s.H[f]
    def h0(s,f):
        s.h(f); return s.H0[f]
    def read(s,f,ad): return s.readin(f,s.h(f),ad)
    def readin(s,f,h,ad):
        ad=zi(ad); x=rsel(h,ad)
        # references stored in a heap are allocated
        b=h
        while z3.is_store(b): b=b.arg(0)
        if b.get_id() in s.hbase:
            lvl=s.hbase[b.get_id()][1]
            if s.hsort(f)==z3.ArraySort(I,V):
                y=z3.Select(b,ad); s.fact(z3.Implies(V.is_r(y) if f.startswith('C.') else z3.And(ad<lvl,V.is_r(y)),z3.And(V.ad(y)<lvl,V.ad(y)>=1)))
        return x
    def readh(s,h,ad): return z3.simplify(z3.Select(h,zi(ad)))
    def write(s,f,ad,v):
        s.H[f]=z3.Store(s.h(f),zi(ad),v)
    def lvl_of(s,h):
        while z3.is_store(h): h=h.arg(0)
        return s.hbase.get(h.get_id(),(None,None))[1]
    def now(s): return z3.simplify(s.abase+s.aoff)
    def alloc(s,cls,el=None):
        ad=z3.simplify(s.abase+s.aoff); s.aoff+=1
        s.fact(clsof(ad)==cls.id); s.setbound(ad,cls,True)
        for f in s.types.maybes(cls): s.write(f,ad,absent)
        return Ref(ad,el)
    def bump(s):
        """unknown many allocations"""
        b=s.fresh('A',I); s.fact(b>=s.now()); s.abase=b; s.aoff=0
    def havoc(s,f,ad,val=None):
        v=val if val is not None else s.fresh('h_'+f.strip('$'),HSORT.get(f,V))
        if val is None and HSORT.get(f)==I: s.fact(v>=0)
        s.write(f,ad,v); return v
    # ---------------------------------------------------------------- classes of references
    def setbound(s,ad,cls,exact=False):
        k=z3.simplify(zi(ad)); s.keep.append(k); new=[cls] if exact else s.src.subs(cls); old=s.bounds.get(k.get_id())
        s.bounds[k.get_id()]=list(new) if old is None else [c for c in old if c in new]
        if not s.bounds[k.get_id()]: raise PathEnd()
    def restrict(s,ad,classes):
        k=z3.simplify(zi(ad)); s.keep.append(k); old=s.bounds.get(k.get_id())
        s.bounds[k.get_id()]=list(classes) if old is None else [c for c in old if c in classes]
        if not s.bounds[k.get_id()]: raise PathEnd()
    def possible(s,ad): return s.bounds.get(z3.simplify(zi(ad)).get_id())
    def isa(s,ad,cls): return zor([clsof(ad)==c.id for c in s.src.subs(cls)])
    def tyfact(s,v,T,refine=True):
        """what the declared type T says about the boxed value v"""
        k=T[0]
        if k=='any': return z3.BoolVal(True)
        if k=='int': return V.is_i(v)
        if k=='bool': return V.is_b(v)
        if k=='str': return V.is_s(v)
        if k=='none': return v==none
        if k=='num': return z3.Or(V.is_o(v),V.is_i(v)) if False else z3.And(z3.Or(V.is_o(v),V.is_i(v)),z3.Implies(V.is_o(v),isnum(v)))
        if k=='opt': return z3.Or(v==none,s.tyfact(v,T[1],False))
        if k=='maybe': return z3.Or(v==absent,s.tyfact(v,T[1],False))
        if k=='or': return zor([s.tyfact(v,t,False) for t in T[1:]])
        if k=='cls': return z3.And(V.is_c(v),zor([V.cv(v)==c.id for c in s.src.subs(T[1])]))
        if k=='fn': return V.is_o(v)
        if k=='obj': c=T[1]
        elif k in('list','tuple','dict'): c=s.kinds[k]
        elif k=='set': c=s.kinds['set']
        else: raise Unsupported('type '+str(T))
        return z3.And(V.is_r(v),V.ad(v)>=1,s.isa(V.ad(v),c))
    def unbox(s,v,T):
        """engine value for the boxed term v of declared type T (the type invariant is assumed)"""
        v=z3.simplify(v); k=T[0]
        s.fact(s.tyfact(v,T))
        if k=='int': return z3.simplify(V.iv(v))
        if k=='bool': return z3.simplify(V.bv(v))
        if k=='str': return z3.simplify(V.sv(v))
        if k=='none': return None
        if k=='cls': return ClsVal(z3.simplify(V.cv(v)),bound=T[1])
        if k in('any','num','opt','or','maybe','fn'): return s.const_of(v,T)
        ad=z3.simplify(V.ad(v)); s.fact(ad<s.now())
        if k=='obj': s.setbound(ad,T[1]); return Ref(ad,s.types.elem(T[1]))
        s.setbound(ad,s.kinds[k],True)
        if k=='dict': return Ref(ad,(T[1],T[2]))
        return Ref(ad,T[1] if len(T)>1 else ('any',))
    def const_of(s,v,T):
        if z3.is_app(v):
            n=v.decl().name()
            if n=='none': return None
            if n=='b': return s.pyb(v.arg(0))
            if n=='i': return s.pyi(v.arg(0))
            if n=='s': return v.arg(0)
            if n=='r':
                ad=v.arg(0)
                for t in ([T] if T[0] not in('opt','maybe','or') else T[1:]):
                    if isinstance(t,tuple) and t[0] in('obj','list','tuple','dict'):
                        ps=s.possible(ad); c=t[1] if t[0]=='obj' else s.kinds[t[0]]
                        if ps is None or any(p.sub(c) for p in ps):
                            if ps is None: continue
                            return Ref(ad,s.types.elem(t[1]) if t[0]=='obj' else ((t[1],t[2]) if t[0]=='dict' else t[1]))
                if s.possible(ad) is not None: return Ref(ad)
        return Bx(v,T)
    def pyb(s,b): return True if z3.is_true(b) else False if z3.is_false(b) else b
    def pyi(s,i): return i.as_long() if z3.is_int_value(i) else i
    def lit(s,t):
        if t not in s.lits: s.lits[t]=z3.Const('str:'+t,Str)
        return s.lits[t]
    def tostr(s,x):
        """Str term of a string value"""
        if isinstance(x,str): return s.lit(x)
        if isz(x,Str): return x
        if isinstance(x,StrV):
            p=[s.lit(y) if isinstance(y,str) else y for y in x.parts]
            if not p: return s.lit('')
            t=p[-1]
            for y in p[-2::-1]: t=cat(y,t)
            return t
        if isinstance(x,Bx): return V.sv(x.v)
        raise Unsupported('not a string: '+repr(x))
    def scat(s,*xs):
        parts=[]
        for x in xs:
            if isinstance(x,StrV): ps=x.parts
            elif isinstance(x,str): ps=[x] if x else []
            else: ps=s.flatcat(s.tostr(x))
            for p in ps:
                if isinstance(p,str) and parts and isinstance(parts[-1],str): parts[-1]+=p
                else: parts.append(p)
        if not parts: return ''
        if len(parts)==1: return parts[0]
        return StrV(parts)
    def flatcat(s,t):
        if z3.is_app(t) and t.decl().eq(cat): return s.flatcat(t.arg(0))+s.flatcat(t.arg(1))
        n=t.decl().name() if z3.is_app(t) and t.num_args()==0 else ''
        if n.startswith('str:') and n[4:] in s.lits: return [n[4:]] if n[4:] else []
        return [t]
    def box(s,x):
        if x is None: return none
        if isinstance(x,bool): return V.b(z3.BoolVal(x))
        if isinstance(x,int): return V.i(z3.IntVal(x))
        if isinstance(x,(float,complex)): return s.numconst(x)
        if isinstance(x,(str,StrV)): return V.s(s.tostr(x))
        if isinstance(x,Bx): return x.v
        if isinstance(x,Ref): return V.r(x.ad)
        if isinstance(x,ClsVal): return V.c(x.cid)
        if isinstance(x,Cls): return V.c(z3.IntVal(x.id))
        if isinstance(x,z3.ExprRef):
            if x.sort()==B: return V.b(x)
            if x.sort()==I: return V.i(x)
            if x.sort()==Str: return V.s(x)
            if x.sort()==V: return x
        if isinstance(x,(tuple,list)): return V.r(s.mkseq(x,'tuple' if isinstance(x,tuple) else 'list').ad)
        if isinstance(x,Seq): return V.r(s.mkseq(x,x.kind if x.kind in('tuple','list') else 'tuple').ad)
        if isinstance(x,(Fn,Bound,Clo,Prim,Ext,Opaque,Mod)):
            if isinstance(x,Ext): return V.o(z3.Const('ext:'+x.name,I))
            if isinstance(x,Bound):
                f=z3.Function('boundfn:'+(x.fn.qual if isinstance(x.fn,Fn) else str(x.fn)),V,I); return V.o(f(s.box(x.self)))
            return V.o(z3.Const('fn:'+(getattr(x,'qual',None) or str(id(x))),I))
        if isinstance(x,LClass): return V.c(z3.IntVal(x.cls.id))
        if isinstance(x,EnumV): return V.o(z3.IntVal(-1000-sorted(x.cls.attrs).index(x.name)-100*x.cls.id))
        raise Unsupported('cannot box '+repr(x))
    def numconst(s,x):
        o=V.o(z3.Const('num:'+repr(x),I)); s.fact(isnum(o)); s.fact(truthy(o)==bool(x)); return o
    def mkseq(s,x,kind,el=None):
        """a fresh list/tuple object with the given contents"""
        if isinstance(x,(tuple,list)):
            vals=[s.box(y) for y in x]
            r=s.alloc(s.kinds[kind],el or ('any',))
            arr=s.fresh('els',EL)
            for i,v in enumerate(vals): arr=z3.Store(arr,i,v)
            s.write('$len',r.ad,z3.IntVal(len(vals))); s.write('$el',r.ad,arr); return r
        if isinstance(x,Seq):
            if isinstance(x.n,int): return s.mkseq([x.at(i) for i in range(x.n)],kind,el or x.ty)
            r=s.alloc(s.kinds[kind],el or x.ty or ('any',)); s.write('$len',r.ad,zi(x.n)); s.write('$el',r.ad,s.seqarr(x)); return r
        if isinstance(x,Ref):
            n,_,T=s.iterview(x)
            src=s.read('$el',x.ad); r=s.alloc(s.kinds[kind],el or T or ('any',)); s.write('$len',r.ad,zi(n)); s.write('$el',r.ad,src); return r
        raise Unsupported('sequence from '+repr(x))
    def seqarr(s,x):
        """array of boxed elements of a functional sequence"""
        j=s.fresh('j',I); s.keep.append(j)
        sub=s.generic(lambda: s.box(x.at(j)),j,x.n)
        arr=s.fresh('els',EL); pats=[z3.Select(arr,j)]; y=z3.simplify(sub)
        for _ in range(3):
            if z3.is_select(y) and y.arg(1).eq(j) and not s.mentions(y.arg(0),j): pats.append(y); break
            if z3.is_app(y) and y.num_args()==1: y=y.arg(0)
        s.fact(z3.ForAll([j],z3.Implies(z3.And(j>=0,j<zi(x.n)),z3.Select(arr,j)==sub),patterns=pats))
        return arr
    def mentions(s,t,j):
        st=[t]; seen=set()
        while st:
            y=st.pop()
            if y.get_id() in seen: continue
            seen.add(y.get_id())
            if y.eq(j): return True
            st.extend(y.children() if not z3.is_quantifier(y) else [y.body()])
        return False
    def generic(s,f,j,n):
        """value of f for the generic index j (0<=j<n) as one boxed term; f must not raise or have effects"""
        def g():
            s.assume(z3.And(j>=0,j<zi(n))); r=f(); return r
        nf=len(s.facts); outs=s.sub(g); s.quantfacts(nf,j,n)
        if not outs: return none
        for o in outs:
            if o[1]!='val': raise Unsupported('element may raise')
            if any(not same(o[3].get(k),s.h(k)) for k in o[3]): raise Unsupported('element expression with effects')
        t=outs[-1][2]
        for o in outs[-2::-1]: t=z3.If(zand(o[0]),o[2],t)
        return t
    def quantfacts(s,nf,j,n):
        """facts found while looking at the generic element hold for every element; those that mention j are kept under a
        quantifier when a pattern exists, and dropped otherwise"""
        new=s.facts[nf:]; del s.facts[nf:]
        for f in new:
            s.factset.discard(f.get_id())
            if not s.mentions(f,j): s.fact(f)
            elif not s.hasq(f):
                rng=z3.And(j>=0,j<zi(n)); pats=s.patterns(f,j)
                if pats: s.fact(z3.ForAll([j],z3.Implies(rng,f),patterns=pats[:2]))
    @staticmethod
    def mentions(f,j):
        st=[f]; seen=set()
        while st:
            x=st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if x.eq(j): return True
            st.extend(x.children())
        return False
    def patterns(s,f,j):
        """terms select(array, j) with j itself as index"""
        out=[]; st=[f]; seen=set()
        while st:
            x=st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_select(x) and x.arg(1).eq(j): out.append(x)
            st.extend(x.children())
        return out
    # ---------------------------------------------------------------- resolving boxed values
    def resolve(s,x):
        """splits a boxed value into kinds; returns a value that is not Bx (or Bx of an opaque/number)"""
        if not isinstance(x,Bx): return x
        v=x.v; T=x.ty
        c=s.const_of(v,T)
        if not isinstance(c,Bx): return c
        if T[0]=='opt':
            if s.branch(v==none,'is None'): return None
            return s.resolve(s.unbox(v,T[1]))
        if T[0]=='maybe':
            return s.resolve(s.unbox(v,T[1]))
        if T[0]=='or':
            for t in T[1:-1]:
                if s.branch(s.tyfact(v,t,False),'is '+str(t[0])): return s.resolve(s.unbox(v,t))
            return s.resolve(s.unbox(v,T[-1]))
        if T[0]=='num':
            if s.branch(V.is_i(v),'is int'): return z3.simplify(V.iv(v))
            return x
        if T[0]=='fn': return x
        # any
        for k,t in (('is_none',('none',)),('is_i',('int',)),('is_b',('bool',)),('is_s',('str',))):
            if s.branch(getattr(V,k)(v),k): return s.unbox(v,t)
        if s.branch(V.is_r(v),'is object'):
            ad=z3.simplify(V.ad(v)); s.fact(ad<s.now()); s.fact(ad>=1); s.setbound(ad,s.src.object); return Ref(ad,('any',))
        if s.branch(V.is_c(v),'is class'): return ClsVal(z3.simplify(V.cv(v)),bound=s.src.object)
        s.fact(v!=absent)
        return Bx(v,('opaque',))
    # ---------------------------------------------------------------- truth, equality, identity
    def truth(s,x):
        """python bool or z3 Bool"""
        if x is None: return False
        if isinstance(x,bool): return x
        if isinstance(x,(int,float,complex,str)): return bool(x)
        if isinstance(x,(tuple,list)): return len(x)>0
        if isinstance(x,Seq): return zi(x.n)>0 if not isinstance(x.n,int) else x.n>0
        if isinstance(x,StrV): return True if any(isinstance(p,str) and p for p in x.parts) else zor([p!=s.lit('') for p in x.parts if not isinstance(p,str)])
        if isinstance(x,z3.ExprRef):
            if x.sort()==B: return x
            if x.sort()==I: return x!=0
            if x.sort()==Str: return x!=s.lit('')
        if isinstance(x,Bx):
            y=s.resolve(x)
            if isinstance(y,Bx): return truthy(y.v)
            return s.truth(y)
        if isinstance(x,Ref):
            c=s.kindof(x)
            if c in('list','tuple'): return s.length(x)>0
            if c=='dict': return s.read('$dn',x.ad)>0
            if c=='set': raise Unsupported('truth of set')
            m=s.lookup_opt(x,'__bool__')
            if m is not None: return s.truth(s.call(m,[],{}))
            m=s.lookup_opt(x,'__len__')
            if m is not None:
                n=s.call(m,[],{}); return n!=0 if not isinstance(n,int) else n!=0
            return True
        return True
    def test(s,x,tag=None):
        t=s.truth(x)
        return t if isinstance(t,bool) else s.branch(t,tag)
    def kindof(s,x):
        """'list','tuple','dict','set' or 'obj'"""
        if isinstance(x,Ref):
            ps=s.possible(x.ad)
            if ps and len(ps)==1 and ps[0].name in('list','tuple','dict','set') and ps[0].mod is None: return ps[0].name
            return 'obj'
        return None
    def length(s,x):
        if isinstance(x,(tuple,list,str)): return len(x)
        if isinstance(x,Seq): return x.n
        if isinstance(x,Bx): return s.length(s.resolve(x))
        if isinstance(x,Ref):
            k=s.kindof(x)
            if k in('list','tuple'):
                n=s.read('$len',x.ad); s.fact(n>=0); return s.pyi(n)
            if k=='dict':
                n=s.read('$dn',x.ad); s.fact(n>=0); return s.pyi(n)
            m=s.lookup_opt(x,'__len__')
            if m is not None: return s.call(m,[],{})
        if x is None: raise s.pyexc('TypeError','len of None')
        raise Unsupported('len of '+repr(x))
    def pyexc(s,name,why=''): return PyRaise(s.src.classes[name],(why,))
    def ident(s,a,b):
        """`a is b`"""
        for x,y in((a,b),(b,a)):
            if x is None:
                if y is None: return True
                if isinstance(y,Bx): return y.v==none
                return False
            if isinstance(x,bool) and not isinstance(y,Bx):
                if isinstance(y,bool): return x==y
                if isz(y,B): return y==x
                return False
        if isinstance(a,(Cls,ClsVal,LClass)) and isinstance(b,(Cls,ClsVal,LClass)): return s.pyb(z3.simplify(s.box(a)==s.box(b)))
        if isinstance(a,(Ref,Bx)) and isinstance(b,(Ref,Bx)): return s.pyb(z3.simplify(s.box(a)==s.box(b)))
        if isinstance(a,EnumV) or isinstance(b,EnumV): return s.pyb(z3.simplify(s.box(a)==s.box(b)))
        if isinstance(a,Bx) or isinstance(b,Bx): return s.pyb(z3.simplify(s.box(a)==s.box(b)))
        if isinstance(a,(Fn,Ext,Mod)) or isinstance(b,(Fn,Ext,Mod)): return a is b or a==b
        if isinstance(a,(bool,int,str)) and isinstance(b,(bool,int,str)): return a is b or (type(a)==type(b) and a==b)
        return s.pyb(z3.simplify(s.box(a)==s.box(b))) if type(a)==type(b) else False
    def eq(s,a,b):
        """`a == b` as python bool / z3 Bool"""
        if isinstance(a,Bx) and a.ty[0]!='opaque': 
            # avoid splitting when both are boxed and no source __eq__ can be involved
            a2=s.resolve(a)
            if a2 is not a: return s.eq(a2,b)
        if isinstance(b,Bx) and b.ty[0]!='opaque':
            b2=s.resolve(b)
            if b2 is not b: return s.eq(a,b2)
        isn=lambda x:isinstance(x,(bool,int)) or isz(x,I) or isz(x,B)
        iss=lambda x:isinstance(x,(str,StrV)) or isz(x,Str)
        if isn(a) and isn(b):
            f=lambda x:(1 if x else 0) if isinstance(x,bool) else z3.If(x,1,0) if isz(x,B) else x
            if isz(a,B) and isinstance(b,bool): return a if b else z3.Not(a)
            if isz(a,B) and isz(b,B): return a==b
            x,y=f(a),f(b)
            return x==y if isinstance(x,int) and isinstance(y,int) else zi(x)==zi(y)
        if iss(a) and iss(b):
            if isinstance(a,str) and isinstance(b,str): return a==b
            return s.pyb(z3.simplify(s.tostr(a)==s.tostr(b)))
        if a is None or b is None:
            o=b if a is None else a
            if isinstance(o,Ref):
                m=s.lookup_opt(o,'__eq__')
                if m is not None: return s.truth(s.call(m,[None],{}))
            return (a is None and b is None)
        for x,y in((a,b),(b,a)):
            if isinstance(x,Ref) and s.kindof(x)=='obj':
                m=s.lookup_opt(x,'__eq__')
                if m is not None: return s.truth(s.call(m,[y],{}))
        if isinstance(a,Ref) and isinstance(b,Ref):
            ka,kb=s.kindof(a),s.kindof(b)
            if ka in('list','tuple') and kb in('list','tuple'):
                if ka!=kb: return False
                if same(z3.simplify(a.ad),z3.simplify(b.ad)): return True
                return s.seqeq(a,b)
            if ka=='obj' and kb=='obj': return s.pyb(z3.simplify(a.ad==b.ad))
            return False if ka!=kb else s.unsup('== of '+ka)
        if isinstance(a,(tuple,list)) and isinstance(b,(tuple,list)):
            if len(a)!=len(b): return False
            return s.allz([s.eq(x,y) for x,y in zip(a,b)])
        if isinstance(a,(tuple,list,Seq)) or isinstance(b,(tuple,list,Seq)):
            ok=lambda x:isinstance(x,(tuple,list,Seq)) or (isinstance(x,Ref) and s.kindof(x) in('list','tuple'))
            if ok(a) and ok(b): return s.seqeq(a,b)
            return False
        if isinstance(a,(Cls,ClsVal,LClass)) or isinstance(b,(Cls,ClsVal,LClass)):
            if isinstance(a,(Cls,ClsVal,LClass)) and isinstance(b,(Cls,ClsVal,LClass)): return s.pyb(z3.simplify(s.box(a)==s.box(b)))
            return False
        # numbers and other opaque values: reflexive, otherwise unknown
        va,vb=s.box(a),s.box(b)
        if va.eq(vb): s.assumed.add('opaque values (floats, complex numbers, user objects) compare equal to themselves'); return True
        s.fact(veq(va,vb)==veq(vb,va)); s.fact(z3.Implies(va==vb,veq(va,vb)))
        s.assumed.add('opaque values (floats, complex numbers, user objects) compare equal to themselves')
        return veq(va,vb)
    def unsup(s,w): raise Unsupported(w)
    def allz(s,l):
        if any(x is False for x in l): return False
        l=[zb(x) for x in l if x is not True]
        return zand(l) if l else True
    def seqeq(s,a,b):
        na,ata,_=s.iterview(a); nb,atb,_=s.iterview(b)
        if isinstance(na,int) and isinstance(nb,int):
            if na!=nb: return False
            return s.allz([s.eq(ata(i),atb(i)) for i in range(na)])
        for n1 in (na,nb):
            if isinstance(n1,int) and n1<=8:
                if not s.branch(zi(na)==zi(nb),'same length'): return False
                return s.allz([s.eq(ata(i),atb(i)) for i in range(n1)])
        j=s.fresh('j',I); s.keep.append(j); n=zi(na)
        def el():
            s.assume(z3.And(j>=0,j<n)); x,y=ata(j),atb(j)
            # elements are compared by identity first
            if s.test(s.ident(x,y) if not isinstance(x,(z3.ExprRef,str,int)) else False): return True
            return s.eq(x,y)
        s.assume_len=None
        def body():
            s.assume(zi(na)==zi(nb)); return el()
        nf=len(s.facts); outs=s.sub(body); s.quantfacts(nf,j,na)
        alts=[]
        for o in outs:
            if o[1]!='val': raise Unsupported('comparison raises')
            t=o[2]
            if isinstance(t,bool): t=z3.BoolVal(t)
            alts.append(zand(o[0]+[t]))
        f=z3.And(zi(na)==zi(nb),z3.ForAll([j],z3.Implies(z3.And(j>=0,j<n),zor(alts))))
        return f
    # ---------------------------------------------------------------- sequences
    def iterview(s,x):
        """(n, at, elemtype): n python int or term"""
        if isinstance(x,Bx): return s.iterview(s.resolve(x))
        if isinstance(x,(tuple,list)): return len(x),(lambda i,x=x: x[i] if isinstance(i,int) else s.pick(x,i)),None
        if isinstance(x,Seq): return x.n,x.at,x.ty
        if isinstance(x,str): return len(x),(lambda i,x=x:x[i]),('str',)
        if isinstance(x,Ref):
            k=s.kindof(x)
            if k in('list','tuple'):
                T=x.el or ('any',); n=s.length(x)
                return n,(lambda i,x=x,T=T: s.unbox(s.elem(x,i),T)),T
            if k=='dict': 
                d=x; return s.length(d),(lambda i: s.unbox(s.dkey(d,i),d.el[0])),d.el[0]
            v=s.types.iterable(s,x)
            if v is not None: return v
            m=s.lookup_opt(x,'__iter__')
            if m is not None: return s.iterview(s.call(m,[],{}))
        if x is None: raise s.pyexc('TypeError','not iterable')
        if isinstance(x,(int,bool)) or isz(x,I): raise s.pyexc('TypeError','not iterable')
        raise Unsupported('iteration over '+repr(x))
    def pick(s,x,i):
        t=s.box(x[-1])
        for k in range(len(x)-2,-1,-1): t=z3.If(i==k,s.box(x[k]),t)
        return Bx(t)
    def elem(s,x,i):
        h=s.h('$el'); e=rsel(rsel(h,x.ad),zi(i))
        b=h
        while z3.is_store(b): b=b.arg(0)
        if b.get_id() in s.hbase:
            lvl=s.hbase[b.get_id()][1]; y=z3.Select(z3.Select(b,x.ad),zi(i)); n=z3.Select(s.h('$len'),x.ad)
            s.fact(z3.Implies(z3.And(x.ad<lvl,zi(i)>=0,zi(i)<n,V.is_r(y)),z3.And(V.ad(y)<lvl,V.ad(y)>=1)))
        return e
    def dkey(s,d,i):
        k=z3.simplify(z3.Select(s.read('$dk',d.ad),zi(i))); s.dwf(d)
        s.fact(z3.Implies(z3.And(zi(i)>=0,zi(i)<s.read('$dn',d.ad)),z3.And(z3.Select(s.read('$dp',d.ad),canon(k))==zi(i))))
        return k
    def dwf(s,d):
        """representation of a dictionary: keys in order, positions of keys"""
        dp,dk,dn=s.read('$dp',d.ad),s.read('$dk',d.ad),s.read('$dn',d.ad)
        s.fact(dn>=0)
    def dpos(s,d,kv):
        p=z3.simplify(z3.Select(s.read('$dp',d.ad),s.canonk(kv))); dn=s.read('$dn',d.ad)
        s.fact(z3.And(p>=-1,p<dn)); s.fact(dn>=0)
        s.fact(z3.Implies(p>=0,canon(z3.Select(s.read('$dk',d.ad),p))==s.canonk(kv)))
        return p
    inv_=z3.Function('uncanon',Key,V)
    def canonk(s,v):
        """key of a value: equal keys <=> same dictionary entry.  Plain values (none, int, bool, string) have distinct keys"""
        v=z3.simplify(v); k=canon(v); s.keep.append(k)
        if v.get_id() not in s.canons:
            s.canons[v.get_id()]=v
            s.fact(z3.Implies(z3.Or(V.is_none(v),V.is_i(v),V.is_s(v)),s.inv_(k)==v))
            s.fact(z3.Implies(V.is_r(v),V.is_r(s.inv_(k)))); s.fact(z3.Implies(V.is_o(v),V.is_o(s.inv_(k)))); s.fact(z3.Implies(V.is_b(v),s.inv_(k)==V.i(z3.If(V.bv(v),1,0))))
        return k
    def dget(s,d,kv): 
        return z3.simplify(z3.Select(s.read('$dv',d.ad),s.canonk(kv)))
    def dset(s,d,kv,v):
        p=s.dpos(d,kv); k=s.canonk(kv); n=s.read('$dn',d.ad); new=s.branch(p<0,'new key')
        if new:
            s.write('$dk',d.ad,z3.Store(s.read('$dk',d.ad),n,kv)); s.write('$dp',d.ad,z3.Store(s.read('$dp',d.ad),k,n)); s.write('$dn',d.ad,n+1)
        s.write('$dv',d.ad,z3.Store(s.read('$dv',d.ad),k,v))
    def mkdict(s,el=(('any',),('any',))):
        r=s.alloc(s.kinds['dict'],el); s.write('$dn',r.ad,z3.IntVal(0)); s.write('$dp',r.ad,z3.K(Key,z3.IntVal(-1))); s.write('$dk',r.ad,s.fresh('dk',EL)); s.write('$dv',r.ad,s.fresh('dv',KA)); return r

class EnumV:
    """member of an Enum class of the source"""
    def __init__(s,cls,name): s.cls=cls; s.name=name
    def __eq__(s,o): return isinstance(o,EnumV) and (s.cls,s.name)==(o.cls,o.name)
    def __hash__(s): return hash((s.cls,s.name))
    def __repr__(s): return f'{s.cls.name}.{s.name}'
