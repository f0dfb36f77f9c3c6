"""Checks a function of the source against its contract, path by path."""
import time, z3, ast
from .eng import *
from .interp import *
from .interp import ALL
from .expr import Evaluator
from . import src as S_

class Types:
    """declared types of fields; assertions on writes, assumptions on reads"""
    def __init__(s,source,fields=None,elems=None,cattrs=None,cells=(),factf=None,iterf=None):
        s.src=source; s.f=fields or {}; s.e=elems or {}; s.mutable_class_attrs=cattrs or {}; s.global_cells=set(cells); s.factf=factf; s.iterf=iterf; s.cache={}
    def table(s,c):
        if c.id not in s.cache:
            d={}
            for k in reversed(c.mro()):
                for key in((k.mod.name+':'+k.qn) if k.mod else k.qn,k.name): d.update(s.f.get(key,{}))
            s.cache[c.id]=d
        return s.cache[c.id]
    def field(s,c,a): return s.table(c).get(a)
    def maybes(s,c): return [a for a,T in s.table(c).items() if T[0]=='maybe']
    def elem(s,c):
        for k in c.mro():
            for key in((k.mod.name+':'+k.qn) if k.mod else k.qn,k.name):
                if key in s.e: return s.e[key]
        return None
    def iterable(s,E,x): return s.iterf(E,x) if s.iterf else None
    def class_attr_fact(s,E,c,a,d,o): return s.factf(E,c,a,d,o) if s.factf else None

class Verifier(Evaluator):
    deep_str=False; track_warnings=False
    def verify(s,c,fn=None,label=None):
        """all obligations of contract c; returns aggregated rows"""
        f=fn or s.src.fn(c.qual); s.top=c.qual; s.rows=[]; t0=time.time(); first=len(s.rows); done={}
        short=(label or c.qual).split(':')[-1]
        ncases=[None]
        def body():
            s.frames=[dict(env={'$up':None},mod=f.mod,cls=None,qual='spec',loop=0)]
            args=[]
            for n,T in c.params:
                if callable(T): args.append(T(s)); continue
                v=z3.Const('arg_'+n,V)
                if T[0]=='exact':
                    x=s.unbox(v,('obj',T[1])); s.fact(clsof(x.ad)==T[1].id); s.restrict(x.ad,[T[1]]); args.append(x)
                elif T[0]=='among':
                    x=s.unbox(v,('obj',s.lub(T[1]))); s.fact(zor([clsof(x.ad)==c.id for c in T[1]])); s.restrict(x.ad,T[1]); args.append(x)
                else: args.append(s.unbox(v,T))
            s.topargs=args
            kw={}
            if c.setup:
                r=c.setup(s,args)
                if isinstance(r,dict): kw=r
            for nm,fo in (c.requires(s,args) if c.requires else []): s.assume(fo)
            A=args; old=Old(s,dict(s.H)); s.oldview=old
            cs=c.cases(s,A,old); ncases[0]=[x.name for x in cs if x.cover]
            gs=[zb(x.when() if callable(x.when) else x.when) for x in cs]
            if len(cs)>1 and not z3.is_true(gs[-1]) and s.pos>=len(s.dec)-0 and not s.dec:
                s.prove('the cases of the contract are exhaustive',zor(gs),kind='spec')
            k=s.choose(len(cs)) if len(cs)>1 else 0; case=cs[k]
            for g in gs[:k]: s.assume(z3.Not(g))
            s.assume(gs[k])
            if not s.sat([]): raise PathEnd()
            H0=dict(s.H); A0=s.now(); s.H0view=H0
            try:
                s.depth=0; res=s.callfn(f,args,kw); out=('returns',None)
            except PyRaise as e: out=('raises',e); res=None
            done[case.name]=done.get(case.name,0)+1
            where=f'{case.name}'
            s.frames=s.frames[:1]
            if case.raises:
                names=case.raises if isinstance(case.raises,tuple) else (case.raises,)
                ok=out[0]=='raises' and any(x.name in names for x in out[1].cls.mro())
                if not ok: s.prove(f'{where}: raises {"/".join(names)}',z3.BoolVal(False) if s.sat([]) else z3.BoolVal(True)); return
                s.prove(f'{where}: raises {"/".join(names)}',z3.BoolVal(True))
            else:
                if out[0]=='raises': s.branchlog.append(f'raises {out[1].cls.name} {out[1].where}'); s.prove(f'{where}: returns',z3.BoolVal(False)); return
                s.prove(f'{where}: returns',z3.BoolVal(True))
            for nm,fo in (case.ensures(s,A,old,res) if case.ensures else []): s.prove(f'{where}: {nm}',fo)
            mods=case.modifies() if callable(case.modifies) else case.modifies
            s.checkframe(H0,mods,A0,where)
        err=None
        try: s.explore(body)
        except Unsupported as e: err=f'{e}'
        except RecursionError: err='recursion limit'
        rows=s.aggregate(s.rows[first:],c.qual)
        if err is None:
            for nm in ncases[0] or []:
                rows.append(dict(obligation=f'{nm}: some execution is covered',function=c.qual,kind='cover',status='proved' if done.get(nm) else 'unknown',backend='explorer',seconds=0,detail='' if done.get(nm) else 'no feasible path'))
        uns=[(c.qual,err)] if err else []
        return rows,uns,round(time.time()-t0,2)
    @staticmethod
    def aggregate(rows,fn):
        out={}; 
        for r in rows:
            k=(r['function'],r['obligation'])
            if k not in out: out[k]=dict(r,paths=1); continue
            o=out[k]; o['paths']+=1; o['seconds']=round(o['seconds']+r['seconds'],3)
            rank={'proved':0,'unknown':1,'refuted':2}
            if rank[r['status']]>rank[o['status']]: o['status']=r['status']; o['detail']=r['detail']; o['backend']=r['backend']
            elif r['status']=='proved' and o['status']=='proved' and r['backend']!='simplifier': o['backend']=r['backend']
        return list(out.values())
