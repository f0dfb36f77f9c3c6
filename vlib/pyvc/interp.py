"""Statements, expressions, calls and attribute lookup of the symbolic interpreter."""
import ast, z3, time
from .eng import *
from .eng import _V
from . import src as S_

class NT:
    """NamedTuple class: name and fields"""
    def __init__(s,name,fields): s.name=name; s.fields=fields
class NTV(tuple):
    pass
def ntv(nt,vals): t=NTV(vals); t.nt=nt; return t

class LoopSpec:
    """inv(E,L)->[(name,formula)], modifies(E,L)->[(field,address)], env: {variable: type}; L has i,n,H0,env,at"""
    def __init__(s,inv,modifies=None,env=None,allocates=True,kinds=None,live=False,opaque=False): s.opaque=opaque; s.inv=inv; s.modifies=modifies; s.env=env or {}; s.allocates=allocates; s.live=live; s.kinds=kinds

BINOPS={ast.Add:'+',ast.Sub:'-',ast.Mult:'*',ast.FloorDiv:'//',ast.Mod:'%',ast.Div:'/',ast.Pow:'**',ast.LShift:'<<',ast.RShift:'>>',ast.MatMult:'@',ast.BitAnd:'&',ast.BitOr:'|',ast.BitXor:'^'}

class Interp(Engine):
    # ---------------------------------------------------------------- names
    def frame(s): return s.frames[-1]
    def getname(s,n):
        e=s.frame()['env']; 
        while e is not None:
            if n in e:
                v=e[n]
                if v is UNDEF: raise Unsupported(f'variable {n} after a loop')
                return v
            e=e.get('$up')
        m=s.frame()['mod']
        r=s.src.resolve(m,n)
        if r is None:
            # star imports
            for st in m.tree.body:
                if isinstance(st,ast.ImportFrom) and any(a.name=='*' for a in st.names) and (st.module or '').startswith('dwave'):
                    bm=s.src.mod(st.module); r=s.src.resolve(bm,n) if bm else None
                    if r is not None: break
        if r is None:
            if n in s.src.classes: return s.src.classes[n]
            return Ext(n)
        return s.fromsrc(r,m,n)
    def fromsrc(s,r,m,n):
        if isinstance(r,tuple) and r[0]=='expr':
            k=(m.name,n)
            if k not in s.clsenv: s.clsenv[k]=s.inmod(m,lambda: s.ev(r[1]))
            return s.clsenv[k]
        return r
    def inmod(s,m,f,env=None,cls=None):
        s.frames.append(dict(env=env if env is not None else {'$up':None},mod=m,cls=cls,qual=m.name,loop=0))
        try: return f()
        finally: s.frames.pop()
    # ---------------------------------------------------------------- attributes
    def groups(s,classes,a):
        g=[]
        for c in classes:
            o,d=c.find(a)
            for x in g:
                if x[0] is d or (isinstance(d,tuple) and isinstance(x[0],tuple) and x[0][1] is d[1]): x[2].append(c); break
            else: g.append((d,o,[c]))
        return g
    def pickgroup(s,ad_or_cid,g,isad=True):
        """branches on which definition applies"""
        cid=clsof(ad_or_cid) if isad else ad_or_cid
        for d,o,cs in g[:-1]:
            if s.branch(zor([cid==c.id for c in cs]),'class in '+cs[0].name): 
                if isad: s.restrict(ad_or_cid,cs)
                return d,o,cs
        d,o,cs=g[-1]
        s.assume(zor([cid==c.id for c in cs]))
        if isad: s.restrict(ad_or_cid,cs)
        return d,o,cs
    def lookup_opt(s,x,a):
        """bound method of the class of x, or None if no possible class defines it"""
        ps=s.possible(x.ad)
        if ps is None: return None
        ps=s.feasible_classes(x.ad,ps)
        g=[q for q in s.groups(ps,a)]
        if all(d is None for d,_,_ in g): return None
        d,o,cs=s.pickgroup(x.ad,g) if len(g)>1 else g[0]
        if d is None: return None
        if isinstance(d,Fn): return Bound(d,x)
        if isinstance(d,tuple): return None
        return None
    def feasible_classes(s,ad,ps):
        if len(ps)<=1: return ps
        return ps
    def attr(s,x,a):
        if isinstance(x,Bx): x=s.resolve(x)
        if x is None: 
            if a=='__class__': return s.src.classes['object']
            raise s.pyexc('AttributeError',f"'NoneType' has no attribute {a}")
        if isinstance(x,Mod):
            r=s.src.modattr(x,a)
            if r is None: return Ext(x.name+'.'+a)
            return s.fromsrc(r,x,a)
        if isinstance(x,Ext):
            h=s.extern.get('attr:'+x.name+'.'+a)
            return h(s,x) if h else Ext(x.name+'.'+a)
        if isinstance(x,NTV):
            if a in x.nt.fields: return x[x.nt.fields.index(a)]
            return Prim(a,x)
        if isinstance(x,EnumV):
            if a=='name': return x.name
            raise Unsupported('enum attribute '+a)
        if isinstance(x,(KwDict,DictOf)): return Prim(a,x)
        if isinstance(x,NT): raise Unsupported('namedtuple class attribute')
        if isinstance(x,(tuple,list,Seq,str,StrV)) or isz(x,Str): return Prim(a,x)
        if isinstance(x,LClass): x=x.cls
        if isinstance(x,Cls): return s.clsattr(x,a)
        if isinstance(x,ClsVal): return s.clsvalattr(x,a)
        if isinstance(x,SuperV): return s.superattr(x,a)
        if isinstance(x,Ref):
            k=s.kindof(x)
            if k!='obj':
                if a=='__class__': return s.kinds[k]
                return Prim(a,x)
            return s.instattr(x,a)
        if isinstance(x,(Bound,Fn)) and a=='fset': return x.setter if isinstance(x,Fn) else s.unsup('fset')
        if isinstance(x,PropV):
            if a=='fset': return x.fn.setter
            if a=='fget': return x.fn
        if isinstance(x,Bx):
            h=s.extern.get('opaque:'+a)
            if h: return h(s,x)
            raise Unsupported(f'attribute {a} of an opaque value')
        if isinstance(x,Opaque):
            return Opaque(x.why+'.'+a)
        if isinstance(x,(int,bool)) or isz(x,I) or isz(x,B): return Prim(a,x)
        raise Unsupported(f'attribute {a} of {x!r}')
    def classconst(s,g,cid,a):
        """value of a class-level constant over several possible classes, as a term over the class (no branching); None if
        some definition is not a plain constant"""
        vals=[]
        for d,o,cs in g:
            if isinstance(d,tuple) and isinstance(d[1],ast.Constant) and (d[1].value is None or isinstance(d[1].value,(int,str,bool))): vals.append((d[1].value,cs))
            else: return None
        vs=[v for v,_ in vals]
        if all(type(v)==type(vs[0]) and v==vs[0] for v in vs): return (vs[0],)
        kinds={type(v).__name__ for v in vs}
        if not kinds<={'NoneType','int'} : return None
        t=s.box(vs[-1])
        for v in vs[-2::-1]: t=z3.If(zor([cid==c.id for w,cs in vals if w is v or (type(w)==type(v) and w==v) for c in cs]),s.box(v),t)
        T=('opt',('int',)) if 'NoneType' in kinds else ('int',)
        return (s.unbox(t,T),)
    def instattr(s,x,a):
        if a=='__class__':
            ps=s.possible(x.ad)
            if ps and len(ps)==1: return ps[0]
            return ClsVal(clsof(x.ad),of=x)
        if a=='__dict__': return DictOf(x)
        ps=s.possible(x.ad)
        if ps is None: raise Unsupported('attribute of an object of unknown class: '+a)
        g=s.groups(ps,a)
        if len(g)>1 and a not in s.types.mutable_class_attrs and all(isinstance(q[0],tuple) for q in g):
            cc=s.classconst(g,clsof(x.ad),a)
            if cc is not None:
                T=s.types.field(ps[0],a)
                if T is None: return cc[0]
                if T[0]=='maybe':
                    v=s.read(a,x.ad)
                    if s.branch(v==absent,f'no instance attribute {a}'): return cc[0]
                    return s.unbox(v,T[1])
        if a in s.types.mutable_class_attrs and all(isinstance(q[0],tuple) for q in g):
            T=s.types.field(ps[0],a)
            if T is not None and T[0]=='maybe':
                v=s.read(a,x.ad)
                if not s.branch(v==absent,f'no instance attribute {a}'): return s.unbox(v,T[1])
            if T is None or T[0]=='maybe':
                if a in s.types.global_cells: return s.clsdefattr(g[0][0],g[0][1],a,x)
                for c in ps: s.clsconst(c,a)
                return s.unbox(s.read('C.'+a,clsof(x.ad)),s.types.mutable_class_attrs[a])
        d,o,cs=s.pickgroup(x.ad,g) if len(g)>1 else g[0]
        if isinstance(d,Fn):
            if d.kind in('plain',): 
                return Bound(d,x)
            if d.kind=='classmethod': return Bound(d,s.attr(x,'__class__'))
            if d.kind=='staticmethod': return d
            if d.kind=='property': return s.callfn(d,[x],{})
            if d.kind=='mixedproperty': return s.mixed(d,s.attr(x,'__class__'),x)
            if d.kind=='cached_property':
                if d.qual in s.models: s.used.add(d.qual); return s.models[d.qual](s,[x],{})
                v=s.read('@'+a,x.ad); T=s.types.field(cs[0],'@'+a)
                if s.branch(v==absent,a+' not cached'):
                    r=s.callfn(d,[x],{}); s.write('@'+a,x.ad,s.box(r)); return r
                return s.unbox(v,T)
            raise Unsupported('attribute kind '+d.kind)
        T=s.types.field(cs[0],a)
        if isinstance(d,tuple) or isinstance(d,Cls):
            if T is None: return s.clsdefattr(d,o,a,x)
            if T[0]=='maybe':
                v=s.read(a,x.ad)
                if s.branch(v==absent,f'no instance attribute {a}'): return s.clsdefattr(d,o,a,x)
                return s.unbox(v,T[1])
            return s.unbox(s.read(a,x.ad),T)
        if T is None:
            if s.assigned(cs,a): T=('any',)
            else: raise s.pyexc('AttributeError',f'no attribute {a}')
        v=s.read(a,x.ad)
        if T[0]=='maybe':
            if s.branch(v==absent,f'no attribute {a}'): raise s.pyexc('AttributeError',a)
            T=T[1]
        return s.unbox(v,T)
    def assigned(s,cs,a):
        for c in cs:
            for k in c.mro():
                if k.node is None: continue
                for n in ast.walk(k.node):
                    if isinstance(n,ast.Attribute) and isinstance(n.ctx,ast.Store) and n.attr==a and isinstance(n.value,ast.Name) and n.value.id in('self',): return True
        return False
    def clsdefattr(s,d,o,a,x=None):
        """value of a class-level definition (constant, alias, nested class)"""
        if isinstance(d,Cls): return d
        if a in s.types.mutable_class_attrs:
            T=s.types.mutable_class_attrs[a]
            cid=z3.IntVal(o.id) if a in s.types.global_cells else (clsof(x.ad) if x is not None else z3.IntVal(o.id))
            if a not in s.types.global_cells:
                for c in ((s.possible(x.ad) or []) if x is not None else [o]): s.clsconst(c,a)
            return s.unbox(s.read('C.'+a,cid),T)
        k=(o.qn,o.id,a)
        if k not in s.clsenv:
            env={'$up':o.closure if isinstance(o.closure,dict) else None}
            s.clsenv[k]=s.inmod(o.mod,lambda: s.ev(d[1]),env=s.classscope(o,env))
        return s.clsenv[k]
    def classscope(s,o,env):
        """names defined in the class body are visible to its later definitions"""
        e=dict(env)
        for n,d in o.attrs.items():
            if isinstance(d,(Fn,Cls)): e[n]=d
            elif isinstance(d,tuple): e[n]=LazyAttr(o,n)
        return e
    def clsconst(s,c,a):
        """initial value of a class attribute that the program may change, for class c (inherited values included)"""
        if (c.id,a) in s.classfacts: return
        s.classfacts.add((c.id,a)); o,d=c.find(a)
        f=s.types.class_attr_fact(s,c,a,d,o)
        if f is not None: s.fact(f)
    def clsattr(s,c,a):
        if a=='__name__': return c.name
        if a=='__class__': return s.src.classes['type']
        if c.meta=='enum' or any(b.qn.endswith('Enum') for b in c.mro() if b.mod is None):
            if a in c.attrs: return EnumV(c,a)
        o,d=c.find(a)
        if d is None:
            if a in s.types.mutable_class_attrs: d=('expr',ast.Constant(None)); o=c
            else: raise s.pyexc('AttributeError',f'class has no attribute {a}')
        if isinstance(d,Fn):
            if d.kind=='classmethod': return Bound(d,c)
            if d.kind in('staticmethod','plain'): return d
            if d.kind=='mixedproperty': return s.mixed(d,c,None)
            if d.kind=='property': return PropV(d)
            raise Unsupported('class attribute of kind '+d.kind)
        if isinstance(d,tuple) and a in s.types.mutable_class_attrs and a not in s.types.global_cells:
            s.clsconst(c,a); return s.unbox(s.read('C.'+a,z3.IntVal(c.id)),s.types.mutable_class_attrs[a])
        return s.clsdefattr(d,o,a)
    def clsvalattr(s,x,a):
        if a=='__name__':
            return clsname(x.cid)
        ps=(s.possible(x.of.ad) if x.of is not None else None) or (s.src.subs(x.bound) if x.bound else None)
        if ps is None: raise Unsupported('attribute of an unknown class')
        g=s.groups(ps,a)
        if a in s.types.mutable_class_attrs and a not in s.types.global_cells and all(not isinstance(d,Fn) for d,_,_ in g):
            for c in ps: s.clsconst(c,a)
            return s.unbox(s.read('C.'+a,x.cid),s.types.mutable_class_attrs[a])
        if len(g)>1:
            cc=s.classconst(g,x.cid,a)
            if cc is not None: return cc[0]
            if x.of is not None: d,o,cs=s.pickgroup(x.of.ad,g)
            else: d,o,cs=s.pickgroup(x.cid,g,False)
        else: d,o,cs=g[0]
        if d is None: raise s.pyexc('AttributeError',a)
        if isinstance(d,Fn):
            if d.kind=='classmethod': return Bound(d,x)
            if d.kind=='mixedproperty': return s.mixed(d,x,None)
            if d.kind in('plain','staticmethod'): return d
            if d.kind=='property': return PropV(d)
            raise Unsupported('class attribute kind '+d.kind)
        return s.clsdefattr(d,o,a)
    def superattr(s,x,a):
        """super(C, obj).a : next definition after C in the MRO of type(obj)"""
        obj=x.obj
        if isinstance(obj,(Cls,ClsVal)):
            ps=[obj] if isinstance(obj,Cls) else ((s.possible(obj.of.ad) if obj.of is not None else None) or s.src.subs(obj.bound))
        else: ps=s.possible(obj.ad)
        g=[]
        for c in ps:
            if x.cls not in c.mro(): continue
            o,d=c.find(a,after=x.cls)
            for y in g:
                if y[0] is d: y[2].append(c); break
            else: g.append((d,o,[c]))
        if not g: raise PathEnd()
        if isinstance(obj,Ref): d,o,cs=s.pickgroup(obj.ad,g) if len(g)>1 else g[0]
        elif isinstance(obj,ClsVal):
            if len(g)>1: d,o,cs=s.pickgroup(obj.of.ad,g) if obj.of is not None else s.pickgroup(obj.cid,g,False)
            else: d,o,cs=g[0]
        else: d,o,cs=g[0]
        if d is None:
            if a=='__init__': return Prim('object.__init__',obj)
            if a=='__setattr__': return Prim('object.__setattr__',obj)
            raise s.pyexc('AttributeError',a)
        if isinstance(d,Fn):
            if d.kind=='plain': return Bound(d,obj)
            if d.kind=='property': return s.callfn(d,[obj],{})
            if d.kind=='mixedproperty':
                if isinstance(obj,Ref): return s.mixed(d,s.attr(obj,'__class__'),obj)
                return s.mixed(d,obj,None)
            if d.kind=='classmethod': return Bound(d,obj if isinstance(obj,(Cls,ClsVal)) else s.attr(obj,'__class__'))
        raise Unsupported('super attribute '+a)
    def mixed(s,d,cls,inst):
        """reading a mixed property (contract of mixedproperty.__get__, verified for C20)"""
        n=len(d.node.args.args)
        if d.opts.get('self_required') and n>=2 and inst is None: return None
        return s.callfn(d,[cls] if n==1 else [cls,inst],{})
    def setattr_(s,x,a,v):
        if isinstance(x,Bx): x=s.resolve(x)
        if isinstance(x,LClass): x=x.cls
        if isinstance(x,(Cls,ClsVal)):
            if a not in s.types.mutable_class_attrs: raise Unsupported(f'assignment to class attribute {a}')
            if a in s.types.global_cells:
                o,d=(x if isinstance(x,Cls) else x.bound or s.unsup('class cell')).find(a); cid=z3.IntVal(o.id)
                if isinstance(x,Cls) and o is not x: raise Unsupported('class attribute shadowed in a subclass')
            else: cid=z3.IntVal(x.id) if isinstance(x,Cls) else x.cid
            s.write('C.'+a,cid,s.box(s.coerce(v,s.types.mutable_class_attrs[a]))); return
        if x is None: raise s.pyexc('AttributeError','None has no attribute '+a)
        if not isinstance(x,Ref): raise Unsupported(f'assignment to attribute {a} of {x!r}')
        ps=s.possible(x.ad)
        if ps is None: raise Unsupported('assignment to attribute of unknown object')
        g=s.groups(ps,a)
        datad=[q for q in g if isinstance(q[0],Fn) and q[0].kind in('property','mixedproperty')]
        if datad:
            d,o,cs=s.pickgroup(x.ad,g) if len(g)>1 else g[0]
            if isinstance(d,Fn) and d.kind=='property':
                if d.setter is None: raise s.pyexc('AttributeError',"can't set attribute")
                s.callfn(d.setter,[x,v],{}); return
            if isinstance(d,Fn) and d.kind=='mixedproperty': raise s.pyexc('AttributeError',"can't set attribute")
            ps=cs
        T=s.types.field(ps[0],a)
        if T is not None:
            v=s.coerce(v,T); b=s.box(v)
            t=T[1] if T[0]=='maybe' else T
            if t[0]!='any':
                f=z3.simplify(s.tyfact(b,t,False))
                if not z3.is_true(f): s.typeob(f'{a} keeps its declared type',f)
        else: b=s.box(v)
        s.write(a,x.ad,b)
    def typeob(s,name,f):
        if s.quiet: return
        # a declared field type is an invariant other functions rely on
        s.prove('type invariant: '+name,f,kind='type')
        s.fact(f)
    def coerce(s,v,T):
        """materializes functional sequences when they are stored"""
        if isinstance(v,(Seq,tuple,list)):
            t=T
            while t and t[0] in('opt','maybe'): t=t[1]
            el=t[1] if t[0] in('list','tuple') and len(t)>1 else None
            if isinstance(v,NTV): return v
            kind='list' if isinstance(v,list) or (isinstance(v,Seq) and v.kind=='list') else 'tuple'
            return s.mkseq(v,kind,el or (v.ty if isinstance(v,Seq) else None))
        return v
    def delattr_(s,x,a):
        if isinstance(x,Bx): x=s.resolve(x)
        ps=s.possible(x.ad); d,o,cs=(lambda g: s.pickgroup(x.ad,g) if len(g)>1 else g[0])(s.groups(ps,a))
        f='@'+a if isinstance(d,Fn) and d.kind=='cached_property' else a
        if s.branch(s.read(f,x.ad)==absent,a+' absent'): raise s.pyexc('AttributeError',a)
        s.write(f,x.ad,absent)
    # ---------------------------------------------------------------- isinstance
    def isinst(s,x,K):
        if isinstance(K,(tuple,list)):
            for k in K:
                if s.isinst(x,k): return True
            return False
        if isinstance(x,Bx): x=s.resolve(x)
        if isinstance(K,LClass): K=K.cls
        nm=K.name if isinstance(K,(Cls,Ext)) else None
        if isinstance(K,Cls) and K.mod is None and K.name in s.src.classes or isinstance(K,Ext):
            nm=nm.split('.')[-1]
            if isinstance(x,Ref):
                k=s.kindof(x)
                if k!='obj':
                    if nm=='Sequence': return k in('list','tuple')
                    if nm in('Mapping','MutableMapping'): return k=='dict'
                    if nm in('Iterable','Collection','Sized','Container'): return True
                    return nm==k or nm=='object'
                ps=s.possible(x.ad)
                if isinstance(K,Ext):
                    h=s.extern.get('isinstance:'+K.name)
                    if h: return h(s,x)
                    if ps is None or s.src.object in ps: raise Unsupported('isinstance of unknown object with '+K.name)
                    if nm in('Hashable',): return True
                    yes=[c for c in ps if any(b.mod is None and b.name==nm for b in c.mro())]
                    if nm=='Number': yes=[]
                    if len(yes)==len(ps): return True
                    if not yes: return False
                    if s.branch(zor([clsof(x.ad)==c.id for c in yes]),'isinstance '+nm): s.restrict(x.ad,yes); return True
                    s.restrict(x.ad,[c for c in ps if c not in yes]); return False
                return s.isref(x,K)
            if x is None: return nm in('object','NoneType')
            if isinstance(x,bool) or isz(x,B): return nm in('bool','int','object','Number','Hashable','Integral','Real','Complex')
            if isinstance(x,int) or isz(x,I): return nm in('int','object','Number','Hashable','Integral','Real','Complex')
            if isinstance(x,(str,StrV)) or isz(x,Str): return nm in('str','object','Sequence','Hashable','Iterable','Collection','Container','Sized')
            if isinstance(x,tuple) or (isinstance(x,Seq) and x.kind=='tuple'): return nm in('tuple','Sequence','object','Iterable','Collection','Hashable','Container','Sized')
            if isinstance(x,list) or (isinstance(x,Seq) and x.kind=='list'): return nm in('list','Sequence','object','Iterable','Collection','Container','Sized')
            if isinstance(x,Seq): return nm in('object','Iterable','Iterator',x.kind)
            if isinstance(x,(float,complex)): return nm in(type(x).__name__,'object','Number','Hashable','Complex')
            if isinstance(x,Bx):
                h=s.extern.get('isinstance_opaque:'+nm)
                if h: return h(s,x)
                if nm=='Number': return s.branch(isnum(x.v),'is a number')
                if nm in('int','str','list','tuple','dict','bool','Sequence','Mapping','NoneType'): return False
                raise Unsupported('isinstance of an opaque value with '+nm)
            if type(x).__name__=='SliceV': return nm in('slice','object')
            if isinstance(x,(Fn,Bound,Clo)): return nm in('Callable','object','function')
            if isinstance(x,(Cls,ClsVal,LClass)): return nm in('type','object','Callable','Hashable')
            raise Unsupported(f'isinstance {x!r} {nm}')
        if isinstance(K,Cls):
            if isinstance(x,Ref):
                if s.kindof(x)!='obj': return K is s.src.object
                return s.isref(x,K)
            if isinstance(x,EnumV): return x.cls.sub(K)
            return False
        raise Unsupported('isinstance with '+repr(K))
    def isref(s,x,K):
        ps=s.possible(x.ad); subs=s.src.subs(K)
        if ps is None: s.setbound(x.ad,s.src.object); ps=s.possible(x.ad)
        yes=[c for c in ps if c in subs]
        if len(yes)==len(ps): return True
        if not yes: return False
        if s.branch(zor([clsof(x.ad)==c.id for c in yes]),'isinstance '+K.name): s.restrict(x.ad,yes); return True
        s.restrict(x.ad,[c for c in ps if c not in yes]); return False
    # ---------------------------------------------------------------- calls
    def call(s,f,args,kw):
        if isinstance(f,Bx):
            f=s.resolve(f)
            if isinstance(f,Bx):
                h=s.extern.get('call:opaque')
                if h: return h(s,f,args,kw)
                raise Unsupported('call of an opaque value')
        if isinstance(f,Bound):
            if isinstance(f.fn,Fn): return s.callfn(f.fn,[f.self]+list(args),kw)
            return s.call(f.fn,[f.self]+list(args),kw)
        if isinstance(f,Fn): return s.callfn(f,list(args),kw)
        if isinstance(f,Clo): return s.callclo(f,args,kw)
        if isinstance(f,Prim): return s.prim(f,args,kw)
        if isinstance(f,Ext): return s.callext(f,args,kw)
        if isinstance(f,NT): 
            vals=list(args)+[kw[n] for n in f.fields[len(args):]]; return ntv(f,vals)
        if isinstance(f,LClass): return s.instantiate(f.cls,args,kw,f.env)
        if isinstance(f,Cls): return s.instantiate(f,args,kw)
        if isinstance(f,ClsVal): return s.instantiate_sym(f,args,kw)
        if isinstance(f,Ref):
            m=s.lookup_opt(f,'__call__')
            if m is not None: return s.call(m,args,kw)
        if isinstance(f,Opaque): return Opaque(f.why+'()')
        raise Unsupported('call of '+repr(f))
    def instantiate(s,c,args,kw,env=None):
        if c.mod is None:
            if c.sub(s.src.classes['BaseException']): return ExcV(c,args)
            h=getattr(s,'new_'+c.name,None)
            if h and c.name in s.src.classes: return h(args,kw)
            return s.callext(Ext(c.qn),args,kw)
        if any(b is s.src.classes['BaseException'] for b in c.mro()): return ExcV(c,args)
        h=s.extern.get('new:'+c.qn)
        if h: return h(s,c,args,kw)
        r=s.alloc(c,s.types.elem(c))
        o,d=c.find('__init__')
        if isinstance(d,Fn): s.callfn(d,[r]+list(args),kw)
        elif args or kw: raise Unsupported('constructor of '+c.name)
        return r
    def instantiate_sym(s,f,args,kw):
        ps=(s.possible(f.of.ad) if f.of is not None else None) or s.src.subs(f.bound)
        ad=s.now(); s.aoff+=1; s.fact(clsof(ad)==f.cid); s.restrict(ad,ps); r=Ref(ad,s.types.elem(ps[0]))
        for fl in s.types.maybes(ps[0]): s.write(fl,ad,absent)
        g=s.groups(ps,'__init__')
        if f.of is not None and len(g)>1: d,o,cs=s.pickgroup(f.of.ad,g); s.restrict(ad,cs)
        elif len(g)>1: d,o,cs=s.pickgroup(ad,g)
        else: d=g[0][0]
        s.callfn(d,[r]+list(args),kw); return r
    def bindargs(s,node,args,kw,defenv,mod,name):
        a=node.args; env={}; pos=[x.arg for x in a.posonlyargs+a.args]; args=list(args); kw=dict(kw)
        for i,n in enumerate(pos):
            if i<len(args):
                if n in kw: raise s.pyexc('TypeError','multiple values for '+n)
                env[n]=args[i]
            elif n in kw: env[n]=kw.pop(n)
            else:
                k=i-(len(pos)-len(a.defaults))
                if k>=0: env[n]=s.inmod(mod,lambda k=k: s.ev(a.defaults[k]),env={'$up':defenv})
                else: raise s.pyexc('TypeError',f'{name}() missing argument {n}')
        rest=args[len(pos):]
        if a.vararg: env[a.vararg.arg]=tuple(rest)
        elif rest: raise s.pyexc('TypeError',f'{name}() takes {len(pos)} arguments')
        for i,x in enumerate(a.kwonlyargs):
            if x.arg in kw: env[x.arg]=kw.pop(x.arg)
            elif a.kw_defaults[i] is not None: env[x.arg]=s.inmod(mod,lambda: s.ev(a.kw_defaults[i]),env={'$up':defenv})
            else: raise s.pyexc('TypeError','missing '+x.arg)
        if a.kwarg: env[a.kwarg.arg]=KwDict(kw)
        elif kw: raise s.pyexc('TypeError',f'{name}() got an unexpected keyword argument {list(kw)[0]}')
        return env
    def callfn(s,f,args,kw):
        q=f.qual
        if q in s.models and not (s.top==q and s.depth==0): s.used.add(q); return s.models[q](s,args,kw)
        if q in s.contracts and not (s.top==q and s.depth==0): s.used.add(q); return s.applycontract(s.contracts[q],f,args,kw)
        if s.depth>=s.inline_depth: raise Unsupported('inlining depth at '+q)
        env=s.bindargs(f.node,args,kw,f.closure if isinstance(f.closure,dict) else None,f.mod,f.name)
        env['$up']=f.closure if isinstance(f.closure,dict) else None
        return s.run(f.node,env,f.mod,f.cls,q)
    def callclo(s,f,args,kw):
        env=s.bindargs(f.node,args,kw,f.env,f.mod,f.name); env['$up']=f.env
        if isinstance(f.node,ast.Lambda): return s.inmod(f.mod,lambda: s.ev(f.node.body),env=env,cls=f.cls)
        return s.run(f.node,env,f.mod,f.cls,f.mod.name+':'+f.name)
    def run(s,node,env,mod,cls,qual):
        for n in ast.walk(node):
            if isinstance(n,(ast.Yield,ast.YieldFrom)) and not(s.gen is not None and s.top==qual and s.depth==0): raise Unsupported('generator function '+qual)
        s.frames.append(dict(env=env,mod=mod,cls=cls,qual=qual,loop=0,loops=s.loopnum(node),args=[v for k,v in env.items() if k!='$up'],node=node)); s.depth+=1
        try:
            s.block(node.body); return None
        except Ret as e: return e.v
        finally: s.frames.pop(); s.depth-=1
    def loopnum(s,node):
        out={}; k=0
        for n in ast.walk(node):
            if isinstance(n,(ast.For,ast.While)): out[id(n)]=(n.lineno,n.col_offset)
        return {i:k for k,(i,_) in enumerate(sorted(out.items(),key=lambda t:t[1]))}
    # contracts at call sites
    def applycontract(s,c,f,args,kw):
        env=s.bindargs(f.node,args,kw,f.closure if isinstance(f.closure,dict) else None,f.mod,f.name)
        a=[env[x.arg] for x in f.node.args.posonlyargs+f.node.args.args]
        if f.node.args.vararg: a.append(env[f.node.args.vararg.arg])
        A=c.adapt(s,a) if hasattr(c,'adapt') else a
        for nm,fo in (c.requires(s,A) if c.requires else []): s.prove(f'call of {f.name}: {nm}',fo,kind='pre')
        for nm,fo in (c.requires(s,A) if c.requires else []): s.assume(fo)
        old=dict(s.H); cs=c.cases(s,A,Old(s,old))
        for i,case in enumerate(cs):
            g=case.when() if callable(case.when) else case.when
            if i==len(cs)-1 or s.branch(zb(g),f'{f.name}: {case.name}'):
                if i==len(cs)-1: s.assume(zb(g))
                return s.takecase(c,case,A,Old(s,old))
        raise PathEnd()
    def havocall(s,f):
        a=z3.Const(f'all_{f}!{s.nfresh}',s.hsort(f)); s.nfresh+=1; s.h(f); s.H[f]=a; s.hbase[a.get_id()]=(a,s.now())
    def takecase(s,c,case,A,old):
        if case.allocates: s.bump()
        for fl,ad in (case.modifies() if callable(case.modifies) else case.modifies):
            if ad is ALL: s.havocall(fl)
            else: s.havoc(fl,ad)
        if case.raises:
            for nm,fo in (case.ensures(s,A,old,None) if case.ensures else []): s.assume(fo)
            nm=case.raises if not isinstance(case.raises,tuple) else case.raises[s.choose(len(case.raises))]
            raise PyRaise(s.src.classes.get(nm) or s.excls(nm),(),'contract')
        res=None
        if case.result is not None: res=case.result(s,A,old)
        elif (case.ret or c.ret): res=s.unbox(s.fresh('res',V),case.ret or c.ret)
        for nm,fo in (case.ensures(s,A,old,res) if case.ensures else []): s.assume(fo)
        return res
    def excls(s,name):
        for m in s.src.mods.values():
            x=m.names.get(name)
            if isinstance(x,Cls): return x
        raise Unsupported('exception class '+name)
    # ---------------------------------------------------------------- statements
    def block(s,body):
        for st in body:
            if time.time()>s.deadline: raise Unsupported('time limit')
            s.stmt(st)
    def stmt(s,st):
        getattr(s,'st_'+type(st).__name__,s.st_unsupported)(st)
    def st_unsupported(s,st): raise Unsupported('statement '+type(st).__name__)
    def st_Pass(s,st): pass
    def st_Expr(s,st):
        if isinstance(st.value,ast.Constant): return
        s.ev(st.value)
    def st_Return(s,st): raise Ret(s.ev(st.value) if st.value is not None else None)
    def st_Break(s,st): raise Brk()
    def st_Continue(s,st): raise Cnt()
    def st_Assign(s,st):
        v=s.ev(st.value)
        for t in st.targets: s.assign(t,v)
    def st_AnnAssign(s,st):
        if st.value is not None: s.assign(st.target,s.ev(st.value))
    def st_AugAssign(s,st):
        l=s.ev(ast.copy_location(s.load(st.target),st.target)); r=s.ev(st.value)
        if isinstance(l,Bx): l=s.resolve(l)
        if isinstance(l,Ref) and s.kindof(l)=='list' and isinstance(st.op,ast.Add):
            s.prim(Prim('extend',l),[r],{}); s.assign(st.target,l); return
        s.assign(st.target,s.binop(st.op,l,r))
    def load(s,t):
        import copy
        x=copy.copy(t); x.ctx=ast.Load(); return x
    def assign(s,t,v):
        if isinstance(t,ast.Name):
            e=s.frame()['env']
            if t.id in s.frame().get('nonlocals',()):
                e=e.get('$up')
                while e is not None and t.id not in e: e=e.get('$up')
            e[t.id]=v
        elif isinstance(t,(ast.Tuple,ast.List)):
            if any(isinstance(x,ast.Starred) for x in t.elts): raise Unsupported('starred assignment')
            n,at,_=s.iterview(v)
            k=len(t.elts)
            if isinstance(n,int):
                if n!=k: raise s.pyexc('ValueError','unpack')
            elif not s.branch(zi(n)==k,f'unpack {k}'): raise s.pyexc('ValueError','unpack')
            vals=[at(i) for i in range(k)]
            for x,y in zip(t.elts,vals): s.assign(x,y)
        elif isinstance(t,ast.Attribute): s.setattr_(s.ev(t.value),t.attr,v)
        elif isinstance(t,ast.Subscript): s.setitem(s.ev(t.value),s.evidx(t.slice),v)
        else: raise Unsupported('assignment target')
    def st_If(s,st):
        if s.test(s.ev(st.test),ast.unparse(st.test)[:60]): s.block(st.body)
        else: s.block(st.orelse)
    def st_Assert(s,st):
        if not s.test(s.ev(st.test),'assert'): raise s.pyexc('AssertionError')
    def st_Raise(s,st):
        if st.exc is None:
            cur=s.frame().get('exc')
            if cur is None: raise Unsupported('bare raise')
            raise cur
        e=st.exc
        if isinstance(e,ast.Call):
            c=s.ev(e.func)
            if isinstance(c,Cls) and any(b is s.src.classes['BaseException'] for b in c.mro()):
                s.assumed.add('building the text of an error or warning message has no effect and does not fail'); raise PyRaise(c,(),f'line {st.lineno}')
            v=s.ev(e)
        else: v=s.ev(e)
        if isinstance(v,Cls): raise PyRaise(v,(),f'line {st.lineno}')
        if isinstance(v,ExcV): 
            raise PyRaise(v.cls,v.args,f'line {st.lineno}')
        raise Unsupported('raise of '+repr(v))
    def st_Try(s,st):
        try:
            s.block(st.body)
        except PyRaise as e:
            for h in st.handlers:
                cs=[s.src.classes['BaseException']] if h.type is None else None
                if cs is None:
                    t=s.ev(h.type); cs=list(t) if isinstance(t,tuple) else [t]
                if any(isinstance(c,Cls) and e.cls.sub(c) for c in cs):
                    if h.name: s.frame()['env'][h.name]=ExcV(e.cls,e.a)
                    old=s.frame().get('exc'); s.frame()['exc']=e
                    try: s.block(h.body)
                    finally: s.frame()['exc']=old
                    break
            else:
                s.block(st.finalbody); raise
        except (Ret,Brk,Cnt):
            s.block(st.finalbody); raise
        else: s.block(st.orelse)
        s.block(st.finalbody)
    def st_With(s,st):
        if len(st.items)!=1: raise Unsupported('with several items')
        it=st.items[0]; m=s.ev(it.context_expr)
        if isinstance(m,Bx): m=s.resolve(m)
        v=s.call(s.attr(m,'__enter__'),[],{})
        if it.optional_vars is not None: s.assign(it.optional_vars,v)
        ex=s.attr(m,'__exit__')
        try: s.block(st.body)
        except PyRaise as e:
            r=s.call(ex,[e.cls,Opaque('exception'),Opaque('traceback')],{})
            if s.test(r) if r is not None else False: return
            raise
        except (Ret,Brk,Cnt):
            s.call(ex,[None,None,None],{}); raise
        s.call(ex,[None,None,None],{})
    def st_Delete(s,st):
        for t in st.targets:
            if isinstance(t,ast.Attribute): s.delattr_(s.ev(t.value),t.attr)
            elif isinstance(t,ast.Subscript): s.delitem(s.ev(t.value),s.evidx(t.slice))
            elif isinstance(t,ast.Name): s.frame()['env'].pop(t.id,None)
            else: raise Unsupported('del')
    def st_Import(s,st): 
        for a in st.names: s.frame()['env'][a.asname or a.name.split('.')[0]]=(s.src.mod(a.name) if a.name.startswith('dwave') else None) or Ext(a.name)
    def st_ImportFrom(s,st):
        for a in st.names:
            m=s.src.mod(st.module) if (st.module or '').startswith('dwave') else None
            v=s.src.modattr(m,a.name) if m else None
            s.frame()['env'][a.asname or a.name]=s.fromsrc(v,m,a.name) if v is not None else Ext(f'{st.module}.{a.name}')
    def st_FunctionDef(s,st):
        s.frame()['env'][st.name]=Clo(st,s.frame()['env'],s.frame()['mod'],s.frame()['cls'],st.name)
        for d in st.decorator_list: raise Unsupported('decorated local function')
    def st_ClassDef(s,st):
        env=s.frame()['env']
        def res(b):
            v=s.ev(b); return v.cls if isinstance(v,LClass) else v
        key=(id(st),)
        c=s.localcls.get(id(st)) if hasattr(s,'localcls') else None
        if c is None:
            c=s.src.make_class(st,s.frame()['mod'],closure=None,qn=s.frame()['qual'].split(':')[-1]+'.<locals>.'+st.name,resolve=res)
            if not hasattr(s,'localcls'): s.localcls={}
            s.localcls[id(st)]=c
        c.closure=env
        for f in c.attrs.values():
            if isinstance(f,Fn): f.closure=env
        s.frame()['env'][st.name]=LClass(c,env)
    def st_Nonlocal(s,st): s.frame().setdefault('nonlocals',set()).update(st.names)
    # ---------------------------------------------------------------- loops
    def stored(s,nodes):
        out=set()
        for b in nodes:
            for n in ast.walk(b):
                if isinstance(n,ast.Name) and isinstance(n.ctx,(ast.Store,ast.Del)): out.add(n.id)
        return out
    def st_For(s,st):
        it=s.ev(st.iter); n,at,_=s.iterview(it)
        fr=s.frame(); spec=s.loops.get((fr['qual'],fr['loops'].get(id(st)) if 'loops' in fr else None))
        if isinstance(n,int) and not spec:
            try:
                for i in range(n):
                    try: s.assign(st.target,at(i)); s.block(st.body)
                    except Cnt: pass
                s.block(st.orelse)
            except Brk: pass
            return
        if spec: return s.loopinv(st,spec,n,at,it)
        return s.search(st,n,at)
    def search(s,st,n,at):
        """for-loop whose body, when it does not leave the loop, has no effect: it leaves at the first element for which the
        body does, or runs through"""
        j=s.fresh('j',I); s.keep.append(j); cnt=s.nfresh; pre=dict(s.frame()['env']); tg=s.stored([st.target]) if isinstance(st.target,(ast.Name,ast.Tuple,ast.List)) else set()
        H=dict(s.H); nf=len(s.facts)
        def body():
            s.assume(z3.And(j>=0,j<zi(n))); s.assign(st.target,at(j)); 
            s.block(st.body); return None
        s.quiet+=1
        try: outs=s.sub(body)
        finally: s.quiet-=1
        fall=[]
        for o in outs:
            if o[1]!='val': continue
            for k in o[3]:
                if not same(o[3][k],H.get(k,s.H0.get(k))): raise Unsupported(f'loop over a symbolic sequence changes {k} and has no invariant (line {st.lineno})')
            if len(o[4])!=len(s.trace): raise Unsupported('loop with effects has no invariant')
            for e,c in o[5]:
                if e is s.frame()['env']:
                    for k,v in c.items():
                        if k in pre and pre[k] is not v and k not in tg: raise Unsupported(f'loop changes variable {k} and has no invariant (line {st.lineno})')
            fall.append(s.closed(zand(o[0]),cnt,j))
        s.quantfacts(nf,j,n)
        F=zor(fall) if fall else z3.BoolVal(False)
        exits=any(o[1]!='val' for o in outs)
        locs=s.stored([st.target]+st.body)
        rng=lambda hi: z3.ForAll([j],z3.Implies(z3.And(j>=0,j<hi),F)) if not z3.is_true(F) else z3.BoolVal(True)
        c=s.choose(2) if exits else 0
        if c==0:
            if exits: s.assume(rng(zi(n)))
            if exits and not s.sat([]): raise PathEnd()
            for v in locs:
                if v not in pre: s.frame()['env'][v]=UNDEF
                elif v in tg: s.frame()['env'][v]=UNDEF
            s.block(st.orelse); return
        k=s.fresh('k',I); s.assume(z3.And(k>=0,k<zi(n))); s.assume(rng(k))
        if not s.sat([]): raise PathEnd()
        s.branchlog.append('first index that leaves the loop')
        try:
            s.assign(st.target,at(k)); s.block(st.body)
        except Brk: return
        except Cnt: raise PathEnd()
        raise PathEnd()
    def closed(s,f,cnt,j):
        """existentially closes constants made while looking at the generic element"""
        st=[f]; seen=set(); ex=[]
        while st:
            x=st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind()==z3.Z3_OP_UNINTERPRETED and '!' in x.decl().name():
                try: k=int(x.decl().name().rsplit('!',1)[1])
                except ValueError: k=0
                if k>cnt and not x.eq(j): ex.append(x)
            st.extend(x.children() if not z3.is_quantifier(x) else [x.body()])
        return z3.Exists(ex,f) if ex else f
    def loopinv(s,st,spec,n,at,it):
        fr=s.frame(); env=fr['env']; name=f'{fr["qual"].split(":")[-1]} loop'
        L=Loop(); L.n=zi(n); L.H0=dict(s.H); L.env=env; L.at=at; L.env0=dict(env); L.A0=s.now(); L.it=it; L.args=fr.get('args'); L.old=Old(s,L.H0)
        L.i=z3.IntVal(0); s.fact(L.n>=0)
        for nm,f in spec.inv(s,L): s.prove(f'{name}: {nm} (entry)',f,kind='invariant')
        c=s.choose(2)
        mods=spec.modifies(s,L) if spec.modifies else []
        stored=s.stored([st.target]+st.body)
        if spec.allocates: s.bump()
        for f,ad in mods:
            if ad is ALL: s.havocall(f)
            else: s.havoc(f,ad)
        # fields of objects made inside the loop
        if spec.allocates:
            pass
        for v in stored:
            if v in spec.env:
                T=spec.env[v]
                env[v]=T(s,L) if callable(T) else s.unbox(s.fresh('v_'+v,V),T)
            else: env[v]=UNDEF
        if c==1 and spec.opaque: raise PathEnd()
        if c==0:
            L.i=L.n
            for nm,f in spec.inv(s,L): s.assume(f)
            if not s.sat([]): raise PathEnd()
            s.branchlog.append(name+' exit'); s.block(st.orelse); return
        i=s.fresh('it',I); s.assume(z3.And(i>=0,i<L.n)); L.i=i
        for nm,f in spec.inv(s,L): s.assume(f)
        if not s.sat([]): raise PathEnd()
        s.branchlog.append(name+' iteration'); Hit=dict(s.H); Ait=s.now()
        try:
            s.assign(st.target,at(i)); s.block(st.body)
        except Cnt: pass
        except Brk: return
        L.i=z3.simplify(i+1)
        for nm,f in spec.inv(s,L): s.prove(f'{name}: {nm} (preserved)',f,kind='invariant')
        s.checkframe(Hit,mods,Ait,name,kind='invariant')
        raise PathEnd()
    def st_While(s,st):
        fr=s.frame(); spec=s.loops.get((fr['qual'],fr['loops'].get(id(st)) if 'loops' in fr else None))
        if not spec:
            for _ in range(40):
                t=s.truth(s.ev(st.test))
                if isinstance(t,bool):
                    if not t: s.block(st.orelse); return
                else: raise Unsupported('while loop without invariant')
                try: s.block(st.body)
                except Cnt: pass
                except Brk: return
            raise Unsupported('while loop without invariant')
        env=fr['env']; name=f'{fr["qual"].split(":")[-1]} loop'
        L=Loop(); L.H0=dict(s.H); L.env=env; L.env0=dict(env); L.A0=s.now(); L.args=fr.get('args'); L.old=Old(s,L.H0); L.n=None; L.i=z3.IntVal(0)
        for nm,f in spec.inv(s,L): s.prove(f'{name}: {nm} (entry)',f,kind='invariant')
        mods=spec.modifies(s,L) if spec.modifies else []
        if spec.allocates: s.bump()
        for f,ad in mods: s.havoc(f,ad)
        for v in s.stored(st.body):
            T=spec.env.get(v)
            env[v]=UNDEF if T is None else (T(s,L) if callable(T) else s.unbox(s.fresh('v_'+v,V),T))
        L.i=s.fresh('it',I); s.assume(L.i>=0)
        for nm,f in spec.inv(s,L): s.assume(f)
        if not s.test(s.ev(st.test),'while'): s.block(st.orelse); return
        Hit=dict(s.H); Ait=s.now()
        try: s.block(st.body)
        except Cnt: pass
        except Brk: return
        L.i=L.i+1
        for nm,f in spec.inv(s,L): s.prove(f'{name}: {nm} (preserved)',f,kind='invariant')
        s.checkframe(Hit,mods,Ait,name,kind='invariant'); raise PathEnd()
    def checkframe(s,H1,mods,A,name,kind='frame'):
        """every location changed since H1 is in mods or was allocated since"""
        for f in sorted(s.H):
            h=s.H[f]; b=H1.get(f,s.H0.get(f))
            if b is None or same(h,b): continue
            ads=[]; x=h
            while z3.is_store(x) and not x.eq(b): ads.append((x.arg(1),x.arg(2))); x=x.arg(0)
            ml=[ad for g,ad in mods if g==f]
            if any(ad is ALL for ad in ml): continue
            if x.eq(b):
                done=set()
                for ad,v in ads:
                    if ad.get_id() in done: continue
                    done.add(ad.get_id())
                    cur=z3.Select(h,ad)
                    ok=z3.Or(ad>=A,cur==z3.Select(b,ad),*[ad==zi(m) for m in ml])
                    if z3.is_true(z3.simplify(ok)): continue
                    s.prove(f'{name}: nothing else is changed ({f})',ok,kind=kind)
            else:
                y=s.fresh('y',I)
                s.prove(f'{name}: nothing else is changed ({f})',z3.Implies(z3.And(y<A,*[y!=zi(m) for m in ml]),z3.Select(h,y)==z3.Select(b,y)),kind=kind)

class Loop: pass
class Old:
    """reads of an earlier heap"""
    def __init__(s,E,H): s.E=E; s.H=H
    def read(s,f,ad):
        h=s.H.get(f)
        if h is None: h=s.E.h0(f)
        return s.E.readin(f,h,ad)
class KwDict:
    """**kwargs of a call: names are known"""
    def __init__(s,d): s.d=d
class ExcV:
    def __init__(s,cls,args): s.cls=cls; s.args=args
class PropV:
    def __init__(s,fn): s.fn=fn
class DictOf:
    """obj.__dict__"""
    def __init__(s,x): s.x=x
class LazyAttr:
    def __init__(s,cls,n): s.cls=cls; s.n=n
class _A: pass
ALL=_A()
UNDEF=_A()
