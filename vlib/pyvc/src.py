"""Source tables: parses the modules of the tree under verification (.py with ast; .pyx/.pxd mechanically lowered by
lower.py) and resolves names, classes, bases and method resolution order.  Nothing is imported or executed."""
import ast, os
from . import lower

class SrcError(Exception): pass

class Mod:
    def __init__(s,name,path,tree): s.name=name; s.path=path; s.tree=tree; s.names={}; s.dropped=[]
class Fn:
    """a function of the source.  kind: plain | classmethod | staticmethod | property | mixedproperty | cached_property"""
    def __init__(s,node,mod,cls=None,closure=None,kind='plain',opts=None,qual=None):
        s.node=node; s.mod=mod; s.cls=cls; s.closure=closure; s.kind=kind; s.opts=opts or {}; s.name=getattr(node,'name','<lambda>')
        s.qual=qual or (mod.name+':'+(cls.qn+'.' if cls else '')+s.name)
        s.setter=None
    def __repr__(s): return f'<fn {s.qual}>'
class Cls:
    n=0
    def __init__(s,name,mod,node=None,bases=(),qn=None):
        s.name=name; s.mod=mod; s.node=node; s.bases=list(bases); s.attrs={}; s.qn=qn or name; Cls.n+=1; s.id=Cls.n; s.mro_=None; s.closure=None; s.subs=[]; s.meta=None
    def __repr__(s): return f'<class {s.name}>'
    def mro(s):
        if s.mro_ is None:
            seqs=[list(b.mro()) for b in s.bases]+[list(s.bases)]; out=[s]
            while any(seqs):
                seqs=[q for q in seqs if q]
                for q in seqs:
                    c=q[0]
                    if not any(c in r[1:] for r in seqs): break
                else: raise SrcError('no MRO for '+s.name)
                out.append(c); seqs=[[x for x in q if x is not c] for q in seqs]
            s.mro_=out
        return s.mro_
    def find(s,a,after=None):
        m=s.mro()
        if after is not None: m=m[m.index(after)+1:]
        for c in m:
            if a in c.attrs: return c,c.attrs[a]
        return None,None
    def sub(s,d): return d in s.mro()
class Ext:
    """a name outside of the verified source (library, builtin)"""
    def __init__(s,name): s.name=name
    def __repr__(s): return f'<ext {s.name}>'
    def __eq__(s,o): return isinstance(o,Ext) and o.name==s.name
    def __hash__(s): return hash(s.name)

class Source:
    PK='dwave.gate'
    def __init__(s,tree):
        s.tree=tree; s.mods={}; s.classes={}; s.ext_cls={}
        s.object=s.builtin_class('object',[])
        for n in ('type','BaseException'): s.builtin_class(n)
        s.builtin_class('Exception',['BaseException'])
        for n,b in dict(ValueError='Exception',TypeError='Exception',RuntimeError='Exception',LookupError='Exception',ArithmeticError='Exception',
            AttributeError='Exception',NotImplementedError='RuntimeError',AssertionError='Exception',StopIteration='Exception').items(): s.builtin_class(n,[b])
        s.builtin_class('IndexError',['LookupError']); s.builtin_class('KeyError',['LookupError']); s.builtin_class('OverflowError',['ArithmeticError'])
        for n in ('list','tuple','dict','set','str','int','bool','float','complex','range','function','slice'): s.builtin_class(n)
        s.classes['bool'].bases=[s.classes['int']]; s.classes['bool'].mro_=None
    def builtin_class(s,n,bases=('object',)):
        c=Cls(n,None,bases=[s.classes[b] for b in bases if b in s.classes]); s.classes[n]=c
        for b in c.bases: b.subs.append(c)
        return c
    def mod(s,name):
        if name in s.mods: return s.mods[name]
        p=os.path.join(s.tree,*name.split('.'))
        for f in (p+'.py',p+'.pyx',p+'.pxd',os.path.join(p,'__init__.py')):
            if os.path.exists(f): break
        else: return None
        if f.endswith(('.pyx','.pxd')): t,dropped=lower.lower(f)
        else: t,dropped=ast.parse(open(f).read(),f),[]
        m=Mod(name,f,t); m.dropped=dropped; s.mods[name]=m; s.scan(m,t.body); return m
    def scan(s,m,body):
        for st in body:
            if isinstance(st,ast.FunctionDef):
                if any(getattr(d,'id',getattr(d,'attr',None))=='overload' for d in st.decorator_list): continue
                m.names[st.name]=Fn(st,m)
            elif isinstance(st,ast.ClassDef): m.names[st.name]=s.make_class(st,m)
            elif isinstance(st,ast.ImportFrom): 
                base=st.module or ''
                if st.level: 
                    pk=m.name.split('.'); pk=pk[:len(pk)-st.level+ (1 if m.path.endswith('__init__.py') else 0)]; base='.'.join(pk+([base] if base else []))
                for a in st.names: m.names[a.asname or a.name]=('imp',base,a.name)
            elif isinstance(st,ast.Import):
                for a in st.names: m.names[a.asname or a.name.split('.')[0]]=('mod',a.name if a.asname else a.name.split('.')[0])
            elif isinstance(st,ast.Assign) and len(st.targets)==1 and isinstance(st.targets[0],ast.Name): m.names[st.targets[0].id]=('expr',st.value)
            elif isinstance(st,ast.Assign):
                for t in st.targets:
                    if isinstance(t,ast.Name): m.names[t.id]=('expr',st.value)
            elif isinstance(st,ast.AnnAssign) and isinstance(st.target,ast.Name) and st.value is not None: m.names[st.target.id]=('expr',st.value)
            elif isinstance(st,ast.If):
                t=st.test
                if getattr(t,'id',None)=='TYPE_CHECKING' or getattr(t,'attr',None)=='TYPE_CHECKING': s.scan(m,st.orelse)
                else: s.scan(m,st.body)
            elif isinstance(st,ast.Try): s.scan(m,st.body)
    def make_class(s,node,m,closure=None,qn=None,resolve=None):
        bases=[]
        for b in node.bases:
            if isinstance(b,ast.Subscript): b=b.value
            v=resolve(b) if resolve else s.resolve_expr(m,b)
            if isinstance(v,Cls): bases.append(v)
            elif isinstance(v,Ext): bases.append(s.ext_class(v.name))
        c=Cls(node.name,m,node,bases or [s.object],qn=qn); c.closure=closure; 
        for b in c.bases: b.subs.append(c)
        for st in node.body: s.class_stmt(c,st,m,closure)
        c.mro()
        return c
    def subs(s,c):
        """all classes that are c or derive from it (of the loaded modules)"""
        out=[]; st=[c]
        while st:
            x=st.pop(0)
            if x not in out: out.append(x); st+=x.subs
        return out
    def load_all(s):
        for d,_,fs in os.walk(os.path.join(s.tree,'dwave','gate')):
            for f in sorted(fs):
                if f.endswith('.py'):
                    n=os.path.relpath(os.path.join(d,f),s.tree)[:-3].replace(os.sep,'.')
                    if n.endswith('.__init__'): n=n[:-9]
                    if n!='dwave.gate.simulator.operation_generation': s.mod(n)
    def ext_class(s,n):
        if n not in s.ext_cls: s.ext_cls[n]=Cls(n.split('.')[-1],None,bases=[s.object],qn=n)
        return s.ext_cls[n]
    def class_stmt(s,c,st,m,closure):
        if isinstance(st,ast.FunctionDef):
            kind='plain'; opts={}; setter=False
            for d in st.decorator_list:
                nm=d.func if isinstance(d,ast.Call) else d
                n=getattr(nm,'id',getattr(nm,'attr',None))
                if n in('classmethod','staticmethod','property','mixedproperty','cached_property'): kind=n
                elif n=='setter': setter=True
                elif n in('abstractmethod','overload','wraps'): pass
                else: kind='decorated:'+str(n)
                if isinstance(d,ast.Call):
                    for k in d.keywords:
                        if isinstance(k.value,ast.Constant): opts[k.arg]=k.value.value
            f=Fn(st,m,c,closure,kind,opts,qual=m.name+':'+c.qn+'.'+st.name+('.setter' if setter else ''))
            if setter and isinstance(c.attrs.get(st.name),Fn): c.attrs[st.name].setter=f
            elif setter:                      # setter of an inherited property
                o,g=c.find(st.name); g2=Fn(g.node,g.mod,g.cls,g.closure,g.kind,g.opts,g.qual); g2.setter=f; c.attrs[st.name]=g2
            else: c.attrs[st.name]=f
        elif isinstance(st,ast.Assign):
            for t in st.targets:
                if isinstance(t,ast.Name):
                    v=st.value
                    # name = property(...) and name = other are resolved lazily as expressions of the class body
                    c.attrs[t.id]=('expr',v)
        elif isinstance(st,ast.AnnAssign) and st.value is not None: c.attrs[st.target.id]=('expr',st.value)
        elif isinstance(st,ast.ClassDef): c.attrs[st.name]=s.make_class(st,m,closure,qn=c.qn+'.'+st.name)
    def resolve(s,m,name):
        """module-level name -> Fn/Cls/Ext/Mod/('expr',node) or None"""
        x=m.names.get(name)
        if x is None:
            return None
        if isinstance(x,tuple) and x[0]=='imp':
            b=s.mod(x[1]) if x[1].startswith('dwave') else None
            if b:
                r=s.resolve(b,x[2])
                if r is not None: return r
                sm=s.mod(x[1]+'.'+x[2])
                if sm: return sm
                # star re-exports of packages
                for st in b.tree.body:
                    if isinstance(st,ast.ImportFrom) and any(a.name=='*' for a in st.names):
                        bm=s.mod(st.module)
                        if bm:
                            r=s.resolve(bm,x[2])
                            if r is not None: return r
            elif s.mod(x[1]+'.'+x[2]) if x[1].startswith('dwave') else None: return s.mod(x[1]+'.'+x[2])
            return Ext((x[1]+'.' if x[1] else '')+x[2])
        if isinstance(x,tuple) and x[0]=='mod':
            b=s.mod(x[1]) if x[1].startswith('dwave') else None
            return b or Ext(x[1])
        return x
    def modattr(s,m,name):
        r=s.resolve(m,name)
        if r is None:
            sub=s.mod(m.name+'.'+name)
            if sub: return sub
            for st in m.tree.body:
                if isinstance(st,ast.ImportFrom) and any(a.name=='*' for a in st.names) and (st.module or '').startswith('dwave'):
                    bm=s.mod(st.module); r=s.resolve(bm,name) if bm else None
                    if r is not None: return r
        return r
    def resolve_expr(s,m,e):
        if isinstance(e,ast.Name):
            r=s.resolve(m,e.id)
            if r is None and e.id in s.classes: return s.classes[e.id]
            return r if r is not None else Ext(e.id)
        if isinstance(e,ast.Attribute):
            b=s.resolve_expr(m,e.value)
            if isinstance(b,Mod):
                r=s.modattr(b,e.attr); return r if r is not None else Ext(b.name+'.'+e.attr)
            if isinstance(b,Ext): return Ext(b.name+'.'+e.attr)
        return None
    def cls(s,qual):
        mod,n=qual.split(':'); m=s.mod(mod)
        if m is None: raise SrcError('module missing: '+mod)
        c=m.names.get(n.split('.')[0])
        for p in n.split('.')[1:]: c=c.attrs.get(p)
        if not isinstance(c,Cls): raise SrcError('class missing: '+qual)
        return c
    def fn(s,qual):
        """'pkg.mod:Class.method', 'pkg.mod:function', '...method.setter'"""
        mod,n=qual.split(':'); m=s.mod(mod)
        if m is None: raise SrcError('module missing: '+mod)
        parts=n.split('.'); setter=parts[-1]=='setter'
        if setter: parts=parts[:-1]
        c=m.names.get(parts[0])
        for p in parts[1:]:
            if not isinstance(c,Cls): raise SrcError('missing: '+qual)
            c=c.find(p)[1]
        if setter: c=c.setter
        if not isinstance(c,Fn): raise SrcError('function missing: '+qual)
        return c
