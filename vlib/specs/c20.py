"""C20: mixed properties and the locked class attribute"""
from .common import *
import time
M='dwave.gate.mixedproperty:'
nparam=z3.Function('nparam',V,I); app1=z3.Function('app1',V,V,V); app2=z3.Function('app2',V,V,V,V)
def row(ob,fn,ok,detail='',kind='declaration'):
    return dict(obligation=ob,function=fn,kind=kind,status='proved' if ok else 'unknown',backend='class table',seconds=0,detail=detail)
class SigV:
    def __init__(s,v): s.v=v
def opaque_call(E,f,args,kw):
    """the decorated function is called: which arguments it gets is recorded in its result"""
    E.ghost_calls=getattr(E,'ghost_calls',0)
    if kw: raise Unsupported('keyword arguments for the decorated function')
    E.trace.append('call')
    if len(args)==1: return Bx(app1(f.v,E.box(args[0])))
    if len(args)==2: return Bx(app2(f.v,E.box(args[0]),E.box(args[1])))
    raise E.pyexc('TypeError','number of arguments')
def signature(E,a,k): return SigV(E.box(a[0]))
def contracts(src):
    mp=src.cls(M+'mixedproperty'); MP=('obj',mp); obj=('obj',src.object); out=[]
    def req(E,a): n=nparam(rd(E,'_callable',a[0])); return [('takes the class and possibly the instance',z3.Or(n==1,n==2)),('is a function',V.is_o(rd(E,'_callable',a[0])))]
    def cases(E,a,old):
        f=old.read('_callable',a[0].ad); n=nparam(f); sr=V.bv(old.read('_self_required',a[0].ad)); inst,cls=E.box(a[1]),E.box(a[2])
        return [Case('instance required, read on the class',z3.And(sr,n==2,inst==none),ensures=lambda E,a,old,r:[('is None',E.box(r)==none),('the function is not called',z3.BoolVal('call' not in E.trace))]),
            Case('the function takes the class only',n==1,ensures=lambda E,a,old,r:[('result of calling it with the class',E.box(r)==app1(f,cls)),('called once',z3.BoolVal(E.trace.count('call')==1))]),
            Case('the function takes class and instance',ensures=lambda E,a,old,r:[('result of calling it with class and instance',E.box(r)==app2(f,cls,inst)),('called once',z3.BoolVal(E.trace.count('call')==1))])]
    out.append(Contract(M+'mixedproperty.__get__',[('self',MP),('instance',('opt',obj)),('cls',('cls',src.object))],cases,requires=req))
    out.append(Contract(M+'mixedproperty.__set__',[('self',MP),('instance',obj),('value',('any',))],lambda E,a,old:[Case('assignment',raises='AttributeError')]))
    mods=lambda a:[('_self_required',a[0].ad),('_callable',a[0].ad),('__wrapped__',a[0].ad),('attr',a[0].ad)]
    def fnarg(E):
        v=z3.Const('arg_fn',V); E.fact(V.is_o(v)); return Bx(v,('fn',))
    out.append(Contract(M+'mixedproperty.__init__',[('self',MP),('function',fnarg)],lambda E,a,old:[Case('decorator without options',modifies=mods(a),
        ensures=lambda E,a,old,r:[('wraps the function',rd(E,'_callable',a[0])==E.box(a[1])),('does not require the instance',rd(E,'_self_required',a[0])==V.b(False))])],note='@mixedproperty'))
    def setup(E,a): E.srq=z3.Const('arg_sr',B); return {'self_required':E.srq}
    out.append(Contract(M+'mixedproperty.__init__',[('self',MP)],lambda E,a,old:[Case('decorator with the option',modifies=mods(a),
        ensures=lambda E,a,old,r:[('remembers whether the instance is required',rd(E,'_self_required',a[0])==V.b(E.srq))])],setup=setup,note='@mixedproperty(self_required=...)'))
    def call(E,a,old):
        return [Case('decorates',modifies=[m for m in mods(a) if m[0]!='_self_required'],ensures=lambda E,a,old,r:[('wraps the function',rd(E,'_callable',a[0])==E.box(a[1])),('is itself the property',E.box(r)==E.box(a[0]))])]
    out.append(Contract(M+'mixedproperty.__call__',[('self',MP),('callable_',fnarg)],call))
    # the metaclass
    meta=('obj',src.cls(O+'ABCLockedAttr'))
    def setcase(E,a,old):
        locked=V.sv(E.box(a[1]))==E.lit('matrix')
        return [Case('matrix',locked,raises='ValueError',ensures=None),Case('another attribute',ensures=lambda E,a,old,r:[('is assigned',z3.BoolVal('class attribute set' in E.trace))])]
    out.append(Contract(O+'ABCLockedAttr.__setattr__',[('self',meta),('attr',('str',)),('value',('any',))],setcase))
    def decl(E):
        t=time.time(); rows=[]; op=src.cls(O+'Operation'); f=O+'Operation'
        kw=[k for k in op.node.keywords if k.arg=='metaclass']
        rows.append(row('operations are made by the metaclass that locks the matrix',f,bool(kw) and src.resolve_expr(op.mod,kw[0].value) is meta[1]))
        m=src.cls(M+'mixedproperty')
        for n in('__get__','__set__'): rows.append(row(f'mixed properties define {n} (data descriptor)',M+'mixedproperty',n in m.attrs))
        for c in src.subs(op):
            if c.mod is None or 'matrix' not in c.attrs: continue
            d=c.attrs['matrix']; rows.append(row(f'{c.name}.matrix is a mixed property',f'{c.mod.name}:{c.qn}.matrix',isinstance(d,S_.Fn) and d.kind=='mixedproperty'))
        for c in src.subs(op):
            ks=[k for k in (c.node.keywords if c.node else []) if k.arg=='metaclass']
            if c is not op and ks: rows.append(row(f'{c.name} keeps the metaclass',f'{c.mod.name}:{c.qn}',False,'declares its own metaclass'))
            for n in('__setattr__',):
                if n in c.attrs and c.mod: rows.append(row(f'{c.name} does not bypass assignment',f'{c.mod.name}:{c.qn}',False,'defines __setattr__'))
        return rows,[],round(time.time()-t,2)
    c=Contract(O+'Operation',[],None,note='declarations'); c.runner=decl; out.append(c)
    return out
def load(tree):
    src=source(tree)
    FA=('fn',)
    ext={'call:inspect.signature':signature,'call:opaque':opaque_call,'len:sig':None}
    for n in('__module__','__name__','__doc__','__annotations__','__dict__'): ext['opaque:'+n]=(lambda n: lambda E,x: Bx(z3.Function('fnattr'+n,V,V)(x.v)))(n)
    E=C20(src,Types(src,{**fields(src)[0],'mixedproperty':{'_callable':('any',),'_self_required':('bool',),'__wrapped__':('any',),'attr':('any',)}},fields(src)[1]),{}, {}, {}, ext)
    return E,contracts(src),dict(trusted=['inspect.signature(f).parameters has one entry per parameter of f','a property object whose type defines __get__ and __set__ takes precedence over instance attributes (Python data descriptor protocol)','a metaclass __setattr__ intercepts every assignment to a class attribute'],
        assumptions=['decorated functions take the class, or the class and the instance','decorated functions carry no attributes of their own that clash with the ones of the property object'])
class C20(Verifier):
    def attr(s,x,a):
        if isinstance(x,SigV):
            if a=='parameters': return x
            raise Unsupported('signature.'+a)
        if isinstance(x,Bx) and x.ty[0] in('any','opaque') and 'opaque:'+a in s.extern: return s.extern['opaque:'+a](s,x)
        return super().attr(x,a)
    def length(s,x):
        if isinstance(x,SigV):
            return nparam(x.v)
        return super().length(x)
    def call(s,f,args,kw):
        if isinstance(f,Bx): return s.extern['call:opaque'](s,f,args,kw)
        return super().call(f,args,kw)
    def bi_getattr(s,a,k):
        if a[1]=='__dict__' and isinstance(a[0],Ref): return s.instattr(a[0],'__dict__')
        return super().bi_getattr(a,k)
    def prim(s,p,args,kw):
        if isinstance(p.self,DictOf) and p.name=='update': return None
        if p.name=='object.__setattr__':
            if len(args)==2 and not isinstance(args[0],str):
                s.trace.append('class attribute set'); return None
        return super().prim(p,args,kw)
    def isinst(s,x,K):
        if isinstance(x,Bx) and x.ty[0]=='fn' and isinstance(K,(Ext,Cls)) and K.name.split('.')[-1]=='Callable': return True
        return super().isinst(x,K)
