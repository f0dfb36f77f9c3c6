"""C17 IDs, C18 bits/qubits/variables, C20 mixed properties"""
from .core import *
import contextlib, copy, math, warnings, pickle
from dwave.gate.primitives import Qubit, Bit, Variable
from dwave.gate.tools.counters import IDCounter
from dwave.gate.mixedproperty import mixedproperty
from dwave.gate.operations.base import Operation
from .build_c import *

# ------------------------------------------------------------------ C17
def supply(L): return sum(math.comb(36,k) for k in range(L,37))
class counter:
    def __enter__(s): s.old=(IDCounter.length,IDCounter.batch,IDCounter._id_gen,IDCounter.id_set)
    def __exit__(s,*a): IDCounter.length,IDCounter.batch,IDCounter._id_gen,IDCounter.id_set=s.old
def drain(t,L,batch,limit):
    seen=set(); tot=supply(L)
    for k in range(min(limit,tot)):
        x=IDCounter.next(); t.ck(isinstance(x,str) and len(x)>=L,'ID',x)
        t.ck(len(set(x))==len(x),'characters of an ID are distinct',x)
        t.ck(x not in seen,f'ID handed out twice (draw {k+1})',x); seen.add(x)
    if limit>tot:
        for _ in range(3): t.raises(IDCounter.next,f'ID handed out after all {tot} were used',ValueError)
@case('C17',weight=2)
def exhaustion(t):
    r=t.r; L=r.choice([33,34,35,36,34,35,1,2]); b=r.choice([1,2,3,5,7,35,36,37,100,631,1000]); t.step('reset length',L,'batch',b)
    with counter(): IDCounter.reset(length=L,batch=b); drain(t,L,b,10**4 if L>=33 else 1500)
@case('C17',weight=2)
def lengths(t):
    """batches that end before, at and after the end of one ID length"""
    r=t.r; L=r.choice([1,1,2]); tot=math.comb(36,L); b=r.choice([tot-1,tot,tot+1,tot//2,tot*2,r.randint(1,tot+40),1,1000]); t.step('reset length',L,'batch',b)
    with counter(): IDCounter.reset(length=L,batch=max(b,1)); drain(t,L,b,tot+r.randint(1,900))
@case('C17',weight=1)
def explicit_refresh(t):
    """refresh() called between draws never repeats an ID either"""
    r=t.r; L=r.choice([1,2,3,34]); b=r.randint(1,60); t.step('reset',L,b); seen=set(); left=supply(L)
    with counter():
        IDCounter.reset(L,b)
        for _ in range(r.randint(1,60)):
            if r.random()<.3:
                try: IDCounter.refresh(); t.step('refresh')
                except ValueError: t.ck(len(seen)==left,'refresh raised before all IDs were used'); break
            for _ in range(r.randint(0,40)):
                if len(seen)==left: break
                x=IDCounter.next(); t.ck(x not in seen,'ID handed out twice',x); seen.add(x)
@case('C17',weight=1)
def objects(t):
    r=t.r
    rs=r.random()<.7     # without a reset the shared counter goes on (its state must then not be rolled back)
    with counter() if rs else contextlib.nullcontext():
        if rs: IDCounter.reset(r.choice([1,2,None]),r.choice([1,3,40,None]))
        qs=[Qubit(r.choice(['a',0,None])) for _ in range(r.randint(2,120))]; bs=[Bit(r.choice(['a',0])) for _ in range(r.randint(2,120))]; t.step(len(qs),len(bs))
        t.ck(len({x.id for x in qs+bs})==len(qs)+len(bs),'IDs distinct')
        for L in (qs,bs):
            i,j=r.sample(range(len(L)),2); t.ck(L[i]!=L[j] and not L[i]==L[j],'separately created objects compare equal',L[i],L[j]); t.ck(len(set(L))==len(L),'set of objects')

# ------------------------------------------------------------------ C18
VALS=[0,1,True,False,0.0,1.0,2,-1,'0','',None,[],[0],0j,1e-300,np.int64(0),np.int64(1),np.bool_(False),np.bool_(True),np.float64(.5)]
@case('C18',weight=3)
def bit_history(t):
    r=t.r; b=Bit(r.choice(['b',0,None,('x',1)])); val=None; h=hash(b); i=b.id
    for _ in range(r.randint(1,12)):
        x=r.random()
        if x<.2: b.reset(); val=None; t.step('reset')
        else:
            v=r.choice(VALS); f=r.random()<.4; t.step('set',repr(v),'force',f); new=1 if v else 0
            g=lambda:(b.set(v,force=f) if f or r.random()<.5 else b.set(v))
            if val is not None and not f: t.raises(g,'set a bit twice without force',ValueError)
            else: g(); val=new
        t.ck(b.value==val and (type(b.value) is int or val is None),'value',b.value,val)
        t.ck(bool(b)==(val!=0),'truth value',bool(b),val)
        for z in (0,1,2,1.0,False):
            t.ck((b==z)==(val is not None and val==z),f'bit with value {val} == {z!r}',b==z); t.ck((b!=z)==(not b==z),'!='); t.ck((z==b)==(b==z),'reflected equality')
        for z in ('0',None,[],b.id): t.ck(not b==z,'bit equals another object',z)
        c=copy.deepcopy(b); t.ck(c==b and hash(c)==hash(b) and c.value==val,'a copy is equal and has the same hash')
        t.ck(b.id==i and hash(b)==h and b==b,'id and hash never change')
@case('C18',weight=1)
def pairs(t):
    r=t.r; mk=r.choice([Qubit,Bit]); a=mk(r.choice(['a','b'])); b=mk(r.choice(['a','b'])); t.step(mk.__name__)
    if mk is Bit:
        for x in (a,b):
            if r.random()<.6: x.set(r.randint(0,1))
    t.ck(not a==b and a!=b,'different objects with different ids are equal',a,b)
    c=copy.copy(a); c.label='other'; 
    if mk is Bit: c.reset()
    t.ck(a==c and not a!=c and hash(a)==hash(c),'same ID: equal, same hash',a,c); t.ck(a in {c} and a in [c],'containers')
    o=(Bit if mk is Qubit else Qubit)('a'); o._id=a.id; t.ck(not (a==o) and not (o==a),'a qubit never equals a bit',a,o)
    for z in (a.id,a.label,None,0,1): 
        if mk is Qubit: t.ck(not a==z,'qubit equals another object',z)
@case('C18',weight=3)
def variables(t):
    r=t.r; names=['a','b','',0,'0',1,None,'1']; n=r.choice(names); v=Variable(n); val=None; h=hash(v)
    for _ in range(r.randint(1,10)):
        if r.random()<.25: v.reset(); val=None; t.step('reset')
        else: val=r.choice([0,0.0,1,-2.5,3+4j,0j,1e-300,math.pi,r.uniform(-9,9)]); v.set(val); t.step('set',val)
        t.ck((v.value is None)==(val is None) and (val is None or v.value==val),'value',v.value,val)
        for z in (0,0.0,1,0j,val if val is not None else 7,2): t.ck((v==z)==(val is not None and val==z),f'variable with value {val} == {z!r}',v==z); t.ck((v!=z)==(not v==z) and (z==v)==(v==z),'reflected')
        m=r.choice(names); w=Variable(m)
        if r.random()<.5: w.set(r.choice([0,val if val is not None else 3]))
        t.ck((v==w)==(str(n)==str(m)),f'Variable({n!r})==Variable({m!r})',v==w); t.ck((v!=w)==(not v==w),'!=')
        if str(n)==str(m): t.ck(hash(v)==hash(w),'equal variables hash equally')
        t.ck(v.name==str(n) and hash(v)==h,'name and hash'); 
        for z in (None,'zz',[]): t.ck(not v==z,'variable equals another object',z)

# ------------------------------------------------------------------ C20
def truthy(r):
    k=r.randint(0,3)
    if k==0: return {}
    if k==1: return {'__bool__':lambda s:False}
    if k==2: return {'__len__':lambda s:0}
    return {'__eq__':lambda s,o:True,'__hash__':lambda s:0}
@case('C20',weight=3)
def dispatch(t):
    r=t.r; calls=[]; two=r.random()<.6; req=r.random()<.5; res=r.choice([None,0,'x',[],object()]); bare=not req and r.random()<.5
    if two:
        def f(cls,self): calls.append((cls,self)); return res
    else:
        def f(cls): calls.append((cls,)); return res
    P=mixedproperty(f) if bare else (mixedproperty(self_required=req)(f) if req or r.random()<.5 else mixedproperty()(f))
    base=type('Base',(),dict(p=P,**truthy(r))); sub=type('Sub',(base,),truthy(r)); over=type('Over',(sub,),{'q':1})
    t.step('two' if two else 'one','parameters; self_required',req,'bare',bare)
    for _ in range(r.randint(2,8)):
        K=r.choice([base,sub,over]); calls.clear()
        if r.random()<.5:
            got=K.p; t.step('read on',K.__name__)
            if two and req: t.ck(got is None and not calls,'required instance: class access gives None',got,calls)
            else: t.ck(got is res and len(calls)==1 and calls[0][0] is K and (not two or calls[0][1] is None),'read on the class',got,[c[0].__name__ for c in calls])
        else:
            o=K(); got=o.p; t.step('read on instance of',K.__name__)
            t.ck(got is res and len(calls)==1 and calls[0][0] is K and (not two or calls[0][1] is o),'read on the instance',got,len(calls))
            t.raises(lambda:setattr(o,'p',5),'assigned on an instance',AttributeError); calls.clear(); t.ck(o.p is res and calls[0][0] is K,'after a failed assignment')
    e=ValueError('boom')
    def g(cls): raise e
    class Z: p=mixedproperty(g)
    t.ck(t.raises(lambda:Z.p,'exceptions pass through',ValueError) is e,'same exception')
@case('C20',weight=2)
def matrix_locked(t):
    r=t.r; k=r.randint(0,2)
    if k==0: cls=getattr(ops,r.choice(sorted(ref.G)+list(ref.ALIASES))); a=[ref.angle(r) for _ in range(ref.G[ref.ALIASES.get(cls.__name__,cls.__name__)][1])]
    elif k==1: cls,_=custom_single(t); a=[]
    else:
        c=Circuit(1)
        with c.context as reg: ops.X(reg.q[0])
        cls=create_operation(c); a=[]
    t.step(cls.__name__,a); o=cls(a) if a else cls(); before=cls.matrix; b2=o.matrix; old=np.array(b2)
    for v in (None,np.eye(2),0):
        t.raises(lambda:setattr(cls,'matrix',v),'matrix assigned on the class'); t.raises(lambda:setattr(o,'matrix',v),'matrix assigned on an instance',AttributeError)
    t.ck('matrix' not in vars(o),'instance attribute'); t.ck(np.array_equal(np.array(o.matrix),old),'matrix after failed assignments')
    class Sub(cls): pass
    t.raises(lambda:setattr(Sub,'matrix',None),'matrix assigned on a subclass')
    s=Sub(a) if a else Sub(); t.raises(lambda:setattr(s,'matrix',None),'matrix assigned on an instance of a subclass',AttributeError); t.ck(np.array_equal(np.array(s.matrix),old),'matrix of a subclass')
    for c2 in (Operation,ops.base.Measurement if hasattr(ops,'base') else Operation): t.raises(lambda:setattr(c2,'matrix',None),'matrix assigned on the base class')
    cls.extra=1; o.extra=2; t.ck(cls.extra==1 and o.extra==2,'other attributes stay assignable'); del cls.extra
