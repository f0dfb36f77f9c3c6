from .core import *
import copy
from dwave.gate.primitives import Qubit, Bit, Variable
from dwave.gate.registers.registers import Register, QuantumRegister, ClassicalRegister, SelfIncrementingRegister
def same_item(a,b): return a is b or (isinstance(a,(int,str)) and type(a)==type(b) and a==b)
def items(t):
    r=t.r; kind=r.choice(['qubit','bit','var','int','str','mix','mix','intbit','smallint'])
    L=[]
    def one():
        k=r.choice(['qubit','bit','var','int','str']) if kind=='mix' else r.choice(['int','bit']) if kind=='intbit' else kind
        if k=='qubit': return Qubit(r.choice(['a','q0',0,str(r.randint(0,3))]))
        if k=='bit':
            b=Bit(r.choice(['a','c0',1])); x=r.random()
            if x<.6: b.set(r.randint(0,1))
            return b
        if k=='var':
            v=Variable(r.choice('abcdefgh')+str(r.randint(0,30)))
            if r.random()<.5: v.set(r.choice([0,1,2,3,0.5,1.0]))
            return v
        if k=='smallint': return r.randint(0,7)
        if k=='int': return r.choice([r.randint(-3,9),r.randint(-100,100),r.randint(0,5)])
        return r.choice(['','0','1','a','b','ab',str(r.randint(0,9)),'q%d'%r.randint(0,5)])
    for _ in range(r.randint(1,12)):
        x=one()
        # a value a user cannot tell apart from another item (0 == Bit with value 0) is still a different item
        L.append(x)
    return kind,L
def dup(m,x):
    """x denotes an item already present: the same object / equal id, name, integer or string"""
    for y in m:
        if type(x)==type(y) and x==y: return True
    return False
def mixclash(m,x):
    return any(type(x)!=type(y) and (isinstance(x,(int,float)) or isinstance(y,(int,float)) or isinstance(x,str) or isinstance(y,str)) and hash(x)==hash(y) for y in m)
def check(t,reg,m,extra=()):
    r=t.r
    t.eq(len(reg),len(m),'len')
    L=list(reg); t.ck(len(L)==len(m) and all(same_item(a,b) for a,b in zip(L,m)),'iteration',L,m)
    D=reg.data; t.ck(len(D)==len(m) and all(same_item(a,b) for a,b in zip(D,m)),'data',D,m)
    for i in range(-len(m),len(m)): t.ck(same_item(reg[i],m[i]),f'item at index {i}',reg[i],m[i])
    inc=isinstance(reg,SelfIncrementingRegister)
    for i in (-len(m)-1,-len(m)-3)+(() if inc else (len(m),len(m)+2)): t.raises(lambda:reg[i],f'index {i} out of range',IndexError)
    for i,x in enumerate(m):
        t.ck(x in reg,'membership of an item',x); t.eq(reg.index(x),i,f'position of {x!r}')
    for x in extra:
        if not dup(m,x): t.ck((x in reg)==False,'membership of an absent item',x,m); t.raises(lambda:reg.index(x),f'position of the absent {x!r}',ValueError)
    if not inc:
        for _ in range(3):
            f=lambda:r.choice([None,None,r.randint(-len(m)-2,len(m)+2)]); st=r.choice([None,1,1,2,3,-1,-1,-2])
            sl=slice(f(),f(),st); w=m[sl]
            s=reg[sl]; L=list(s); t.ck(len(L)==len(w) and all(same_item(a,b) for a,b in zip(L,w)),f'{sl}',L,w); t.eq(len(s),len(w),f'length of {sl}')
            for i,x in enumerate(w): t.eq(s.index(x),i,f'position in the slice {sl}')
    rv=list(reversed(reg)); t.ck(all(same_item(a,b) for a,b in zip(rv,m[::-1])) and len(rv)==len(m),'reversed',rv)
def extras(t,m):
    e=[Qubit('z'),Bit('z'),'zz','0','5',-7,0,1,len(m),len(m)+1,1000,Variable('zz')]
    b=Bit('v'); b.set(t.r.randint(0,1)); e.append(b)
    return [x for x in e if not mixclash(m,x) or not isinstance(x,(int,str))]
@case('C08',5)
def histories(t):
    r=t.r; cls=r.choice([Register,Register,QuantumRegister,ClassicalRegister]); pool=[]
    kind,L=items(t)
    if cls is QuantumRegister: L=[Qubit(str(i)) for i in range(len(L))]
    if cls is ClassicalRegister:
        L=[Bit(str(i)) for i in range(len(L))]
        for b in L:
            if r.random()<.6: b.set(r.randint(0,1))
    regs=[]  # (register, model, frozen)
    m=[]
    if r.random()<.5:
        for x in L[:r.randint(0,len(L))]:
            if not dup(m,x): m.append(x)
        src=r.choice([list,tuple,iter])(m); t.step(cls.__name__,'from',m); regs.append([cls(src) if m else cls(),list(m),False])
    else: regs.append([cls(),[],False]); t.step(cls.__name__+'()')
    for _ in range(r.randint(1,12)):
        k=r.randrange(len(regs)); reg,m,fr=regs[k]; op=r.choice(['add','add','add','many','dup','freeze','copy','plus','plusself','ctor','value','addreg'])
        t.step('reg',k,op)
        if op in('add','many','dup','addreg'):
            xs=[r.choice(L) for _ in range(1 if op in('add',) else r.randint(1,4))]
            if op=='dup' and m: xs=[r.choice(m)]
            if op=='addreg':
                xs=list(regs[r.randrange(len(regs))][1])
            t.step(xs)
            new=list(m); bad=fr
            for x in xs:
                if fr: break
                if dup(new,x): bad=True; break
                new.append(x)
            if len(xs)==1 and op!='addreg' and r.random()<.6: arg=xs[0]
            elif op=='addreg':
                arg=cls(xs) if xs else cls()
            else: arg=r.choice([list,tuple])(xs)
            if bad:
                old=list(m); t.raises(lambda:reg.add(arg),'adding to a frozen register' if fr else 'adding an item that is present')
                cur=list(reg)
                if fr: t.ck(len(cur)==len(old) and all(same_item(a,b) for a,b in zip(cur,old)),'frozen register changed',cur,old)
                else:
                    # the items before the offending one may or may not have been added
                    t.ck(len(old)<=len(cur)<=len(new) and all(same_item(a,b) for a,b in zip(cur,new)),'register after a rejected addition',cur,old,xs)
                    regs[k][1]=cur
            else: reg.add(arg); regs[k][1]=new
        elif op=='freeze' and r.random()<.4: reg.freeze(); regs[k][2]=True; t.ck(reg.frozen is True,'frozen')
        elif op=='copy':
            c=r.choice([copy.copy,lambda x:x.copy()])(reg); t.ck(c.frozen is False,'copy is unfrozen'); t.ck(type(c) is type(reg),'type of the copy'); regs.append([c,list(m),False])
        elif op in('plus','plusself'):
            j=r.randrange(len(regs)) if op=='plus' else k; o,om,of=regs[j]
            if any(dup(m,x) for x in om):
                t.raises(lambda:reg+o,'adding registers that share items')
            else:
                c=reg+o; t.ck(c.frozen is False,'sum is unfrozen'); t.ck(c is not reg and c is not o,'the sum is a new register'); regs.append([c,m+om,False])
        elif op=='ctor': regs.append([cls(reg),list(m),False]); t.ck(regs[-1][0].frozen is False,'register made from a register is unfrozen')
        elif op=='value':
            for x in L:
                if isinstance(x,Bit) and r.random()<.5: x.reset() if r.random()<.3 else x.set(r.randint(0,1),force=True)
                elif isinstance(x,Variable) and r.random()<.3: x.set(r.choice([0,1,2.5]))
        regs=regs[-5:]
        for R in regs: t.ck(R[0].frozen is R[2],'frozen flag',R[0].frozen,R[2]); 
        for R in (regs if r.random()<.3 else [regs[r.randrange(len(regs))],regs[-1]]): check(t,R[0],R[1],extras(t,R[1]))
@case('C08',2)
def integers(t):
    """integer items: positions, labels and implicit storage must not be confused"""
    r=t.r; m=[]; reg=Register()
    if r.random()<.3: k=r.randint(1,6); reg=Register(range(k)); m=list(range(k)); t.step('range',k)
    for _ in range(r.randint(1,10)):
        x=r.choice([len(m),len(m)+1,len(m)-1,r.randint(0,8),r.randint(-4,12),r.choice([10**9,-10**12])]); t.step('add',x)
        if x in m: t.raises(lambda:reg.add(x),'adding a present integer',ValueError)
        else: reg.add(x); m.append(x)
        check(t,reg,m,[y for y in range(-5,14)])
@case('C08',2)
def self_incrementing(t):
    r=t.r; m=[]; reg=SelfIncrementingRegister(); fr=False
    if r.random()<.3: m=[Variable(x) for x in r.sample(['a','b','x1'],r.randint(1,3))]; reg=SelfIncrementingRegister(list(m)); t.step('from',m)
    for _ in range(r.randint(1,8)):
        op=r.choice(['get','get','get','freeze','add','copy']); i=r.randint(-len(m)-1,len(m)+4)
        if op=='get':
            t.step('index',i)
            if i<-len(m) or (i>=len(m) and fr): t.raises(lambda:reg[i],'index outside',IndexError)
            else:
                v=reg[i]; new=list(reg); t.ck(len(new)==max(len(m),i+1),'length after indexing past the end',len(new)); t.same(new[:len(m)],m,'old variables kept')
                for j in range(len(m),len(new)): t.ck(isinstance(new[j],Variable) and new[j].name==str(j) and new[j].value is None,f'fresh variable {j}',new[j])
                m=new; t.ck(v is m[i],'returned variable',v)
        elif op=='freeze' and r.random()<.4: reg.freeze(); fr=True; t.step('freeze')
        elif op=='add':
            v=Variable('n%d'%r.randint(0,20)); t.step('add',v.name)
            if fr or any(x.name==v.name for x in m): t.raises(lambda:reg.add(v),'add to frozen or duplicate')
            else: reg.add(v); m.append(v)
        elif op=='copy':
            c=reg.copy(); t.ck(c.frozen is False,'copy unfrozen'); t.same(list(c),m,'copy'); c[len(m)]; t.same(list(reg),m,'original after the copy grew'); t.ck(len(c)==len(m)+1,'copy grew'); t.step('copy')
        check(t,reg,m,extras(t,m))
