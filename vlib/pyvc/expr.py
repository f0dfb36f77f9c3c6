"""Expressions, builtins and library models of the symbolic interpreter."""
import ast, z3
from .eng import *
from .interp import *
from .interp import UNDEF, ALL
from . import src as S_
vrepr=z3.Function('vrepr',V,Str); sjoin=z3.Function('sjoin',Str,EL,I,Str); arith=z3.Function('arith',I,V,V,V); sup=z3.Function('slower',Str,Str)
pow2=z3.Function('pow2',I,I)
class SliceV:
    def __init__(s,lo,hi,st): s.lo=lo; s.hi=hi; s.st=st
class ClassEnvV: pass
CMP={ast.Lt:'<',ast.LtE:'<=',ast.Gt:'>',ast.GtE:'>='}

class Evaluator(Interp):
    def ev(s,e):
        m=getattr(s,'ev_'+type(e).__name__,None)
        if m is None: raise Unsupported('expression '+type(e).__name__)
        return m(e)
    def imprecise(s,why):
        """the value just made is only known up to an abstraction: counter-models on this path prove nothing"""
        if why not in s.loose: s.loose.append(why)
    # ------------------------------------------------------------ atoms
    def ev_Constant(s,e): return e.value if e.value is not Ellipsis else Opaque('...')
    def ev_Name(s,e):
        v=s.getname(e.id)
        if isinstance(v,LazyAttr): v=s.clsdefattr(v.cls.attrs[v.n],v.cls,v.n)
        return v
    def ev_Attribute(s,e): return s.attr(s.ev(e.value),e.attr)
    def ev_NamedExpr(s,e): v=s.ev(e.value); s.assign(e.target,v); return v
    def ev_Tuple(s,e): return s.display(e.elts,tuple)
    def display(s,elts,k):
        if not any(isinstance(x,ast.Starred) for x in elts): return k(s.ev(x) for x in elts)
        out=[]
        for x in elts:
            if isinstance(x,ast.Starred):
                n,at,_=s.iterview(s.ev(x.value)); n=s.concretize(n)
                if not isinstance(n,int): raise Unsupported('starred display of symbolic length')
                out+=[at(i) for i in range(n)]
            else: out.append(s.ev(x))
        return k(out)
    def ev_List(s,e): return s.newlist(s.display(e.elts,list))
    def newlist(s,vals):
        r=s.mkseq(vals,'list',s.jointy([s.typeof(v) for v in vals])); return r
    def ev_Dict(s,e):
        d=s.mkdict()
        for k,v in zip(e.keys,e.values):
            if k is None: raise Unsupported('** in a dict display')
            s.setitem(d,s.ev(k),s.ev(v))
        return d
    gen=None      # address of the ghost list that collects what the generator under verification yields
    def yielded(s,v):
        if s.gen is None: raise Unsupported('yield')
        n=s.read('$len',s.gen); s.write('$el',s.gen,z3.Store(s.read('$el',s.gen),n,s.box(v))); s.write('$len',s.gen,z3.simplify(n+1))
    def ev_Yield(s,e): s.yielded(s.ev(e.value) if e.value else None)
    def ev_YieldFrom(s,e):
        n,at,T=s.iterview(s.ev(e.value))
        if not isinstance(n,int):
            if s.branch(zi(n)<=0,'nothing to yield'): return None
            raise Unsupported('yield from a sequence of unknown length')
        for i in range(n): s.yielded(at(i))
    def ev_Set(s,e): raise Unsupported('set display')
    def ev_Lambda(s,e): return Clo(e,s.frame()['env'],s.frame()['mod'],s.frame()['cls'])
    def ev_IfExp(s,e): return s.ev(e.body) if s.test(s.ev(e.test),ast.unparse(e.test)[:60]) else s.ev(e.orelse)
    def ev_JoinedStr(s,e):
        out=[]
        for p in e.values:
            if isinstance(p,ast.Constant): out.append(p.value)
            else:
                v=s.ev(p.value)
                if p.format_spec is not None or p.conversion==97: s.imprecise('formatted text'); out.append(vstr(s.box(v)))
                elif p.conversion==114: out.append(s.reprof(v))
                else: out.append(s.strof(v))
        return s.scat(*out)
    def ev_Starred(s,e): raise Unsupported('starred')
    # ------------------------------------------------------------ types of values (for sequences that are stored)
    def typeof(s,v):
        if v is None: return ('none',)
        if isinstance(v,bool) or isz(v,B): return ('bool',)
        if isinstance(v,int) or isz(v,I): return ('int',)
        if isinstance(v,(str,StrV)) or isz(v,Str): return ('str',)
        if isinstance(v,(Cls,ClsVal)):
            return ('cls',v if isinstance(v,Cls) else (v.bound or s.src.object))
        if isinstance(v,Bx): return v.ty
        if isinstance(v,Ref):
            k=s.kindof(v)
            if k in('list','tuple'): return (k,v.el or ('any',))
            if k=='dict': return ('dict',)+tuple(v.el)
            ps=s.possible(v.ad)
            if ps: return ('obj',s.lub(ps))
        if isinstance(v,(tuple,list,Seq)):
            k='list' if isinstance(v,list) or (isinstance(v,Seq) and v.kind=='list') else 'tuple'
            if isinstance(v,Seq): return (k,v.ty or ('any',))
            return (k,s.jointy([s.typeof(x) for x in v]))
        return ('any',)
    def lub(s,ps):
        if len(ps)==1: return ps[0]
        for c in ps[0].mro():
            if all(p.sub(c) for p in ps): return c
        return s.src.object
    def jointy(s,ts):
        ts=[t for t in ts]
        if not ts: return ('any',)
        if all(t==ts[0] for t in ts): return ts[0]
        if all(t[0]=='obj' for t in ts): return ('obj',s.lub([t[1] for t in ts]))
        return ('any',)
    # ------------------------------------------------------------ truth and comparison
    def ev_BoolOp(s,e):
        for x in e.values[:-1]:
            v=s.ev(x); t=s.test(v,ast.unparse(x)[:60])
            if isinstance(e.op,ast.And) and not t: return v
            if isinstance(e.op,ast.Or) and t: return v
        return s.ev(e.values[-1])
    def ev_UnaryOp(s,e):
        v=s.ev(e.operand)
        if isinstance(e.op,ast.Not):
            t=s.truth(v); return (not t) if isinstance(t,bool) else z3.simplify(z3.Not(t))
        if isinstance(v,Bx): v=s.resolve(v)
        if isinstance(e.op,ast.USub):
            if isinstance(v,(int,float,complex)): return -v
            if isz(v,I): return -v
            if isinstance(v,Bx): s.imprecise('arithmetic'); return s.num(arith(z3.IntVal(99),v.v,none))
        if isinstance(e.op,ast.UAdd): return v
        if isinstance(e.op,ast.Invert):
            if isinstance(v,int): return ~v
        raise Unsupported('unary operator')
    def ev_Compare(s,e):
        l=s.ev(e.left); res=True
        for k,(op,r) in enumerate(zip(e.ops,e.comparators)):
            r=s.ev(r); t=s.compare(op,l,r)
            if k==len(e.ops)-1:
                return t if res is True else (s.pyb(z3.simplify(z3.And(zb(res),zb(t)))))
            # a<b<c: short circuit
            if not s.test(t): return False
            l=r
        return res
    def compare(s,op,l,r):
        if isinstance(op,ast.Is): return s.ident(l,r)
        if isinstance(op,ast.IsNot): return s.neg(s.ident(l,r))
        if isinstance(op,ast.Eq): return s.eq(l,r)
        if isinstance(op,ast.NotEq): return s.neg(s.eq(l,r))
        if isinstance(op,ast.In): return s.contains(r,l)
        if isinstance(op,ast.NotIn): return s.neg(s.contains(r,l))
        if isinstance(l,Bx): l=s.resolve(l)
        if isinstance(r,Bx): r=s.resolve(r)
        k=CMP[type(op)]
        def num(x): return z3.If(x,1,0) if isz(x,B) else x
        l,r=num(l),num(r)
        if isinstance(l,(int,float)) and isinstance(r,(int,float)): return {'<':l<r,'<=':l<=r,'>':l>r,'>=':l>=r}[k]
        if (isinstance(l,int) or isz(l,I)) and (isinstance(r,int) or isz(r,I)):
            l,r=zi(l),zi(r); return s.pyb(z3.simplify({'<':l<r,'<=':l<=r,'>':l>r,'>=':l>=r}[k]))
        if (isinstance(l,str) or isz(l,Str)) != (isinstance(r,str) or isz(r,Str)) or l is None or r is None: raise s.pyexc('TypeError','unordered')
        s.imprecise('order of opaque values'); return z3.Function('lt'+k,V,V,B)(s.box(l),s.box(r))
    def neg(s,t): return (not t) if isinstance(t,bool) else s.pyb(z3.simplify(z3.Not(t)))
    def contains(s,c,x):
        if isinstance(c,Bx): c=s.resolve(c)
        if isinstance(c,DictOf):
            if not isinstance(x,str): raise Unsupported('in __dict__')
            f,T=s.dictfield(c.x,x)
            v=s.read(f,c.x.ad)
            if T is None or T[0]!='maybe': return True
            return s.pyb(z3.simplify(v!=absent))
        if isinstance(c,KwDict): return isinstance(x,str) and x in c.d
        if isinstance(c,Prim) and c.name in('$keys','$values','$items'):
            if c.name=='$keys': return s.contains(c.self,x)
        if isinstance(c,Ref):
            k=s.kindof(c)
            if k=='dict':
                if isinstance(x,Bx): x=s.resolve(x)
                s.hashable(x); return s.pyb(z3.simplify(s.dpos(c,s.box(x))>=0))
            if k=='obj':
                m=s.lookup_opt(c,'__contains__')
                if m is not None: return s.truth(s.call(m,[x],{}))
        if isinstance(c,(str,StrV)) or isz(c,Str):
            if isinstance(c,str) and isinstance(x,str): return x in c
            s.imprecise('substring test'); return z3.Function('substr',Str,Str,B)(s.tostr(x),s.tostr(c))
        n,at,_=s.iterview(c); n=s.concretize(n)
        if isinstance(n,int):
            for i in range(n):
                y=at(i)
                if s.test(s.same_or_eq(y,x)): return True
            return False
        return s.exists(n,lambda i: s.same_or_eq(at(i),x))
    def same_or_eq(s,a,b):
        """identity first, then ==, as containers compare"""
        if isinstance(a,(Ref,Bx)) and isinstance(b,(Ref,Bx)):
            t=s.ident(a,b)
            if t is True: return True
            if t is not False and s.branch(zb(t),'same object'): return True
        return s.eq(a,b)
    def hashable(s,x):
        if isinstance(x,Ref) and s.kindof(x) in('list','dict','set'): raise s.pyexc('TypeError','unhashable')
    def exists(s,n,f):
        """some i in 0..n-1 satisfies f (f may not raise or have effects)"""
        j=s.fresh('j',I); s.keep.append(j); cnt=s.nfresh; nf=len(s.facts)
        def g():
            s.assume(z3.And(j>=0,j<zi(n))); return s.truth(f(j))
        H=dict(s.H)
        s.quiet+=1
        try: outs=s.sub(g)
        finally: s.quiet-=1
        s.quantfacts(nf,j,n); alts=[]
        for o in outs:
            if o[1]!='val': raise Unsupported('element test may raise')
            if any(not same(o[3][k],H.get(k,s.H0.get(k))) for k in o[3]): raise Unsupported('element test with effects')
            alts.append(zand(o[0]+[zb(o[2])]))
        F=zor(alts) if alts else z3.BoolVal(False)
        F=s.closed(F,cnt,j)
        return z3.Exists([j],z3.And(j>=0,j<zi(n),F))
    def forall(s,n,f):
        t=s.exists(n,lambda i: s.neg_t(f(i)))
        # not exists not -> a universal formula z3 can instantiate
        b=t.body(); return z3.Not(t)
    def neg_t(s,v):
        t=s.truth(v); return (not t) if isinstance(t,bool) else z3.Not(t)
    def concretize(s,n):
        """python int if the path fixes n"""
        if isinstance(n,int): return n
        n=z3.simplify(n)
        if z3.is_int_value(n): return n.as_long()
        k=('conc',n.get_id(),len(s.pc),len(s.facts)); 
        fs=[f for f in s.hyps() if not s.hasq(f)]
        sol=z3.Solver(); sol.set('timeout',800); sol.add(*fs,*s.litax())
        if sol.check()!=z3.sat: return n
        v=sol.model().eval(n,model_completion=True)
        if not z3.is_int_value(v) or v.as_long()>12 or v.as_long()<0: return n
        sol.add(n!=v)
        if sol.check()==z3.unsat: return v.as_long()
        return n
    # ------------------------------------------------------------ arithmetic and strings
    def num(s,v):
        s.fact(isnum(v)); s.fact(V.is_o(v)); return Bx(v,('num',))
    def ev_BinOp(s,e): return s.binop(e.op,s.ev(e.left),s.ev(e.right))
    def binop(s,op,l,r):
        if isinstance(l,Bx): l=s.resolve(l)
        if isinstance(r,Bx): r=s.resolve(r)
        k=BINOPS[type(op)]
        b2i=lambda x: z3.If(x,1,0) if isz(x,B) else (int(x) if isinstance(x,bool) else x)
        iss=lambda x: isinstance(x,(str,StrV)) or isz(x,Str)
        isn=lambda x: isinstance(x,(int,bool)) or isz(x,I) or isz(x,B)
        if isn(l) and isn(r):
            l,r=b2i(l),b2i(r)
            if isinstance(l,int) and isinstance(r,int):
                try: return {'+':lambda:l+r,'-':lambda:l-r,'*':lambda:l*r,'//':lambda:l//r,'%':lambda:l%r,'/':lambda:l/r,'**':lambda:l**r,'<<':lambda:l<<r,'>>':lambda:l>>r,'&':lambda:l&r,'|':lambda:l|r,'^':lambda:l^r}[k]()
                except ZeroDivisionError: raise s.pyexc('ZeroDivisionError')
            a,b=zi(l),zi(r)
            if k=='+': return z3.simplify(a+b)
            if k=='-': return z3.simplify(a-b)
            if k=='*' and (isinstance(l,int) or isinstance(r,int)): return z3.simplify(a*b)
            if k=='//' and isinstance(r,int) and r>0: return z3.simplify(a/b)
            if k=='%' and isinstance(r,int) and r>0: return z3.simplify(a%b)
            if k=='<<': return s.shl(l,r)
            if k=='**' and l==2: return s.shl(1,r)
            if k=='*': return a*b
            s.imprecise('arithmetic '+k); return s.num(arith(z3.IntVal(hash(k)%89),V.i(a),V.i(b)))
        if iss(l) and iss(r) and k=='+': return s.scat(l,r)
        if iss(l) and k=='%': s.imprecise('formatted text'); return z3.Function('sfmt',Str,V,Str)(s.tostr(l),s.box(r))
        isq=lambda x: isinstance(x,(tuple,list,Seq)) or (isinstance(x,Ref) and s.kindof(x) in('list','tuple'))
        if isq(l) and isq(r) and k=='+': return s.concat(l,r)
        if k=='*' and isq(l) and isn(r):
            n,at,T=s.iterview(l); n=s.concretize(n)
            if isinstance(n,int) and n==1:
                x=at(0); m=r if isinstance(r,int) else z3.If(r>0,r,0)
                kind=s.seqkind(l); sq=Seq(m,lambda i:x,s.typeof(x),kind)
                return s.mkseq(sq,'list',s.typeof(x)) if kind=='list' else sq
        for x,y,nm in((l,r,{'+':'__add__','*':'__mul__','|':'__or__','-':'__sub__','@':'__matmul__'}.get(k)),):
            if isinstance(x,Ref) and s.kindof(x)=='obj' and nm:
                m=s.lookup_opt(x,nm)
                if m is not None: return s.call(m,[y],{})
        h=s.extern.get('binop')
        if h:
            v=h(s,k,l,r)
            if v is not None: return v
        if isinstance(l,(float,complex,int)) and isinstance(r,(float,complex,int)):
            try: return {'+':lambda:l+r,'-':lambda:l-r,'*':lambda:l*r,'/':lambda:l/r,'**':lambda:l**r}[k]()
            except KeyError: pass
        if (isinstance(l,(Bx,float,complex)) or isn(l)) and (isinstance(r,(Bx,float,complex)) or isn(r)):
            s.imprecise('arithmetic on numbers'); return s.num(arith(z3.IntVal(ord(k[0])),s.box(l),s.box(r)))
        if l is None or r is None or (iss(l) != iss(r)): raise s.pyexc('TypeError','operands')
        raise Unsupported(f'operator {k} on {l!r} and {r!r}')
    def shl(s,l,r):
        """l << r through the function pow2 (pow2(0)=1, pow2(k+1)=2 pow2(k))"""
        r=zi(r); p=pow2(r); s.fact(z3.Implies(r>=0,p>=1)); s.fact(pow2(z3.IntVal(0))==1); s.fact(z3.Implies(r>=0,pow2(r+1)==2*p)); s.fact(z3.Implies(r>=1,z3.And(p==2*pow2(r-1),pow2(r-1)>=1)))
        if s.branch(r<0,'negative shift'): raise s.pyexc('ValueError','negative shift')
        if isinstance(l,int) and l>0 and l&(l-1)==0:
            q=z3.simplify(r+(l.bit_length()-1)); x=pow2(q); s.fact(x==l*p); s.fact(x>=1); return x
        return z3.simplify(zi(l)*p)
    def seqkind(s,x):
        if isinstance(x,list) or (isinstance(x,Seq) and x.kind=='list') or (isinstance(x,Ref) and s.kindof(x)=='list'): return 'list'
        return 'tuple'
    def concat(s,a,b):
        na,ata,ta=s.iterview(a); nb,atb,tb=s.iterview(b); kind=s.seqkind(a)
        if kind!=s.seqkind(b): raise s.pyexc('TypeError','concatenate')
        if isinstance(na,int) and isinstance(nb,int):
            v=[ata(i) for i in range(na)]+[atb(i) for i in range(nb)]
            return s.newlist(v) if kind=='list' else tuple(v)
        n=z3.simplify(zi(na)+zi(nb)); T=s.jointy([t for t in(ta,tb) if t])
        aa=s.seqarr(Seq(na,ata,ta)); ab=s.seqarr(Seq(nb,atb,tb))
        r=s.alloc(s.kinds[kind],T); arr=s.fresh('els',EL); j=s.fresh('j',I); s.keep.append(j)
        s.fact(z3.ForAll([j],z3.Implies(z3.And(j>=0,j<n),z3.Select(arr,j)==z3.If(j<zi(na),z3.Select(aa,j),z3.Select(ab,j-zi(na)))),patterns=[z3.Select(arr,j)]))
        s.write('$len',r.ad,n); s.write('$el',r.ad,arr); return r
    def strof(s,v):
        """str(v)"""
        if isinstance(v,(str,StrV)) or isz(v,Str): return v
        if isinstance(v,bool): return str(v)
        if isinstance(v,int): return str(v)
        if isz(v,I): s.istrfacts(v); return istr(v)
        if isinstance(v,Bx):
            # the text of a value of unknown kind
            b=v.v; t=vstr(b); s.fact(z3.Implies(V.is_s(b),t==V.sv(b))); s.fact(z3.Implies(V.is_i(b),t==istr(V.iv(b)))); return t
        if isinstance(v,EnumV): return f'{v.cls.name}.{v.name}'
        s.assumed.add('str() and repr() of library objects have no effect')
        return vstr(s.box(v))
    def istrfacts(s,v): s.fact(z3.Function('unistr',Str,I)(istr(v))==v)
    def reprof(s,v):
        if isinstance(v,int) or isz(v,I): return s.strof(v)
        if isinstance(v,str): return repr(v)
        return vrepr(s.box(v))
    # ------------------------------------------------------------ subscripts
    def evidx(s,sl):
        if isinstance(sl,ast.Slice): return SliceV(*(s.ev(x) if x is not None else None for x in(sl.lower,sl.upper,sl.step)))
        return s.ev(sl)
    def ev_Slice(s,e): return s.evidx(e)
    def ev_Subscript(s,e):
        b=s.ev(e.value); return s.getitem(b,s.evidx(e.slice))
    def normidx(s,i,n):
        """index term of a python index, raising IndexError"""
        if isinstance(i,Bx): i=s.resolve(i)
        if i is None or isinstance(i,(str,float)): raise s.pyexc('TypeError','index')
        if isz(i,B) or isinstance(i,bool): i=z3.If(i,1,0) if isz(i,B) else int(i)
        if not(isinstance(i,int) or isz(i,I)): raise Unsupported(f'index {i!r}')
        if isinstance(i,int) and isinstance(n,int):
            if -n<=i<n: return i%n if n else i
            raise s.pyexc('IndexError')
        if isinstance(i,int) and i<0: j=z3.simplify(zi(n)+i); ok=j>=0
        elif isinstance(i,int): j=i; ok=zi(i)<zi(n)
        else:
            if not s.branch(z3.And(zi(i)>=-zi(n),zi(i)<zi(n)),'index in range'): raise s.pyexc('IndexError')
            if s.branch(zi(i)>=0,'index >= 0'): return i
            return z3.simplify(zi(n)+zi(i))
        if not s.branch(ok,'index in range'): raise s.pyexc('IndexError')
        return j
    def getitem(s,b,i):
        if isinstance(b,Bx): b=s.resolve(b)
        if b is None: raise s.pyexc('TypeError','not subscriptable')
        if isinstance(b,(Cls,Ext)): return b            # generic alias
        if isinstance(b,KwDict):
            if i in b.d: return b.d[i]
            raise s.pyexc('KeyError')
        if isinstance(b,DictOf):
            c,v=i,s.attr(b.x,i) if not isinstance(i,str) else None
            raise Unsupported('__dict__ item')
        if isinstance(i,SliceV): return s.slice_(b,i)
        if isinstance(b,Ref):
            k=s.kindof(b)
            if k=='dict':
                if isinstance(i,Bx): i=s.resolve(i)
                s.hashable(i)
                if s.branch(s.dpos(b,s.box(i))<0,'key missing'): raise s.pyexc('KeyError')
                return s.unbox(s.dget(b,s.box(i)),b.el[1])
            if k=='obj':
                m=s.lookup_opt(b,'__getitem__')
                if m is not None: return s.call(m,[i],{})
                raise Unsupported('subscript of an object')
        if isinstance(b,str) and isinstance(i,int):
            try: return b[i]
            except IndexError: raise s.pyexc('IndexError')
        if isinstance(b,StrV) or isz(b,Str): s.imprecise('character of a string'); return z3.Function('charat',Str,I,Str)(s.tostr(b),zi(i))
        h=s.extern.get('getitem')
        if h:
            v=h(s,b,i)
            if v is not None: return v
        n,at,_=s.iterview(b); j=s.normidx(i,n); return at(j)
    def slice_(s,b,sl):
        if isinstance(b,str) and all(x is None or isinstance(x,int) for x in(sl.lo,sl.hi,sl.st)): return b[slice(sl.lo,sl.hi,sl.st)]
        if isinstance(b,Ref) and s.kindof(b)=='obj':
            m=s.lookup_opt(b,'__getitem__')
            if m is not None: return s.call(m,[sl],{})
        if isinstance(b,StrV) or isz(b,Str):
            s.imprecise('slice of a string'); return z3.Function('sslice',Str,V,V,Str)(s.tostr(b),s.box(sl.lo),s.box(sl.hi))
        n,at,T=s.iterview(b)
        if sl.st is not None and not(isinstance(sl.st,int) and sl.st==1):
            if isinstance(n,int) and all(x is None or isinstance(x,int) for x in(sl.lo,sl.hi,sl.st)):
                ix=list(range(n))[slice(sl.lo,sl.hi,sl.st)]; lo=None
                v=[at(i) for i in ix]; return s.newlist(v) if s.seqkind(b)=='list' else tuple(v)
            if isinstance(sl.st,int) and sl.st==-1 and sl.lo is None and sl.hi is None:
                nn=zi(n); return s.mkslice(b,nn,lambda i: at(z3.simplify(nn-1-zi(i))),T)
            raise Unsupported('slice step')
        lo=s.clampidx(sl.lo,n,0); hi=s.clampidx(sl.hi,n,n)
        if isinstance(lo,int) and isinstance(hi,int):
            v=[at(i) for i in range(lo,hi)]
            if isinstance(n,int): return s.newlist(v) if s.seqkind(b)=='list' else tuple(v)
        m=z3.simplify(z3.If(zi(hi)>zi(lo),zi(hi)-zi(lo),0)); m=s.pyi(m)
        m=s.concretize(m)
        if isinstance(m,int):
            v=[at(z3.simplify(zi(lo)+k) if not isinstance(lo,int) else lo+k) for k in range(m)]
            return s.newlist(v) if s.seqkind(b)=='list' else tuple(v)
        return s.mkslice(b,m,lambda i: at(z3.simplify(zi(lo)+zi(i))),T)
    def mkslice(s,b,m,f,T):
        if isinstance(b,Ref):
            src=s.read('$el',b.ad)
        q=Seq(m,f,T,s.seqkind(b)); return s.mkseq(q,s.seqkind(b),T)
    def clampidx(s,i,n,d):
        if isinstance(i,Bx): i=s.resolve(i)
        if i is None: return d
        if not(isinstance(i,int) or isz(i,I)): raise s.pyexc('TypeError','slice index')
        if isinstance(i,int) and isinstance(n,int): return max(0,min(n,i+n if i<0 else i))
        a,m=zi(i),zi(n)
        a=z3.If(a<0,a+m,a); return z3.simplify(z3.If(a<0,0,z3.If(a>m,m,a)))
    def setitem(s,b,i,v):
        if isinstance(b,Bx): b=s.resolve(b)
        if isinstance(b,Ref):
            k=s.kindof(b)
            if k=='list':
                if isinstance(i,SliceV): raise Unsupported('slice assignment')
                j=s.normidx(i,s.length(b)); s.storeel(b,j,v); return
            if k=='dict':
                if isinstance(i,Bx): i=s.resolve(i)
                s.hashable(i); kv=s.box(i); vv=s.box(s.coerce(v,b.el[1] if b.el else ('any',)))
                s.elemtype(b,kv,b.el[0],'key'); s.elemtype(b,vv,b.el[1],'value')
                s.dset(b,kv,vv)
                b.el=(b.el[0],b.el[1]); return
            if k=='obj':
                m=s.lookup_opt(b,'__setitem__')
                if m is not None: return s.call(m,[i,v],{})
        h=s.extern.get('setitem')
        if h and h(s,b,i,v): return
        raise Unsupported('item assignment to '+repr(b))
    def elemtype(s,b,v,T,what):
        """the declared element type of a list/dict is an invariant"""
        if T[0]=='any': return
        f=z3.simplify(s.tyfact(v,T,False))
        if not z3.is_true(f): s.typeob(f'{what} has the declared element type',f)
    def storeel(s,b,j,v):
        x=s.box(s.coerce(v,b.el or ('any',))); s.elemtype(b,x,b.el or ('any',),'element')
        s.write('$el',b.ad,z3.Store(s.read('$el',b.ad),zi(j),x))
    def delitem(s,b,i):
        if isinstance(b,Bx): b=s.resolve(b)
        if isinstance(b,Ref) and s.kindof(b)=='list':
            j=s.normidx(i,s.length(b)); s.delel(b,j); return
        if isinstance(b,Ref) and s.kindof(b)=='dict': raise Unsupported('del dict item')
        raise Unsupported('del item')
    def delel(s,b,j):
        a=s.read('$el',b.ad); n=s.read('$len',b.ad); arr=s.fresh('els',EL); k=s.fresh('j',I); s.keep.append(k)
        s.fact(z3.ForAll([k],z3.Implies(z3.And(k>=0,k<n-1),z3.Select(arr,k)==z3.If(k<zi(j),z3.Select(a,k),z3.Select(a,k+1))),patterns=[z3.Select(arr,k)]))
        s.write('$el',b.ad,arr); s.write('$len',b.ad,z3.simplify(n-1))
    # ------------------------------------------------------------ comprehensions
    def ev_ListComp(s,e): 
        q=s.comp(e,e.elt,e.generators,'list')
        return s.mkseq(q,'list',q.ty if isinstance(q,Seq) else s.jointy([s.typeof(v) for v in q]))
    def ev_GeneratorExp(s,e): return s.comp(e,e.elt,e.generators,'generator')
    def ev_SetComp(s,e): raise Unsupported('set comprehension')
    def ev_DictComp(s,e):
        d=s.mkdict(); q=s.comp(e,ast.Tuple([e.key,e.value],ast.Load()),e.generators,'list',concrete=True)
        for k,v in q: s.setitem(d,k,v)
        return d
    def comp(s,node,elt,gens,kind,concrete=False):
        fr=s.frame(); spec=s.loops.get((fr['qual'],'comp',s.compnum(node)))
        it=s.ev(gens[0].iter); n,at,_=s.iterview(it); n=s.concretize(n)
        env={'$up':fr['env']}
        def inenv(f):
            fr2=dict(fr); fr2['env']=env; s.frames.append(fr2)
            try: return f()
            finally: s.frames.pop()
        if isinstance(spec,LoopSpec):
            if gens[0].ifs or len(gens)>1: raise Unsupported('filtered comprehension with an invariant')
            return s.compinv(spec,n,at,lambda i: inenv(lambda: (s.assign(gens[0].target,at(i)), s.ev(elt))[1]),kind)
        if spec: return spec(s,node,n,at,lambda i: inenv(lambda: (s.assign(gens[0].target,at(i)), s.ev(elt))[1]))
        if isinstance(n,int) or len(gens)>1:
            if not isinstance(n,int): raise Unsupported('nested comprehension over symbolic sequences')
            out=[]
            def run(k,n,at):
                g=gens[k]
                for i in range(n):
                    s.assign(g.target,at(i))
                    ok=True
                    for c in g.ifs:
                        if not s.test(s.ev(c)): ok=False; break
                    if not ok: continue
                    if k+1<len(gens):
                        n2,at2,_=s.iterview(s.ev(gens[k+1].iter)); n2=s.concretize(n2)
                        if not isinstance(n2,int): raise Unsupported('nested comprehension over a symbolic sequence')
                        run(k+1,n2,at2)
                    else: out.append(s.ev(elt))
            inenv(lambda: run(0,n,at))
            return out if kind=='list' else Seq(len(out),(lambda i,o=out: o[i] if isinstance(i,int) else s.pick(o,i)),s.jointy([s.typeof(v) for v in out]),kind)
        if concrete: raise Unsupported('dict comprehension over a symbolic sequence')
        g=gens[0]
        if g.ifs: raise Unsupported('filtered comprehension over a symbolic sequence')
        def elem(i): return inenv(lambda: (s.assign(g.target,at(i)), s.ev(elt))[1])
        return s.pointwise(elem,n,'list' if kind=='list' else kind)
    def compinv(s,spec,n,at,elem,kind):
        """comprehension whose elements have effects: a loop that appends to L.acc"""
        fr=s.frame(); name=f'{fr["qual"].split(":")[-1]} comprehension'; L=Loop(); L.n=zi(n); L.H0=dict(s.H); L.env=fr['env']; L.at=at; L.env0=dict(fr['env']); L.A0=s.now(); L.old=Old(s,L.H0); L.it=None
        L.acc=s.fresh('acc',EL); L.i=z3.IntVal(0); s.fact(L.n>=0)
        for nm,f in spec.inv(s,L): s.prove(f'{name}: {nm} (entry)',f,kind='invariant')
        c=s.choose(2); mods=spec.modifies(s,L) if spec.modifies else []
        if spec.allocates: s.bump()
        for f,ad in mods:
            if ad is ALL: s.havocall(f)
            else: s.havoc(f,ad)
        L.acc=s.fresh('acc',EL); T=spec.kinds or ('any',)
        if c==0:
            L.i=L.n
            for nm,f in spec.inv(s,L): s.assume(f)
            if not s.sat([]): raise PathEnd()
            acc=L.acc; return Seq(n,lambda i: s.unbox(z3.simplify(z3.Select(acc,zi(i))),T),T,kind)
        i=s.fresh('it',I); s.assume(z3.And(i>=0,i<L.n)); L.i=i
        for nm,f in spec.inv(s,L): s.assume(f)
        if not s.sat([]): raise PathEnd()
        s.branchlog.append(name+' iteration'); Hit=dict(s.H); Ait=s.now(); v=elem(i)
        L.acc=z3.Store(L.acc,i,s.box(v)); L.i=z3.simplify(i+1)
        for nm,f in spec.inv(s,L): s.prove(f'{name}: {nm} (preserved)',f,kind='invariant')
        s.checkframe(Hit,mods,Ait,name,kind='invariant'); raise PathEnd()
    def pointwise(s,elem,n,kind):
        """[elem(i) for i in range(n)] for symbolic n: the elements are evaluated now; the first one that raises, if any,
        ends the evaluation"""
        arr=s.fresh('els',EL); j=s.fresh('j',I); s.keep.append(j); cnt=s.nfresh; nf=len(s.facts); H=dict(s.H); tys=[]
        def g():
            s.assume(z3.And(j>=0,j<zi(n))); v=elem(j); tys.append(s.typeof(v)); return s.box(v)
        s.quiet+=1
        try: outs=s.sub(g)
        finally: s.quiet-=1
        s.quantfacts(nf,j,n)
        for o in outs:
            for k in o[3]:
                if not same(o[3][k],H.get(k,s.H0.get(k))): raise Unsupported('comprehension element with effects on '+k)
            if len(o[4])!=len(s.trace): raise Unsupported('comprehension element with effects')
        good=[o for o in outs if o[1]=='val']; bad=[o for o in outs if o[1]!='val']
        if any(o[1]!='raise' for o in bad): raise Unsupported('control flow in an element')
        T=s.jointy(tys) if tys else ('any',)
        def rel(hi):
            alts=[s.closed(zand(o[0]+[z3.Select(arr,j)==o[2]]),cnt,j) for o in good]
            F=zor(alts) if alts else z3.BoolVal(False)
            return z3.ForAll([j],z3.Implies(z3.And(j>=0,j<zi(hi)),F),patterns=[z3.Select(arr,j)])
        if bad:
            c=s.choose(2)
            if c==1:
                k=s.fresh('k',I); s.assume(z3.And(k>=0,k<zi(n))); s.assume(rel(k))
                if not s.sat([]): raise PathEnd()
                s.branchlog.append('first element that raises'); elem(k); raise PathEnd()
        if len(good)==1 and not bad and z3.is_true(z3.simplify(zand([c for c in good[0][0] if not s.isrange(c,j)]))) and not s.closedvars(good[0][2],cnt,j):
            s.fact(z3.ForAll([j],z3.Implies(z3.And(j>=0,j<zi(n)),z3.Select(arr,j)==good[0][2]),patterns=[z3.Select(arr,j)]))
        else: s.assume(rel(n))
        return Seq(n,lambda i: s.unbox(z3.simplify(z3.Select(arr,zi(i))),T),T,kind)
    def isrange(s,c,j): return z3.is_and(c) and c.num_args()==2 and str(c).startswith(f'And({j} >= 0')
    def closedvars(s,t,cnt,j):
        f=s.closed(t==t if not z3.is_bool(t) else t,cnt,j) if False else None
        st=[t]; seen=set()
        while st:
            x=st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind()==z3.Z3_OP_UNINTERPRETED and '!' in x.decl().name():
                try: k=int(x.decl().name().rsplit('!',1)[1])
                except ValueError: k=0
                if k>cnt and not x.eq(j): return True
            st.extend(x.children())
        return False
    def compnum(s,node):
        fr=s.frame(); body=fr.get('node')
        if body is None: return None
        cs=[c for c in ast.walk(body) if isinstance(c,(ast.ListComp,ast.GeneratorExp,ast.DictComp,ast.SetComp))]
        cs.sort(key=lambda c:(c.lineno,c.col_offset))
        for i,c in enumerate(cs):
            if c is node: return i
    # ------------------------------------------------------------ calls
    def ev_Call(s,e):
        f=e.func
        if isinstance(f,ast.Name) and f.id in('super','isinstance','issubclass','hasattr','locals') and s.isbuiltin(f.id):
            return getattr(s,'sp_'+f.id)(e)
        fv=s.ev(f)
        if isinstance(fv,Ext) and fv.name=='warnings.warn':
            s.assumed.add('building the text of an error or warning message has no effect and does not fail'); s.warned(); return None
        args=[]; 
        for a in e.args:
            if isinstance(a,ast.Starred):
                v=s.ev(a.value); n,at,_=s.iterview(v); n=s.concretize(n)
                if not isinstance(n,int): raise Unsupported('*args of symbolic length')
                args+=[at(i) for i in range(n)]
            else: args.append(s.ev(a))
        kw={}
        for k in e.keywords:
            if k.arg is None:
                v=s.ev(k.value)
                if isinstance(v,KwDict): kw.update(v.d)
                else: raise Unsupported('** argument')
            else: kw[k.arg]=s.ev(k.value)
        return s.call(fv,args,kw)
    def warned(s): s.trace.append('warning') if s.track_warnings else None
    def isbuiltin(s,n):
        e=s.frame()['env']
        while e is not None:
            if n in e: return False
            e=e.get('$up')
        return s.src.resolve(s.frame()['mod'],n) is None
    def sp_super(s,e):
        if e.args:
            c=s.ev(e.args[0]); o=s.ev(e.args[1]); return SuperV(c.cls if isinstance(c,LClass) else c,o)
        fr=s.frame()
        if fr['cls'] is None: raise Unsupported('super() outside of a class')
        first=fr.get('args')
        node=fr.get('node'); nm=node.args.args[0].arg
        return SuperV(fr['cls'],fr['env'][nm])
    def sp_isinstance(s,e): return s.isinst(s.ev(e.args[0]),s.ev(e.args[1]))
    def sp_issubclass(s,e): raise Unsupported('issubclass')
    def sp_hasattr(s,e):
        x=s.ev(e.args[0]); a=s.ev(e.args[1])
        if not isinstance(a,str): raise Unsupported('hasattr with a symbolic name')
        return s.hasattr_(x,a)
    def hasattr_(s,x,a):
        if isinstance(x,Bx): x=s.resolve(x)
        try: s.attr(x,a); return True
        except PyRaise as e:
            if e.cls.sub(s.src.classes['AttributeError']): return False
            raise
    def callext(s,f,args,kw):
        n=f.name; n=n[9:] if n.startswith('builtins.') else n
        h=s.extern.get('call:'+n)
        if h: return h(s,args,kw)
        m=getattr(s,'bi_'+n.replace('.','_'),None)
        if m: return m(args,kw)
        raise Unsupported('call of external '+n)
    # builtins
    def bi_len(s,a,k): return s.length(a[0])
    def bi_getattr(s,a,k):
        if not isinstance(a[1],str): raise Unsupported('getattr with a symbolic name')
        x=a[0]
        if isinstance(x,Bx): x=s.resolve(x)
        if len(a)<3: return s.attr(x,a[1])
        try: return s.attr(x,a[1])
        except PyRaise as e:
            if e.cls.sub(s.src.classes['AttributeError']): return a[2]
            raise
    def bi_setattr(s,a,k): s.setattr_(a[0],a[1],a[2])
    def bi_any(s,a,k): return s.anyall(a[0],True)
    def bi_all(s,a,k): return s.anyall(a[0],False)
    def anyall(s,x,isany):
        n,at,_=s.iterview(x); n=s.concretize(n)
        if isinstance(n,int):
            for i in range(n):
                if s.test(at(i))==isany: return isany
            return not isany
        t=s.exists(n,(lambda i: s.truth(at(i))) if isany else (lambda i: s.neg_t(at(i))))
        return t if isany else z3.Not(t)
    def bi_typing_NamedTuple(s,a,k):
        n,at,_=s.iterview(a[1]); n=s.concretize(n); fs=[]
        for i in range(n):
            m,at2,_=s.iterview(at(i)); x=at2(0)
            if isinstance(x,Bx): x=s.const_of(x.v,('str',))
            x=s.litname(x)
            if not isinstance(x,str): raise Unsupported('field name')
            fs.append(x)
        return NT(a[0],fs)
    def litname(s,x):
        if isinstance(x,str): return x
        v=z3.simplify(s.box(x))
        for k,c in s.lits.items():
            if z3.simplify(V.s(c)).eq(v): return k
        return x
    def bi_repr(s,a,k): return s.reprof(a[0])
    def bi_id(s,a,k): return s.box(a[0]) and V.ad(s.box(a[0]))
    def bi_hash(s,a,k):
        x=a[0]
        if isinstance(x,Bx): x=s.resolve(x)
        if isinstance(x,Ref):
            if s.kindof(x)=='obj':
                m=s.lookup_opt(x,'__hash__')
                if m is not None: return s.call(m,[],{})
                return vhash(s.box(x))
            if s.kindof(x)=='tuple': return vhash(s.box(x))
            raise s.pyexc('TypeError','unhashable')
        if isinstance(x,(str,StrV)) or isz(x,Str): return shash(s.tostr(x))
        return vhash(s.box(x))
    def bi_callable(s,a,k): raise Unsupported('callable')
    def bi_id(s,a,k): return V.ad(s.box(a[0]))
    def bi_print(s,a,k): return None
    def bi_iter(s,a,k):
        n,at,T=s.iterview(a[0]); return Seq(n,at,T,'iterator')
    def bi_enumerate(s,a,k):
        n,at,T=s.iterview(a[0]); st=a[1] if len(a)>1 else k.get('start',0)
        return Seq(n,lambda i: (i if isinstance(st,int) and st==0 else z3.simplify(zi(i)+zi(st)) if not(isinstance(i,int) and isinstance(st,int)) else i+st,at(i)),None,'iterator')
    def bi_zip(s,a,k):
        vs=[s.iterview(x) for x in a]
        ns=[v[0] for v in vs]
        if not vs: return Seq(0,lambda i:(),None,'iterator')
        if all(isinstance(n,int) for n in ns): n=min(ns)
        else:
            n=zi(ns[0])
            for m in ns[1:]: n=z3.If(zi(m)<n,zi(m),n)
            n=s.pyi(z3.simplify(n)); n=s.concretize(n)
        return Seq(n,lambda i: tuple(v[1](i) for v in vs),None,'iterator')
    def bi_reversed(s,a,k):
        n,at,T=s.iterview(a[0]); return Seq(n,(lambda i: at(n-1-i)) if isinstance(n,int) else (lambda i: at(z3.simplify(zi(n)-1-zi(i)))),T,'iterator')
    def bi_map(s,a,k):
        f=a[0]; n,at,T=s.iterview(a[1]); n=s.concretize(n)
        if isinstance(n,int):
            v=[s.call(f,[at(i)],{}) for i in range(n)]; return Seq(n,lambda i: v[i],None,'iterator')
        return s.pointwise(lambda i: s.call(f,[at(i)],{}),n,'iterator')
    def bi_max(s,a,k): return s.minmax(a,k,True)
    def bi_min(s,a,k): return s.minmax(a,k,False)
    def minmax(s,a,k,mx):
        if k: raise Unsupported('max with keywords')
        if len(a)==1:
            n,at,T=s.iterview(a[0]); n=s.concretize(n)
            if not isinstance(n,int):
                # the largest element: an upper bound that occurs
                if s.branch(zi(n)==0,'empty'): raise s.pyexc('ValueError','empty')
                arr=s.seqarr(Seq(n,at,T)); m=s.fresh('max',I); p=s.fresh('pm',I); j=s.fresh('j',I); s.keep.append(j)
                if not T or T[0]!='int': raise Unsupported('max of non-integers')
                e=z3.Select(arr,j); s.assume(z3.And(p>=0,p<zi(n),V.iv(z3.Select(arr,p))==m))
                s.assume(z3.ForAll([j],z3.Implies(z3.And(j>=0,j<zi(n)),V.iv(e)<=m if mx else V.iv(e)>=m),patterns=[e])); return m
            vals=[at(i) for i in range(n)]
            if not vals: raise s.pyexc('ValueError','empty')
        else: vals=list(a)
        r=vals[0]
        for v in vals[1:]:
            if isinstance(r,Bx): r=s.resolve(r)
            if isinstance(v,Bx): v=s.resolve(v)
            if isinstance(r,int) and isinstance(v,int): r=max(r,v) if mx else min(r,v); continue
            if not all(isinstance(x,int) or isz(x,I) for x in(r,v)): raise Unsupported('max of non-integers')
            r=z3.simplify(z3.If((zi(v)>zi(r)) if mx else (zi(v)<zi(r)),zi(v),zi(r)))
        return r
    def bi_sum(s,a,k):
        n,at,T=s.iterview(a[0]); n=s.concretize(n)
        if not isinstance(n,int): raise Unsupported('sum over a symbolic sequence')
        r=a[1] if len(a)>1 else 0
        for i in range(n): r=s.binop(ast.Add(),r,at(i))
        return r
    def bi_round(s,a,k):
        if isinstance(a[0],int) or isz(a[0],I): return a[0]
        raise Unsupported('round')
    def bi_abs(s,a,k):
        x=a[0]
        if isinstance(x,Bx): x=s.resolve(x)
        if isinstance(x,int): return abs(x)
        if isz(x,I): return z3.If(x<0,-x,x)
        raise Unsupported('abs')
    def bi_sorted(s,a,k): raise Unsupported('sorted')
    def bi_next(s,a,k): raise Unsupported('next')
    def bi_copy_copy(s,a,k):
        x=a[0]
        if isinstance(x,Ref) and s.kindof(x)=='obj':
            m=s.lookup_opt(x,'__copy__')
            if m is not None: return s.call(m,[],{})
        raise Unsupported('copy.copy')
    def bi_itertools_chain_from_iterable(s,a,k):
        n,at,_=s.iterview(a[0]); n=s.concretize(n)
        if not isinstance(n,int): raise Unsupported('chain over a symbolic number of sequences')
        out=None
        for i in range(n):
            x=at(i); x=s.resolve(x) if isinstance(x,Bx) else x
            m,at2,T=s.iterview(x); q=Seq(m,at2,T,'tuple')
            if isinstance(m,int): q=tuple(at2(j) for j in range(m))
            out=q if out is None else s.concat(out if not(isinstance(out,tuple) and not out) else q,q) if not(isinstance(out,tuple) and not out) else q
        if out is None: out=()
        return out
    def bi_itertools_chain(s,a,k): return s.bi_itertools_chain_from_iterable([tuple(a)],k)
    def bi_chain_from_iterable(s,a,k): return s.bi_itertools_chain_from_iterable(a,k)
    # constructors of builtin classes
    def new_type(s,a,k):
        if len(a)!=1: raise Unsupported('type()')
        x=a[0]
        if isinstance(x,Bx): x=s.resolve(x)
        if isinstance(x,Ref): return s.attr(x,'__class__')
        if isinstance(x,bool) or isz(x,B): return s.src.classes['bool']
        if isinstance(x,int) or isz(x,I): return s.src.classes['int']
        if isinstance(x,(str,StrV)) or isz(x,Str): return s.src.classes['str']
        return Opaque('type')
    def new_bool(s,a,k): return s.truth(a[0]) if a else False
    def new_int(s,a,k):
        if not a: return 0
        x=a[0]
        if isinstance(x,Bx): x=s.resolve(x)
        if isinstance(x,bool): return int(x)
        if isz(x,B): return z3.simplify(z3.If(x,1,0))
        if isinstance(x,int) or isz(x,I): return x
        if isinstance(x,str):
            try: return int(x)
            except ValueError: raise s.pyexc('ValueError')
        if isinstance(x,Bx):
            s.imprecise('int() of a number'); v=z3.Function('toint',V,I)(x.v); return v
        raise Unsupported('int of '+repr(x))
    def new_float(s,a,k):
        h=s.extern.get('call:float')
        if h: return h(s,a,k)
        raise Unsupported('float()')
    def new_str(s,a,k):
        if not a: return ''
        x=a[0]
        if isinstance(x,Bx): x=s.resolve(x) if x.ty[0]!='any' else x
        if isinstance(x,Ref) and s.kindof(x)=='obj':
            m=s.lookup_opt(x,'__str__')
            if m is not None and s.deep_str: return s.call(m,[],{})
        return s.strof(x)
    def new_object(s,a,k): return s.alloc(s.src.object)
    def new_list(s,a,k):
        if not a: return s.newlist([])
        n,at,T=s.iterview(a[0])
        x=a[0]
        if isinstance(x,Bx): x=s.resolve(x)
        if isinstance(x,Ref) and s.kindof(x) in('list','tuple'): return s.mkseq(x,'list',T)
        n=s.concretize(n)
        if isinstance(n,int):
            v=[at(i) for i in range(n)]; return s.mkseq(v,'list',T or s.jointy([s.typeof(y) for y in v]))
        return s.mkseq(Seq(n,at,T,'list'),'list',T)
    def new_tuple(s,a,k):
        if not a: return ()
        x=a[0]
        if isinstance(x,Bx): x=s.resolve(x)
        if isinstance(x,tuple): return x
        if isinstance(x,Ref) and s.kindof(x)=='tuple': return x
        n,at,T=s.iterview(x)
        if isinstance(x,Ref) and s.kindof(x)=='list':
            if isinstance(n,int): return tuple(at(i) for i in range(n))
            return s.mkseq(x,'tuple',T)
        n=s.concretize(n)
        if isinstance(n,int): return tuple(at(i) for i in range(n))
        return s.mkseq(Seq(n,at,T,'tuple'),'tuple',T)
    def new_dict(s,a,k):
        d=s.mkdict()
        if a:
            x=a[0]
            if isinstance(x,Bx): x=s.resolve(x)
            if isinstance(x,Ref) and s.kindof(x)=='dict':
                d.el=x.el
                for f in('$dn','$dk','$dv','$dp'): s.write(f,d.ad,s.read(f,x.ad))
                s.types_dwf(s,x)
            elif isinstance(x,Seq) or isinstance(x,(list,tuple)):
                n,at,_=s.iterview(x)
                if not isinstance(n,int): return s.dictfrom(d,n,at)
                for i in range(n):
                    p=at(i); m,at2,_=s.iterview(p); s.setitem(d,at2(0),at2(1))
            else: raise Unsupported('dict()')
        for kk,v in k.items(): s.setitem(d,kk,v)
        return d
    def types_dwf(s,E,d): s.dwf(d)
    def dictfrom(s,d,n,at):
        """dict(pairs) for a symbolic number of pairs: the value of a key is the one of its last occurrence; the keys are kept in
        order of their first occurrence"""
        kk=s.fresh('j',I); s.keep.append(kk); tys=[]
        def key(i):
            k=at(i)[0]; s.hashable(k); tys.append((s.typeof(k),s.typeof(at(i)[1]))); return k
        ka=s.seqarr(Seq(n,key)); va=s.seqarr(Seq(n,lambda i: at(i)[1])); n=zi(n)
        last=z3.Const(f'last!{s.nfresh}',KI); s.nfresh+=1
        j=s.fresh('j',I); s.keep.append(j); K=z3.Const('kq',Key)
        # last[key] = greatest position with that key, -1 if none
        s.fact(z3.ForAll([j],z3.Implies(z3.And(j>=0,j<n),z3.Select(last,canon(z3.Select(ka,j)))>=j),patterns=[z3.Select(ka,j)]))
        s.fact(z3.ForAll([K],z3.And(z3.Select(last,K)>=-1,z3.Select(last,K)<n,z3.Implies(z3.Select(last,K)>=0,canon(z3.Select(ka,z3.Select(last,K)))==K)),patterns=[z3.Select(last,K)]))
        dn,dk,dp,dv=s.fresh('dn',I),s.fresh('dk',EL),s.fresh('dp',KI),s.fresh('dv',KA)
        s.fact(z3.And(dn>=0,dn<=n))
        s.fact(z3.ForAll([K],z3.And(z3.Select(dp,K)>=-1,z3.Select(dp,K)<dn,(z3.Select(dp,K)>=0)==(z3.Select(last,K)>=0),z3.Implies(z3.Select(last,K)>=0,z3.Select(dv,K)==z3.Select(va,z3.Select(last,K)))),patterns=[z3.Select(dp,K)]))
        s.fact(z3.ForAll([K],z3.Implies(z3.Select(last,K)>=0,z3.Select(dv,K)==z3.Select(va,z3.Select(last,K))),patterns=[z3.Select(dv,K)]))
        s.write('$dn',d.ad,dn); s.write('$dk',d.ad,dk); s.write('$dp',d.ad,dp); s.write('$dv',d.ad,dv)
        if tys: d.el=(s.jointy([t[0] for t in tys]),s.jointy([t[1] for t in tys]))
        d.ghost=(ka,va,last,n); return d
    def new_set(s,a,k): raise Unsupported('set()')
    def new_range(s,a,k):
        a=[s.resolve(x) if isinstance(x,Bx) else x for x in a]
        a=[(int(x) if isinstance(x,bool) else z3.If(x,1,0) if isz(x,B) else x) for x in a]
        for x in a:
            if not(isinstance(x,int) or isz(x,I)): raise s.pyexc('TypeError','range')
        lo,hi,st=(0,a[0],1) if len(a)==1 else (a[0],a[1],1) if len(a)==2 else a
        if isinstance(lo,int) and isinstance(hi,int) and isinstance(st,int):
            r=range(lo,hi,st); q=Seq(len(r),lambda i: r[i] if isinstance(i,int) else z3.simplify(lo+st*zi(i)),('int',),'range')
        elif isinstance(st,int) and st==1:
            n=s.pyi(z3.simplify(z3.If(zi(hi)>zi(lo),zi(hi)-zi(lo),0)))
            q=Seq(n,lambda i: s.pyi(z3.simplify(zi(lo)+zi(i))),('int',),'range')
        else:
            q=None; h=s.extern.get('range')
            if not h and isinstance(st,int) and st!=0:
                lo_,hi_,a_=zi(lo),zi(hi),abs(st); gap=hi_-lo_ if st>0 else lo_-hi_
                n=s.pyi(z3.simplify(z3.If(gap>0,(gap+a_-1)/a_,0))); q=Seq(n,lambda i: s.pyi(z3.simplify(zi(lo)+st*zi(i))),('int',),'range')
            if h: q=h(s,lo,hi,st)
            if q is None: raise Unsupported('range with a symbolic step')
        q.rng=(lo,hi,st); return q
    def new_slice(s,a,k): return SliceV(*((None,a[0],None) if len(a)==1 else (a[0],a[1],a[2] if len(a)>2 else None)))
    # ------------------------------------------------------------ methods of builtin values
    def dictfield(s,x,a):
        ps=s.possible(x.ad); o,d=ps[0].find(a)
        f='@'+a if isinstance(d,Fn) and d.kind=='cached_property' else a
        return f,s.types.field(ps[0],f)
    def prim(s,p,args,kw):
        x=p.self; n=p.name
        if n=='object.__init__': 
            if args or kw: raise s.pyexc('TypeError','object() takes no arguments')
            return None
        if n=='object.__setattr__': s.setattr_(x,args[0],args[1]); return None
        if isinstance(x,DictOf):
            if n=='pop' and isinstance(args[0],str):
                f,T=s.dictfield(x.x,args[0]); v=s.read(f,x.x.ad)
                if T is None or T[0]!='maybe': raise Unsupported('__dict__.pop')
                if s.branch(v==absent,args[0]+' absent'):
                    if len(args)>1: return args[1]
                    raise s.pyexc('KeyError')
                s.write(f,x.x.ad,absent); return s.unbox(v,T[1])
            raise Unsupported('__dict__.'+n)
        if isinstance(x,KwDict):
            if n=='pop':
                if args[0] in x.d: return x.d.pop(args[0])
                if len(args)>1: return args[1]
                raise s.pyexc('KeyError')
            if n=='get': return x.d.get(args[0],args[1] if len(args)>1 else None)
            raise Unsupported('kwargs.'+n)
        if isinstance(x,Ref):
            k=s.kindof(x); m=getattr(s,f'{k}_{n}',None)
            if m: return m(x,args,kw)
            raise Unsupported(f'{k}.{n}')
        if isinstance(x,(str,StrV)) or isz(x,Str): return s.strmeth(x,n,args,kw)
        if isinstance(x,(tuple,list,Seq)):
            if n=='index': return s.seqindex(x,args[0])
            if n=='count' : raise Unsupported('tuple.count')
        if n=='bit_length' and isinstance(x,int): return x.bit_length()
        h=s.extern.get('method:'+n)
        if h: return h(s,x,args,kw)
        raise Unsupported(f'method {n} of {x!r}')
    def seqindex(s,x,v):
        n,at,_=s.iterview(x); n=s.concretize(n)
        if isinstance(n,int):
            for i in range(n):
                if s.test(s.same_or_eq(at(i),v)): return i
            raise s.pyexc('ValueError','not in list')
        # first index whose element equals v
        j=s.fresh('j',I); s.keep.append(j); cnt=s.nfresh; nf=len(s.facts); H=dict(s.H)
        def g():
            s.assume(z3.And(j>=0,j<zi(n))); return s.truth(s.same_or_eq(at(j),v))
        s.quiet+=1
        try: outs=s.sub(g)
        finally: s.quiet-=1
        s.quantfacts(nf,j,n); neg=[]
        for o in outs:
            if o[1]!='val': raise Unsupported('comparison of elements may raise')
            if any(not same(o[3][k],H.get(k,s.H0.get(k))) for k in o[3]): raise Unsupported('comparison with effects')
            neg.append(s.closed(zand(o[0]+[z3.Not(zb(o[2]))]),cnt,j))
        NE=zor(neg)
        none_before=lambda hi: z3.ForAll([j],z3.Implies(z3.And(j>=0,j<zi(hi)),NE))
        c=s.choose(2)
        if c==1:
            s.assume(none_before(n))
            if not s.sat([]): raise PathEnd()
            raise s.pyexc('ValueError','not in list')
        k=s.fresh('k',I); s.assume(z3.And(k>=0,k<zi(n))); s.assume(none_before(k))
        if not s.test(s.same_or_eq(at(k),v)): raise PathEnd()
        return k
    def list_append(s,x,a,k):
        n=s.length(x); v=s.box(s.coerce(a[0],x.el or ('any',))); s.elemtype(x,v,x.el or ('any',),'element')
        s.write('$el',x.ad,z3.Store(s.read('$el',x.ad),zi(n),v)); s.write('$len',x.ad,z3.simplify(zi(n)+1))
    def list_extend(s,x,a,k):
        m,at,T=s.iterview(a[0]); m=s.concretize(m)
        if isinstance(m,int):
            vs=[at(i) for i in range(m)]
            for v in vs: s.list_append(x,[v],{})
            return
        r=s.concat(x,s.mkseq(Seq(m,at,T,'list'),'list',T))
        if x.el and x.el[0]!='any' and T!=x.el: raise Unsupported('extend changes the element type')
        s.write('$el',x.ad,s.read('$el',r.ad)); s.write('$len',x.ad,s.read('$len',r.ad))
    def list_clear(s,x,a,k): s.write('$len',x.ad,z3.IntVal(0))
    def list_copy(s,x,a,k): return s.mkseq(x,'list',x.el)
    def list_index(s,x,a,k): return s.seqindex(x,a[0])
    def tuple_index(s,x,a,k): return s.seqindex(x,a[0])
    def list_pop(s,x,a,k):
        n=s.length(x); j=s.normidx(a[0] if a else -1,n); v=s.unbox(s.elem(x,j),x.el or ('any',)); 
        if not a: s.write('$len',x.ad,z3.simplify(zi(n)-1))
        else: s.delel(x,j)
        return v
    def list_insert(s,x,a,k):
        n=zi(s.length(x)); i=s.clampidx(a[0],n,0); v=s.box(s.coerce(a[1],x.el or ('any',))); s.elemtype(x,v,x.el or ('any',),'element')
        old=s.read('$el',x.ad); arr=s.fresh('els',EL); q=s.fresh('j',I); s.keep.append(q)
        s.fact(z3.ForAll([q],z3.Implies(z3.And(q>=0,q<=n),z3.Select(arr,q)==z3.If(q<zi(i),z3.Select(old,q),z3.If(q==zi(i),v,z3.Select(old,q-1)))),patterns=[z3.Select(arr,q)]))
        s.write('$el',x.ad,arr); s.write('$len',x.ad,z3.simplify(n+1))
    def list_remove(s,x,a,k): s.delel(x,s.seqindex(x,a[0]))
    def dict_get(s,x,a,k):
        key=s.resolve(a[0]) if isinstance(a[0],Bx) else a[0]; s.hashable(key)
        if s.branch(s.dpos(x,s.box(key))<0,'key missing'): return a[1] if len(a)>1 else None
        return s.unbox(s.dget(x,s.box(key)),x.el[1])
    def dict_keys(s,x,a,k): return s.dictseq(x,lambda i: s.unbox(s.dkey(x,i),x.el[0]),x.el[0])
    def dictseq(s,x,f,T): return Seq(s.length(x),f,T,'view')
    def dict_values(s,x,a,k):
        return s.dictseq(x,lambda i: s.unbox(s.dget(x,s.dkey(x,i)),x.el[1]),x.el[1])
    def dict_items(s,x,a,k):
        return s.dictseq(x,lambda i: (s.unbox(s.dkey(x,i),x.el[0]),s.unbox(s.dget(x,s.dkey(x,i)),x.el[1])),None)
    def dict_clear(s,x,a,k):
        s.write('$dn',x.ad,z3.IntVal(0)); s.write('$dp',x.ad,z3.K(Key,z3.IntVal(-1)))
    def dict_copy(s,x,a,k): return s.new_dict([x],{})
    def dict_pop(s,x,a,k):
        key=s.resolve(a[0]) if isinstance(a[0],Bx) else a[0]; s.hashable(key); kv=s.box(key); p=s.dpos(x,kv)
        if s.branch(p<0,'key missing'):
            if len(a)>1: return a[1]
            raise s.pyexc('KeyError')
        v=s.unbox(s.dget(x,kv),x.el[1]); n=s.read('$dn',x.ad)
        # the key leaves; later keys move up
        dk,dp=s.read('$dk',x.ad),s.read('$dp',x.ad); nk,np_=s.fresh('dk',EL),s.fresh('dp',KI); j=s.fresh('j',I); s.keep.append(j); K=z3.Const('kq',Key); ck=s.canonk(kv)
        s.fact(z3.ForAll([j],z3.Implies(z3.And(j>=0,j<n-1),z3.Select(nk,j)==z3.If(j<p,z3.Select(dk,j),z3.Select(dk,j+1))),patterns=[z3.Select(nk,j)]))
        s.fact(z3.ForAll([K],z3.Select(np_,K)==z3.If(K==ck,-1,z3.If(z3.Select(dp,K)>p,z3.Select(dp,K)-1,z3.Select(dp,K))),patterns=[z3.Select(np_,K)]))
        s.write('$dk',x.ad,nk); s.write('$dp',x.ad,np_); s.write('$dn',x.ad,z3.simplify(n-1)); return v
    def dict_update(s,x,a,k):
        y=a[0]
        if isinstance(y,Bx): y=s.resolve(y)
        if isinstance(y,Ref) and s.kindof(y)=='dict':
            # into an empty dictionary: a copy
            n=z3.simplify(s.read('$dn',x.ad))
            if z3.is_int_value(n) and n.as_long()==0:
                for f in('$dn','$dk','$dv','$dp'): s.write(f,x.ad,s.read(f,y.ad))
                return
        raise Unsupported('dict.update')
    def dict_setdefault(s,x,a,k):
        key=s.resolve(a[0]) if isinstance(a[0],Bx) else a[0]
        if s.branch(s.dpos(x,s.box(key))<0,'key missing'):
            v=a[1] if len(a)>1 else None; s.setitem(x,key,v); return v
        return s.unbox(s.dget(x,s.box(key)),x.el[1])
    def strmeth(s,x,n,a,k):
        if isinstance(x,str) and all(isinstance(y,(str,int,tuple)) for y in a) and not k and n in('lower','upper','strip','split','startswith','endswith','replace','join','format','isdigit','lstrip','rstrip'):
            if n=='join' and a and isinstance(a[0],tuple) and not all(isinstance(y,str) for y in a[0]): pass
            else:
                try: return getattr(x,n)(*a)
                except Exception as e: raise Unsupported('str.'+n)
        if n=='join':
            m,at,_=s.iterview(a[0]); m=s.concretize(m)
            if isinstance(m,int):
                out=[]
                for i in range(m):
                    if i: out.append(x)
                    v=at(i)
                    if isinstance(v,Bx): v=s.resolve(v)
                    if not(isinstance(v,(str,StrV)) or isz(v,Str)): raise s.pyexc('TypeError','join')
                    out.append(v)
                return s.scat(*out)
            return sjoin(s.tostr(x),s.seqarr(Seq(m,at)),zi(m))
        if n in('lower','upper','strip','lstrip','rstrip') and not a:
            return z3.Function('s'+n,Str,Str)(s.tostr(x))
        if n in('startswith','endswith','isdigit'): s.imprecise('string test'); return z3.Function('s'+n,Str,V,B)(s.tostr(x),s.box(a[0]) if a else none)
        if n=='format': s.imprecise('formatted text'); return z3.Function('sformat',Str,V,Str)(s.tostr(x),s.box(a[0]) if a else none)
        s.imprecise('str.'+n)
        raise Unsupported('str.'+n)
