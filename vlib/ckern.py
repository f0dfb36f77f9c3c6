"""T1: deductive verification of the generated C++ simulation kernels.

Input : ops.h generated from /repo's current operation_generation.py, parsed by clang (JSON AST, all implicit
        conversions explicit).  Index arithmetic is interpreted over 64/32-bit vectors with the C++ promotions,
        amplitudes over mathematical complex numbers.
Output: named obligations per kernel (see the bottom of verify_kernel).
"""
import json, os, subprocess, tempfile, time
from fractions import Fraction
import z3
from .oblig import Oblig, prove

class Unsupported(Exception): pass

PRELUDE='''#include <cstdint>
#include <complex>
#include <complex.h>
#include <algorithm>
#include <cmath>
#include <utility>
#include <numeric>
#include <cstring>
#include <cstdlib>
#include <limits>
namespace vkern {
#include "%s"
}
'''
def parse(ops_h):
    d=tempfile.mkdtemp(prefix='vkern')
    try:
        tu=os.path.join(d,'tu.cpp')
        open(tu,'w').write(PRELUDE%os.path.abspath(ops_h))
        p=subprocess.run(['clang++','-std=c++17','-Xclang','-ast-dump=json','-Xclang','-ast-dump-filter=vkern','-fsyntax-only',tu],
                         capture_output=True,text=True,timeout=120)
        if p.returncode!=0: raise Unsupported('clang: '+p.stderr[:300])
        s=p.stdout; dec=json.JSONDecoder(); out={}; i=s.find('{')
        while i>=0:
            o,e=dec.raw_decode(s,i)
            if o.get('kind')=='NamespaceDecl' and o.get('name')=='vkern':
                stack=list(o.get('inner',[]))
                for x in stack:
                    if x['kind']=='FunctionDecl' and any(c.get('kind')=='CompoundStmt' for c in x.get('inner',[])): out[x['name']]=x
            i=s.find('{',e)
        return out
    finally:
        import shutil; shutil.rmtree(d,ignore_errors=True)

# ---------------------------------------------------------------- values
class IntV:      # bit-vector value with its C type
    __slots__=('bv','w','signed')
    def __init__(s,bv,w,signed): s.bv=bv; s.w=w; s.signed=signed
class BoolV:
    __slots__=('b',)
    def __init__(s,b): s.b=b
class RealV:
    __slots__=('r',)
    def __init__(s,r): s.r=r
class CxV:
    __slots__=('re','im')
    def __init__(s,re,im): s.re=re; s.im=im
class PtrV:      # pointer into a named buffer
    __slots__=('buf','off')
    def __init__(s,buf,off): s.buf=buf; s.off=off
class ArrV:      # fixed-size local array of IntV
    __slots__=('els',)
    def __init__(s,els): s.els=els
class NullV: pass

def itype(q):
    q=q.replace('const ','').strip()
    return {'int':(32,True),'unsigned int':(32,False),'uint64_t':(64,False),'unsigned long':(64,False),'long':(64,True),
            'int64_t':(64,True),'unsigned long long':(64,False),'long long':(64,True),'size_t':(64,False),'std::size_t':(64,False),
            'uint32_t':(32,False),'int32_t':(32,True),'uint_fast64_t':(64,False)}.get(q)

def const_of(e):
    e=z3.simplify(e)
    return e.as_long() if z3.is_bv_value(e) else None

class Kern:
    """symbolic interpreter for one kernel"""
    def __init__(self,funcs,name,spec):
        self.funcs=funcs; self.name=name; self.spec=spec
        self.obs=[]; self.n_ub=0
    def ob(self,name,hyps,goal,kind='vc'):
        o=Oblig(f'{self.name}.{name}',self.name,list(hyps),goal,kind); self.obs.append(o); return o
    # ---- expressions
    def ev(self,x,env):
        k=x['kind']; inner=x.get('inner',[])
        if k in('ParenExpr','ExprWithCleanups','MaterializeTemporaryExpr','CXXBindTemporaryExpr','ConstantExpr'):
            return self.ev(inner[0],env)
        if k in('ImplicitCastExpr','CStyleCastExpr','CXXStaticCastExpr','CXXFunctionalCastExpr'):
            return self.cast(x,self.ev(inner[0],env),env)
        if k=='IntegerLiteral':
            w,s=itype(x['type']['qualType']); return IntV(z3.BitVecVal(int(x['value']),w),w,s)
        if k=='FloatingLiteral':
            return RealV(self.lit(x['value']))
        if k=='CXXBoolLiteralExpr': return BoolV(z3.BoolVal(bool(x['value'])))
        if k=='CXXNullPtrLiteralExpr' or k=='GNUNullExpr': return NullV()
        if k=='DeclRefExpr':
            i=x['referencedDecl']['id']
            if i in env['v']: return env['v'][i]
            raise Unsupported('reference to '+x['referencedDecl'].get('name','?'))
        if k=='ArraySubscriptExpr':
            base=self.ev(inner[0],env); idx=self.ev(inner[1],env)
            return self.load(base,idx,env)
        if k=='UnaryOperator':
            op=x['opcode']
            if op=='*':
                return self.load(self.ev(inner[0],env),IntV(z3.BitVecVal(0,64),64,False),env)
            v=self.ev(inner[0],env) if op not in('++','--') else None
            if op=='~': return IntV(~v.bv,v.w,v.signed)
            if op=='-':
                if isinstance(v,IntV): return IntV(-v.bv,v.w,v.signed)
                if isinstance(v,RealV): return RealV(-v.r)
            if op=='+': return v
            if op=='!': return BoolV(z3.Not(self.truth(v)))
            if op in('++','--'):
                old=self.ev(inner[0],env); new=IntV(old.bv+(1 if op=='++' else -1),old.w,old.signed)
                self.store(inner[0],new,env)
                return old if x.get('isPostfix') else new
            raise Unsupported('unary '+op)
        if k=='BinaryOperator':
            op=x['opcode']
            if op=='=':
                v=self.ev(inner[1],env); self.store(inner[0],v,env); return v
            if op==',':
                self.ev(inner[0],env); return self.ev(inner[1],env)
            if op in('&&','||'):
                a=self.truth(self.ev(inner[0],env)); b=self.truth(self.ev(inner[1],env))
                return BoolV(z3.And(a,b) if op=='&&' else z3.Or(a,b))
            return self.binop(op,self.ev(inner[0],env),self.ev(inner[1],env),env)
        if k=='CompoundAssignOperator':
            op=x['opcode'][:-1]
            a=self.ev(inner[0],env); b=self.ev(inner[1],env)
            ct=x.get('computeLHSType',{}).get('qualType')
            t=itype(ct) if ct else None
            if isinstance(a,IntV) and t: a=self.conv(a,*t)
            r=self.binop(op,a,b,env)
            if isinstance(r,IntV):
                t2=itype(x['type']['qualType'])
                if t2: r=self.conv(r,*t2)
            self.store(inner[0],r,env); return r
        if k=='ConditionalOperator':
            c=self.truth(self.ev(inner[0],env)); a=self.ev(inner[1],env); b=self.ev(inner[2],env)
            return self.ite(c,a,b)
        if k=='CXXConstructExpr' or k=='CXXTemporaryObjectExpr':
            q=x['type']['qualType']
            if 'complex<double>' in q:
                args=[self.ev(a,env) for a in inner if a.get('kind')!='CXXDefaultArgExpr']
                if not args: return CxV(z3.RealVal(0),z3.RealVal(0))
                if len(args)==1: return self.tocx(args[0])
                return CxV(self.toreal(args[0]),self.toreal(args[1]))
            raise Unsupported('construct '+q)
        if k=='CXXOperatorCallExpr':
            f=self.callee(inner[0]); args=inner[1:]
            if f=='operator=':
                v=self.tocx(self.ev(args[1],env)); self.store(args[0],v,env); return v
            if f in('operator+=','operator-=','operator*=','operator/='):
                a=self.ev(args[0],env); b=self.ev(args[1],env)
                v=self.binop(f[8],a,b,env); self.store(args[0],self.tocx(v),env); return v
            if f in('operator+','operator-','operator*','operator/'):
                vs=[self.ev(a,env) for a in args]
                if len(vs)==1:
                    c=self.tocx(vs[0]); return c if f=='operator+' else CxV(-c.re,-c.im)
                return self.binop(f[8],vs[0],vs[1],env)
            raise Unsupported('operator '+f)
        if k=='CXXMemberCallExpr':
            me=inner[0]
            if me['kind']=='MemberExpr' and me.get('name') in('real','imag') and len(inner)==1:
                c=self.tocx(self.ev(me['inner'][0],env)); return RealV(c.re if me['name']=='real' else c.im)
            raise Unsupported('member call '+str(me.get('name')))
        if k=='CallExpr': return self.call(x,env)
        if k=='InitListExpr':
            return ArrV([self.ev(a,env) for a in inner])
        if k=='CXXDefaultArgExpr': raise Unsupported('default arg')
        raise Unsupported('expression '+k)
    def callee(self,x):
        while x['kind']!='DeclRefExpr': x=x['inner'][0]
        return x['referencedDecl']['name']
    def lit(self,v):
        f=float(v)
        # identify literals with the exact constants of the specification (tolerance 1e-12)
        for c,term in self.spec.get('consts',[]):
            if abs(f-c)<=1e-12: return term
            if abs(f+c)<=1e-12: return -term
        fr=Fraction(f); return z3.Q(fr.numerator,fr.denominator)
    def truth(self,v):
        if isinstance(v,BoolV): return v.b
        if isinstance(v,IntV): return v.bv!=0
        raise Unsupported('truth')
    def conv(self,v,w,signed):
        if v.w==w: return IntV(v.bv,w,signed)
        if v.w<w: return IntV(z3.SignExt(w-v.w,v.bv) if v.signed else z3.ZeroExt(w-v.w,v.bv),w,signed)
        return IntV(z3.Extract(w-1,0,v.bv),w,signed)
    def cast(self,x,v,env):
        ck=x.get('castKind'); q=x['type']['qualType']
        if ck in('LValueToRValue','NoOp','FunctionToPointerDecay','ArrayToPointerDecay','ConstructorConversion','UncheckedDerivedToBase'):
            if ck=='ArrayToPointerDecay' and isinstance(v,ArrV): return v
            return v
        if ck=='IntegralCast':
            t=itype(q)
            if t is None: raise Unsupported('cast to '+q)
            if isinstance(v,BoolV): return IntV(z3.If(v.b,z3.BitVecVal(1,t[0]),z3.BitVecVal(0,t[0])),t[0],t[1])
            return self.conv(v,*t)
        if ck=='IntegralToBoolean': return BoolV(v.bv!=0)
        if ck=='IntegralToFloating':
            c=const_of(v.bv)
            if c is not None:
                if v.signed and c>=1<<(v.w-1): c-=1<<v.w
                return RealV(z3.RealVal(c))
            return RealV(z3.ToReal(z3.BV2Int(v.bv,v.signed)))
        if ck in('FloatingCast',): return v
        if ck=='NullToPointer': return NullV()
        raise Unsupported('cast '+str(ck))
    def tocx(self,v):
        if isinstance(v,CxV): return v
        if isinstance(v,RealV): return CxV(v.r,z3.RealVal(0))
        if isinstance(v,IntV):
            c=const_of(v.bv)
            if c is not None: return CxV(z3.RealVal(c),z3.RealVal(0))
        raise Unsupported('to complex')
    def toreal(self,v):
        if isinstance(v,RealV): return v.r
        c=self.tocx(v); return c.re
    def ite(self,c,a,b):
        if isinstance(a,IntV): return IntV(z3.If(c,a.bv,b.bv),a.w,a.signed)
        if isinstance(a,BoolV): return BoolV(z3.If(c,a.b,b.b))
        if isinstance(a,RealV) and isinstance(b,RealV): return RealV(z3.If(c,a.r,b.r))
        a=self.tocx(a); b=self.tocx(b); return CxV(z3.If(c,a.re,b.re),z3.If(c,a.im,b.im))
    def binop(self,op,a,b,env):
        if isinstance(a,IntV) and isinstance(b,IntV):
            if op in('<<','>>'):
                amt=self.conv(b,64,b.signed).bv
                self.n_ub+=1
                self.ob(f'shift{self.n_ub}.amount_in_range',self.hyps(env),z3.ULT(amt,z3.BitVecVal(a.w,64)),'ub')
                am=z3.Extract(a.w-1,0,amt) if a.w<64 else amt
                if op=='<<':
                    r=a.bv<<am
                    if a.signed:   # value must be representable (no sign/overflow)
                        self.ob(f'shift{self.n_ub}.no_overflow',self.hyps(env),z3.And(a.bv>=0,(r>>am)==a.bv,r>=0),'ub')
                else: r=(a.bv>>am) if a.signed else z3.LShR(a.bv,am)
                return IntV(r,a.w,a.signed)
            w,s=a.w,a.signed
            if op in('+','-','*'):
                r={'+':a.bv+b.bv,'-':a.bv-b.bv,'*':a.bv*b.bv}[op]
                if s:
                    self.n_ub+=1
                    W=2*w
                    ax,bx=z3.SignExt(w,a.bv),z3.SignExt(w,b.bv)
                    full={'+':ax+bx,'-':ax-bx,'*':ax*bx}[op]
                    self.ob(f'arith{self.n_ub}.no_signed_overflow',self.hyps(env),full==z3.SignExt(w,r),'ub')
                return IntV(r,w,s)
            if op in('&','|','^'): return IntV({'&':a.bv&b.bv,'|':a.bv|b.bv,'^':a.bv^b.bv}[op],w,s)
            if op in('/','%'):
                self.n_ub+=1
                self.ob(f'div{self.n_ub}.nonzero',self.hyps(env),b.bv!=0,'ub')
                if s: r=a.bv/b.bv if op=='/' else z3.SRem(a.bv,b.bv)
                else: r=z3.UDiv(a.bv,b.bv) if op=='/' else z3.URem(a.bv,b.bv)
                return IntV(r,w,s)
            if op in('<','>','<=','>=','==','!='):
                if op=='==': return BoolV(a.bv==b.bv)
                if op=='!=': return BoolV(a.bv!=b.bv)
                if s: return BoolV({'<':a.bv<b.bv,'>':a.bv>b.bv,'<=':a.bv<=b.bv,'>=':a.bv>=b.bv}[op])
                return BoolV({'<':z3.ULT,'>':z3.UGT,'<=':z3.ULE,'>=':z3.UGE}[op](a.bv,b.bv))
            raise Unsupported('int op '+op)
        if isinstance(a,(ArrV,PtrV)) and op in('+','-'):
            if isinstance(a,ArrV):
                return ('arrptr',a,b) if op=='+' else self._uns('ptr -')
            return PtrV(a.buf,a.off+self.conv(b,64,b.signed).bv if op=='+' else a.off-self.conv(b,64,b.signed).bv)
        if isinstance(a,(RealV,IntV)) and isinstance(b,(RealV,IntV)):
            x,y=self.toreal(a),self.toreal(b)
            if op in('<','>','<=','>=','==','!='):
                return BoolV({'<':x<y,'>':x>y,'<=':x<=y,'>=':x>=y,'==':x==y,'!=':x!=y}[op])
            if op=='/': raise Unsupported('real division')
            return RealV({'+':x+y,'-':x-y,'*':x*y}[op])
        a,b=self.tocx(a),self.tocx(b)
        if op=='+': return CxV(a.re+b.re,a.im+b.im)
        if op=='-': return CxV(a.re-b.re,a.im-b.im)
        if op=='*': return CxV(a.re*b.re-a.im*b.im,a.re*b.im+a.im*b.re)
        raise Unsupported('complex '+op)
    def _uns(self,m): raise Unsupported(m)
    def call(self,x,env):
        inner=x['inner']; f=self.callee(inner[0]); args=inner[1:]
        if f=='sort':
            a=self.ev(args[0],env); e=self.ev(args[1],env)
            if not isinstance(a,ArrV) or not(isinstance(e,tuple) and e[0]=='arrptr' and e[1] is a): raise Unsupported('sort arguments')
            k=const_of(e[2].bv)
            if k is None: raise Unsupported('sort length')
            if k>len(a.els):
                self.ob('sort.in_bounds',self.hyps(env),z3.BoolVal(False),'bounds'); k=len(a.els)
            els=[v.bv for v in a.els]; w,s=a.els[0].w,a.els[0].signed
            for i in range(k):
                for j in range(k-1-i):
                    c=(els[j]>els[j+1]) if s else z3.UGT(els[j],els[j+1])
                    els[j],els[j+1]=z3.If(c,els[j+1],els[j]),z3.If(c,els[j],els[j+1])
            # name the sorted values, to keep terms small
            for i in range(k):
                v=z3.BitVec(f'{self.name}!pos{i}!{len(env["defs"])}',w); env['defs'].append(v==els[i]); els[i]=v
            a.els[:]=[IntV(e,w,s) for e in els]; return None
        if f=='swap':
            a=self.ev(args[0],env); b=self.ev(args[1],env)
            self.store(args[0],b,env); self.store(args[1],a,env); return None
        if f in('min','max') and len(args)==2:
            a=self.ev(args[0],env); b=self.ev(args[1],env)
            if isinstance(a,IntV):
                lt=self.binop('<',b,a,env).b if f=='min' else self.binop('<',a,b,env).b
                return self.ite(lt,b,a)
            raise Unsupported('min/max')
        if f=='norm' and len(args)==1:
            c=self.tocx(self.ev(args[0],env)); return RealV(c.re*c.re+c.im*c.im)
        if f in('real','imag') and len(args)==1:
            c=self.tocx(self.ev(args[0],env)); return RealV(c.re if f=='real' else c.im)
        if f=='conj' and len(args)==1:
            c=self.tocx(self.ev(args[0],env)); return CxV(c.re,-c.im)
        if f in self.funcs:   # inline helper
            if env['depth']>6: raise Unsupported('call depth')
            fd=self.funcs[f]; ps=[c for c in fd['inner'] if c['kind']=='ParmVarDecl']
            e2=dict(env); e2['v']=dict(env['v']); e2['depth']=env['depth']+1; e2['ret']=None
            for p,a in zip(ps,args):
                q=p['type']['qualType']
                if '&' in q and 'const' not in q: raise Unsupported('reference parameter')
                v=self.ev(a,env); e2['v'][p['id']]=v
            body=[c for c in fd['inner'] if c['kind']=='CompoundStmt'][0]
            outs=self.run(body,[e2])
            if len(outs)!=1: raise Unsupported('branching helper')
            o=outs[0]
            for k2 in('defs','path','mem','incr','looped'): env[k2]=o[k2]
            return o['ret']
        raise Unsupported('call '+f)
    # ---- memory
    def hyps(self,env): return self.pre+env['defs']+env['path']
    def classify(self,idx,env,what):
        """prove idx in bounds and of exactly one (control..1, target pattern j) class of this iteration"""
        key=z3.simplify(idx).sexpr()
        if key in self.cls: return self.cls[key]
        if env.get('pb') is None: raise Unsupported('state access outside the main loop')
        sp=self.spec; H=self.hyps(env)
        n_access=len(self.cls)
        j=None
        # find pattern by a model, then prove
        s=z3.Solver(); s.set('timeout',20000)
        for h in H: s.add(h)
        if s.check()!=z3.sat: raise Unsupported('no model for access')
        m=s.model()
        bits=[m.eval(z3.Extract(0,0,z3.LShR(idx,t)),model_completion=True).as_long() for t in sp['tpos']]
        j=tuple(bits)
        self.ob(f'access{n_access}.{what}.in_bounds',H,z3.ULT(idx,sp['N']),'bounds')
        g=[self.bit(idx,c)==1 for c in sp['cpos']]+[self.bit(idx,t)==b for t,b in zip(sp['tpos'],j)]+[self.compress(idx)==env['pb'].bv]
        for gi,(lab,gg) in enumerate(zip(['ctrl%d'%i for i in range(len(sp['cpos']))]+['tgt%d'%i for i in range(len(sp['tpos']))]+['rank'],g)):
            self.ob(f'access{n_access}.{what}.{lab}',H,gg,'index')
        self.cls[key]=j
        return j
    def bit(self,i,p): return z3.Extract(0,0,z3.LShR(i,p))
    def compress(self,i):
        for p in reversed(self.spec['sorted']):
            lowm=(z3.BitVecVal(1,64)<<p)-1
            i=(z3.LShR(i,p+1)<<p)|(i&lowm)
        return i
    def load(self,base,idx,env):
        if isinstance(base,ArrV):
            c=const_of(idx.bv)
            if c is None: raise Unsupported('symbolic local index')
            if c>=len(base.els):
                self.ob('local_array.in_bounds',self.hyps(env),z3.BoolVal(False),'bounds'); raise Unsupported('local array out of bounds')
            return base.els[c]
        if isinstance(base,NullV):
            self.ob('null_pointer_read',self.hyps(env),z3.BoolVal(False),'bounds'); raise Unsupported('null read')
        off=base.off+self.conv(idx,64,idx.signed).bv
        if base.buf=='gate':
            c=const_of(off); d=self.spec['gdim']
            if c is None or d is None: raise Unsupported('symbolic gate index')
            self.ob(f'gate_read_{c}.in_bounds',self.hyps(env),z3.BoolVal(c<d*d),'bounds')
            return self.spec['gate'](c//d,c%d) if c<d*d else CxV(z3.Real('oob_re'),z3.Real('oob_im'))
        j=self.classify(off,env,'r')
        return env['mem'].get(j) or self.spec['old'](j)
    def store(self,lhs,v,env):
        while lhs['kind']=='ParenExpr': lhs=lhs['inner'][0]
        if lhs['kind']=='DeclRefExpr':
            i=lhs['referencedDecl']['id']
            if i not in env['v']: raise Unsupported('store to unknown')
            if env.get('outer') is not None and i in env['outer']:
                old=env['v'][i]
                if isinstance(old,RealV) and isinstance(v,RealV):
                    env['incr'][i]=(lhs['referencedDecl']['name'],); env['v'][i]=v; return
                raise Unsupported('loop-carried variable '+lhs['referencedDecl']['name'])
            t=env['t'].get(i)
            if isinstance(v,RealV) and isinstance(env['v'][i],CxV): v=self.tocx(v)
            env['v'][i]=v; return
        if lhs['kind'] in('ArraySubscriptExpr','UnaryOperator'):
            base=self.ev(lhs['inner'][0],env)
            idx=self.ev(lhs['inner'][1],env) if lhs['kind']=='ArraySubscriptExpr' else IntV(z3.BitVecVal(0,64),64,False)
            if isinstance(base,ArrV):
                c=const_of(idx.bv)
                if c is None or c>=len(base.els): raise Unsupported('local array store')
                base.els[c]=v; return
            if isinstance(base,PtrV) and base.buf=='state':
                off=base.off+self.conv(idx,64,idx.signed).bv
                j=self.classify(off,env,'w')
                env['mem']=dict(env['mem']); env['mem'][j]=self.tocx(v); return
            raise Unsupported('store to '+getattr(base,'buf','?'))
        raise Unsupported('store '+lhs['kind'])
    # ---- statements; every env is one path
    def fork(self,env):
        e=dict(env); e['v']={k:(ArrV(list(v.els)) if isinstance(v,ArrV) else v) for k,v in env['v'].items()}
        e['mem']=dict(env['mem']); e['path']=list(env['path']); e['defs']=list(env['defs']); e['incr']=dict(env['incr']); return e
    def run(self,st,envs):
        out=[]
        for env in envs:
            if env['ret'] is not None or env.get('cont'): out.append(env); continue
            out+=self.stmt(st,env)
        return out
    def stmt(self,st,env):
        k=st['kind']; inner=st.get('inner',[])
        if k=='CompoundStmt':
            envs=[env]
            for s in inner: envs=self.run(s,envs)
            return envs
        if k=='DeclStmt':
            for d in inner:
                if d['kind']!='VarDecl': raise Unsupported('decl '+d['kind'])
                q=d['type']['qualType']
                init=d.get('inner')
                if '&' in q: raise Unsupported('reference variable')
                if init:
                    v=self.ev(init[0],env)
                    if 'complex' in q: v=self.tocx(v)
                    if q.replace('const ','')=='double' and isinstance(v,IntV): v=RealV(self.toreal(v))
                    if isinstance(v,ArrV):
                        v=ArrV([self.conv(e,64,False) if isinstance(e,IntV) else e for e in v.els])
                elif 'complex' in q: v=CxV(z3.RealVal(0),z3.RealVal(0))
                else: v=None
                env['v'][d['id']]=v; env['t'][d['id']]=q
            return [env]
        if k=='NullStmt': return [env]
        if k=='ReturnStmt':
            env['ret']=self.ev(inner[0],env) if inner else 'void'; return [env]
        if k=='ContinueStmt' and env.get('pb') is not None:
            env['cont']=True; return [env]
        if k=='IfStmt':
            c=z3.simplify(self.truth(self.ev(inner[0],env)))
            if z3.is_true(c): return self.stmt(inner[1],env)
            if z3.is_false(c): return self.stmt(inner[2],env) if len(inner)>2 else [env]
            if env['depth']>0: raise Unsupported('branch in helper')
            e1=self.fork(env); e1['path'].append(c); e2=self.fork(env); e2['path'].append(z3.Not(c))
            r=[]
            for e,b in((e1,inner[1]),(e2,inner[2] if len(inner)>2 else None)):
                s=z3.Solver(); s.set('timeout',10000)
                for h in self.hyps(e): s.add(h)
                if s.check()==z3.unsat: continue
                r+=self.stmt(b,e) if b is not None else [e]
            return r
        if k=='ForStmt': return self.forloop(st,env)
        # expression statement
        self.ev(st,env); return [env]
    def forloop(self,st,env):
        init,_,cond,inc,body=st['inner']
        # small constant loop: unroll
        e=env; r=self.stmt(init,e)
        if len(r)!=1: raise Unsupported('for init')
        if init.get('kind')!='DeclStmt' or len(init['inner'])!=1: raise Unsupported('for init form')
        var=init['inner'][0]['id']
        def cv():
            c=self.ev(cond,e); return z3.simplify(self.truth(c))
        c=cv()
        if z3.is_true(c) or z3.is_false(c):
            envs=[e]; it=0
            while True:
                nxt=[];done=True
                for x in envs:
                    b=z3.simplify(self.truth(self.ev(cond,x)))
                    if z3.is_true(b):
                        done=False
                        for y in self.stmt(body,x): self.ev(inc,y); nxt.append(y)
                    elif z3.is_false(b): nxt.append(x)
                    else: raise Unsupported('loop bound')
                envs=nxt; it+=1
                if done: return envs
                if it>64: raise Unsupported('unroll limit')
        if env['looped'] or env['depth']>0 and env.get('pb') is not None: raise Unsupported('second symbolic loop')
        # main loop: for (uint64_t pb = 0; pb < B; pb++)
        v0=e['v'][var]
        if const_of(v0.bv)!=0: raise Unsupported('loop start')
        pb=IntV(z3.BitVec(f'{self.name}!pb',v0.w),v0.w,v0.signed)
        e['v'][var]=pb
        cx=cond
        while cx['kind'] in('ParenExpr','ImplicitCastExpr'): cx=cx['inner'][0]
        if cx['kind']!='BinaryOperator' or cx['opcode'] not in('<','!=','<=','>','>='): raise Unsupported('loop condition')
        ct=self.truth(self.ev(cond,e))
        # increment by one
        t=self.fork(e); self.ev(inc,t)
        if not z3.is_true(z3.simplify(t['v'][var].bv==pb.bv+1)): raise Unsupported('loop increment')
        N=self.spec['N']; k=self.spec['k']
        pbw=pb.bv if pb.w==64 else z3.ZeroExt(64-pb.w,pb.bv)
        # the loop executes exactly the iterations pb < N >> k
        self.ob('loop.bound_is_2^(n-k)',self.hyps(e),z3.Implies(z3.ULE(pbw,z3.LShR(N,k)),ct==z3.ULT(pbw,z3.LShR(N,k))),'loop')
        e['looped']=True
        saved=dict(e['v']); be=self.fork(e)
        be['pb']=IntV(pbw,64,False); be['path'].append(z3.ULT(pbw,z3.LShR(N,k)))
        be['outer']=set(saved)-{var}
        # accumulators: replaced by a fresh "sum so far"
        accs={}
        for i,v in saved.items():
            if isinstance(v,RealV) and i in be['t'] and 'const' not in be['t'][i]:
                a=z3.Real(f'{self.name}!acc!{len(accs)}'); accs[i]=(v.r,a); be['v'][i]=RealV(a)
        ends=self.stmt(body,be)
        self.body_ends=[]
        for x in ends:
            x['cont']=False
            if x['ret'] is not None: raise Unsupported('return in loop')
            self.body_ends.append(x)
        self.accs={}
        used=set()
        for x in ends: used|=set(x['incr'])
        for i,(init_v,a) in accs.items():
            if i in used: self.accs[i]=(init_v,a,[(x,x['v'][i].r) for x in ends])
        for i in used:
            e['v'][i]=RealV(z3.Real(f'{self.name}!SUM!{i}'))
        self.sums={i:e['v'][i].r for i in used}
        e['mem']={}
        return [e]

def spec_for(name):
    """kernel name -> specification descriptor"""
    import re,math
    end='little' if name.endswith('little_endian') else 'big' if name.endswith('big_endian') else None
    if end is None: return None
    base=name[:-len('_%s_endian'%end)]
    s=dict(end=end,norm=False,factor=False,consts=[])
    eps=0.01
    if base=='single_qubit': s.update(nt=1,nc=0,gate='sym')
    elif base=='apply_gate_control': s.update(nt=1,nc=1,gate='sym')
    elif base=='apply_gate_two_control': s.update(nt=1,nc=2,gate='sym')
    elif base in('apply_swap','apply_cswap'):
        s.update(nt=2,nc=0 if base=='apply_swap' else 1,gate='swap')
    else:
        m=re.fullmatch(r'(measurement_computational_basis|dephase_noise|amplitude_dampening_noise)_op([01])_(norm|apply)',base)
        if not m: return None
        kind,o,na=m.group(1),int(m.group(2)),m.group(3)
        s.update(nt=1,nc=0,norm=na=='norm',factor=na=='apply')
        A,B=z3.Real('sqrt(1-eps)'),z3.Real('sqrt(eps)')
        s['consts']=[(math.sqrt(1-eps),A),(math.sqrt(eps),B)]
        s['gate']={'measurement_computational_basis':[[[1,0],[0,0]],[[0,0],[0,1]]],
                   'dephase_noise':[[[A,0],[0,A]],[[B,0],[0,-B]]],
                   'amplitude_dampening_noise':[[[1,0],[0,A]],[[0,B],[0,0]]]}[kind][o]
    return s

EXPECTED=[f'{b}_{e}_endian' for e in('little','big') for b in
   ['single_qubit','apply_gate_control','apply_gate_two_control','apply_swap','apply_cswap']+
   [f'{k}_op{o}_{na}' for k in('measurement_computational_basis','dephase_noise','amplitude_dampening_noise') for o in(0,1) for na in('norm','apply')]]

NMAX=30
def verify_kernel(funcs,name,timeout_ms=20000,discharge=True):
    """returns (obligations, unsupported-reason or None)"""
    import itertools
    sp=spec_for(name); fd=funcs[name]
    K=Kern(funcs,name,sp); K.cls={}; K.body_ends=[]; K.accs={}; K.sums={}
    nt,nc=sp['nt'],sp['nc']; k=nt+nc; sp['k']=k
    n=z3.BitVec('n',64)
    qs=[z3.BitVec(f't{i}',64) for i in range(nt)]+[z3.BitVec(f'c{i}',64) for i in range(nc)]
    pos=[q if sp['end']=='little' else n-1-q for q in qs]
    pv=[z3.BitVec(f'p{i}',64) for i in range(k)]
    srt=[z3.BitVec(f's{i}',64) for i in range(k)]
    pre=[z3.ULE(n,NMAX),z3.UGE(n,1)]+[z3.ULT(q,n) for q in qs]+[a!=b for a,b in itertools.combinations(qs,2)]
    pre+=[v==p for v,p in zip(pv,pos)]
    # srt: the operand positions in ascending order (ghost)
    pre+=[z3.Or([z3.And([srt[i]==pv[pm[i]] for i in range(k)]) for pm in itertools.permutations(range(k))])]
    pre+=[z3.ULT(srt[i],srt[i+1]) for i in range(k-1)]
    sp['N']=z3.BitVecVal(1,64)<<n; sp['tpos']=pv[:nt]; sp['cpos']=pv[nt:]; sp['sorted']=srt
    K.pre=pre
    def old(j):
        s=''.join(map(str,j)); return CxV(z3.Real('old'+s+'re'),z3.Real('old'+s+'im'))
    sp['old']=old
    g=sp['gate']
    if g=='sym':
        sp['gdim']=1<<nt
        sp['gate']=lambda r,c:CxV(z3.Real(f'g{r}{c}re'),z3.Real(f'g{r}{c}im'))
    else: sp['gdim']=None
    ps=[c for c in fd['inner'] if c['kind']=='ParmVarDecl']
    env=dict(v={},t={},mem={},path=[],defs=[],incr={},looped=False,depth=0,ret=None,outer=None,pb=None)
    names=['n','state','gate']+qs+(['f'] if sp['factor'] else [])
    fac=z3.Real('amplitude_factor')
    try:
        if len(ps)!=len(names): raise Unsupported('parameter list')
        for p,w in zip(ps,names):
            env['t'][p['id']]=p['type']['qualType']
            if isinstance(w,str):
                v={'n':IntV(n,64,False),'state':PtrV('state',z3.BitVecVal(0,64)),'gate':PtrV('gate',z3.BitVecVal(0,64)),'f':RealV(fac)}[w]
            else: v=IntV(w,64,False)
            env['v'][p['id']]=v
        env['t']={i:q for i,q in env['t'].items()}
        for p in ps:
            if p['type']['qualType']=='double': env['t'][p['id']]='const double'
        body=[c for c in fd['inner'] if c['kind']=='CompoundStmt'][0]
        outs=K.run(body,[env])
        if len(outs)!=1: raise Unsupported('branching outside the loop')
        if not outs[0]['looped']: 
            K.ob('loop.exists',pre,z3.BoolVal(False),'loop')
    except Unsupported as e:
        return K.obs,str(e),K
    # cover: precondition and an iteration are reachable
    K.ob('cover.precondition_reachable',[],z3.BoolVal(True),'cover')
    cover=pre+[z3.UGE(n,k)]
    # value obligations
    pats=list(itertools.product((0,1),repeat=nt))
    def newval(j):
        if g=='sym':
            r=int(''.join(map(str,j)),2); acc=CxV(z3.RealVal(0),z3.RealVal(0))
            for jj in pats:
                c=int(''.join(map(str,jj)),2); gv=sp['gate'](r,c); a=old(jj)
                acc=CxV(acc.re+gv.re*a.re-gv.im*a.im,acc.im+gv.re*a.im+gv.im*a.re)
            return acc
        if g=='swap': return old(tuple(reversed(j)))
        r=int(''.join(map(str,j)),2); acc=CxV(z3.RealVal(0),z3.RealVal(0))
        for jj in pats:
            c=int(''.join(map(str,jj)),2); co=g[r][c]; co=z3.RealVal(co) if not z3.is_expr(co) else co
            a=old(jj); acc=CxV(acc.re+co*a.re,acc.im+co*a.im)
        if sp['factor']: acc=CxV(fac*acc.re,fac*acc.im)
        return acc
    for bi,x in enumerate(K.body_ends):
        H=[] if len(K.body_ends)==1 else K.hyps(x)
        sfx='' if len(K.body_ends)==1 else f'.path{bi}'
        if not sp['norm']:
            for j in pats:
                got=x['mem'].get(j) or old(j); want=newval(j); js=''.join(map(str,j))
                K.ob(f'value.t{js}.re{sfx}',H,got.re==want.re,'value')
                K.ob(f'value.t{js}.im{sfx}',H,got.im==want.im,'value')
        else:
            K.ob(f'frame.state_not_modified{sfx}',H,z3.BoolVal(not x['mem']),'frame')
    if sp['norm']:
        ret=outs[0]['ret']
        ok=isinstance(ret,RealV) and len(K.accs)==1
        if not ok: K.ob('norm.returns_accumulated_sum',[],z3.BoolVal(False),'value')
        else:
            (i,(init,a,ends)),=K.accs.items()
            K.ob('norm.sum_starts_at_zero',[],init==0,'value')
            K.ob('norm.returns_accumulated_sum',[],ret.r==K.sums[i],'value')
            inc=z3.RealVal(0)
            for j in pats:
                v=newval(j); inc=inc+v.re*v.re+v.im*v.im
            for bi,(x,v) in enumerate(ends):
                K.ob(f'norm.increment{bi}',[] if len(ends)==1 else K.hyps(x),v==a+inc,'value')
    elif outs[0]['ret'] not in(None,'void'): pass
    # spec lemmas: rank/pattern determine the index and every in-range index is visited exactly once
    a,b=z3.BitVecs('i i2',64)
    same=[K.bit(a,p)==K.bit(b,p) for p in pv]+[K.compress(a)==K.compress(b)]
    K.ob('lemma.index_determined_by_rank_and_pattern',pre+[z3.ULT(a,sp['N']),z3.ULT(b,sp['N'])]+same,a==b,'lemma')
    K.ob('lemma.every_rank_in_loop_range',pre+[z3.ULT(a,sp['N'])],z3.ULT(K.compress(a),z3.LShR(sp['N'],k)),'lemma')
    # induction: invariant "sv(i) = new(i) if controls(i) and rank(i) < pb else old(i)" is preserved
    if not sp['norm']:
        pb=z3.BitVec('pb',64); V=z3.DeclareSort('Amp')
        NEW=z3.Function('new',z3.BitVecSort(64),V); OLD=z3.Function('old',z3.BitVecSort(64),V)
        ctl=lambda i:z3.And([K.bit(i,c)==1 for c in pv[nt:]]+[z3.BoolVal(True)])
        inv=lambda i,q:z3.If(z3.And(ctl(i),z3.ULT(rank(i),q)),NEW(i),OLD(i))
        rank=z3.Function('rank',z3.BitVecSort(64),z3.BitVecSort(64))
        i=z3.BitVec('i',64)
        # iteration pb replaces exactly the amplitudes with controls set and rank pb (value obligations + classification)
        after=z3.If(z3.And(ctl(i),rank(i)==pb),NEW(i),inv(i,pb))
        K.ob('invariant.preserved',pre+[z3.ULT(pb,z3.LShR(sp['N'],k))],after==inv(i,pb+1),'loop')
        K.ob('invariant.initial',pre,inv(i,z3.BitVecVal(0,64))==OLD(i),'loop')
        K.ob('invariant.final_gives_postcondition',pre+[z3.ULT(rank(i),z3.LShR(sp['N'],k))],
             inv(i,z3.LShR(sp['N'],k))==z3.If(ctl(i),NEW(i),OLD(i)),'loop')
    K.cover=cover
    return K.obs,None,K

def discharge(K,timeout_ms=20000):
    s=z3.Solver(); s.set('timeout',timeout_ms)
    for h in getattr(K,'cover',K.pre): s.add(h)
    cov=s.check()
    for o in K.obs:
        if o.kind=='cover':
            o.status='proved' if cov==z3.sat else 'refuted'; o.backend='z3'; continue
        if o.kind=='value': prove(o,timeout_ms,use_cvc5=False)
        else:
            prove(o,timeout_ms,use_cvc5=True)
    return K.obs
