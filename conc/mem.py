"""C22 memory safety of the kernels"""
from .core import *
from .build_c import *
import re, os, subprocess, tempfile, shutil, atexit
import dwave.gate
from dwave.gate.simulator import simulator as SIM
_D={}
DRIVER=r'''
#include <cstdint>
#include <complex>
#include <vector>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <functional>
#include "OPS_H"
typedef std::complex<double> C;
static C rnd(){ return C(rand()%2001/1000.0-1, rand()%2001/1000.0-1); }
static int bad=0; static long evals=0;
static int bit(uint64_t i,int p){ return (i>>p)&1; }
// kind: 0 controlled U (first operand target), 1 swap (two targets), 2 projector norm/apply, 3 memory only
static void run(const char*name,int kind,int nt,int nc,int outcome,bool big,bool norm,int n,
                std::function<double(uint64_t,C*,C*,uint64_t*,double)> f){
  int k=nt+nc; uint64_t N=1ULL<<n; std::vector<uint64_t> q(k,0);
  if(k>n) return;
  while(true){
    bool distinct=true; for(int a=0;a<k;a++)for(int b=0;b<a;b++) if(q[a]==q[b]) distinct=false;
    if(distinct){
      C*s=new C[N]; C*g=new C[1<<(2*nt)]; std::vector<C> o(N);
      for(uint64_t i=0;i<N;i++) o[i]=s[i]=rnd();
      C u[16]; for(int i=0;i<(1<<(2*nt));i++) u[i]=g[i]=rnd();
      double fac=1.7, r=f(n,s,g,q.data(),fac); evals++;
      auto P=[&](int j){ return big? n-1-(int)q[j] : (int)q[j]; };
      double wantr=0;
      for(uint64_t i=0;i<N&&kind<3;i++){
        C want=o[i]; bool ctl=true; for(int c=nt;c<k;c++) if(!bit(i,P(c))) ctl=false;
        if(kind==0&&ctl){ int b=bit(i,P(0)); uint64_t i0=i&~(1ULL<<P(0)), i1=i0|(1ULL<<P(0)); want=u[2*b]*o[i0]+u[2*b+1]*o[i1]; }
        if(kind==1&&ctl){ int a=bit(i,P(0)), b=bit(i,P(1)); uint64_t j=i&~(1ULL<<P(0))&~(1ULL<<P(1)); j|=(uint64_t)b<<P(0)|(uint64_t)a<<P(1); want=o[j]; }
        if(kind==2){ bool hit=bit(i,P(0))==outcome; if(norm){ if(hit) wantr+=std::norm(o[i]); } else want=hit? o[i]*fac : C(0,0); }
        if(std::abs(s[i]-want)>1e-9&&!bad){ bad=1; printf("BAD %s n=%d operands",name,n); for(auto x:q) printf(" %d",(int)x); printf(": amplitude %d is (%g,%g), expected (%g,%g)\n",(int)i,s[i].real(),s[i].imag(),want.real(),want.imag()); }
      }
      if(kind==3&&norm) for(uint64_t i=0;i<N;i++) if(s[i]!=o[i]&&!bad){ bad=1; printf("BAD %s changed the state\n",name); }
      if(kind==2&&norm&&std::abs(r-wantr)>1e-9&&!bad){ bad=1; printf("BAD %s n=%d operand %d: norm %g, expected %g\n",name,n,(int)q[0],r,wantr); }
      for(int i=0;i<(1<<(2*nt));i++) if(g[i]!=u[i]&&!bad){ bad=1; printf("BAD %s changed the gate matrix\n",name); }
      delete[] s; delete[] g;
    }
    int j=0; while(j<k && ++q[j]==(uint64_t)n) q[j++]=0;
    if(j==k) break;
  }
}
int main(int argc,char**argv){ int n=atoi(argv[1]); srand(atoi(argv[2]));
CALLS
  if(!bad) printf("OK %ld\n",evals); return bad; }
'''
def driver():
    if 'exe' in _D: return _D['exe'],_D['count']
    h=os.path.join(os.path.dirname(dwave.gate.__file__),'simulator','ops.h')
    src=open(h).read(); calls=[]
    for m in re.finditer(r'^(void|double) (\w+)\(([^)]*)\)',src,re.M):
        ret,name,ps=m.groups(); ps=[p.split()[-1].lstrip('*') for p in ps.split(',')][3:]
        big='big' in name; norm=name.endswith(('norm_big_endian','norm_little_endian')) or ret=='double'
        tg=sorted(p for p in ps if p.startswith('target')); ct=sorted(p for p in ps if p.startswith('control')); order=tg+ct
        args=','.join(f'q[{order.index(p)}]' if p in order else 'fac' for p in ps)
        kind=0 if name.startswith(('single_qubit','apply_gate')) else 1 if name.startswith(('apply_swap','apply_cswap')) else 2 if name.startswith('measurement_comp') else 3
        oc=1 if '_op1_' in name else 0
        body=f'{name}(n,s,g,{args})'; body=f'return {body};' if ret=='double' else f'{body}; return 0.0;'
        calls.append(f'  run("{name}",{kind},{len(tg)},{len(ct)},{oc},{str(big).lower()},{str(norm).lower()},n,[](uint64_t n,C*s,C*g,uint64_t*q,double fac)->double{{ {body} }});')
    d=tempfile.mkdtemp(prefix='vkern'); atexit.register(shutil.rmtree,d,True)
    open(d+'/d.cpp','w').write(DRIVER.replace('OPS_H',h).replace('CALLS','\n'.join(calls)))
    p=subprocess.run(['g++','-O1','-g','-fsanitize=address,undefined','-fno-sanitize-recover=all','-w','-include','complex','-include','cstdint','-o',d+'/d',d+'/d.cpp'],capture_output=True,text=True)
    if p.returncode: raise RuntimeError('sanitizer driver does not compile: '+p.stderr[-600:])
    _D.update(exe=d+'/d',count=len(calls)); return _D['exe'],_D['count']
@case('C22',weight=3,timeout=400)
def sanitized_kernels(t):
    """every kernel, all distinct operand tuples, under AddressSanitizer and UBSan with exactly sized buffers"""
    top=6 if t.tier=='quick' else 8
    if t.i>=top*2: raise Done
    exe,k=driver(); n=t.i%top+1; t.step('all',k,'kernels with n =',n); t.ck(k>0,'no kernels')
    p=subprocess.run([exe,str(n),str(t.r.randint(1,10**6))],capture_output=True,text=True,timeout=350,env={**os.environ,'ASAN_OPTIONS':'detect_leaks=0','LD_PRELOAD':''})
    t.step(p.stdout.strip()[:300])
    err=[l for l in p.stderr.split('\n') if 'ERROR' in l or 'runtime error' in l or ' in ' in l][:6]
    t.ck(p.returncode==0 and p.stdout.startswith('OK'),'kernel run under sanitizers failed',p.stdout[:300],err)
@case('C22',weight=2)
def out_of_range(t):
    r=t.r; n=r.randint(1,6); s=ref.randstate(r,n); le=r.random()<.5
    q=r.choice([n,n+1,-1,-n,-n-1,2*n,63,64,10**6,2**31-1,-2**31])
    t.step('sample_qubit',q,'of',n,'little' if le else 'big'); old=s.copy()
    class R:
        def __init__(s): s.g=np.random.default_rng(1)
        def __getattr__(s,a): return getattr(s.g,a)
    t.raises(lambda:sample_qubit(q,s,np.random.default_rng(1),collapse_state=r.random()<.5,little_endian=le),'out-of-range qubit sampled',(ValueError,IndexError,OverflowError))
    t.ck(np.array_equal(s,old),'state changed by a rejected call')
    v=r.randrange(n); m=sample_qubit(v,s,np.random.default_rng(r.randrange(99)),little_endian=le); t.ck(m in(0,1),'valid qubit')
@case('C22',weight=2)
def measurement_sample(t):
    r=t.r; n=r.randint(1,4); c=new_circuit(t,n); k=r.randint(1,n); s=r.sample(range(n),k)
    with c.context as reg:
        for _ in range(r.randint(0,4)): g,ps,a=pick(t,n); apply_op(t,reg.q,g,ps,a)
        m=Measurement([reg.q[i] for i in s])
    simulate(c,rng_seed=r.randrange(99)); old=m.state.copy()
    bad=r.choice([n,n+1,-1,-n,-n-1,50]); t.step('measured',s,'sample',bad)
    try: out=m.sample(r.choice([[bad],[0,bad],[bad,0]]),num_samples=2)
    except Exception as e: pass
    else: t.ck(False,'out-of-range qubit of a measurement sampled',out)
    t.ck(np.array_equal(old,m.state),'state changed by a rejected call')
@case('C22',weight=2)
def views(t):
    """the wrappers hand the kernels buffers of exactly the size of the state: neighbouring memory never changes"""
    r=t.r; n=r.randint(1,5); N=2**n; buf=np.full(3*N,9-7j); buf[N:2*N]=ref.randstate(r,n); s=buf[N:2*N]; q=r.randrange(n); le=r.random()<.5
    t.step('sample_qubit',q,'of',n,le); sample_qubit(q,s,np.random.default_rng(r.randrange(99)),little_endian=le)
    t.ck((buf[:N]==9-7j).all() and (buf[2*N:]==9-7j).all(),'memory outside of the state changed')
    t.close(np.linalg.norm(s),1,'normalized')
