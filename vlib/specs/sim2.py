"""the loops of the simulator: _measure, simulate, _simulate_circuit_density_matrix, Measurement.sample

Calls of sample_qubit and apply_instruction are recorded in a ghost log (its entries say which arguments were passed and what the
state vector was before and after); the contracts state what the log must contain."""
from .common import *
from . import regs, core
from .core import Vocab, A
from . import sim as S
M=S.M
HSORT.update({'$lcj':z3.ArraySort(I,B),'$lst':z3.ArraySort(I,S.St),'$lse':z3.ArraySort(I,S.St),'$sq':EL,'$so':EL,'$sad':z3.ArraySort(I,I),'$slc':z3.ArraySort(I,B),'$srk':z3.ArraySort(I,I),'$sn':I,'$sst':z3.ArraySort(I,S.St),'$sse':z3.ArraySort(I,S.St),'$seed':V})
LOG=('$lop','$lts','$lln','$lad','$lnq','$lle','$lrk','$lcj','$lst','$lse'); SLOG=('$sq','$so','$sad','$slc','$srk','$sst','$sse')
zero=z3.IntVal(0)
def put(E,f,n,v): E.write(f,zero,z3.Store(E.read(f,zero),n,v))
def bitsok(E,o=None):
    y=z3.Int('yv'); v=o.read('_value',y) if o is not None else z3.Select(E.h('_value'),y)
    return z3.ForAll([y],z3.Implies(clsof(y)==E.K['B'].id,z3.Or(v==none,v==V.i(0),v==V.i(1))))
def havoc_all(E,f):
    a=z3.Const(f'mv_{f}!{E.nfresh}',E.hsort(f)); E.nfresh+=1; E.h(f); E.H[f]=a; E.hbase[a.get_id()]=(a,E.now())
def noctx(E): return ('no circuit context is active',Vocab(E).active()==none)
def add(E,src,K,cs,env):
    SV,RG=env['SV'],env['RG']; G=lambda f: E.read(f,zero); at=lambda E,f,k: z3.Select(E.read(f,zero),k)
    # ---------------------------------------------------------------- _measure
    def m_sample(E,a,k):
        names=('qubit','state','rng','collapse_state','little_endian'); d=dict(zip(names,a)); d.update(k)
        q,x,r=[E.resolve(d[n]) if isinstance(d[n],Bx) else d[n] for n in names[:3]]; cl=zb(E.truth(d.get('collapse_state',True))); le=zb(E.truth(d.get('little_endian',False)))
        if not E.isnd(x) or not E.isrng(r): raise Unsupported('arguments of sample_qubit')
        nq=E.read('$nq',x.ad)
        if E.branch(z3.Not(A(zi(q)>=0,zi(q)<nq)),'no such qubit'): raise E.pyexc('ValueError','no such qubit')
        n=E.read('$sn',zero); st=E.read('$st',x.ad); m=E.fresh('outcome',I); E.fact(z3.Or(m==0,m==1))
        put(E,'$sq',n,V.i(zi(q))); put(E,'$so',n,V.i(m)); put(E,'$sad',n,x.ad); put(E,'$slc',n,A(cl,z3.Not(le))); put(E,'$srk',n,r.ad); put(E,'$sst',n,st)
        E.havoc('$st',x.ad); put(E,'$sse',n,E.read('$st',x.ad)); E.havoc('$rk',r.ad); E.write('$sn',zero,z3.simplify(n+1)); return m
    E.models[M+'sample_qubit']=m_sample
    for n in('sample_qubit',): E.contracts.pop(M+n,None)
    def mreq(E,a):
        x,s,t=a[0].ad,a[1].ad,a[2].ad; n=rd(E,'$nq',a[1]); i,j=z3.Ints('mi mj'); e=lambda i: z3.Select(E.read('$el',t),i); bv=E.read('_bits',x); l=V.ad(bv); b=lambda i: z3.Select(E.read('$el',l),i)
        return [('targets are qubits of the state',z3.ForAll([i],z3.Implies(A(i>=0,i<E.read('$len',t)),A(V.is_i(e(i)),V.iv(e(i))>=0,V.iv(e(i))<n)))),
                ('the bits are different bits',z3.ForAll([i,j],z3.Implies(A(bv!=none,i>=0,i<j,j<E.read('$len',l)),V.ad(b(i))!=V.ad(b(j))))),('bits hold nothing, 0 or 1',bitsok(E)),
                ('targets and measured qubits are different lists',V.ad(E.read('_measured_qubit_indices',x))!=t)]
    def mlog(E,o,x,s,t,r,c0,i,old):
        """the first i targets have been measured"""
        k=z3.Int('kk'); e=lambda k: z3.Select(old.read('$el',t),k); bv=old.read('_bits',x); bl=V.ad(bv); nb=z3.If(bv==none,0,old.read('$len',bl)); bit=lambda k: z3.Select(old.read('$el',bl),k); y=z3.Int('yb')
        g=A(k>=0,k<i)
        return [('one sample per target',E.read('$sn',zero)==c0+i),
            ('the targets are sampled in order, from the given state, with collapse',z3.ForAll([k],z3.Implies(g,A(at(E,'$sq',c0+k)==e(k),at(E,'$sad',c0+k)==s,at(E,'$slc',c0+k),at(E,'$srk',c0+k)==r)))),
            ('each sample sees the state the one before left',A(z3.ForAll([k],z3.Implies(A(k>=0,k<i-1),at(E,'$sst',c0+k+1)==at(E,'$sse',c0+k))),z3.Implies(i>0,at(E,'$sst',c0)==old.read('$st',s)),E.read('$st',s)==z3.If(i>0,at(E,'$sse',c0+i-1),old.read('$st',s)))),
            ('outcome k is stored in bit k',z3.ForAll([k],z3.Implies(A(g,k<nb),z3.Select(E.h('_value'),V.ad(bit(k)))==at(E,'$so',c0+k)))),
            ('other values stay',z3.ForAll([y],z3.Or(z3.Select(E.h('_value'),y)==old.read('_value',y),z3.Exists([k],A(g,k<nb,V.ad(bit(k))==y))))),
            ('bits hold nothing, 0 or 1',bitsok(E)),
            ('earlier samples stay',A(*[z3.ForAll([k],z3.Implies(k<c0,at(E,f,k)==z3.Select(old.read(f,zero),k))) for f in SLOG]))]
    def mens(E,a,old,x,s,t,r,c0):
        n=old.read('$len',t); ml=V.ad(E.read('_measured_qubit_indices',x)); ms=V.ad(E.read('_measured_state',x)); j=z3.Int('mj')
        return mlog(E,Vocab(E),x,s,t,r,c0,n,old)+[('the state before the measurement is remembered',A(V.is_r(E.read('_measured_state',x)),E.read('$st',ms)==old.read('$st',s),E.read('$nq',ms)==old.read('$nq',s),ms!=s)),
            ('the measured qubits are remembered',A(E.read('$len',ml)==n,z3.ForAll([j],z3.Implies(A(j>=0,j<n),z3.Select(E.read('$el',ml),j)==z3.Select(old.read('$el',t),j)))))]
    def mcases(E,a,old):
        x,s,t,r=[y.ad for y in a]; c0=old.read('$sn',zero)
        E.fact(c0>=0)
        return [Case('measured',modifies=[('$st',s),('$rk',r),('_value',ALL),('_measured_state',x),('_measured_qubit_indices',x),('$sn',zero)]+[(f,zero) for f in SLOG],allocates=True,ensures=lambda E,a,ol,res: mens(E,a,old,x,s,t,r,c0))]
    def ml_inv(E,L):
        x,s,t,r=[y.ad for y in E.topargs]; o=E.oldview; c0=o.read('$sn',zero); ml=V.ad(E.read('_measured_qubit_indices',x)); j=z3.Int('mj')
        return mlog(E,Vocab(E),x,s,t,r,c0,L.i,o)+[('the qubits measured so far are remembered',A(E.read('$len',ml)==L.i,z3.ForAll([j],z3.Implies(A(j>=0,j<L.i),z3.Select(E.read('$el',ml),j)==z3.Select(o.read('$el',t),j)))))]
    def ml_mod(E,L):
        x,s,t,r=[y.ad for y in E.topargs]; ml=V.ad(E.read('_measured_qubit_indices',x))
        return [('$st',s),('$rk',r),('_value',ALL),('$len',ml),('$el',ml),('$sn',zero)]+[(f,zero) for f in SLOG]
    E.loops[(M+'_measure',0)]=LoopSpec(ml_inv,ml_mod,allocates=True,env={'idx':('int',),'t':('int',),'m':('int',)})
    cs.append(Contract(M+'_measure',[('op',('obj',K['Me'])),('state',SV),('targets',('list',('int',))),('rng',RG)],mcases,requires=mreq,props=('C06','C07'),note='')); cs[-1].meas=True
    # ---------------------------------------------------------------- simulate
    rej=z3.Function('rejects',V,I,B,B)
    def m_apply(E,a,k):
        names=('num_qubits','state','op','targets','little_endian','rng','conjugate_gate'); d=dict(zip(names,a)); d.update(k); d.setdefault('conjugate_gate',False)
        n,x,op,ts,le,r,cj=[E.resolve(d[m]) if isinstance(d[m],Bx) else d[m] for m in names]
        if not E.isnd(x) or not E.isrng(r) or not isinstance(op,Ref) or not(isinstance(ts,Ref) and E.kindof(ts)=='list'): raise Unsupported('arguments of apply_instruction')
        for nm,f in S.AREQ(E,[n,x,op,ts,le,r,cj]): E.prove('call of apply_instruction: '+nm,f,kind='pre')
        if E.branch(rej(V.r(op.ad),zi(n),zb(E.truth(le))),'operation rejected'): 
            havoc_all(E,'_value'); E.havoc('$st',x.ad); havoc_all(E,'_measured_state'); havoc_all(E,'_measured_qubit_indices'); E.havoc('$rk',r.ad)
            raise PyRaise(E.src.classes['ValueError'] if E.choose(2)==0 else E.excls('CircuitError'),('rejected',),'contract')
        E.bump(); m=E.read('$ln',zero); E.fact(m>=0)
        for f,v in(('$lop',V.r(op.ad)),('$lts',E.read('$el',ts.ad)),('$lln',zi(E.length(ts))),('$lad',x.ad),('$lnq',zi(n)),('$lle',zb(E.truth(le))),('$lrk',r.ad),('$lcj',zb(E.truth(cj))),('$lst',E.read('$st',x.ad))): put(E,f,m,v)
        E.havoc('$st',x.ad); put(E,'$lse',m,E.read('$st',x.ad)); E.write('$ln',zero,z3.simplify(m+1))
        havoc_all(E,'_value'); E.assume(bitsok(E)); havoc_all(E,'_measured_state'); havoc_all(E,'_measured_qubit_indices'); E.havoc('$rk',r.ad); return None
    def m_setstate(E,a,k):
        names=('self','state','force','normalize'); d=dict(zip(names,a)); d.update(k); c,x=d['self'],d['state']
        if isinstance(x,Bx): x=E.resolve(x)
        if d.get('normalize',False) is not False: raise Unsupported('normalising the simulated state')
        if not zb(E.truth(d.get('force',False))).eq(z3.BoolVal(True)):
            if E.branch(z3.Not(zb(E.truth(d.get('force',False)))),'not forced') and E.branch(z3.Or(E.read('_state',c.ad)!=none,E.read('_density_matrix',c.ad)!=none),'state is set'): raise PyRaise(E.excls('CircuitError'),('set',),'contract')
        md=E.isMD(x)
        if not md and not E.isnd(x): raise Unsupported('state that is set')
        nq=zi(regs.rlen(E,E.unbox(E.read('$cq',c.ad),('obj',K['QR']))))
        E.prove('the state that is set has as many qubits as the circuit',E.read('$nq',x.ad)==nq,kind='pre')
        E.write('_state',c.ad,none if md else V.r(x.ad)); E.write('_density_matrix',c.ad,V.r(x.ad) if md else none); return None
    def opk(E,o,c,k):
        L=V.ad(o.read('_circuit',c)); return V.ad(z3.Select(o.read('$el',L),k))
    def wf(E,c):
        """what appending guarantees about the operations of a circuit (C10), and distinct operands"""
        o=Vocab(E); L=o.oplist(c); k,j,l=z3.Ints('wk wj wl'); x=opk(E,Old(E,dict(E.H)),c,k); q=o.f('_qubits',x); ql=V.ad(q); R_=o.qreg(c); g=A(k>=0,k<o.len(L)); rq=core.reqn(E,clsof(x),o)
        e=lambda j: o.el(ql,j); pos=lambda j: z3.Select(o.f('$dp',R_),canon(e(j)))
        qidx=o.f('$cq',c)
        E.keep+=[k,j,l]
        return [noctx(E),('operations have qubits of the circuit',z3.ForAll([k],z3.Implies(g,A(V.is_r(o.el(L,k)),E.isa(x,K['Op']),V.is_r(q),o.len(ql)>=1)))),
            ('the qubits of operations are in the circuit',z3.ForAll([k,j],z3.Implies(A(g,j>=0,j<o.len(ql)),A(V.is_r(e(j)),E.isa(V.ad(e(j)),K['Q']),pos(j)>=0,pos(j)<o.f('$dn',R_))))),
            ('the qubits of an operation are different',z3.ForAll([k,j,l],z3.Implies(A(g,j>=0,j<l,l<o.len(ql)),pos(j)!=pos(l)))),
            ('operations have as many qubits as they require',z3.ForAll([k],z3.Implies(g,A(z3.Implies(rq!=none,o.len(ql)==V.iv(rq)),z3.Implies(E.isa(x,K['CO']),o.len(ql)==E.ncof(x)+1))))),
            ('bits hold nothing, 0 or 1',bitsok(E)),('conditions are bits',z3.ForAll([k,j],z3.Implies(A(g,o.f('_cond',x)!=none,j>=0,j<o.len(V.ad(o.f('_cond',x)))),clsof(V.ad(o.el(V.ad(o.f('_cond',x)),j)))==K['B'].id)))]
    def slog(E,c,s,n,le,r,c0,i,old,init,per=None):
        """the first i operations have been applied; per: the (shift, conjugated) of each application of an operation"""
        per=per or [(lambda p: p,z3.BoolVal(False))]; w=len(per); k,j=z3.Ints('kk jj'); x=opk(E,old,c,k); ql=V.ad(old.read('_qubits',x)); R_=V.ad(old.read('$cq',c))
        e=lambda j: z3.Select(old.read('$el',ql),j); pos=lambda j: z3.Select(old.read('$dp',R_),canon(e(j)))
        g=A(k>=0,k<i); ent=lambda k,d: c0+w*k+d; E.keep+=[k,j]
        out=[('one application after the other',E.read('$ln',zero)==c0+w*i),('no operation so far was rejected',z3.ForAll([k],z3.Implies(g,z3.Not(rej(V.r(x),n,le)))))]
        for d,(sh,cj) in enumerate(per):
            nm='' if w==1 else(' (rows)' if d==0 else ' (columns)')
            out+=[('the operations are applied in order, to the same state'+nm,z3.ForAll([k],z3.Implies(g,A(at(E,'$lop',ent(k,d))==V.r(x),at(E,'$lad',ent(k,d))==s,at(E,'$lnq',ent(k,d))==n,at(E,'$lle',ent(k,d))==le,at(E,'$lrk',ent(k,d))==r,at(E,'$lcj',ent(k,d))==cj,at(E,'$lln',ent(k,d))==old.read('$len',ql))))),
                  ('on the positions of their qubits in the circuit'+nm,z3.ForAll([k,j],z3.Implies(A(g,j>=0,j<old.read('$len',ql)),z3.Select(at(E,'$lts',ent(k,d)),j)==V.i(sh(pos(j))))))]
        out+=[('starting with the ground state',z3.Implies(i>0,at(E,'$lst',c0)==init)),('each sees the state the one before left',z3.ForAll([k],z3.Implies(A(k>=0,k<w*i-1),at(E,'$lst',c0+k+1)==at(E,'$lse',c0+k)))),
              ('the state is what the last one left',E.read('$st',s)==z3.If(i>0,at(E,'$lse',c0+w*i-1),init)),('bits hold nothing, 0 or 1',bitsok(E))]
        return out
    smods=lambda s,r: [('$ln',zero),('$st',s),('$rk',r),('_value',ALL),('_measured_state',ALL),('_measured_qubit_indices',ALL)]+[(f,zero) for f in LOG]
    ground=lambda n: S.setat(S.zeros(n),z3.IntVal(0),z3.RealVal(1))
    def rejected(E,old,c,n,le):
        k=z3.Int('rk'); L=V.ad(old.read('_circuit',c)); return z3.Exists([k],A(k>=0,k<old.read('$len',L),rej(V.r(opk(E,old,c,k)),n,le)))
    def simc(E,a,old):
        c=a[0].ad; R_=V.ad(old.read('$cq',c)); n=old.read('$dn',R_); E.fact(n>=0); mixed=zb(E.truth(a[1])); le=zb(E.truth(a[2])); c0=old.read('$ln',zero); E.fact(c0>=0); L=V.ad(old.read('_circuit',c)); N=old.read('$len',L)
        def ens(mx):
            def f(E,a,ol,r):
                sv,dm=E.read('_state',c),E.read('_density_matrix',c); x=V.ad(dm if mx else sv)
                out=[('the resulting state is set, and nothing but it',A(V.is_r(sv),dm==none) if not mx else A(sv==none,V.is_r(dm)))]
                s=x if not mx else E.read('$base',x); rng=at(E,'$lrk',c0)
                out+=slog(E,c,s,n if not mx else 2*n,le,rng,c0,N,old,ground(n if not mx else 2*n),per=dper(n,le) if mx else None)
                out+=[('the state has as many qubits as the circuit',E.read('$nq',x)==n),('random numbers come from a generator with the given seed',z3.Implies(N>0,E.read('$seed',rng)==E.box(a[3])))]
                if mx: out.append(('the density matrix is the final vector, row by row',E.read('$st',x)==E.read('$st',s)))
                return out
            return f
        md=lambda: [('$ln',zero),('_value',ALL),('_measured_state',ALL),('_measured_qubit_indices',ALL),('_state',c),('_density_matrix',c)]+[(f,zero) for f in LOG]
        return [Case('no qubits',n==0),
            Case('an operation is rejected',A(z3.Not(mixed),rejected(E,old,c,n,le)),raises=('ValueError','CircuitError'),modifies=md,allocates=True),
            Case('an operation is rejected by a density matrix simulation',A(mixed,rejected(E,old,c,2*n,le)),raises=('ValueError','CircuitError'),modifies=md,allocates=True),
            Case('density matrix',mixed,modifies=md,allocates=True,ensures=ens(True)),
            Case('state vector',modifies=md,allocates=True,ensures=ens(False))]
    def dper(n,le): return [(lambda p: z3.If(le,p+n,p),z3.BoolVal(False)),(lambda p: z3.If(le,p,p+n),z3.BoolVal(True))]
    def nomeas(E,c):
        o=Vocab(E); L=o.oplist(c); k=z3.Int('nk'); return ('a circuit simulated as a density matrix has no measurements',z3.ForAll([k],z3.Implies(A(k>=0,k<o.len(L)),z3.Not(E.isa(V.ad(o.el(L,k)),K['Me'])))))
    def simreq(E,a):
        nm,f=nomeas(E,a[0].ad); return wf(E,a[0].ad)+[(nm,z3.Implies(zb(E.truth(a[1])),f))]
    def sl_inv(E,L):
        c=E.topargs[0].ad; o=E.oldview; n=o.read('$dn',V.ad(o.read('$cq',c))); s=E.getname('state').ad; r=E.getname('rng').ad; le=zb(E.truth(E.topargs[2]))
        return slog(E,c,s,n,le,r,o.read('$ln',zero),L.i,o,ground(n))
    E.loops[(M+'simulate',0)]=LoopSpec(sl_inv,lambda E,L: smods(E.getname('state').ad,E.getname('rng').ad),allocates=True)
    cs.append(Contract(M+'simulate',[('circuit',('obj',K['Ci'])),('mixed_state',('bool',)),('little_endian',('bool',)),('rng_seed',('opt',('int',)))],simc,requires=simreq,props=('C01','C02','C06','C07'))); cs[-1].simul=True
    # ---------------------------------------------------------------- density matrices
    def denc(E,a,old):
        c=a[0].ad; R_=V.ad(old.read('$cq',c)); n=old.read('$dn',R_); le=zb(E.truth(a[2])); c0=old.read('$ln',zero); E.fact(c0>=0); L=V.ad(old.read('_circuit',c)); N=old.read('$len',L); r=a[1].ad
        md=lambda: [('$ln',zero),('$rk',r),('_value',ALL),('_measured_state',ALL),('_measured_qubit_indices',ALL)]+[(f,zero) for f in LOG]
        def ens(E,a,ol,res):
            if not E.isMD(res): return [('is the density matrix',z3.BoolVal(False))]
            s=E.read('$base',res.ad)
            return slog(E,c,s,2*n,le,r,c0,N,old,ground(2*n),per=dper(n,le))+[('is the final vector, row by row',E.read('$st',res.ad)==E.read('$st',s)),('has as many rows as the circuit has basis states',E.read('$nq',res.ad)==n)]
        def res(E,A_,o):
            m=E.alloc(E.MD); b=E.alloc(E.ND); E.write('$base',m.ad,b.ad); E.havoc('$st',m.ad); E.havoc('$nq',m.ad); E.havoc('$st',b.ad); return m
        return [Case('an operation is rejected',rejected(E,old,c,2*n,le),raises=('ValueError','CircuitError'),modifies=md,allocates=True),Case('simulated',modifies=md,allocates=True,ensures=ens,result=res)]
    def dreq(E,a): return wf(E,a[0].ad)+[nomeas(E,a[0].ad),('the circuit has qubits',E.read('$dn',Vocab(E).qreg(a[0].ad))>0)]
    def dl_inv(E,L):
        c=E.topargs[0].ad; o=E.oldview; n=o.read('$dn',V.ad(o.read('$cq',c))); s=E.getname('state').ad; r=E.topargs[1].ad; le=zb(E.truth(E.topargs[2]))
        return slog(E,c,s,2*n,le,r,o.read('$ln',zero),L.i,o,ground(2*n),per=dper(n,le))
    E.loops[(M+'_simulate_circuit_density_matrix',0)]=LoopSpec(dl_inv,lambda E,L: smods(E.getname('state').ad,E.topargs[1].ad),allocates=True)
    c=Contract(M+'_simulate_circuit_density_matrix',[('circuit',('obj',K['Ci'])),('rng',RG),('little_endian',('bool',))],denc,requires=dreq,props=('C02',)); c.simul=True; cs.append(c); E.dencon=c
    E.models[M+'apply_instruction']=m_apply; E.contracts[c.qual]=c; E.models[C+'Circuit.set_state']=m_setstate

    # ---------------------------------------------------------------- Measurement.sample
    MO=O+'Measurement.sample'; off=z3.Function('sampleoff',I,I)
    def sset(E,a):
        a[1]=E.resolve(a[1]) if isinstance(a[1],Bx) else a[1]; a[3]=False
        E.fact(off(z3.IntVal(0))==E.read('$sn',zero))
    def sq(E,a,o):
        """the qubits that are sampled: length, element"""
        l=a[1].ad if a[1] is not None else V.ad(o.read('_measured_qubit_indices',a[0].ad))
        if a[1] is None: E.fact(E.tyfact(o.read('_measured_qubit_indices',a[0].ad),('list',('int',)),False))
        n=o.read('$len',l); E.fact(n>=0); return n,(lambda j: V.iv(z3.Select(o.read('$el',l),j)))
    def entry(E,o,k,cnt,m,q,ms,A0):
        """sample k: one outcome per qubit, in order, from a fresh copy of the remembered state"""
        p=z3.Int('ep'); E.keep.append(p); g=A(k>=0,k<cnt,p>=off(k),p<off(k)+m); c=at(E,'$sad',off(k)); fa=lambda t,f: z3.ForAll([k,p],z3.Implies(g,f),patterns=[z3.MultiPattern(at(E,t,p),off(k))])
        return [fa('$sq',at(E,'$sq',p)==V.i(q(p-off(k)))),fa('$slc',at(E,'$slc',p)),fa('$sad',at(E,'$sad',p)==c),z3.ForAll([k],z3.Implies(A(k>=0,k<cnt),A(c>=A0,c<E.now())),patterns=[at(E,'$sad',off(k))]),
            fa('$sst',z3.Implies(p>off(k),at(E,'$sst',p)==at(E,'$sse',p-1))),z3.ForAll([k],z3.Implies(A(k>=0,k<cnt),at(E,'$sst',off(k))==o.read('$st',ms)),patterns=[at(E,'$sst',off(k))])]
    def offs(E,m):
        k=z3.Int('ok'); E.fact(z3.ForAll([k],z3.Implies(k>=0,off(k+1)==off(k)+m),patterns=[off(k)])); E.fact(z3.ForAll([k],z3.Implies(k>=0,off(k)>=off(z3.IntVal(0))),patterns=[off(k)]))
        l=z3.Int('ol'); E.fact(z3.ForAll([k,l],z3.Implies(A(k>=0,k<l),off(k)+m<=off(l)),patterns=[z3.MultiPattern(off(k),off(l))]))
    def rows(E,o,lst,cnt,m,q,ms,A0):
        k,j=z3.Ints('rk rj'); E.keep+=[k,j]; row=z3.Select(E.read('$el',lst),k); rl=V.ad(row)
        return [('one row per sample, one outcome per qubit',z3.ForAll([k],z3.Implies(A(k>=0,k<cnt),A(V.is_r(row),rl>=A0,rl<E.now(),E.read('$len',rl)==m)),patterns=[row])),
                ('rows hold the outcomes',z3.ForAll([k,j],z3.Implies(A(k>=0,k<cnt,j>=off(k),j<off(k)+m),z3.Select(E.read('$el',rl),j-off(k))==at(E,'$so',j)),patterns=[z3.MultiPattern(row,at(E,'$so',j))])),
                ]+list(zip(('each sample measures the qubits in order','with collapse','all on the same array','which is a fresh one','each outcome is drawn from the state the one before left','each sample starts from the remembered state'),entry(E,o,k,cnt,m,q,ms,A0)))
    def sreq(E,a):
        i=z3.Int('si'); o=Vocab(E); m,q=sq(E,a,Old(E,dict(E.H))); el=(lambda j: z3.Select(E.read('$el',a[1].ad),j)) if a[1] is not None else (lambda j: z3.Select(E.read('$el',V.ad(E.read('_measured_qubit_indices',a[0].ad))),j))
        return [('qubits are numbers from 0 on',z3.ForAll([i],z3.Implies(A(i>=0,i<m),A(V.is_i(el(i)),q(i)>=0)))),('some qubit is sampled',m>0),('a number of samples',zi(a[2])>=0)]
    def scases(E,a,old):
        x=a[0].ad; mv=old.read('_measured_state',x); E.fact(E.tyfact(mv,('opt',('obj',E.ND)),False)); ms=V.ad(mv); m,q=sq(E,a,old); A0=E.now(); i=z3.Int('si'); offs(E,m); cnt=zi(a[2])
        mods=[('$sn',zero)]+[(f,zero) for f in SLOG]
        def ens(E,a,ol,r):
            if not isinstance(r,Ref) or E.kindof(r)!='list': return [('is a list',z3.BoolVal(False))]
            return [('as many samples as asked for',E.read('$len',r.ad)==cnt)]+rows(E,old,r.ad,cnt,m,q,ms,A0)
        return [Case('no state',mv==none,raises='CircuitError'),
            Case('no such qubit',z3.Exists([i],A(i>=0,i<m,q(i)>=old.read('$nq',ms))),raises='ValueError',modifies=mods,allocates=True),
            Case('sampled',modifies=mods,allocates=True,ensures=ens)]
    def tA0(E): return E.oldA0
    def so_inv(E,L):
        a=E.topargs; o=E.oldview; x=a[0].ad; ms=V.ad(o.read('_measured_state',x)); m,q=sq(E,a,o); sl=E.getname('samples').ad
        return [('one row per sample so far',E.read('$len',sl)==L.i),('log',E.read('$sn',zero)==off(L.i))]+rows(E,o,sl,L.i,m,q,ms,L.A0)
    def so_mod(E,L):
        sl=E.getname('samples').ad; return [('$len',sl),('$el',sl),('$rk',E.getname('rng').ad),('$sn',zero)]+[(f,zero) for f in SLOG]
    E.loops[(MO,0)]=LoopSpec(so_inv,so_mod,allocates=True,env={'_':('int',)})
    def sc_inv(E,L):
        a=E.topargs; o=E.oldview; x=a[0].ad; ms=V.ad(o.read('_measured_state',x)); m,q=sq(E,a,o); c=E.getname('state_copy').ad; n0=L.old.read('$sn',zero); j=z3.Int('cj'); E.keep.append(j); p=n0+j; k=z3.Int('ck'); w=z3.Int('cw'); E.keep.append(w)
        return [('one sample per qubit so far',E.read('$sn',zero)==n0+L.i),
            *[(nm,z3.ForAll([w],z3.Implies(A(w>=n0,w<n0+L.i),f),patterns=[at(E,t,w)])) for nm,t,f in (('the qubits are sampled in order','$sq',at(E,'$sq',w)==V.i(q(w-n0))),('from the copy','$sad',at(E,'$sad',w)==c),('with collapse','$slc',at(E,'$slc',w)),('outcomes are recorded','$so',at(E,'$so',w)==z3.Select(L.acc,w-n0)),('one after the other','$sst',z3.Implies(w>n0,at(E,'$sst',w)==at(E,'$sse',w-1))))],
            ('outcomes are collected',z3.ForAll([j],z3.Implies(A(j>=0,j<L.i),at(E,'$so',p)==z3.Select(L.acc,j)),patterns=[z3.Select(L.acc,j)])),
            ('the first sees the copied state',z3.Implies(L.i>0,at(E,'$sst',n0)==L.old.read('$st',c))),
            ('the copy is what the last one left',E.read('$st',c)==z3.If(L.i>0,at(E,'$sse',n0+L.i-1),L.old.read('$st',c))),
            ('earlier samples stay',A(*[z3.ForAll([k],z3.Implies(k<n0,at(E,f,k)==z3.Select(L.old.read(f,zero),k)),patterns=[at(E,f,k)]) for f in SLOG]))]
    E.loops[(MO,'comp',0)]=LoopSpec(sc_inv,lambda E,L: [('$st',E.getname('state_copy').ad),('$rk',E.getname('rng').ad),('$sn',zero)]+[(f,zero) for f in SLOG],allocates=True,kinds=('int',))
    cs.append(Contract(MO,[('self',('obj',K['Me'])),('qubits',('opt',('list',('int',)))),('num_samples',('int',)),('as_bitstring',('bool',))],scases,requires=sreq,setup=sset,props=('C06',)))
