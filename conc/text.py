"""C14 OpenQASM export, C15 QIR export, C16 QIR loading"""
from .core import *
from .build_c import *
import re, struct, math
QASM={'Identity':'id','X':'x','Y':'y','Z':'z','Hadamard':'h','S':'s','T':'t','RX':'rx','RY':'ry','RZ':'rz','Rotation':'rot','CX':'cx','CY':'cy','CZ':'cz',
 'CHadamard':'ch','CRX':'crx','CRY':'cry','CRZ':'crz','CRotation':'crot','SWAP':'swap','CSWAP':'cswap','CCX':'ccx'}
QIR_BASE={'X':'x','Y':'y','Z':'z','Hadamard':'h','S':'s','T':'t','RX':'rx','RY':'ry','RZ':'rz','CX':'cnot','CZ':'cz'}
QIR_EXT={'Rotation':'rot','CY':'cy','SWAP':'swap','CHadamard':'ch','CRX':'crx','CRY':'cry','CRZ':'crz','CRotation':'crot','CSWAP':'cswap','CCX':'ccnot'}
def _made():
    c=Circuit(2)
    with c.context as reg: ops.CX(reg.q[0],reg.q[1])
    return create_operation(c,'BellMade')
MADE=_made()

def layout(t,labels,cls=Circuit,maxreg=3,maxsize=3):
    """circuit with several registers; -> circuit, [(label,size)], [(label,size)]"""
    r=t.r; c=cls(); out=[]
    for kind,add in (('q',c.add_qregister),('c',c.add_cregister)):
        L=[]
        for k in range(r.choice([1,1,2,3]) if kind=='q' else r.choice([0,1,1,2,3])):
            m=r.randint(0,maxsize) if k else r.randint(1,maxsize)
            lab=r.choice(['','reg','x','alpha','q','c'])+f'{kind}{k}'+r.choice(['','_z']); L.append((lab,m)); add(m,label=lab); t.step(f'{kind}register',lab,m)
        out.append(L)
    if r.random()<.3:      # grow registers afterwards
        i=r.randrange(len(out[0])); c.add_qubit(qreg_label=out[0][i][0]); out[0][i]=(out[0][i][0],out[0][i][1]+1); t.step('add_qubit to',out[0][i][0])
    return c,out[0],out[1]

def fill(t,c,n,depth,gates=None,extra=False):
    D=[]
    with c.context as reg:
        for _ in range(depth):
            if extra and n>=2 and t.r.random()<.1:
                s=t.r.sample(range(n),2); MADE([reg.q[i] for i in s]); D.append(('BellMade',[],s)); t.step('BellMade',s); continue
            g,ps,s=pick(t,n,gates)
            if t.r.random()<.15: ps=[t.r.choice([0,1e-12,-2.5e17,3,float(np.float64(1)/3)]) for _ in ps]
            apply_op(t,reg.q,g,ps,s); D.append((g,ps,s))
    return D

@case('C14',weight=5)
def faithful(t):
    r=t.r; c,Q,C=layout(t,True); n=sum(m for _,m in Q)
    lab=r.random()<.5; defs=r.random()<.5
    D=fill(t,c,n,r.randint(0,10),extra=True)
    kw={}
    if lab or r.random()<.5: kw['reg_labels']=lab
    if defs or r.random()<.5: kw['gate_definitions']=defs
    if r.random()<.3: kw['version']='2.0'
    t.step('to_qasm',kw); s=c.to_qasm(**kw)
    before=[(type(o),tuple(o.qubits)) for o in c.circuit]
    lines=[l.strip() for l in s.split('\n') if l.strip()]
    t.ck(lines[:2]==['OPENQASM 2.0;','include "qelib1.inc";'],'header',lines[:2])
    i=2; decls=[]
    while i<len(lines) and not lines[i].startswith('qreg'): decls.append(lines[i]); i+=1
    body=lines[i:]; want=[]
    if defs:
        for g,_,_ in D:
            d=getattr(getattr(ops,g,None),'_qasm_decl',None)
            if d and d not in want: want.append(d)
    t.ck(sorted(decls)==sorted(want),'gate definitions',decls,want)
    qn=[l if lab else ('q' if len(Q)==1 else f'q{k}') for k,(l,_) in enumerate(Q)]
    cn=[l if lab else ('c' if len(C)==1 else f'c{k}') for k,(l,_) in enumerate(C)]
    regs=[]
    for l in body[:len(Q)+len(C)]:
        m=re.fullmatch(r'(qreg|creg) ([A-Za-z_]\w*)\[(\d+)\];',l); t.ck(m,'register declaration',l); regs.append((m[1],m[2],int(m[3])))
    t.ck([(k,x) for k,_,x in regs]==[('qreg',m) for _,m in Q]+[('creg',m) for _,m in C],'declared register kinds and sizes',regs,(Q,C))
    names=[x for _,x,_ in regs]
    if lab: t.ck(names==qn+cn,'declared register names',names,qn+cn)
    t.ck(len(set(names))==len(names),'register names are distinct',names)
    flat=[f'{names[k]}[{j}]' for k,(_,m) in enumerate(Q) for j in range(m)]
    st=body[len(Q)+len(C):]
    t.ck(len(st)==len(D),'number of statements',st,D)
    for l,(g,ps,sq) in zip(st,D):
        m=re.fullmatch(r'(\w+)(?:\((.*)\))? (.*)(;?)',l); t.ck(m and l.endswith(';'),'statement',l)
        ops_=m[3].rstrip(';'); t.ck(m[1]==QASM.get(g,g.lower()),'gate name',l,g)
        gp=[float(x) for x in m[2].split(',')] if m[2] else []
        t.ck(gp==[float(x) for x in ps],'parameters',l,ps)
        t.ck([x.strip() for x in ops_.split(',')]==[flat[k] for k in sq],'operands',l,[flat[k] for k in sq])
    t.ck(before==[(type(o),tuple(o.qubits)) for o in c.circuit] and c.to_qasm(**kw)==s,'exporting again gives the same text')

@case('C14',weight=1)
def rejected(t):
    r=t.r; c,Q,C=layout(t,False); n=sum(m for _,m in Q); nb=sum(m for _,m in C)
    fill(t,c,n,r.randint(0,3)); k=r.randint(0,4)
    if k==0: t.step('version'); t.raises(lambda:c.to_qasm(version=r.choice(['3.0','1.0','2','',None,2.0])),'unsupported version accepted',NotImplementedError); c.to_qasm(); return
    if k==1:
        p=ParametricCircuit(n)
        with p.context as reg: ops.RX(reg.p[0],reg.q[0])
        t.raises(lambda:p.to_qasm(),'parametric circuit exported'); t.raises(lambda:ParametricCircuit(1).to_qasm(),'parametric circuit exported'); return
    c.unlock()
    with c.context as reg:
        if k==2: ops.Barrier([reg.q[i] for i in range(r.randint(1,n))]); t.step('Barrier')
        elif k==3:
            op=ops.Measurement(reg.q[0]); t.step('Measurement')
            if nb: op|reg.c[0]
        else: G,_=custom_single(t); G(reg.q[r.randrange(n)])
        if r.random()<.5: ops.X(reg.q[0])
    t.raises(lambda:c.to_qasm(reg_labels=r.random()<.5,gate_definitions=r.random()<.5),'operation without an OpenQASM form exported')

# ------------------------------------------------------------------ QIR
def dbl(x):
    if x.startswith('0x'): return struct.unpack('>d',bytes.fromhex(x[2:].rjust(16,'0')))[0]
    return float(x)
def parse_arg(a):
    a=a.strip()
    m=re.fullmatch(r'%(Qubit|Result)\*(?: \w+)* inttoptr \(i64 (\d+) to %\w+\*\)',a)
    if m: return (m[1][0],int(m[2]))
    m=re.fullmatch(r'%(Qubit|Result)\* null',a)
    if m: return (m[1][0],0)
    m=re.fullmatch(r'double (\S+)',a)
    if m: return ('d',dbl(m[1]))
    return ('?',a)
def split_args(s):
    out=[];d=0;cur=''
    for ch in s:
        if ch==',' and d==0: out.append(cur); cur=''; continue
        d+=(ch=='(')-(ch==')'); cur+=ch
    return out+([cur] if cur.strip() else [])
def parse_qir(t,s):
    """-> list of (function,args) in program order, (qubits,results), declarations"""
    calls=[]; ret=False; decl={}
    for l in s.split('\n'):
        l=l.strip(); m=re.match(r'(?:tail )?call \S+ @([\w.]+)\((.*)\)',l)
        if m: t.ck(not ret,'call after return',l); calls.append((m[1],[parse_arg(a) for a in split_args(m[2])]))
        if l.startswith('ret'): ret=True
        if l.startswith('declare'): m=re.match(r'declare \S+ @([\w.]+)\((.*)\)',l); t.ck(m and m[1] not in decl,'function declared twice or unreadable',l); decl[m[1]]=[x.split()[0] for x in split_args(m[2])]
        if l.startswith('define'): t.ck('@main(' in l,'entry point',l)
    t.ck(ret,'no return')
    q=re.search(r'"num_required_qubits"="(\d+)"',s); b=re.search(r'"num_required_results"="(\d+)"',s)
    if not q: q=re.search(r'"requiredQubits"="(\d+)"',s); b=re.search(r'"requiredResults"="(\d+)"',s)
    t.ck(q and b,'entry point attributes'); return calls,(int(q[1]),int(b[1])),decl

def qir_circuit(t,ext,meas=True):
    r=t.r; c,Q,C=layout(t,False); n=sum(m for _,m in Q); nb=sum(m for _,m in C)
    gates=['Identity']+list(QIR_BASE)+(list(QIR_EXT) if ext else [])
    if r.random()<.3: gates=r.sample(gates,2)+['X']
    D=fill(t,c,n,r.randint(0,10),gates); M=[]
    if meas and nb and r.random()<.7:
        c.unlock()
        with c.context as reg:
            for _ in range(r.randint(1,2)):
                k=r.randint(1,min(n,nb)); qs=r.sample(range(n),k); bs=r.sample(range(nb),k)
                ops.Measurement([reg.q[i] for i in qs])|[reg.c[i] for i in bs]; M+=list(zip(qs,bs)); t.step('Measurement',qs,bs)
                if r.random()<.3: ops.Identity(reg.q[qs[0]]); t.step('Identity')
    return c,D,M,n,nb
def to_qir(c,ext,**kw): return c.to_qir(add_external=True,**kw) if ext else c.to_qir(**kw)
def check_qir(t,s,D,M,n,nb):
    calls,counts,decl=parse_qir(t,s)
    t.ck(counts==(n,nb),'declared qubit and result counts',counts,(n,nb))
    calls=[x for x in calls if x[0]!='__quantum__rt__initialize']
    want=[]
    for g,ps,qs in D:
        if g=='Identity': continue
        want.append((f'__quantum__qis__{(QIR_BASE.get(g) or QIR_EXT[g])}__body',[('d',float(p)) for p in ps]+[('Q',q) for q in qs]))
    want+=[('__quantum__qis__mz__body',[('Q',q),('R',b)]) for q,b in M]
    w2=[[('R',b)] for _,b in M]
    nc=len(want); t.ck(calls[:nc]==want,'calls',[x for x in zip(calls,want) if x[0]!=x[1]] or calls,want)
    rest=calls[nc:]; t.ck(len(rest)==len(w2) and all('result_record_output' in f and a[:1]==w for (f,a),w in zip(rest,w2)),'output records',rest,w2)
    for g,ps,qs in D:
        if g in QIR_EXT:
            t.ck(decl.get(f'__quantum__qis__{QIR_EXT[g]}__body')==['double']*len(ps)+['%Qubit*']*len(qs),'declaration of the external function',decl,g)
    t.ck(len([f for f in decl if '__qis__' in f])==len({x[0] for x in want}),'one declaration per called function',decl)

@case('C15',weight=5)
def export(t):
    ext=t.r.random()<.7; c,D,M,n,nb=qir_circuit(t,ext)
    before=list(c.circuit); s=to_qir(c,ext); t.step('to_qir external',ext)
    check_qir(t,s,D,M,n,nb)
    t.ck(list(c.circuit)==before,'export changed the circuit'); t.ck(to_qir(c,ext)==s,'exporting again gives the same program')
    if t.r.random()<.3:
        import pyqir
        bc=to_qir(c,ext,bitcode=True); t.ck(isinstance(bc,bytes),'bitcode type'); check_qir(t,str(pyqir.Module.from_bitcode(pyqir.Context(),bc)),D,M,n,nb)
@case('C15',weight=2)
def recompile(t):
    from dwave.gate.qir.compiler import qir_module, CompileError
    ext=t.r.random()<.8; c,D,M,n,nb=qir_circuit(t,ext); m=qir_module(c,add_external=ext); m.compile(); a=m.qir
    t.ck(to_qir(c,ext)==a,'module and Circuit.to_qir agree'); t.raises(lambda:m.compile(),'recompiled without force',CompileError); t.ck(m.qir==a,'failed recompilation changed the program')
    for _ in range(t.r.randint(1,3)): m.compile(force=True); t.step('compile(force=True)'); check_qir(t,m.qir,D,M,n,nb); t.ck(m.qir==a,'forced recompilation gives another program',m.qir)
@case('C15',weight=1)
def rejected(t):
    r=t.r; c,Q,C=layout(t,False); n=sum(m for _,m in Q); nb=sum(m for _,m in C); k=r.randint(0,2)
    if k==0:
        g=r.choice([g for g in QIR_EXT if ref.G[g][0]<=n] or ['Rotation']); fill(t,c,n,r.randint(0,3),list(QIR_BASE)); c.unlock(); fill(t,c,n,1,[g]); c.unlock(); fill(t,c,n,r.randint(0,2),list(QIR_BASE))
        t.raises(lambda:c.to_qir(),f'external gate {g} exported without external functions'); c.to_qir(add_external=True)
    elif k==1:
        if not nb: raise Skip
        ext=r.random()<.5; b=r.randrange(nb)
        fill(t,c,n,r.randint(0,2),list(QIR_BASE)); c.unlock()
        with c.context as reg: ops.Measurement(reg.q[r.randrange(n)])|reg.c[b]
        c.unlock(); t.step('measurement'); fill(t,c,n,1,list(QIR_BASE)+(list(QIR_EXT) if ext else []))
        t.raises(lambda:to_qir(c,ext),'gate after a measurement exported')
    else:
        G,_=custom_single(t)
        with c.context as reg: G(reg.q[0])
        t.raises(lambda:to_qir(c,r.random()<.5),'unknown operation exported')

def loaded(t,c2,D,M,n,nbmin):
    t.ck(c2.num_qubits==n,'number of qubits of the loaded circuit',c2.num_qubits,n)
    D=[d for d in D if d[0]!='Identity']; got=list(c2.circuit)
    gates=[o for o in got if not isinstance(o,Measurement)]; ms=[o for o in got if isinstance(o,Measurement)]
    t.ck(got==gates+ms or all(x is y for x,y in zip(got,gates+ms)),'measurements come last',got)
    t.ck(len(gates)==len(D),'number of operations',gates,D); Q=list(c2.qubits); B=list(c2.bits)
    for o,(g,ps,qs) in zip(gates,D):
        t.ck(type(o).__name__==g,'loaded gate',o,g); t.same(o.qubits,[Q[i] for i in qs],f'qubits of {g}')
        t.ck([float(x) for x in getattr(o,'parameters',[])]==[float(p) for p in ps],'parameters',o.parameters if ps else None,ps)
    pairs=[(Q.index(q),next(i for i,x in enumerate(B) if x is b)) for o in ms for q,b in zip(o.qubits,o.bits)]
    t.ck(pairs==M and all(len(o.qubits)==len(o.bits) for o in ms),'loaded measurements',pairs,M)

@case('C16',weight=4)
def round_trip(t):
    from dwave.gate.qir.loader import load_qir_bitcode,load_qir_string
    ext=t.r.random()<.7; c,D,M,n,nb=qir_circuit(t,ext); bit=t.r.random()<.5; api=t.r.randint(0,1)
    s=to_qir(c,ext,bitcode=bit); t.step('load',['text','bitcode'][bit],'api',api)
    c2=Circuit.from_qir(s,bitcode=bit) if api==0 else (load_qir_bitcode if bit else load_qir_string)(s)
    t.ck(type(c2) is Circuit,'type'); loaded(t,c2,D,M,n,nb)
    if D and not any(g=='Identity' for g,_,_ in D): t.ck(to_qir(c2,ext) is not None,'re-export')

HEAD='%Qubit = type opaque\n%Result = type opaque\n'
def fmt(a):
    k,v=a
    if k=='d': return 'double 0x'+struct.pack('>d',float(v)).hex().upper()
    n={'Q':'Qubit','R':'Result'}[k]
    return f'%{n}* null' if v==0 else f'%{n}* inttoptr (i64 {v} to %{n}*)'
@case('C16',weight=3)
def handwritten(t):
    """programs assembled from supported calls, with code after the return, non-QIS calls and unknown QIS functions"""
    from dwave.gate.qir.loader import load_qir_string
    r=t.r; n=r.randint(1,5); nb=r.randint(0,4); D=[]; M=[]; blocks=[[]]; decl={}
    def emit(f,args,sig): decl[f]=sig; blocks[-1].append(f'  call void @{f}({", ".join(fmt(a) for a in args)})')
    tables={**QIR_BASE,**QIR_EXT}; mx=-1; retd=False; unknown=False
    nblocks=r.randint(1,3); retblock=r.randrange(nblocks)
    mode=r.random()
    for bi in range(nblocks):
        if bi: blocks.append([])
        for _ in range(r.randint(0,4)):
            x=r.random(); dead=bi>retblock
            if x<.15: emit('__quantum__rt__initialize',[],'') if r.random()<.5 else emit('my_helper',[('d',1)],'double'); continue
            if x<.2 and mode<.2: emit('__quantum__qis__frobnicate__body',[('Q',0)],'%Qubit*'); unknown|=not dead; continue
            if x<.35 and nb:
                q,b=r.randrange(n),r.randrange(nb)
                if not dead and (any(q==a for a,_ in M) or any(b==y for _,y in M)): continue
                emit('__quantum__qis__mz__body',[('Q',q),('R',b)],'%Qubit*, %Result*')
                if not dead: M.append((q,b)); mx=max(mx,q)
                continue
            g=r.choice([g for g in tables if ref.G[g][0]<=n]); ps=[ref.angle(r) for _ in range(ref.G[g][1])]; qs=r.sample(range(n),ref.G[g][0])
            f=tables[g]
            if g=='CX' and r.random()<.5: f='cx'
            emit(f'__quantum__qis__{f}__body',[('d',p) for p in ps]+[('Q',q) for q in qs],', '.join(['double']*len(ps)+['%Qubit*']*len(qs)))
            if not dead: D.append((g,ps,qs)); mx=max(mx,*qs)
    attrs=r.random()<.7; s=HEAD+'define void @main()'+(' #0' if attrs else '')+' {\n'
    for i,b in enumerate(blocks):
        s+=('entry' if i==0 else f'b{i}')+':\n'+'\n'.join(b)+'\n'+('  ret void\n' if i>=retblock or i==nblocks-1 else f'  br label %b{i+1}\n')
    s+='}\n'+''.join(f'declare void @{f}({a})\n' for f,a in decl.items())
    if attrs: s+='attributes #0 = { "entry_point" "output_labeling_schema" "qir_profiles"="custom" "num_required_qubits"="%d" "num_required_results"="%d" "requiredQubits"="%d" "requiredResults"="%d" }\n'%(n,nb,n,nb)
    for l in s.split('\n'): t.step(l)
    if unknown: t.raises(lambda:load_qir_string(s),'unknown QIS function accepted'); return
    c=load_qir_string(s)
    loaded(t,c,D,M,n if attrs else mx+1,nb)
