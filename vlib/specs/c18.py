"""C18: bits, qubits and variables"""
from .common import *
def contracts(src):
    Q,B,Va=('obj',src.cls(P+'Qubit')),('obj',src.cls(P+'Bit')),('obj',src.cls(P+'Variable'))
    out=[]
    def isb(v): return z3.Or(v==none,v==V.i(0),v==V.i(1))
    # bits
    def binv(E,a): return [('the bit holds nothing, 0 or 1',isb(rd(E,'_value',a[0])))]
    def setc(E,a,old):
        b,v,force=a; v0=old.read('_value',b.ad); isset=v0!=none
        bad=z3.And(isset,z3.Not(zb(E.truth(force))))
        t=E.truth(v)
        return [Case('already set, not forced',bad,raises='ValueError'),
                Case('set',modifies=[('_value',b.ad)],ensures=lambda E,a,old,r:[('stores the truth value',rd(E,'_value',a[0])==V.i(z3.If(zb(t),1,0)))]+binv(E,a))]
    out.append(Contract(P+'Bit.set',[('self',B),('value',('num',)),('force',('bool',))],setc,requires=binv))
    out.append(Contract(P+'Bit.reset',[('self',B)],lambda E,a,old:[Case('reset',modifies=[('_value',a[0].ad)],ensures=lambda E,a,old,r:[('holds nothing',rd(E,'_value',a[0])==none)])]))
    out.append(Contract(P+'Bit.value',[('self',B)],lambda E,a,old:[Case('read',ensures=lambda E,a,old,r:[('is the stored value',E.box(r)==old.read('_value',a[0].ad))])]))
    out.append(Contract(P+'Bit.__bool__',[('self',B)],lambda E,a,old:[Case('truth',ensures=lambda E,a,old,r:[('false only if the value is 0',zb(E.truth(r))==(old.read('_value',a[0].ad)!=V.i(0)))])],requires=binv))
    def init(cls):
        def cases(E,a,old):
            mods=[('_label',a[0].ad),('_id',a[0].ad),('_value',a[0].ad)]
            return [Case('made',modifies=mods,ensures=lambda E,a,old,r:[('has its label',rd(E,'_label',a[0])==E.box(a[1]))]+([('holds nothing',rd(E,'_value',a[0])==none)] if cls=='Bit' else []))]
        return cases
    out.append(Contract(P+'Bit.__init__',[('self',B),('label',('any',))],init('Bit')))
    out.append(Contract(P+'Qubit.__init__',[('self',Q),('label',('any',))],init('Qubit')))
    # equality
    def eqc(cls,attr,T,hasval):
        def cases(E,a,old):
            x,y=a
            def ens(E,a,old,r):
                yv=E.box(y); same_cls=z3.And(V.is_r(yv),E.isa(V.ad(yv),T[1])); eqid=old.read(attr,x.ad)==z3.Select(E.h0(attr),V.ad(yv))
                rr=zb(E.truth(r)); o=[('equal to another one exactly if the IDs (names) agree',z3.Implies(same_cls,rr==eqid))]
                if hasval:
                    v=old.read('_value',x.ad)
                    o.append(('equal to its value',z3.Implies(z3.And(z3.Not(same_cls),v!=none,yv==v),rr)))
                    o.append(('equal to nothing else without a value',z3.Implies(z3.And(z3.Not(same_cls),v==none),z3.Not(rr))))
                    o.append(('a value other than its own integer value is unequal',z3.Implies(z3.And(V.is_i(v),V.is_i(yv),yv!=v),z3.Not(rr))))
                else: o.append(('unequal to anything else',z3.Implies(z3.Not(same_cls),z3.Not(rr))))
                return o
            return [Case('compared',ensures=ens)]
        return cases
    # the other operand: one of the same class, a number, a string or none
    oth=lambda T: ('or',('none',),T,('int',),('str',),('num',))
    out.append(Contract(P+'Bit.__eq__',[('self',B),('object',oth(B))],eqc('Bit','_id',B,True)))
    out.append(Contract(P+'Qubit.__eq__',[('self',Q),('object',oth(Q))],eqc('Qubit','_id',Q,False)))
    out.append(Contract(P+'Variable.__eq__',[('self',Va),('object',oth(Va))],eqc('Variable','_name',Va,True)))
    # hash: a function of what equality compares
    def hashc(attr,named):
        def cases(E,a,old):
            def ens(E,a,old,r):
                i=V.sv(old.read(attr,a[0].ad)); want=shash(cat(E.lit(named),i)) if named else shash(i)
                alt=shash(i); g=E.box(r)
                # any function of the ID alone makes equal objects hash equally
                y=z3.Const('idvar',Str)
                return [('the hash depends on the ID (name) only',z3.Not(z3.BoolVal(E.mentions(z3.substitute(g,(i,y)),a[0].ad))))]
            return [Case('hashed',ensures=ens)]
        return cases
    for c,T,attr,n in(('Bit',B,'_id','Bit'),('Qubit',Q,'_id','Qubit'),('Variable',Va,'_name',None)):
        exact=T[1]
        def req(E,a,exact=exact): return [('exact class',clsof(a[0].ad)==exact.id)]
        out.append(Contract(P+c+'.__hash__',[('self',T)],hashc(attr,n)))
    out.append(Contract(P+'Variable.set',[('self',Va),('value',('num',))],lambda E,a,old:[Case('set',modifies=[('_value',a[0].ad)],ensures=lambda E,a,old,r:[('has the value',rd(E,'_value',a[0])==E.box(a[1]))])]))
    out.append(Contract(P+'Variable.reset',[('self',Va)],lambda E,a,old:[Case('reset',modifies=[('_value',a[0].ad)],ensures=lambda E,a,old,r:[('has no value',rd(E,'_value',a[0])==none)])]))
    out.append(Contract(P+'Variable.value',[('self',Va)],lambda E,a,old:[Case('read',ensures=lambda E,a,old,r:[('is the stored value',E.box(r)==old.read('_value',a[0].ad))])]))
    for c,T,attr,f in(('Bit',B,'_id','id'),('Qubit',Q,'_id','id'),('Variable',Va,'_name','name'),('Bit',B,'_label','label'),('Qubit',Q,'_label','label')):
        out.append(Contract(P+c+'.'+f,[('self',T)],lambda E,a,old,attr=attr:[Case('read',ensures=lambda E,a,old,r:[('is the stored one',E.box(r)==old.read(attr,a[0].ad))])]))
    return out
def nextid(E,args,kw): return E.fresh('newid',Str)
def load(tree):
    src=source(tree); E=engine(src,models={'dwave.gate.tools.counters:IDCounter.next':nextid})
    return E,contracts(src),dict(trusted=['IDCounter.next returns some string (its own contract is C17)'])
