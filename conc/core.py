"""Concrete contract evaluation on the real code: the bounded half of every check.

A case is a deterministic function of (property, family, index, seed); it builds inputs, calls the real library and
evaluates the property's contract.  It is used (a) to replay counter-models and find failing inputs for failed
obligations, (b) as the labelled bounded stand-in where no obligation can be discharged, (c) to validate the contracts
that the deductive part assumes."""
import random, signal, time, traceback, warnings, contextlib
FAM={}          # property -> {family: (fn, weight)}
class Violation(Exception): pass
class Done(Exception): pass          # an enumerated family is exhausted
class Skip(Exception): pass
class CaseTimeout(BaseException): pass

def case(prop,weight=1,timeout=90):
    def deco(f):
        FAM.setdefault(prop,{})[f.__name__]=(f,weight,timeout); return f
    return deco

class T:
    """one case: randomness, log and assertions"""
    def __init__(s,prop,fam,i,seed):
        s.r=random.Random(f'{seed}|{prop}|{fam}|{i}'); s.i=i; s.seed=seed; s.log=[]; s.tier='quick'
    def step(s,*a): s.log.append(' '.join(str(x) for x in a))
    def ck(s,c,msg,*a):
        if not c: raise Violation(msg+(': '+', '.join(short(x) for x in a) if a else ''))
    def eq(s,got,want,msg):
        if got!=want or type(got)!=type(want) and not isinstance(want,(int,float,complex,str,list,tuple,type(None))):
            raise Violation(f'{msg}: got {short(got)}, expected {short(want)}')
    def same(s,got,want,msg):
        got=list(got); want=list(want)
        if len(got)!=len(want) or any(a is not b for a,b in zip(got,want)):
            raise Violation(f'{msg}: got {short(got)}, expected {short(want)}')
    def close(s,got,want,msg,tol=1e-9):
        import numpy as np
        g=np.asarray(got); w=np.asarray(want)
        if g.shape!=w.shape: raise Violation(f'{msg}: shape {g.shape}, expected {w.shape}')
        if g.size and not (np.max(np.abs(g-w))<=tol): raise Violation(f'{msg}: max deviation {np.max(np.abs(g-w))!r}; got {short(g)}, expected {short(w)}')
    def raises(s,f,msg,exc=Exception):
        try: v=f()
        except exc as e: return e
        except Exception as e: raise Violation(f'{msg}: raised {type(e).__name__} ({e}), expected {exc}')
        raise Violation(f'{msg}: no error (returned {short(v)})')

def short(x):
    try: r=repr(x)
    except Exception as e: r=f'<unprintable {type(x).__name__}: {e}>'
    return r if len(r)<600 else r[:600]+'...'

def clean_globals():
    """cases are independent: leave any context a failed case may have left active"""
    try:
        from dwave.gate.circuit import CircuitContext
        a=CircuitContext.active_context
        if a is not None: a.__exit__(None,None,None)
    except Exception: pass

def run_case(prop,fam,i,seed,tier='quick'):
    f,_,tmo=FAM[prop][fam]; t=T(prop,fam,i,seed); t.tier=tier
    def onalarm(*a): raise CaseTimeout()
    signal.signal(signal.SIGALRM,onalarm); signal.alarm(tmo)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try: f(t)
            finally: signal.alarm(0)
    except Violation as e: return t,'violation',str(e)
    except Done: return t,'done',''
    except Skip: return t,'skip',''
    except CaseTimeout: return t,'timeout','case did not finish within %d s'%tmo
    except Exception as e:
        return t,'violation','unexpected '+''.join(traceback.format_exception_only(type(e),e)).strip()+' at '+'; '.join(
            f'{x.filename}:{x.lineno} {x.name}' for x in traceback.extract_tb(e.__traceback__)[-3:])
    finally:
        signal.alarm(0); clean_globals()
    return t,'ok',''
