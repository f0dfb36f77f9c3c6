"""Runs the deductive part of a property: a set of tasks (one per function under contract), each of which generates its
obligations from the current source and discharges them; tasks run in parallel processes."""
import os, tempfile, shutil, time, json, multiprocessing as mp, traceback, signal
from . import build

class Task:
    """name: the function; fn(tree,*args) -> dict(rows, unsupported, functions, trusted, assumptions, bounded)"""
    def __init__(s,name,fn,*args,limit=400): s.name=name; s.fn=fn; s.args=args; s.limit=limit

def _child(task,tree,q,i):
    try:
        t=time.time(); r=task.fn(tree,*task.args); r['wall']=time.time()-t; q.put((i,r))
    except BaseException as e:
        q.put((i,dict(rows=[],unsupported=[f'{task.name}: generator error {type(e).__name__}: {e} '+traceback.format_exc()[-400:]])))

def run_tasks(tasks,tree,workers=8,deadline=None):
    """own small pool: a task over its time limit is stopped and reported as out of reach"""
    ctx=mp.get_context('fork'); res=[None]*len(tasks); pend=list(range(len(tasks))); live={}
    q=ctx.Queue()
    while pend or live:
        while pend and len(live)<workers:
            i=pend.pop(0); p=ctx.Process(target=_child,args=(tasks[i],tree,q,i)); p.start(); live[i]=(p,time.time())
        try:
            while True: i,r=q.get(timeout=.05); res[i]=r; p,_=live.pop(i); p.join(5)
        except Exception: pass
        for i,(p,t0) in list(live.items()):
            late=time.time()-t0>tasks[i].limit or (deadline and time.time()>deadline)
            if late or not p.is_alive():
                try:
                    while True: j,r=q.get(timeout=.2); res[j]=r; pj,_=live.pop(j); pj.join(5)
                except Exception: pass
                if i not in live: continue
                if late: p.kill()
                p.join(); live.pop(i)
                if res[i] is None: res[i]=dict(rows=[],unsupported=[f'{tasks[i].name}: '+('time limit' if late else f'verifier process ended with {p.exitcode}')])
    return res

def run(prop,tier):
    from . import units
    tree=tempfile.mkdtemp(prefix='vsrc')
    try:
        build.copy_sources(tree); 
        try: build.generate(tree); gen=None
        except build.BuildError as e: gen=str(e)
        tasks,meta=units.tasks(prop,tree,tier)
        t0=time.time(); lim=560 if tier=='quick' else 780
        out=run_tasks(tasks,tree,deadline=t0+lim)
        D=dict(obligations=[],functions=[],unsupported=list(meta.get('unsupported',[])),trusted=list(meta.get('trusted',[])),assumptions=list(meta.get('assumptions',[])),
               bounded=list(meta.get('bounded',[])),backends={},solver_seconds=0.0)
        if gen: D['unsupported'].append('kernel generation: '+gen)
        for t,r in zip(tasks,out):
            D['obligations']+=r['rows']; D['unsupported']+=r.get('unsupported',[])
            D['functions'].append(dict(function=t.name,obligations=len(r['rows']),discharged=sum(x['status']=='proved' for x in r['rows'])))
            for k in('trusted','assumptions','bounded'):
                for x in r.get(k,[]):
                    if x not in D[k]: D[k].append(x)
            for x in r['rows']:
                b=x['backend'] or 'none'; D['backends'][b]=D['backends'].get(b,0)+1; D['solver_seconds']+=x['seconds']
        return D
    finally: shutil.rmtree(tree,ignore_errors=True)
