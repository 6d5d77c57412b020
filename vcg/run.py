"""Contract registry and obligation discharge."""
import z3, time, traceback, os, sys, json, multiprocessing as mp, importlib
from . import build, sym, qi, ir
from .sym import *

REG={}      # name -> Contract
class Contract:
    def __init__(s,name,props,fn,harness=None,roots=None,noinline=(),flags=(),functions=(),lemma=False,assume=(),budget=120):
        s.name=name;s.props=props;s.fn=fn;s.harness=harness;s.roots=roots;s.noinline=noinline;s.flags=flags
        s.functions=list(functions); s.lemma=lemma; s.assume=list(assume); s.budget=budget
def contract(name,props,**k):
    def deco(fn):
        REG[name]=Contract(name,props,fn,**k); return fn
    return deco
def lemma(name,props,**k):
    return contract(name,props,lemma=True,**k)

class Result:
    def __init__(s,name): s.name=name; s.obls=[]; s.error=None; s.time=0; s.solver_time=0; s.queries=0; s.vacuous=None; s.inv={}; s.functions=[]; s.assume=[]; s.gaveup=0; s.nested=False
    def to_json(s): return s.__dict__

def throw_handlers():
    def throw(ex,st,args,i):
        ex.throws.append(st); 
        if ex.on_throw: ex.on_throw(ex,st)
        return []
    def noret(ex,st,args,i): return []
    return [(r'^@__cxa_allocate_exception$',throw),(r'^@__cxa_throw$',noret),(r'^@__cxa_rethrow$',noret),(r'^@_ZSt9terminatev$',noret),(r'^@abort$',noret),
            (r'^@_ZSt\d+__throw_',throw)]

def verify(c,log=None):
    """runs one contract; returns Result. If something was left open and the solver gave up on a candidate
    invariant (time limit), the contract is tried once more with larger limits; a result that still depends on
    a time limit is 'unknown', never 'failed'."""
    R=verify1(c)
    if any(o['status']!='proved' for o in R.obls) and (R.gaveup or R.nested) or R.error and 'time budget' in R.error:
        R2=verify1(c,3,False); R2.time+=R.time; R2.solver_time+=R.solver_time; R=R2
    if R.gaveup:
        for o in R.obls:
            if o['status']=='failed': o['status']='unknown'
    return R
def verify1(c,tmul=1,memo=True):
    R=Result(c.name); t0=time.time(); R.functions=c.functions; R.assume=list(c.assume)
    try:
        if c.lemma:
            obls=c.fn()
            for name,assum,goal in obls:
                discharge(R,Obl(name,assum,goal,'lemma'),[],20000)
            # vacuity of the lemma hypotheses
            for name,assum,goal in obls:
                so=z3.Solver(); so.set('timeout',5000); so.add(*assum)
                if so.check()==z3.unsat and not name.endswith('[absurd]'): R.vacuous='hypotheses of lemma %s are contradictory'%name
        else:
            mod=build.module(c.harness,c.roots,c.noinline,c.flags)
            ex=Exec(mod,name=c.name); ex.on_throw=None; ex.handlers=throw_handlers(); ex.deadline=t0+c.budget*tmul; ex.tmul=tmul; ex.use_memo=memo
            c.fn(ex)                       # sets up, runs, and records obligations
            pend=list(ex.obls)
            for o in pend: discharge(R,o,ex.axioms,ex.timeout*tmul)
            R.inv={'%s %s'%k:v for k,v in ex.used_inv.items()}
            R.gaveup=len(ex.gaveup); R.nested=any(len(k)>1 for k in ex.memo); R.queries+=ex.nqueries; R.solver_time+=ex.solver_time
            if not ex.covers: R.vacuous='no path reaches the end of the function'
            else:
                ok=False
                for pc in ex.covers[:6]:
                    so=z3.Solver(); so.set('timeout',2500); so.add(*ex.axioms); so.add(*pc)
                    if so.check()!=z3.unsat: ok=True; break
                if not ok: R.vacuous='contradictory precondition: no end state is reachable'
            if not pend: R.vacuous='no obligations generated'
    except (Unsupported,build.BuildError,ir.ParseError) as e:
        R.error='%s: %s'%(type(e).__name__,e)
    except z3.Z3Exception as e:
        R.error='Z3Exception: %s | %s'%(e,traceback.format_exc()[-2500:])
    except Exception as e:
        R.error='internal: %s | %s'%(e,traceback.format_exc()[-1500:])
    R.time=time.time()-t0
    return R

def discharge(R,o,axioms,to):
    t=time.time()
    if o.kind=='inv' and z3.is_true(o.goal): st='unsat'; m=None; R.obls.append(dict(name=o.name,kind=o.kind,status='proved',time=0,backend='z3')); return
    st=None
    r,model=qi.prove(axioms,o.pc,o.goal,to,want_model=True); be='z3 (ground instantiation)'
    if model is not None:
        try: model=str(model)[:2000]
        except Exception: model='?'
    if r!='unsat':
        so2=z3.Solver(); so2.set('timeout',to); so2.set('auto_config',False); so2.set('mbqi',False)
        so2.add(*axioms); so2.add(*o.pc); so2.add(z3.Not(o.goal)); r2=so2.check()
        if r2==z3.unsat: r='unsat'; be='z3 (e-matching)'
        elif r=='unknown' and cvc5(so2,to): r='unsat'; be='cvc5'
    dt=time.time()-t; R.solver_time+=dt; R.queries+=1
    R.obls.append(dict(name=o.name,kind=o.kind,status={'unsat':'proved','sat':'failed','unknown':'unknown'}[str(r)],time=round(dt,3),backend=be,model=model))

def cvc5(solver,to):
    import subprocess,tempfile
    try:
        txt='(set-logic ALL)\n'+solver.to_smt2()
        with tempfile.NamedTemporaryFile('w',suffix='.smt2',delete=True) as f:
            f.write(txt); f.flush()
            r=subprocess.run(['cvc5','--tlimit=%d'%to,f.name],stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True,timeout=to/1000+5)
            return r.stdout.strip().startswith('unsat')
    except Exception: return False

def finish(ex,outs,post,cover=True):
    """post(st,ret)->[(name,formula)] for each normal outcome"""
    ex.covers=getattr(ex,'covers',[])
    for o in outs:
        if o[0]!='ret': continue
        ex.covers.append(list(o[1].pc))
        for name,g in post(o[1],o[2]): ex.oblige('post: '+name,o[1],g,'post'); o[1].assume(g)      # assert, then assume

def _work(name):
    qi.CROSS=True; qi.STAGED=False; r=verify(REG[name]); return r.to_json()

def load_all():
    d=os.path.join(os.path.dirname(__file__),'contracts')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and not f.startswith('_'): importlib.import_module('vcg.contracts.'+f[:-3])

def _child(conn,name):
    try: conn.send(_work(name))
    finally: conn.close()

def run_many(names,procs=8,limit=660):
    """runs the contracts in parallel processes; one that exceeds its own time limit or the overall limit is ended and reported as undecided"""
    ctx=mp.get_context('fork'); t0=time.time(); todo=list(names); run={}; res={}
    def lost(n,why): r=Result(n); r.error=why; r.functions=REG[n].functions; r.assume=list(REG[n].assume); res[n]=r.to_json()
    while todo or run:
        while todo and len(run)<procs:
            n=todo.pop(0)
            if time.time()-t0>limit: lost(n,'not started: time limit of the check reached'); continue
            a,b=ctx.Pipe(False); p=ctx.Process(target=_child,args=(b,n)); p.start(); b.close(); run[n]=(p,a,time.time())
        for n,(p,a,t) in list(run.items()):
            if a.poll():
                try: res[n]=a.recv()
                except EOFError: lost(n,'worker ended without a result')
            elif time.time()-t>REG[n].budget*4+30 or time.time()-t0>limit: p.kill(); lost(n,'time limit reached')
            elif not p.is_alive() and not a.poll(): lost(n,'worker ended without a result')
            if n in res: p.join(5); a.close(); del run[n]
        time.sleep(0.03)
    return [res[n] for n in names]
