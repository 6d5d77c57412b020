"""Proof search by skolemisation + ground instantiation, then a quantifier-free z3 query.
Only 'unsat' (= proved) is ever trusted, and instantiating a universally quantified hypothesis is
always sound, so the choice of ground terms affects completeness only."""
import z3, itertools, time
_c=itertools.count()
CROSS=True     # one-variable quantifiers are also instantiated with every index term of the first round
def has_q(e,_m={}):
    i=e.get_id(); r=_m.get(i)
    if r is not None and r[0].eq(e): return r[1]
    seen=set(); st=[e]; res=False
    while st:
        x=st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): res=True; break
        st.extend(x.children())
    _m[i]=(e,res); return res

def open_q(q,terms):
    # z3 substitutes variables in reverse order
    return z3.substitute_vars(q.body(),*reversed(terms))
def q_sorts(q): return [q.var_sort(i) for i in range(q.num_vars())]

class Q:
    """Occurrence of a universal quantifier inside the formula, abstracted by a Boolean"""
    def __init__(s,b,q): s.b=b; s.q=q; s.done=set(); s.pats=None

def nnf(e,pos,qs):
    """returns QF formula; universal quantifiers in hypothesis position are replaced by Booleans"""
    if not has_q(e): return e if pos else z3.Not(e)
    if z3.is_not(e): return nnf(e.arg(0),not pos,qs)
    if z3.is_and(e): return (z3.And if pos else z3.Or)([nnf(x,pos,qs) for x in e.children()])
    if z3.is_or(e): return (z3.Or if pos else z3.And)([nnf(x,pos,qs) for x in e.children()])
    if z3.is_implies(e):
        a,b=e.children()
        return z3.Or(nnf(a,False,qs),nnf(b,True,qs)) if pos else z3.And(nnf(a,True,qs),nnf(b,False,qs))
    if z3.is_app_of(e,z3.Z3_OP_ITE):
        c,a,b=e.children()
        return z3.And(z3.Or(nnf(c,False,qs),nnf(a,pos,qs)),z3.Or(nnf(c,True,qs),nnf(b,pos,qs)))
    if z3.is_eq(e) and z3.is_bool(e.arg(0)):
        a,b=e.children()
        if pos: return z3.And(z3.Or(nnf(a,False,qs),nnf(b,True,qs)),z3.Or(nnf(b,False,qs),nnf(a,True,qs)))
        return z3.And(z3.Or(nnf(a,True,qs),nnf(b,True,qs)),z3.Or(nnf(a,False,qs),nnf(b,False,qs)))
    if z3.is_quantifier(e):
        univ=e.is_forall()==pos
        if not univ:
            sk=[z3.Const('sk!%d'%next(_c),so) for so in q_sorts(e)]
            return nnf(open_q(e,sk),pos,qs)
        b=z3.Bool('q!%d'%next(_c)); q=Q(b,e); q.pos=pos; qs.append(q); return b
    raise z3.Z3Exception('nnf: '+str(e)[:100])

def arrtag(a):
    """family tag of an array term: name prefix of its root constant"""
    while True:
        if z3.is_app_of(a,z3.Z3_OP_STORE) or z3.is_app_of(a,z3.Z3_OP_SELECT): a=a.arg(0)
        elif z3.is_app_of(a,z3.Z3_OP_ITE): a=a.arg(1)
        else: break
    return a.decl().name() if z3.is_app(a) else '?'
def loosetag(n):
    n=n.split('!')[0]
    if n[:2] in('M_','H_'): n=n[2:]
    return n

_fc={}
def facts(e):
    """ground index/application terms of one formula (memoised)"""
    i=e.get_id(); r=_fc.get(i)
    if r is not None and r[0].eq(e): return r[1],r[2],r[3]
    sel={}; uf={}; idx={}; seen=set(); st=[e]
    def ai(t): idx.setdefault(t.get_id(),t)
    while st:
        x=st.pop(); xi=x.get_id()
        if xi in seen: continue
        seen.add(xi)
        if not z3.is_app(x): continue
        k=x.decl().kind(); ch=x.children()
        if k==z3.Z3_OP_SELECT:
            ix=[];a=x
            while z3.is_app_of(a,z3.Z3_OP_SELECT): ix.append(z3.simplify(a.arg(1))); a=a.arg(0)
            ix=tuple(ix[::-1]); tag=arrtag(a); sel.setdefault((tag,)+tuple(y.get_id() for y in ix),(tag,ix))
            for y in ix: ai(y)
        elif k==z3.Z3_OP_STORE:
            ix=[z3.simplify(x.arg(1))]; v=x.arg(2); ai(ix[0])
            while z3.is_app_of(v,z3.Z3_OP_STORE): ix.append(z3.simplify(v.arg(1))); v=v.arg(2)
            ix=tuple(ix); tag=arrtag(x.arg(0)); sel.setdefault((tag,)+tuple(y.get_id() for y in ix),(tag,ix))
        elif k==z3.Z3_OP_UNINTERPRETED and ch:
            args=tuple(z3.simplify(y) for y in ch); n=x.decl().name()
            uf.setdefault((n,)+tuple(y.get_id() for y in args),(n,args))
            for y in args: ai(y)
        st.extend(ch)
    _fc[i]=(e,sel,uf,idx); return sel,uf,idx
class Terms:
    def __init__(s): s.sel=[]; s.uf={}; s.idx={}; s.keys=set(); s.keep=[]; s.ver=0
    def addidx(s,t):
        t=z3.simplify(t); s.idx.setdefault(t.get_id(),t); s.keep.append(t)
    def add(s,e):
        sel,uf,idx=facts(e); s.keep.append(e)
        for k,v in sel.items():
            if k not in s.keys: s.keys.add(k); s.sel.append(v)
        for k,v in uf.items():
            if k not in s.keys: s.keys.add(k); s.uf.setdefault(v[0],[]).append(v[1])
        for k,v in idx.items(): s.idx.setdefault(k,v)

def match1(p,T,loose):
    """bindings (dict var index -> term) of one pattern term; None if not supported"""
    if z3.is_app_of(p,z3.Z3_OP_SELECT):
        ix=[];a=p
        while z3.is_app_of(a,z3.Z3_OP_SELECT): ix.append(a.arg(1)); a=a.arg(0)
        ix=ix[::-1]; tag=arrtag(a); cands=[c for t,c in T.sel if t==tag or (loose and loosetag(t)==loosetag(tag))]
    elif z3.is_app(p) and p.decl().kind()==z3.Z3_OP_UNINTERPRETED:
        ix=p.children(); cands=T.uf.get(p.decl().name(),[])
    else: return None
    out=[]
    for c in cands:
        if len(c)<len(ix): continue
        bind={}; ok=True
        for pt,g in zip(ix,c):
            if z3.is_var(pt):
                v=z3.get_var_index(pt)
                if v in bind and not bind[v].eq(g): ok=False;break
                bind[v]=g
            elif z3.is_app_of(pt,z3.Z3_OP_BADD) and sum(z3.is_var(x) for x in pt.children())==1 and all(z3.is_var(x) or z3.is_bv_value(x) for x in pt.children()):
                v=[z3.get_var_index(x) for x in pt.children() if z3.is_var(x)][0]; k=[x for x in pt.children() if not z3.is_var(x)][0]
                bind[v]=z3.simplify(g-k)
        if ok: out.append(bind)
    return out

def match_pats(q,T,loose=True):
    """yield tuples of terms for quantifiers with patterns; None if a plain cross product is to be used"""
    n=q.q.num_vars(); res=set(); outs=[]
    for i in range(q.q.num_patterns()):
        ts=q.q.pattern(i).children(); binds=None
        for p in ts:
            m=match1(p,T,loose)
            if m is None: return None
            uniq={}
            for b in m: uniq[tuple(sorted((k,v.get_id()) for k,v in b.items()))]=b
            m=list(uniq.values())
            if binds is None: binds=m
            else:
                nb=[]
                for x in binds:
                    for y in m:
                        if all(k not in x or x[k].eq(v) for k,v in y.items()): nb.append({**x,**y})
                    if len(nb)>3000: break
                binds=nb
        for bind in binds or []:
            if len(bind)==n:
                t=tuple(bind[n-1-i] for i in range(n)); key=tuple(x.get_id() for x in t)
                if key not in res: res.add(key); outs.append(t)
    return outs


_ic={}
def inst(q,t,key,qs):
    k=(q.q.get_id(),key,q.pos); r=_ic.get(k)
    if r is not None and r[0].eq(q.q) and all(a.eq(b) for a,b in zip(r[1],t)): return r[2]
    n=len(qs); f=nnf(open_q(q.q,list(t)),q.pos,qs)
    if len(qs)==n: _ic[k]=(q.q,t,f)
    return f

def heavy(q): return q.num_patterns()>0 and all(q.pattern(i).num_args()>1 if hasattr(q.pattern(i),'num_args') else len(q.pattern(i).children())>1 for i in range(q.num_patterns()))
LOOSE=True
class Ctx:
    """one set of hypotheses, many goals"""
    def __init__(s,axioms,pc,to=8000,rounds=3,maxinst=4000,light=False):
        s.light=light
        s.qs=[]; s.fs=[nnf(a,True,s.qs) for a in itertools.chain(axioms,pc)]
        s.round=0; s.base=None; s.to=to; s.rounds=rounds; s.maxinst=maxinst; s.n=0
        s.T=Terms(); s.so=z3.Solver(); s.so.add(*s.fs)
        for f in s.fs: s.T.add(f)
    def add(s,f):
        s.so.add(f); s.T.add(f)
    def instantiate(s):
        new=[]
        if s.round==0: s.base=list(s.T.idx.values())
        for q in list(s.qs):
            if s.light and heavy(q.q): continue
            sorts=q_sorts(q.q)
            ms=match_pats(q,s.T,LOOSE and s.round==0) if q.q.num_patterns()>0 else None
            if ms is None or (CROSS and q.q.num_vars()==1 and (s.round==0 or not q.done)):
                base=s.base if s.base is not None else list(s.T.idx.values())
                cr=[[t for t in base if t.sort()==so_] for so_ in sorts]
                tot=1
                for c in cr: tot*=max(1,len(c))
                if tot<=400 and (ms is None or len(sorts)==1):
                    ms=(ms or [])+[tuple(x) for x in itertools.product(*cr)]
                elif ms is None: ms=[tuple(x) for x in itertools.islice(itertools.product(*cr),400)]
            for t in ms:
                key=tuple(x.get_id() for x in t)
                if key in q.done: continue
                q.done.add(key); s.T.keep.extend(t)
                f=inst(q,t,key,s.qs)
                new.append((q.b,f)); s.n+=1
                if s.n>s.maxinst: break
            if s.n>s.maxinst: break
        for b,f in new: s.so.add(z3.Implies(b,f)); s.T.add(f)
        s.round+=1
        return len(new)
    def check(s,deadline,*assum):
        rem=int((deadline-time.time())*1000)
        if rem<=20: return z3.unknown
        s.so.set('timeout',rem)
        return s.so.check(*assum)

STAGED=False   # try first without the quantifiers that have multi-patterns
def prove(axioms,pc,goal,to=8000,rounds=3,hints=(),want_model=False,maxinst=4000,stats=None):
    if STAGED:
        r,m=prove1(axioms,pc,goal,to//2,rounds,hints,False,maxinst,stats,light=True)
        if r=='unsat': return r,m
    return prove1(axioms,pc,goal,to,rounds,hints,want_model,maxinst,stats)
def prove1(axioms,pc,goal,to=8000,rounds=3,hints=(),want_model=False,maxinst=4000,stats=None,light=False):
    if any(goal.get_id()==e.get_id() for e in pc): return 'unsat',None
    c=Ctx(axioms,pc,to,rounds,maxinst,light); c.add(nnf(goal,False,c.qs))
    for h in hints: c.T.addidx(h)
    dl=time.time()+to/1000.0; r=None
    for rd in range(rounds+1):
        k=c.instantiate()
        if k==0 and r is not None: break
        # an under-instantiated query can be a hard satisfiable one: do not spend the whole time on it
        last=rd==rounds or not c.qs or c.n>maxinst
        r=c.check(dl if last else min(dl,time.time()+to*0.2/1000.0))
        if r==z3.unsat or c.n>maxinst: break
    if r==z3.unknown:
        so=z3.Tactic('qfaufbv').solver(); so.set('timeout',int(to*0.6)); so.add(*c.so.assertions())
        try: r=so.check()
        except z3.Z3Exception: r=z3.unknown
        if r==z3.sat: r=z3.unknown
    if stats is not None: stats.update(inst=c.n,idx=len(c.T.idx),rd=rd,qs=len(c.qs))
    if r==z3.sat and c.n>maxinst: r=z3.unknown          # truncated instantiation: no verdict
    if r==z3.sat: return 'sat',(c.so.model() if want_model else None)
    return str(r),None

def prove_many(axioms,pc,goals,to=8000,rounds=3,maxinst=4000,per=2500,unkd=None):
    if STAGED:
        p1,n1=prove_many1(axioms,pc,goals,to,rounds,maxinst,per,[],light=True)
        p2,n2=prove_many1(axioms,pc,{l:g for l,g in goals.items() if l not in p1},to,rounds,maxinst,per,unkd)
        return p1|p2,n1+n2
    return prove_many1(axioms,pc,goals,to,rounds,maxinst,per,unkd)
def prove_many1(axioms,pc,goals,to=8000,rounds=3,maxinst=4000,per=2500,unkd=None,light=False):
    """goals: dict label->formula. returns the set of labels proved (each one from pc alone);
    labels on which the solver gave up are appended to unkd."""
    unkd=[] if unkd is None else unkd; live={}; proved=set(); nq=0
    ids={e.get_id() for e in pc}|{e.get_id() for e in axioms}
    for l,g in goals.items():
        if g.get_id() in ids: proved.add(l); continue          # literally assumed
        g=z3.simplify(g) if not has_q(g) else g
        if z3.is_true(g): proved.add(l)
        elif z3.is_false(g): pass
        else: live[l]=g
    if not live: return proved,nq
    c=Ctx(axioms,pc,to,rounds,maxinst,light)
    neg={}
    for l,g in live.items():
        t=z3.Bool('t!%d'%next(_c)); n=nnf(g,False,c.qs); c.add(z3.Implies(t,n)); neg[l]=(t,n)
    rd=0; k=c.instantiate(); rd=1; unk=0
    while live:
        sel=z3.Bool('s!%d'%next(_c)); c.so.add(z3.Implies(sel,z3.Or([neg[l][0] for l in live])))
        r=c.check(time.time()+per/1000.0,sel); nq+=1
        if r==z3.unsat: proved|=set(live); break
        if r==z3.unknown:
            if light:
                for l in list(live):
                    r1,_=prove1(axioms,pc,live[l],2500,rounds,maxinst=maxinst,light=True); nq+=1
                    if r1=='unsat': proved.add(l)
                break
            # individually
            for l in list(live):
                r1,_=prove(axioms,pc,live[l],to,rounds,maxinst=maxinst); nq+=1
                if r1=='unsat': proved.add(l)
                elif r1!='sat': unkd.append(l)
            break
        if rd<=rounds:
            k=c.instantiate(); rd+=1
            if k: continue
        m=c.so.model(); drop=[l for l in live if z3.is_true(m.eval(neg[l][0]))or z3.is_true(m.eval(neg[l][1]))]
        if not drop: drop=[next(iter(live))]
        if c.n>maxinst: unkd+=drop
        for l in drop: del live[l]
    return proved,nq
