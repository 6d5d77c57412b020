#!/usr/bin/env python3-vt
"""check.py <property id> : decides one property on /repo's current working tree.
 phase 1  executable contracts on the real code (bounded stand-in and search for a failing input)
 phase 2  deductive verification: obligations generated from the real headers (vcg/), discharged by z3/cvc5
Exit 0: held on everything explored; exit 1 with a VIOLATION line otherwise (see DESIGN.md)."""
import sys,os,subprocess,json,time,shutil,tempfile,re,glob
HERE=os.path.dirname(os.path.abspath(__file__)); os.chdir(HERE); sys.path.insert(0,HERE)
REPO=os.environ.get('VERIF_REPO','/repo')
CXX='/usr/lib/llvm-18/bin/clang++'
import claims

def sh(cmd,**k): return subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True,**k)

CONF={ 'asan':dict(cmd=[CXX,'-O0','-std=c++14','-g1','-w','-fsanitize=address,undefined','-fno-sanitize-recover=undefined']),
       'mp'  :dict(cmd=['g++','-O1','-std=c++14','-g1','-w','-fopenmp','-fsanitize=address']) }
ENV={'ASAN_OPTIONS':'detect_leaks=0','OMP_WAIT_POLICY':'passive','OMP_NUM_THREADS':'3','UBSAN_OPTIONS':'print_stacktrace=0'}

def rt_phase(pid,tier,seed,work):
    """returns (fails, stats, notes)"""
    jobs=[('rt/%s.cpp'%pid.lower(),'asan',[])]
    if pid in claims.MP: jobs.append(('rt/mp.cpp','mp',['--prefix',pid.lower()]))
    jobs=[j for j in jobs if os.path.exists(j[0])]
    builds=[]
    for k,(src,conf,args) in enumerate(jobs):
        out=os.path.join(work,'rt%d'%k); cmd=CONF[conf]['cmd']+['-I'+REPO+'/include','-I'+HERE+'/rt',src,'-o',out]
        builds.append((src,conf,args,out,cmd,subprocess.Popen(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)))
    fails=[]; stats=[]; notes=[]
    for src,conf,args,out,cmd,p in builds:
        o,_=p.communicate()
        if p.returncode: notes.append('bounded stand-in %s does not compile against this tree: %s'%(src,o.strip()[-600:])); continue
        env=dict(os.environ,**ENV); ps=[]; n=8 if conf=='asan' else 4
        cap='200' if tier=='quick' else '3000'
        for k in range(n):
            f=open('%s.%d.out'%(out,k),'w+')
            ps.append((subprocess.Popen([out,'--seed',str(seed),'--shard','%d/%d'%(k,n),'--cap',cap,'--mult',str(claims.MULT.get(pid,1) if conf=='asan' else 1)]+args+(['--thorough'] if tier=='thorough' else []),stdout=f,stderr=subprocess.STDOUT,env=env),f))
        for q,f in ps:
            q.wait(); f.seek(0); txt=f.read(); f.close()
            m=re.search(r'^RT-FAIL case=(\S+) seed=(\d+) (.*)$',txt,re.M)
            if m:
                inp=re.search(r'^RT-INPUT (.*)$',txt,re.M)
                fails.append(dict(src=src,conf=conf,cmd=cmd,args=args,case=m.group(1),seed=m.group(2),msg=m.group(3),input=inp.group(1) if inp else '',log=txt[-3000:]))
            elif 'RT-STATS' in txt:
                stats.append((src,json.loads(re.search(r'RT-STATS (.*)',txt).group(1))))
            else: notes.append('shard of %s ended without a result (exit %s): %s'%(src,q.returncode,txt[-300:]))
    return fails,stats,notes

def replay_file(pid,k,fail):
    d='evidence/replay'; os.makedirs(d,exist_ok=True); p='%s/%s-%d.sh'%(d,pid,k)
    env=' '.join('%s=%s'%x for x in ENV.items())
    exe='/tmp/replay_%s_%d'%(pid,k); cmd=' '.join(fail['cmd'][:-1]+[exe]).replace(' rt/',' %s/rt/'%HERE)
    open(p,'w').write('#!/bin/bash\n# property %s: %s\n# failing input: %s\n%s && %s %s --seed %s --mult 1000 --only %s %s\n'%(
        pid,fail['msg'],fail['input'].replace('\n',' '),cmd,env,exe,fail['seed'],fail['case'],' '.join(fail['args'])))
    os.chmod(p,0o755); return p

def main():
    pid=sys.argv[1]; tier=os.environ.get('VERIF_TIER','quick')
    if '--thorough' in sys.argv: tier='thorough'
    seed=int(os.environ.get('VERIF_SEED','1') or 1); t0=time.time()
    C=claims.CLAIMS[pid]
    known=[l.strip() for l in open('known_findings.txt') if l.startswith('finding: property=%s '%pid)] if os.path.exists('known_findings.txt') else []
    for f in glob.glob('evidence/replay/%s-*'%pid): os.remove(f)
    work=tempfile.mkdtemp(prefix='verif_'); lines=[]
    try: fails,stats,notes=rt_phase(pid,tier,seed,work)
    finally: shutil.rmtree(work,ignore_errors=True)
    for n in notes: print('NOTE: '+n.replace('\n',' | '))
    viol=[]
    if fails:
        f=fails[0]; p=replay_file(pid,1,f)
        print('failing input: %s\n  case %s seed %s: %s'%(f['input'][:2000],f['case'],f['seed'],f['msg']))
        viol.append('VIOLATION property=%s replay=%s'%(pid,p))
    # phase 2
    from vcg import run as R
    R.load_all()
    names=[n for n,c in R.REG.items() if pid in c.props]
    res=[]; skipped_proofs=False
    if names and not (fails and os.environ.get('VERIF_ALLPROOFS')!='1'): res=R.run_many(names,8)
    elif names: skipped_proofs=True
    nob=sum(len(r['obls']) for r in res); npr=sum(o['status']=='proved' for r in res for o in r['obls'])
    failed=[(r,o) for r in res for o in r['obls'] if o['status']=='failed']
    und=[(r['name'],'%s'%(r['error'] or r['vacuous'])) for r in res if r['error'] or r['vacuous']]+[(r['name'],'obligation "%s" not decided within the time limit'%o['name']) for r in res for o in r['obls'] if o['status']=='unknown']
    for n,e in und: print('UNDECIDED: %s: %s'%(n,e.replace('\n',' | ')[:400]))
    if failed and not fails:
        os.makedirs('evidence/replay',exist_ok=True); p='evidence/replay/%s-obligations.txt'%pid
        with open(p,'w') as f:
            for r,o in failed: f.write('failed obligation: %s: %s\nfunctions: %s\nverifier output (candidate counterexample; not confirmed on the real code):\n%s\n\n'%(r['name'],o['name'],', '.join(r['functions']),o.get('model')))
        for r,o in failed[:5]: print('failed obligation: %s: %s'%(r['name'],o['name']))
        viol.append('VIOLATION property=%s replay=%s no-failing-input-found'%(pid,p))
    # evidence
    nev=sum(s['evaluations'] for _,s in stats); ncase=sum(s['cases'] for _,s in stats); nd=sum(s['distinct'] for _,s in stats); suites={}
    for _,s in stats:
        for a,b in s['suites'].items(): suites[a]=suites.get(a,0)+b
    cov=dict(
        obligations=nob,discharged=npr,
        checker_cmd='python3-vt /verif/check.py %s  (VC generator vcg/ over LLVM IR of the real headers; z3 %s, cvc5 1.1.2)'%(pid,z3v()),
        trusted_base=claims.TRUSTED+C.get('trusted',[]),
        functions_under_contract=sorted({f for r in res if not r['error'] for f in r['functions']}),
        contracts=[dict(name=r['name'],obligations=len(r['obls']),discharged=sum(o['status']=='proved' for o in r['obls']),seconds=round(r['time'],1),solver_seconds=round(r['solver_time'],1),queries=r['queries'],error=r['error'] or r['vacuous'],
              backends=sorted({o.get('backend') for o in r['obls'] if o.get('backend')}),loop_invariants=r['inv']) for r in res],
        solver_seconds=round(sum(r['solver_time'] for r in res),1),
        undecided=['%s: %s'%x for x in und],failed_obligations=['%s: %s'%(r['name'],o['name']) for r,o in failed],
        proofs_skipped_because_a_failing_input_was_found=skipped_proofs,
        bounded=dict(label='bounded, not proved',scope=C['bounded'],cases=ncase,suites=suites),
        evaluations=ncase,distinct_nontrivial=nd,rule=C.get('rule','cases are generated from VERIF_SEED by the suites of rt/%s.cpp (see its comments); every case runs the real code and compares with an independent oracle; distinct by hash of the generated input or its truth table'%pid.lower()),
        contract_checks_evaluated=nev,
        samples=[x for _,s in stats for x in s['samples']][:6],
        explanation=C['explanation'])
    ev=dict(property=pid,tier=tier,seed=seed,level=C['level'],coverage=cov,assumptions=claims.ASSUME+C.get('assume',[])+sorted({a for r in res for a in r['assume']}),wall_s=round(time.time()-t0,1),violations=len(viol))
    os.makedirs('evidence',exist_ok=True); json.dump(ev,open('evidence/%s.json'%pid,'w'),indent=1)
    print('%s: %d/%d obligations discharged (%d contracts, %.0f s solver), %d undecided; bounded stand-in: %d cases, %d checks; %.0f s'%(pid,npr,nob,len(res),sum(r['solver_time'] for r in res),len(und),ncase,nev,time.time()-t0))
    for k in known: print('KNOWN-FINDING: '+k[len('finding: '):])
    for v in viol: print(v)
    if viol: return 1
    if not stats and (not res or all(r['error'] for r in res)): print('no answer: nothing could be built'); return 2
    return 0
def z3v():
    import z3; return z3.get_version_string()
if __name__=='__main__': sys.exit(main())
