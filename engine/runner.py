import os, sys, json, time, re, subprocess, hashlib
import vlib
from vlib import VERIF, REPO
import registry

def oracle_build(work,src,extra=()):
    exe=os.path.join(work.dir,os.path.splitext(src)[0]+".exe")
    cmd=["g++","-std=gnu++98","-O1","-g","-w","-I",os.path.join(REPO,"include"),"-I",os.path.join(VERIF,"harness"),"-I",os.path.join(VERIF,"native"),
         os.path.join(VERIF,"native",src),"-o",exe]+list(extra)
    rc,o,e=vlib.run(cmd,timeout=300)
    return (exe if rc==0 else None),e

def oracle_run(exe,args,seed,seconds,timeout,tier):
    env=dict(os.environ); env['VERIF_SEED']=str(seed); env['ORACLE_SECONDS']=str(seconds); env['VERIF_TIER']=tier
    env['ASAN_OPTIONS']="detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:hard_rss_limit_mb=4000"
    env['UBSAN_OPTIONS']="print_stacktrace=0:halt_on_error=1:exitcode=66"
    t=time.time()
    rc,o,e=vlib.run([exe]+args,timeout=timeout,env=env)
    return rc,o,e,time.time()-t

def parse_oracle(o):
    d={}
    for l in o.splitlines():
        if l.startswith("ORACLE "):
            for kv in l[7:].split():
                k,_,v=kv.partition("="); 
                if v.isdigit(): d[k]=d.get(k,0)+int(v) if k in d else int(v)
    return d

def main(argv):
    pid=argv[0]
    tier=os.environ.get("VERIF_TIER","quick")
    if '--thorough' in argv: tier='thorough'
    seed=int(os.environ.get("VERIF_SEED","1") or 1)
    t0=time.time()
    C=registry.CHECKS[pid]
    work=vlib.Work(pid)
    try: return check(pid,C,tier,seed,work,t0)
    finally: work.close()

def relevant(desc,pid):
    m=re.match(r'(C\d\d)\b',desc)
    return m is None or pid in re.findall(r'C\d\d',desc.split(' ')[0]) or m.group(1)==pid

def check(pid,C,tier,seed,work,t0):
    units=[u for u in C['units'] if tier=='thorough' or u.tier=='quick']
    # oracle compile runs beside the verifier
    import concurrent.futures
    ex=concurrent.futures.ThreadPoolExecutor(1)
    fut=ex.submit(oracle_build,work,C['oracle'][0],C.get('oracle_flags',()))
    res=vlib.run_units(work,units)
    exe,err=fut.result()
    solver=sum(r['solver_s'] for r in res)
    def evaluate():
        obl=dis=0; failed=[]; und=[]; covers=0; funcs=set(); cuts=0
        for u,r in zip(units,res):
            cuts+=r['cuts']
            for f in r['functions']: funcs.add(f)
            covers+=sum(1 for c in r['covers'] if c[1])
            for p in r['obl']:
                if not relevant(p['desc'],pid): continue
                obl+=1
                if p['status']=='SUCCESS': dis+=1
                elif p['status']=='FAILURE': failed.append((r,p))
            if r['status'] in('undecided','extract','vacuous'): und.append(r)
        return obl,dis,failed,und,covers,funcs,cuts
    obl,dis,failed,und,covers,funcs,cuts=evaluate()
    if os.environ.get("VERIF_VERBOSE"):
        for r in res: print("unit",r['tag'],r['status'],r['why'][:300].replace("\n"," "),"%.1fs"%r['time'],"rounds",r['rounds'],"obl",len(r['obl']),"cuts",r['cuts'])
        for r,p in failed: print("  FAILED",r['tag'],p['desc'],p['fn'],p.get('inputs'))
    # vacuity: a cover that fails although nothing else failed is an undecided unit
    hints=[]
    for r,p in failed[:8]:
        for k,v in sorted((p.get('inputs') or {}).items()):
            hints.append("%s=%s"%(k,v))
    base=list(C['oracle'][1:])
    secs=C.get('sample_s',8) if not (failed or und) else C.get('search_s',120)
    if tier=='thorough' and not failed: secs=max(secs,C.get('thorough_s',120))
    onat=dict(rc=None,out="",err="",t=0.0)
    native_fail=None
    if exe:
        # one process per core, different seeds
        n=C.get('oracle_procs',8)
        def go(k): return oracle_run(exe,base+["part=%d"%k,"parts=%d"%n]+(hints if k==0 else hints),seed*1000+k,secs,secs+150,tier)
        with concurrent.futures.ThreadPoolExecutor(n) as px: rs=list(px.map(go,range(n)))
        tot={}
        for rc,o,e,t in rs:
            for k,v in parse_oracle(o).items(): tot[k]=tot.get(k,0)+v
            onat['t']=max(onat['t'],t)
            if rc!=0 and native_fail is None and (rc in(1,66) or rc<0 or rc==124):
                if rc==124: msg="the real code did not terminate within the time limit on an input of this run"
                elif rc==1: msg=""
                else: msg="the real code crashed (exit %d)"%rc
                native_fail=dict(rc=rc,msg=msg,stdout=o[-6000:],stderr=e[-6000:])
        onat['tot']=tot
    elif not exe:
        if os.environ.get("VERIF_VERBOSE"): print(err[-2000:])
    violations=0; rc=0; gated=""
    if failed and not native_fail and any(r.get('approx') for r,p in failed):
        # proved with the invariant candidates learned for the previous version of a function: search again from all candidates
        vlib.restart(); vlib.DEADLINE=max(vlib.DEADLINE,t0+760)
        idx=sorted(set(k for k,r in enumerate(res) for q,p in failed if q is r and r.get('approx')))
        r2=vlib.run_units(work,[units[k] for k in idx])
        for k,r in zip(idx,r2): res[k]=r
        solver+=sum(r['solver_s'] for r in r2)
        obl,dis,failed,und,covers,funcs,cuts=evaluate()
    if failed and not native_fail and C.get('gate'):
        vlib.DEADLINE=max(vlib.DEADLINE,t0+800)
        # the obligations of this property are stated relative to a base contract (other properties); if that one fails, they decide nothing
        gr=vlib.run_units(work,C['gate'])
        bad=[p['desc'] for r in gr for p in r['obl'] if p['status']=='FAILURE']
        if bad:
            gated="the base contract of another property fails (%s); relational search on the real code found no difference"%bad[0][:100]
            for r in {id(r):r for r,p in failed}.values(): r['status']='undecided'; r['why']=gated; und.append(r)
            dis=min(dis,obl-len(failed)); failed=[]
    os.makedirs(os.path.join(VERIF,"evidence"),exist_ok=True)
    repdir=os.path.join(VERIF,"evidence","replay"); os.makedirs(repdir,exist_ok=True)
    known=load_known(pid)
    if failed or native_fail:
        rep=os.path.join(repdir,pid+".txt")
        with open(rep,"w") as f:
            f.write("property %s\n"%pid)
            for r,p in failed: f.write("FAILED OBLIGATION unit=%s id=%s\n  %s (in %s)\n  verifier counterexample inputs: %s\n  verifier: %s\n"%(r['tag'],p['id'],p['desc'],p['fn'],json.dumps(p.get('inputs') or {}),r['cmd']))
            if native_fail:
                f.write("\nREPLAY ON THE REAL CODE (g++ -std=gnu++98, native/%s): %s\n%s\n%s\n"%(C['oracle'][0],native_fail['msg'],native_fail['stdout'],native_fail['stderr'][-3000:]))
            else: f.write("\nno failing input found by the native search (%.0f s)\n"%onat['t'])
        violations=1; rc=1
        for r,p in failed[:10]: print("failed obligation: %s [%s] in %s"%(p['desc'],r['tag'],p['fn']))
        if native_fail:
            for l in native_fail['stdout'].splitlines():
                if l.startswith("FAIL"): print(l[:600])
            if native_fail['msg']: print(native_fail['msg'])
            print("VIOLATION property=%s replay=%s"%(pid,rep))
        else:
            print("VIOLATION property=%s replay=%s no-failing-input-found"%(pid,rep))
    elif not exe:
        print("check %s: the native oracle does not compile against /repo:\n%s"%(pid,err[-3000:]),file=sys.stderr)
        if und: rc=2
    for k in known: print("KNOWN-FINDING: property=%s %s"%(pid,k))
    for r in und[:4]: print("note: unit %s undecided (%s): %s -- decided by the bounded native stand-in only"%(r['tag'],r['status'],r['why'][:160].replace("\n"," ")))
    ev=dict(property=pid,tier=tier,seed=seed,level=C.get('level','proof') if not und else ('other' if obl==0 else C.get('level','proof')),
        coverage=dict(obligations=obl,discharged=dis,
            checker_cmd="python3 check.py %s (clang-18 -> LLVM IR -> C -> cbmc 6.11, SAT back end: %d units)"%(pid,len(units)),
            trusted_base=registry.TRUSTED+C.get('trusted',[]),
            functions_under_contract=len(funcs),functions=sorted(demangle(funcs))[:400],
            loops_cut_by_invariant=cuts,covers_reached=covers,solver_s=round(solver,2),backend="cbmc 6.11.0 (bit-blasting, MiniSat/CaDiCaL)",
            units=[dict(unit=r['tag'],status=r['status'],obligations=len([p for p in r['obl']]),seconds=round(r['time'],1),rounds=r['rounds'],why=r['why'][:300]) for r in res],
            undecided_units=[r['tag'] for r in und],
            explanation="obligations discharged by the verifier for all inputs; units listed under undecided_units were decided only by the bounded native stand-in",
            native_replay=dict(onat.get('tot') or {},seconds=round(onat['t'],1),note="fidelity validation of the extraction on the g++-built code; not part of the proof")),
        assumptions=C.get('assumptions',[])+registry.ASSUMPTIONS,wall_s=round(time.time()-t0,1),violations=violations)
    json.dump(ev,open(os.path.join(VERIF,"evidence",pid+".json"),"w"),indent=1)
    if rc==0: print("OK property=%s obligations=%d discharged=%d units=%d undecided=%d wall=%.0fs"%(pid,obl,dis,len(units),len(und),time.time()-t0))
    return rc

def demangle(fs):
    fs=list(fs)
    try:
        p=subprocess.run(["c++filt"],input="\n".join(fs),capture_output=True,text=True)
        return p.stdout.split("\n")
    except Exception: return fs

def load_known(pid):
    out=[]
    try:
        for l in open(os.path.join(VERIF,"known-findings.txt")):
            l=l.strip()
            m=re.match(r'known: property=(\S+) (.*)',l)
            if m and m.group(1)==pid: out.append(m.group(2))
    except OSError: pass
    return out
