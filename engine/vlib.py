"""Driver: extract (clang -> IR -> C), discharge (cbmc), collect obligations."""
import os, sys, subprocess, json, re, time, tempfile, hashlib, shutil, concurrent.futures, resource, signal, threading
HERE=os.path.dirname(os.path.abspath(__file__)); VERIF=os.path.dirname(HERE)
sys.path.insert(0,HERE)
import ll2c
REPO=os.environ.get("VERIF_REPO","/repo")
CLANG="clang++-18"; OPT="/usr/lib/llvm-18/bin/opt"
NPROC=int(os.environ.get("VERIF_JOBS","8"))

class ExtractError(Exception): pass

def run(cmd,timeout=None,cwd=None,mem=None,env=None):
    def pre():
        os.setsid()
        if mem: resource.setrlimit(resource.RLIMIT_AS,(mem,mem))
    p=subprocess.Popen(cmd,stdout=subprocess.PIPE,stderr=subprocess.PIPE,cwd=cwd,preexec_fn=pre,env=env)
    try: o,e=p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,signal.SIGKILL); o,e=p.communicate()
        return 124,o.decode('utf-8','replace'),e.decode('utf-8','replace')
    return p.returncode,o.decode('utf-8','replace'),e.decode('utf-8','replace')

class Work:
    def __init__(s,tag):
        s.dir=tempfile.mkdtemp(prefix="verif_%s_"%tag)
    def close(s):
        if os.environ.get("VERIF_KEEP"): print("kept",s.dir,file=sys.stderr); return
        shutil.rmtree(s.dir,ignore_errors=True)

def to_ir(work,src,defines=(),name=None,extra=()):
    name=name or os.path.splitext(os.path.basename(src))[0]
    ll=os.path.join(work.dir,name+".ll"); ll2=os.path.join(work.dir,name+".o.ll")
    cmd=[CLANG,"-std=gnu++98","-O0","-Xclang","-disable-O0-optnone","-fno-threadsafe-statics","-fno-rtti" if False else "-frtti",
         "-nostdinc++","-I",os.path.join(HERE,"stl"),"-I",os.path.join(VERIF,"harness"),"-I",os.path.join(REPO,"include"),
         "-fno-use-cxa-atexit","-fno-discard-value-names","-w","-fno-builtin","-emit-llvm","-S","-o",ll,src]+["-D"+d for d in defines]+list(extra)
    rc,o,e=run(cmd,timeout=120)
    if rc!=0: raise ExtractError("clang: "+e[-3000:])
    rc,o,e=run([OPT,"-S","-passes=mem2reg,loop-simplify","-o",ll2,ll],timeout=120)
    if rc!=0: raise ExtractError("opt: "+e[-3000:])
    return ll2

_modcache={}
def module(ll):
    # parsed afresh for each translation (the translator annotates blocks)
    try: return ll2c.parse_module(open(ll).read())
    except ll2c.TErr as x: raise ExtractError("parse: %s"%x)

_tc={}; _tclock=threading.Lock()
def to_c(work,ll,entry,cfg,name):
    """translate (units which differ in their parameters only share the translation)"""
    key=(ll,entry,repr(sorted((k,sorted(v) if isinstance(v,set) else v) for k,v in cfg.items())))
    with _tclock:
        lk=_tc.setdefault(key,threading.Lock())
    with lk:
        if (key,'r') not in _tc:
            nm="tc_"+hashlib.md5(repr(key).encode()).hexdigest()[:16]
            try: _tc[(key,'r')]=_to_c(work,ll,entry,cfg,nm)
            except ExtractError as x: _tc[(key,'r')]=x
        r=_tc[(key,'r')]
    if isinstance(r,Exception): raise r
    return r
def _to_c(work,ll,entry,cfg,name):
    M=module(ll)
    c=dict(cfg); c['entry']=entry
    c['ginit']=warm_image(work,ll)
    try: src,info=ll2c.translate(M,c)
    except ll2c.TErr as x: raise ExtractError("translate %s: %s"%(entry,x))
    cf=os.path.join(work.dir,name+".c")
    if c.get('post'): src+=c['post']
    open(cf,"w").write(src)
    info['fn']=info['cname'][entry]
    return cf,info

import threading
_warm={}; _warmlock=threading.Lock()
def warm_image(work,ll):
    """If the harness defines h_warm(): execute its extraction natively once and take the resulting contents of the
    static tables (deterministic, input free initialisation code) as their initial values."""
    with _warmlock: lk=_warm.setdefault(ll,dict(lock=threading.Lock()))
    with lk['lock']:
        if 'img' not in lk:
            try: lk['img']=_warm_image(work,ll)
            except ExtractError as x: lk['img']=x
    if isinstance(lk['img'],Exception): raise lk['img']
    return lk['img']
def _warm_image(work,ll):
    M=module(ll)
    if 'h_warm' not in M['funcs']: return {}
    try: src,info=ll2c.translate(M,dict(entry='h_warm',warm_main=True))
    except ll2c.TErr as x: raise ExtractError("translate h_warm: %s"%x)
    cf=ll+".warm.c"; exe=ll+".warm.exe"
    open(cf,"w").write(src)
    rc,o,e=run(["gcc","-O1","-w","-fno-strict-aliasing","-fwrapv","-fsanitize=address","-I",HERE,cf,"-o",exe],timeout=120)
    if rc!=0: raise ExtractError("warm-up: gcc: "+e[-1500:])
    env=dict(os.environ); env['ASAN_OPTIONS']="detect_leaks=0"
    rc,o,e=run([exe],timeout=60,env=env)
    if rc!=0: raise ExtractError("warm-up run failed (%d): %s"%(rc,e[-1500:]))
    img={}; cur=None
    for l in o.splitlines():
        f=l.split(" ")
        if f[0]=='G': cur=(bytes.fromhex(f[2]),{}); img[f[1]]=cur
        elif f[0]=='P': cur[1][int(f[1])]=(f[2],int(f[3]))
        elif f[0]=='B': raise ExtractError("warm-up: pointer to unknown memory")
    return img

CBMC_OPTS=["--no-signed-overflow-check","--no-undefined-shift-check","--no-div-by-zero-check","--no-malloc-may-fail","--drop-unused-functions"]
def cbmc(work,cf,fn,unwind=40,opts=(),timeout=600,props=None,trace=False):
    cmd=["cbmc",cf,"-I",HERE,"--function",fn,"--unwind",str(unwind),"--json-ui","--object-bits","12"]+CBMC_OPTS+list(opts)
    if trace: cmd.append("--trace")
    for p in props or []: cmd+=["--property",p]
    t=time.time()
    rc,o,e=run(cmd,timeout=timeout)
    dt=time.time()-t
    res=dict(rc=rc,time=dt,cmd=" ".join(cmd),props=[],msg="")
    if rc==124: res['msg']="timeout"; return res
    try: J=json.loads(o)
    except Exception:
        # truncated
        res['msg']="unparsable: "+o[-1500:]+e[-500:]; return res
    msgs=[]
    for x in J:
        if 'result' in x:
            for r in x['result']:
                sl=r.get('sourceLocation',{})
                res['props'].append(dict(id=r['property'],desc=r['description'],status=r['status'],fn=sl.get('function',''),trace=r.get('trace')))
        if 'messageText' in x: msgs.append(x['messageText'])
    res['log']=msgs
    if rc not in(0,10) or not res['props']: res['msg']="cbmc rc=%d: %s %s"%(rc,"\n".join(msgs[-6:]),e[-300:])
    st=[m for m in msgs if 'Runtime' in m]
    return res

def inputs_from_trace(tr):
    """last value of every in_* variable assigned in the trace"""
    d={}
    for st in tr or []:
        if st.get('stepType')=='assignment':
            l=st.get('lhs','')
            m=re.match(r'g_in_(\w+)((?:\.\w+|\[[^\]]*\])*)$',l)
            if m:
                v=st.get('value',{})
                if 'data' in v: d[m.group(1)+re.sub(r'\.a','',m.group(2)).replace('ll]',']').replace('l]',']')]=v['data']
    return d

# ------------------------------------------------------------------ one verification unit
HINTS=os.path.join(HERE,"hints.json")
def load_hints():
    try: return json.load(open(HINTS))
    except Exception: return {}
_hints=load_hints()
LEARN=bool(os.environ.get("VERIF_LEARN"))   # developer mode: remember unwinding bounds / dropped candidates

DEADLINE=time.time()+float(os.environ.get("VERIF_DEADLINE","640"))   # no unit runs longer (a check has 900 s)
class Unit:
    """harness source + defines + entry point = one contract to discharge"""
    def __init__(s,src,entry,defines=(),unwind=12,maxunwind=2100,cfg=None,opts=(),timeout=420,tag=None,extra=(),tier="quick",params=(),maxcut=False):
        s.params=tuple(params); s.maxcut=maxcut
        s.src=os.path.join(VERIF,"harness",src); s.entry=entry; s.defines=list(defines); s.unwind=unwind; s.maxunwind=maxunwind
        s.cfg=dict(cfg or {}); s.opts=list(opts)+['-DV_P%d=%d'%(i,p) for i,p in enumerate(params)]; s.timeout=timeout; s.extra=list(extra); s.tier=tier
        s.htag=os.path.splitext(src)[0]+"."+entry+("."+".".join(d for d in s.defines) if s.defines else "")
        s.tag=tag or (os.path.splitext(src)[0]+"."+entry+("."+".".join(d for d in s.defines) if s.defines else "")+("."+".".join("%d"%p for p in params) if params else ""))

def loopbounds(uws): return ["--unwindset",",".join("%s:%d"%(k,v) for k,v in sorted(uws.items()))] if uws else []

_fh={}
def fhash(ll):
    """hash of the text of every function of the module (learned candidates of a changed function are not used)"""
    if ll not in _fh:
        d={}
        for m in re.finditer(r'^define [^\n]*?@("?)([^"(]+)\1\(.*?^}',open(ll).read(),re.M|re.S):
            t=re.sub(r'[#!]\d+|@\.str[.\d]*','',m.group(0))
            d[m.group(2)]=hashlib.md5(t.encode()).hexdigest()[:12]
        _fh[ll]=d
    return _fh[ll]
def learned(htag,ll):
    h=_hints.get(htag,{}); f=fhash(ll); lf=h.get('fh',{})
    ok=set(k for k in h.get('drop',[]) if f.get(k.split('|')[0])==lf.get(k.split('|')[0]))
    # dropping a candidate is always sound, but where the function changed the learned ones may be the wrong ones: first try with
    # them (fast), start again with all candidates if that does not prove everything
    return dict(h.get('unwind',{})),set(h.get('drop',[])),(ok if len(ok)<len(h.get('drop',[])) else None)
_shared={}; _sharedlock=threading.Lock()
def run_unit(work,u,ll=None,trace_failed=True):
    """returns dict(tag, obligations=[...], time, status in ok/failed/undecided, ...)"""
    t0=time.time(); R=dict(tag=u.tag,entry=u.entry,obl=[],covers=[],status="ok",why="",solver_s=0.0,functions=[],cuts=0,cmd="",rounds=0)
    name=re.sub(r'[^A-Za-z0-9_]','_',u.tag)
    try:
        if ll is None: ll=to_ir(work,u.src,u.defines,name,u.extra)
        # candidate invariants refuted in a unit are dropped in all units of the same contract
        with _sharedlock:
            if u.htag not in _shared: _shared[u.htag]=list(learned(u.htag,ll))
            sh=_shared[u.htag]; uws,sdrop,fresh=sh
        deadline=min(t0+u.timeout,DEADLINE); res=None
        while True:
            drop=set(sdrop)
            cfg=dict(u.cfg); cfg['drop']=drop
            cf,info=to_c(work,ll,u.entry,cfg,name)
            R['functions']=info['functions']; R['external']=info['external']; R['cuts']=len(info['cuts'])
            if u.maxcut and u.params[2]<200 and u.params[2]>len(info['cuts']): break	# no such loop
            left=deadline-time.time()
            if left<5: R['status']='undecided'; R['why']='time limit'; break
            res=cbmc(work,cf,info['fn'],u.unwind,u.opts+loopbounds(uws),timeout=left)
            R['solver_s']+=res['time']; R['cmd']=res['cmd']; R['rounds']+=1
            if res['msg']:
                R['status']='undecided'; R['why']=res['msg']; break
            again=False
            for p in res['props']:
                if p['status']=='FAILURE':
                    m=re.match(r'CAND (\S+) (entry|back)$',p['desc'])
                    if m and m.group(1) not in drop: sdrop.add(m.group(1)); again=True
            if again: continue
            for p in res['props']:
                if p['status']!='SUCCESS' and p['desc'].startswith('unwinding assertion'):
                    m=re.match(r'(.*)\.unwind\.(\d+)$',p['id'])
                    k="%s.%s"%(m.group(1),m.group(2)); cur=uws.get(k,u.unwind)
                    if cur<u.maxunwind: uws[k]=min(max(cur*3,24),u.maxunwind); again=True
            if again: continue
            if fresh is not None and any(p['status']=='FAILURE' and not p['desc'].startswith(('COVER ','CAND ')) for p in res['props']): R['approx']=True
            break
        if R['status']=='ok' and res:
            for p in res['props']:
                if p['desc'].startswith('COVER '):
                    R['covers'].append((p['desc'][6:],p['status']=='FAILURE')); continue
                if p['desc'].startswith('CAND '): kind='candidate'
                else: kind='obligation'
                R['obl'].append(dict(id=p['id'],desc=p['desc'],status=p['status'],fn=p['fn'],kind=kind))
            # a loop without invariant that does not end within the bound: not decided here (the native oracle runs it)
            unw=[p for p in R['obl'] if p['status']=='FAILURE' and p['desc'].startswith('unwinding assertion')]
            bad=[p for p in R['obl'] if p['status']=='FAILURE' and p not in unw]
            R['obl']=[p for p in R['obl'] if p not in unw]
            unk=[p for p in R['obl'] if p['status'] not in('SUCCESS','FAILURE')]
            if any(p['desc'].startswith('MODEL') for p in bad): R['status']='undecided'; R['why']='a library model is too small for this code: '+[p['desc'] for p in bad if p['desc'].startswith('MODEL')][0]; R['obl']=[]
            elif any(p['desc'].startswith('no body for callee') for p in bad): R['status']='undecided'; R['why']='function without a model: '+[p['desc'] for p in bad if p['desc'].startswith('no body for callee')][0]; R['obl']=[]; bad=[]
            elif bad: R['status']='failed'
            elif unw: R['status']='undecided'; R['why']='loop not bounded by %d iterations: %s'%(u.maxunwind,unw[0]['fn'])
            elif unk: R['status']='undecided'; R['why']='status '+unk[0]['status']
            for c,ok in R['covers']:
                if not ok and R['status']=='ok' and not c.startswith('?'): R['status']='vacuous'; R['why']='cover not reached: '+c
            if bad and trace_failed:
                ids=[p['id'] for p in bad][:6]
                res2=cbmc(work,cf,info['fn'],u.unwind,u.opts+loopbounds(uws),timeout=max(60,deadline-time.time()),props=ids,trace=True)
                for p in res2['props']:
                    for q in R['obl']:
                        if q['id']==p['id'] and p.get('trace'): q['inputs']=inputs_from_trace(p['trace'])
    except ExtractError as x:
        R['status']='extract'; R['why']=str(x)[:3000]
    if LEARN and R['status'] in('ok','failed','vacuous'):
        f=fhash(ll); R['learn']=dict(unwind=dict(uws),drop=sorted(sdrop),fh={k.split('|')[0]:f.get(k.split('|')[0]) for k in sdrop}); R['htag']=u.htag
    R['time']=time.time()-t0
    return R

def restart():
    """forget learned candidates of changed functions (second phase, see learned)"""
    for k,sh in _shared.items():
        if sh[2] is not None: sh[1]=set(sh[2]); sh[2]=None
def run_units(work,units):
    """compile each (src,defines) once, then run all units in parallel"""
    out=[None]*len(units)
    irs={}
    def ir(u):
        key=(u.src,tuple(u.defines),tuple(u.extra))
        return key
    def comp(key):
        nm="ir_"+hashlib.md5(repr(key).encode()).hexdigest()[:10]
        try: return key,to_ir(work,key[0],key[1],nm,key[2])
        except ExtractError as x: return key,x
    with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
        for k,v in ex.map(comp,sorted(set(ir(u) for u in units))): irs[k]=v
        def one(i):
            v=irs[ir(units[i])]
            if isinstance(v,ExtractError):
                return i,dict(tag=units[i].tag,entry=units[i].entry,obl=[],covers=[],status='extract',why=str(v)[:3000],solver_s=0,functions=[],cuts=0,cmd="",time=0,rounds=0)
            return i,run_unit_proc(work,units[i],v)
        for i,r in ex.map(one,range(len(units))): out[i]=r
    if LEARN:
        h=load_hints()
        for r in out:
            if 'learn' in r:
                l={k:v for k,v in r['learn'].items() if v}
                if l: h[r['htag']]=l
                elif r['htag'] in h: del h[r['htag']]
        json.dump(h,open(HINTS,"w"),indent=0,sort_keys=True)
    return out

def run_unit_proc(work,u,ll):
    return run_unit(work,u,ll)
