#!/usr/bin/env python3
"""run.py <property-id> : builds the harness of one property against /repo's
current working tree, explores, writes evidence/<id>.json and reports.
  exit 0: property held on everything explored (KNOWN-FINDING lines possible)
  exit 1: VIOLATION line
  other : the check itself could not run"""
import sys, os, json, subprocess, tempfile, time, shutil, re
HERE=os.path.dirname(os.path.abspath(__file__))
REPO=os.environ.get('QLIBS_REPO','/repo')
sys.path.insert(0,os.path.join(HERE,'tools'))
from table import TABLE

def sh(cmd,**k): return subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',**k)

def build(pid,cfg,scratch):
    inc=['-I',os.path.join(REPO,'src'),'-I',os.path.join(HERE,'harness')]
    base=['g++','-g1','-pthread']+cfg.get('opt',['-O1' if cfg.get('san') else '-O2'])
    if cfg.get('san'):
        base+=['-fsanitize=address,bounds,shift,null,alignment','-fno-sanitize-recover=all','-fno-omit-frame-pointer']
    jobs=[]
    srcs=[os.path.join(REPO,'src',f) for f in sorted(os.listdir(os.path.join(REPO,'src'))) if f.endswith('.cpp')]
    objs=[]
    for s in srcs:
        o=os.path.join(scratch,os.path.basename(s)+'.o'); objs.append(o)
        jobs.append((s,subprocess.Popen(base+['-std=c++11','-w']+inc+['-c',s,'-o',o],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)))
    h=os.path.join(HERE,'harness',cfg['src']); ho=os.path.join(scratch,'harness.o')
    jobs.append((h,subprocess.Popen(base+['-std=c++17','-w']+cfg.get('defs',[])+inc+['-c',h,'-o',ho],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)))
    err=''
    for s,j in jobs:
        out,_=j.communicate()
        if j.returncode: err+='compiling %s failed:\n%s\n'%(s,out[-6000:])
    if err: return None,err
    exe=os.path.join(scratch,'harness')
    r=sh(base+[ho]+objs+['-o',exe])
    if r.returncode: return None,'link failed:\n'+r.stdout[-6000:]
    return exe,''

def execute(exe,args,timeout):
    env=dict(os.environ)
    env['ASAN_OPTIONS']='detect_leaks=0:abort_on_error=1:exitcode=3:handle_segv=1:detect_stack_use_after_return=0'
    env['UBSAN_OPTIONS']='print_stacktrace=0:halt_on_error=1:abort_on_error=1'
    try:
        r=subprocess.run([exe]+args,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',timeout=timeout,env=env,cwd=os.path.dirname(exe))
        return r.returncode,r.stdout,False
    except subprocess.TimeoutExpired as e:
        o=e.stdout or b''
        return -1,(o.decode(errors='replace') if isinstance(o,bytes) else o),True

def main():
    pid=sys.argv[1]; tier='thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER')=='thorough' else 'quick'
    if '--quick' in sys.argv: tier='quick'
    cfg=TABLE[pid]; t0=time.time()
    os.makedirs(os.path.join(HERE,'evidence'),exist_ok=True)
    if '--replay' not in sys.argv and os.path.exists(os.path.join(HERE,'evidence','replay_%s.txt'%pid)): os.unlink(os.path.join(HERE,'evidence','replay_%s.txt'%pid))
    scratch=tempfile.mkdtemp(prefix='qlv_%s_'%pid)
    try:
        exe,err=build(pid,cfg,scratch)
        if exe is None:
            print(err); print('ERROR: cannot build',pid); return 2
        if '--replay' in sys.argv:
            i=sys.argv.index('--replay'); rc,out,_=execute(exe,['--replay',sys.argv[i+1],sys.argv[i+2]]+(['--thorough'] if tier=='thorough' else []),600)
            print(out); return 0 if rc==0 else 1
        args=['--thorough'] if tier=='thorough' else []
        limit=cfg.get('limit_thorough',14400) if tier=='thorough' else 800
        rc,out,to=execute(exe,args,limit)
        fails=[]; stats=None
        for l in out.splitlines():
            if l.startswith('FAIL '):
                a=l[5:].split('|',2); a+=['']*(3-len(a)); fails.append(a)
            elif l.startswith('STATS '): stats=json.loads(l[6:])
        if to: fails.append(['timeout','-','the exploration did not end within %d s (normally well under 120 s)'%limit])
        elif stats is None and not fails:
            fails.append(['crash','-','the harness died with status %s while running the code under test: %s'%(rc,out[-1500:].replace('\n',' / '))])
        known=json.load(open(os.path.join(HERE,'known_findings.json')))['findings']
        kn=[k for k in known if k['property']==pid and k.get('status')=='known']
        viol=[]; seenk={}
        for sec,key,msg in fails:
            m=[k for k in kn if k['section']==sec and (k.get('key')==key or key in k.get('keys',[]))]
            if m: seenk[m[0]['id']]=m[0]
            else: viol.append((sec,key,msg))
        for k in seenk.values(): print('KNOWN-FINDING: property=%s %s'%(pid,k['what']))
        stats=stats or dict(evaluations=0,states=0,transitions=0,merged=0,traces=0,outcomes=0,fails=len(fails),capped=True,samples=[],sections=[])
        cov=dict(samples=stats['samples'] or stats['sections'][:8] or ['run ended before any sample was kept'],
                 exhaustive=bool(not stats['capped'] and not fails),
                 rule=cfg['rule'],bounds=cfg.get('bounds',''),sections=stats['sections'],distinct_outcome_buckets=stats['outcomes'])
        if cfg['level']=='model_checking':
            cov.update(states=stats['states'],transitions=stats['transitions'],transitions_into_known_states=stats['merged'],
                       traces_validated_against_impl=stats['traces'],evaluations=stats['evaluations'])
        else:
            cov.update(evaluations=stats['evaluations'],distinct_nontrivial=stats['outcomes'],states=stats['states'],transitions=stats['transitions'])
        ev=dict(property=pid,tier=tier,seed=int(os.environ.get('VERIF_SEED','1') or 1),level=cfg['level'],coverage=cov,
                assumptions=cfg.get('assumptions',[])+['compiled with the installed g++ for x86-64, IEEE-754 binary32, round to nearest','explorer is deterministic: VERIF_SEED changes nothing'],
                wall_s=round(time.time()-t0,2),violations=len(viol))
        json.dump(ev,open(os.path.join(HERE,'evidence',pid+'.json'),'w'),indent=1)
        if viol:
            rp=os.path.join(HERE,'evidence','replay_%s.txt'%pid)
            with open(rp,'w') as f:
                f.write('property %s (%s)\n'%(pid,cfg['src']))
                f.write('replay one case:  python3 /verif/run.py %s --%s --replay "<section>" "<key>"\n\n'%(pid,tier))
                for sec,key,msg in viol: f.write('section: %s\nkey: %s\nfailure: %s\n\n'%(sec,key,msg))
                f.write('--- harness output (tail)\n'+out[-8000:])
            for sec,key,msg in viol[:5]: print('  [%s] %s: %s'%(sec,key,msg[:600]))
            print('VIOLATION property=%s replay=%s'%(pid,rp)); return 1
        print('OK property=%s tier=%s evaluations=%d states=%d transitions=%d traces=%d outcomes=%d wall=%.1fs'%(pid,tier,stats['evaluations'],stats['states'],stats['transitions'],stats['traces'],stats['outcomes'],time.time()-t0))
        return 0
    finally:
        shutil.rmtree(scratch,ignore_errors=True)
sys.exit(main())
