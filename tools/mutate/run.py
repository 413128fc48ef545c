# run.py MUTANTS.jsonl OUT LANE LANES: applies each mutation to a copy of /repo and runs the checks that concern
# its file in a fast tier until one fails. Survivors are listed for inspection.
import json,os,re,shutil,subprocess,sys
muts=[json.loads(l) for l in open(sys.argv[1])]
out,lane,lanes=sys.argv[2],int(sys.argv[3]),int(sys.argv[4])
w='/tmp/mut%d'%lane
shutil.rmtree(w,ignore_errors=True); os.makedirs(w)
subprocess.run(['git','clone','-q','/repo',w+'/repo'],check=True)
shutil.copytree('/verif/harness',w+'/harness')
g=open(w+'/harness/go.mod').read().replace('=> /repo','=> %s/repo'%w); open(w+'/harness/go.mod','w').write(g)
shutil.copy('/verif/KNOWN_FINDINGS.jsonl',w)
env=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOWORK='off',GOTOOLCHAIN='local',VERIF_TIER='fast',VERIF_SEED='1',GOMAXPROCS='6')
order=[('lexer/','L04 L03 L02 L01 L05 P08 P07 P01 P09'),('token/token','T01 L04 P03 P04 L01'),('token/position','D01 L03 C03'),('parser/diag','D01 P08'),('parser/','P03 P04 P05 P06 P07 P08 A01 E02 P02 P01 D01 P09'),
('ast/astutils/walk','A02 A03 P01'),('ast/astutils/print','A03 A02'),('ast/comm','A04 P07 A01'),('ast/ident','A04 A01'),('ast/','A01 A03 A02 P01 C03 P08'),('environment','E01 E02'),('runtime','V01 V02'),('config','F01 C02 F02 C01'),('transforms','G02 G01 G03 C01 P09'),
('cmd/cddlc/commands/gen','C01 C02 C05 P08'),('cmd/cddlc/commands/init','F02 C05'),('cmd/cddlc/commands/repl','C04 C05'),('cmd/','C03 C05 L05 P08 C02 C01 C04 F02')]
f=open(out,'a')
done=set()
for i,m in enumerate(muts):
    if i%lanes!=lane: continue
    p=w+'/repo/'+m['File']; s=open(p,'rb').read()
    open(p,'wb').write(s[:m['Start']]+m['Repl'].encode()+s[m['End']:])
    try:
        b=subprocess.run(['go','build','-o',w+'/vmon','.'],cwd=w+'/harness',env=env,capture_output=True,text=True)
        if b.returncode: res='nobuild'; continue
        props=[x for k,v in order if m['File'].startswith(k) for x in v.split()][:]
        props=list(dict.fromkeys(next(v for k,v in order if m['File'].startswith(k)).split()))
        e=dict(env)
        if m['File'].startswith('cmd/') or set(props)&{'C01','C02','C03','C04','C05','L05','P08','F02'}:
            b=subprocess.run(['go','build','-o',w+'/cddlc','github.com/HannesKimara/cddlc/cmd/cddlc'],cwd=w+'/harness',env=env,capture_output=True,text=True)
            if b.returncode: res='nobuild'; continue
            e['VMON_CLI']=w+'/cddlc'
        res='SURVIVED'
        for q in props:
            d=w+'/run'; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
            e.update(VMON_BASE=d,VMON_VERIF=w); os.makedirs(w+'/evidence',exist_ok=True); os.makedirs(w+'/replays',exist_ok=True)
            try: r=subprocess.run([w+'/vmon','check',q],cwd=d,env=e,capture_output=True,text=True,timeout=200)
            except subprocess.TimeoutExpired: res='timeout '+q; break
            if r.returncode==1: res='killed '+q; break
            if r.returncode!=0: res='SURVIVED'; m['note']=m.get('note','')+' %s rc=%d'%(q,r.returncode)
    finally:
        open(p,'wb').write(s)
        f.write(json.dumps(dict(res=res,i=i,file=m['File'],line=m['Line'],desc=m['Desc'],note=m.get('note','')))+'\n'); f.flush()
shutil.rmtree(w,ignore_errors=True)
