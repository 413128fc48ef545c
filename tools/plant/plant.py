import json,os,re,shutil,subprocess,sys,tempfile,textwrap
ENV=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOWORK='off',GOTOOLCHAIN='local')
HEAD=r'''#!/bin/bash
# exit 0: the property holds on this input; nonzero: it does not
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOPROXY=off GOWORK=off GOTOOLCHAIN=local GOFLAGS=-mod=mod
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
'''
def sh_demo(bug):
    s=HEAD
    if 'go' in bug:
        s+='''printf '{"Replace":{"%%s/zz_demo/main.go":"%%s/main.go"}}' "$PWD" "$here" >"$tmp/overlay.json"
go build %s-overlay "$tmp/overlay.json" -o "$tmp/demo" ./zz_demo || exit 2
cd "$tmp" || exit 2
(ulimit -v 16000000 2>/dev/null; exec timeout 60 "$tmp/demo")
''' % ('-race ' if bug.get('race') else '')
        if bug.get('race'): s=s.replace('ulimit -v 16000000 2>/dev/null; ','')
    else:
        s+='go build -o "$tmp/cddlc" ./cmd/cddlc || exit 2\nmkdir "$tmp/w" && cd "$tmp/w" || exit 2\n'+textwrap.dedent(bug['sh']).strip()+'\n'
    return s
GOHEAD='''package main

import (
%s)

func check(ok bool, format string, args ...interface{}) {
	if !ok {
		fmt.Printf(format+"\\n", args...)
		os.Exit(1)
	}
}

func parse(src string) (*ast.CDDL, parser.ErrorList) {
	return parser.NewParser(lexer.NewLexer([]byte(src))).ParseFile()
}

'''
def go_demo(bug):
    body=textwrap.dedent(bug['go']).strip().replace('    ','\t')
    imps={'fmt','os','github.com/HannesKimara/cddlc/ast','github.com/HannesKimara/cddlc/parser','github.com/HannesKimara/cddlc/lexer'}
    for i in bug.get('imp',[]): imps.add('github.com/HannesKimara/cddlc/'+i[1:] if i[0]=='@' else i)
    lines=''.join('\t"%s"\n'%i if not i.endswith('codegen/golang') else '\tgogen "%s"\n'%i for i in sorted(imps,key=lambda x:('.' in x,x)))
    if 'func main' not in body: body='func main() {\n'+textwrap.indent(body,'\t')+'\n}'
    src=GOHEAD%lines+body+'\n'
    r=subprocess.run(['gofmt'],input=src,capture_output=True,text=True)
    if r.returncode: print(src,r.stderr); sys.exit(1)
    return r.stdout
def original_lines(f):
    base='f436aa0'
    out=subprocess.run(['git','-C','/repo','blame','-s',f],capture_output=True,text=True,check=True).stdout
    return [l.startswith('^') for l in out.splitlines()]
def plant(bug):
    id=bug['id']; d='/tmp/bugs/work'
    shutil.rmtree(d,ignore_errors=True); shutil.copytree('/repo',d,symlinks=True)
    touched=False
    for f,old,new in bug['edits']:
        p=d+'/'+f; s=open(p).read()
        if s.count(old)!=1: return 'edit in %s matches %d times: %r'%(f,s.count(old),old)
        open(p,'w').write(s.replace(old,new))
    subprocess.run(['gofmt','-w']+sorted({d+'/'+f for f,_,_ in bug['edits'] }))
    diff=subprocess.run(['git','-C',d,'diff'],capture_output=True,text=True).stdout
    # original lines removed
    cur=None;orig={}
    n=0;tot=0
    for l in diff.splitlines():
        if l.startswith('--- a/'): cur=l[6:]; orig[cur]=original_lines(cur)
        elif l.startswith('@@'): ln=int(re.match(r'@@ -(\d+)',l).group(1))
        elif l.startswith('-'): tot+=1; n+=orig[cur][ln-1]; ln+=1
        elif l.startswith(' '): ln+=1
    if n==0: return 'no original line changed'
    if n<tot: print('   note: %d of %d removed lines are not original'%(tot-n,tot))
    r=subprocess.run(['go','build','./...'],cwd=d,env=ENV,capture_output=True,text=True)
    if r.returncode: return 'build: '+r.stderr
    r=subprocess.run(['go','vet','./...'],cwd=d,env=ENV,capture_output=True,text=True)
    # tests: run in /repo proper through apply
    out='/verif/seeded/'+id
    shutil.rmtree(out,ignore_errors=True); os.makedirs(out)
    open(out+'/patch.diff','w').write(diff)
    open(out+'/demo.sh','w').write(sh_demo(bug)); os.chmod(out+'/demo.sh',0o755)
    if 'go' in bug: open(out+'/main.go','w').write(go_demo(bug))
    json.dump({'property':bug['p'],'needs':bug['needs'],'what_it_breaks':bug['breaks']},open(out+'/meta.json','w'),indent=1)
    open(out+'/meta.json','a').write('\n')
    try:
        r=subprocess.run([out+'/demo.sh'],cwd='/repo',capture_output=True,text=True,timeout=200)
        if r.returncode: raise Exception('demo fails on clean: %d %s %s'%(r.returncode,r.stdout[-800:],r.stderr[-800:]))
        t=subprocess.run(['git','-C','/repo','apply',out+'/patch.diff'],capture_output=True,text=True)
        if t.returncode: raise Exception('apply '+t.stderr)
        try:
            r=subprocess.run(['bash','/tmp/t.sh'],capture_output=True,text=True)
            if r.returncode: raise Exception('tests: '+r.stdout[-500:])
            r=subprocess.run([out+'/demo.sh'],cwd='/repo',capture_output=True,text=True,timeout=200)
            if r.returncode==0: raise Exception('demo passes with the bug: '+r.stdout[-500:])
            if r.returncode==2 and 'sh' not in bug and 'panic' not in r.stderr: raise Exception('demo error '+r.stdout+r.stderr[-800:])
            msg=(r.stdout+r.stderr)[-160:].strip().replace('\n',' | ')
        finally:
            subprocess.run(['git','-C','/repo','checkout','-q','--','.'])
    except Exception as e:
        shutil.rmtree(out); return str(e)
    print('   demo: rc=%d %s'%(r.returncode,msg))
    return None
if __name__=='__main__':
    import importlib.util
    spec=importlib.util.spec_from_file_location('b',sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    for b in m.BUGS:
        if len(sys.argv)>2 and b['id'] not in sys.argv[2:]: continue
        if len(sys.argv)<=2 and os.path.exists('/verif/seeded/'+b['id']): continue
        e=plant(b); print(b['id'],'OK' if not e else 'FAIL '+e,flush=True)
    shutil.rmtree('/tmp/bugs/work',ignore_errors=True)
