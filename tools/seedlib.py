"""Builds /verif/seeded/<id>/ from a list of edits (used only by hand, never by a check)."""
import os, subprocess, sys, json, shutil, tempfile
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE='''#!/bin/bash
# Run with cwd /repo. Exit 0: behaves as the property says.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cd /repo || exit 97
tmp=$(mktemp -d) || exit 97
trap 'rm -rf "$tmp"' EXIT
fail() { echo "DEMO: $*"; exit 1; }
'''
CLI='''go build -o "$tmp/gql" . || exit 98
cd "$tmp" || exit 97
# cmp OLD NEW [flags]: output in $tmp/out, exit status in $rc
cmp() { timeout 60 "$tmp/gql" compare -o "$1" -n "$2" "${@:3}" > "$tmp/out" 2>&1; rc=$?; }
lint() { timeout 60 "$tmp/gql" lint "$@" > "$tmp/out" 2>&1; rc=$?; }
count() { grep -c -- "$1" "$tmp/out"; }
'''
GOT='''cat > "$tmp/ov.json" <<EOF
{"Replace": {"/repo/%(pkg)s/zz_demo_test.go": "$here/demo_test.go.txt"}}
EOF
timeout 200 go test -vet=off -count=1 -overlay "$tmp/ov.json" -run 'TestZZDemo' ./%(pkg)s > "$tmp/out" 2>&1 || { tail -30 "$tmp/out"; fail "demo test fails"; }
grep -q '^ok' "$tmp/out" || fail "no test ran"
'''
def build(seeds, only=None):
    env=dict(os.environ)
    for s in seeds:
        if only and s['id'] not in only: continue
        d=os.path.join(HERE,'seeded',s['id'])
        wt=tempfile.mkdtemp(prefix='seed')
        try:
            subprocess.check_call(f'cp -a /repo {wt}/repo',shell=True)
            r=wt+'/repo'
            bad=False
            for f,old,new in s['edits']:
                p=os.path.join(r,f); t=open(p).read()
                n=s.get('occ',{}).get(old,1)
                if t.count(old)!=n and not isinstance(old,tuple):
                    print(s['id'],'EDIT MATCHES',t.count(old),repr(old)[:80]); bad=True; break
                open(p,'w').write(t.replace(old,new))
            if bad: continue
            diff=subprocess.check_output(['git','-C',r,'diff'],text=True)
            shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
            open(d+'/patch.diff','w').write(diff)
            demo=PRE
            if 'gotest' in s:
                demo+=GOT%{'pkg':s['gotest'][0]}
                open(d+'/demo_test.go.txt','w').write(s['gotest'][1])
            else:
                demo+=CLI+s['cli']
            demo+='\nexit 0\n'
            open(d+'/demo.sh','w').write(demo); os.chmod(d+'/demo.sh',0o755)
            json.dump({"property":s['prop'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(d+'/meta.json','w'),indent=1)
            # verify: run in place on /repo
            def demo_run():
                p=subprocess.run(['bash',d+'/demo.sh'],cwd='/repo',capture_output=True,text=True,timeout=300)
                return p.returncode,(p.stdout+p.stderr)[-600:]
            rc0,o0=demo_run()
            subprocess.check_call(['git','-C','/repo','apply',d+'/patch.diff'])
            try:
                b=subprocess.run(['bash','/opt/vp/build.sh'],capture_output=True,text=True)
                t=subprocess.run(['bash','/opt/vp/test.sh',wt+'/o.json'],capture_output=True,text=True)
                base=json.load(open('/opt/vp/BASELINE.json'))
                tests=subprocess.run(f"cd /repo && . /opt/vp/env.sh && go test -vet=off ./... 2>&1 | grep -E '^(--- FAIL|FAIL|\\s+--- FAIL)' | head -5",shell=True,capture_output=True,text=True,executable='/bin/bash').stdout
                rc1,o1=demo_run()
            finally:
                subprocess.check_call(['git','-C','/repo','checkout','-q','--','.'])
            ok = rc0==0 and rc1!=0 and rc1<90 and b.returncode==0 and not tests.strip()
            print(s['id'], 'OK' if ok else 'BAD', 'unpatched',rc0,'patched',rc1,'build',b.returncode,'tests',repr(tests[:200]))
            if not ok: print('   ',o0[:500],'|',o1[:500], b.stderr[:500])
        finally:
            shutil.rmtree(wt,ignore_errors=True)
