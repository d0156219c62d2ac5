#!/usr/bin/env python3
"""Turns a planted-bug description into /verif/seeded/<id>/ and confirms it.

usage: mkbug.py FILE.bug...      (development aid only; no check uses it)

A .bug file is Python: id, prop, needs, breaks, edits=[(file, old, new)...], pkg, test (Go test source),
race=False.
The patch is applied in a scratch copy of /repo; it is kept only if it builds, the stable tests pass,
and the demonstration passes without and fails with it.
"""
import sys, os, subprocess, json, shutil, tempfile, re
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO = r'''#!/bin/bash
# exit 0: the property holds; nonzero: broken. Run with cwd = the repository.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
. /opt/vp/env.sh 2>/dev/null
printf '{"Replace":{"%s/@PKG@/zz_demo_test.go":"%s/demo_test.go.txt"}}' "$PWD" "$d" > "$t/overlay.json"
TMPDIR="$t" timeout 280 go test@RACE@ -vet=off -count=1 -overlay "$t/overlay.json" -run '^TestDemo$' ./@PKG@
'''
def main():
    skiptests = '--notests' in sys.argv
    for f in [a for a in sys.argv[1:] if not a.startswith('--')]:
        g={}
        exec(open(f).read(), g)
        for b in g['bugs']:
            one(b, skiptests)
def one(b, skiptests):
    wt=tempfile.mkdtemp(prefix='bug.', dir='/tmp')
    try:
        repo=wt+'/repo'
        sh(f'cp -a /repo {repo}')
        for fn,old,new in b['edits']:
            p=repo+'/'+fn
            s=open(p).read()
            if s.count(old)!=1:
                print(b['id'],'EDIT matches',s.count(old),fn); return
            open(p,'w').write(s.replace(old,new))
        for fn,_,_ in b['edits']:
            if fn.endswith('.go'): sh(f'gofmt -w {repo}/{fn}')
        patch=sh(f'git -C {repo} diff').stdout
        d=wt+'/seed'; os.mkdir(d)
        open(d+'/patch.diff','w').write(patch)
        open(d+'/demo_test.go.txt','w').write(b['test'])
        pkg=b['pkg']
        open(d+'/demo.sh','w').write(DEMO.replace('@PKG@',pkg).replace('@RACE@',' -race' if b.get('race') else ''))
        os.chmod(d+'/demo.sh',0o755)
        json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
        r=sh(f'bash {d}/demo.sh',cwd='/repo')
        if r.returncode!=0:
            print(b['id'],'demo FAILS on clean tree'); print(r.stdout[-1500:]); return
        r=sh(f'. /opt/vp/env.sh; go build ./...',cwd=repo)
        if r.returncode!=0:
            print(b['id'],'does not build'); print(r.stdout[-1500:]); return
        r=sh(f'bash {d}/demo.sh',cwd=repo)
        if r.returncode==0:
            print(b['id'],'demo passes with the patch'); return
        if 'build failed' in r.stdout or 'setup failed' in r.stdout:
            print(b['id'],'demo does not build'); print(r.stdout[-800:]); return
        tail=r.stdout[-300:]
        if not skiptests:
            # run the stable tests in the scratch copy
            base=json.load(open('/opt/vp/BASELINE.json'))['stable']
            r=sh(". /opt/vp/env.sh; go test -json -vet=off -count=1 -timeout 12m -skip '^TestReal' ./...",cwd=repo)
            passed=set()
            for l in r.stdout.splitlines():
                try: e=json.loads(l)
                except Exception: continue
                if e.get('Action')=='pass' and e.get('Test'): passed.add(e['Package']+'/'+e['Test'])
            miss=[x for x in base if x not in passed]
            if miss:
                print(b['id'],'stable tests fail:',miss[:5]); return
        out='/verif/seeded/'+b['id']
        shutil.rmtree(out,ignore_errors=True)
        shutil.copytree(d,out)
        print(b['id'],'OK', 'demo:', ' '.join(tail.split())[:160])
    finally:
        shutil.rmtree(wt,ignore_errors=True)
main()
