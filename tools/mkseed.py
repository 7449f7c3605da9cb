"""mk(id, property, edits=[(file, old, new)], demo_pkg, demo_src, needs, breaks, race=False, timeout=..)"""
import os,subprocess,shutil,json,tempfile
def mk(i, prop, edits, pkg, demo, needs, breaks, race=False, extra='', mod='', tests='TestDemo'):
    d='/verif/seeded/'+i
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    w=tempfile.mkdtemp()
    try:
        subprocess.run(['cp','-a','/repo',w+'/r'],check=True)
        for f,a,b in edits:
            p=w+'/r/'+f; s=open(p).read()
            assert s.count(a)==1,(i,f,s.count(a),a)
            open(p,'w').write(s.replace(a,b))
            # gofmt
            o=subprocess.run(['gofmt','-l',p],capture_output=True,text=True)
            assert not o.stdout and not o.stderr,(i,'gofmt',o.stdout,o.stderr)
        diff=subprocess.run(['git','diff'],cwd=w+'/r',capture_output=True,text=True).stdout
        assert diff
        # every removed line must be in the original
        base=subprocess.run(['git','diff','-U0'],cwd=w+'/r',capture_output=True,text=True).stdout
        f=None
        n=0
        for l in base.splitlines():
            if l.startswith('--- a/'):
                f=l[6:]
                r=subprocess.run(['git','show','88059fb:'+f],cwd='/repo',capture_output=True,text=True)
                orig=set(x.strip() for x in r.stdout.splitlines())
            elif l.startswith('-') and not l.startswith('---'):
                n+=1
                if l[1:].strip() not in orig: print(i,'WARNING not an original line:',l)
        if n==0: print(i,'WARNING: no removed lines')
        open(d+'/patch.diff','w').write(diff)
    finally: shutil.rmtree(w)
    open(d+'/demo_test.go','w').write(demo.lstrip('\n'))
    open(d+'/demo.sh','w').write('''#!/bin/bash
# Runs demo_test.go inside ./%s of the tree in the working directory.
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=
t=$(mktemp -d) || exit 2
trap 'rm -rf -- "$t"' EXIT
root=$PWD
echo '{"Replace":{"'"$root"'/%s/zz_demo_test.go":"'"$here"'/demo_test.go"}}' > "$t/o.json"
%scd "$root/%s" && timeout 280 go test -vet=off -count=1 %s-timeout 250s -overlay "$t/o.json" -run '^%s' .
'''%(pkg,pkg,extra,pkg,'-race ' if race else '',tests))
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    r=subprocess.run(['gofmt','-l',d+'/demo_test.go'],capture_output=True,text=True)
    print(i,'made',r.stdout,r.stderr)
