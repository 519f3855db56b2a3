#!/usr/bin/env python3
"""usage: mkseed.py SPEC.py   SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new[, count])], MAIN (Go source)."""
import sys,os,subprocess,json
g={}
exec(open(sys.argv[1]).read(),g)
R='/repo'; D='/verif/seeded/'+g['ID']
assert not subprocess.check_output(['git','-C',R,'status','--porcelain']).strip()
os.makedirs(D,exist_ok=True)
try:
    for e in g['EDITS']:
        p=R+'/'+e[0]; s=open(p).read(); n=e[3] if len(e)>3 else 1
        assert s.count(e[1])==n,(e[0],s.count(e[1]),e[1])
        open(p,'w').write(s.replace(e[1],e[2]))
    open(D+'/patch.diff','w').write(subprocess.check_output(['git','-C',R,'diff']).decode())
finally:
    subprocess.check_call(['git','-C',R,'checkout','-q','--','.'])
open(D+'/main.go','w').write(g['MAIN'].lstrip())
T=g.get('ENV','')
open(D+'/demo.sh','w').write('''#!/bin/bash
# Runs main.go against the module in the current directory through an overlay.
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
echo "{\\"Replace\\": {\\"$PWD/zzdemo/main.go\\": \\"$D/main.go\\"}}" > "$T/o.json"
go build -overlay "$T/o.json" %s -o "$T/demo" ./zzdemo || exit 2
%s timeout 200 "$T/demo"
''' % (g.get('BUILDFLAGS',''),T))
os.chmod(D+'/demo.sh',0o755)
json.dump({'property':g['PROP'],'needs':g['NEEDS'],'what_it_breaks':g['BREAKS']},open(D+'/meta.json','w'),indent=1)
