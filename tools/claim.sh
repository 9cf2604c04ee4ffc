#!/bin/bash
# usage: claim.sh Cxx "text"  -- add or replace a claim, regenerate the manifest
cd "$(dirname "$0")/.."
python3 - "$1" "$2" <<'P'
import sys,re
s=open('tools/claims.py').read()
k,txt=sys.argv[1:]
line='    "%s": REAL + %r,\n'%(k,txt)
s=re.sub(r'    "%s": REAL.*\n'%k,'',s)
head,tail=s.split('CLAIMS = {\n',1)
i=tail.index('}\n')
body=tail[:i]+line
body=''.join(sorted(body.splitlines(True)))
open('tools/claims.py','w').write(head+'CLAIMS = {\n'+body+tail[i:])
P
python3 tools/mkmanifest.py
