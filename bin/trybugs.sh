#!/bin/bash
# trybugs.sh [ID...]: applies each planted bug to /repo, runs its property's check, undoes it; records seeded_results.json. By hand, never by a check.
cd "$(dirname "$0")/.."; V=$PWD
[ -z "$(git -C /repo status --short)" ] || { echo "/repo is not clean"; exit 2; }
[ $# -gt 0 ] || set -- $(ls seeded)
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply "$V/seeded/$i/patch.diff" || { echo "$i APPLY FAILS"; continue; }
  python3 bin/check.py $p > /tmp/try_$i.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  python3 - $i $rc $p <<'P'
import json,sys,re,os
i,rc,p=sys.argv[1:]
t=open('/tmp/try_%s.log'%i).read()
f=[l for l in t.splitlines() if l.startswith('failed obligation')]
a=', '.join(sorted({'`%s`%s'%(re.search(r': (\S+) \(',l).group(1).replace('IProduction@','').replace('ILexeme@','').replace('ITokenization@',''), (lambda m:' ['+m.group(1)+']' if m else '')(re.search(r'\) (C\d\d\.[\w,.]+):',l))) for l in f}))
v='VIOLATION property='+p in t
if v and not a:
    r=json.load(open('/verif/evidence/%s.json'%p))['coverage']['undecided']
    a='undecided: '+', '.join(sorted({'`%s`'%u.split(': ')[0].replace('IProduction@','') for u in r})[:3]) if r else 'quiet'
b='failing input' if any(l.startswith('failing input') for l in t.splitlines()) else 'nothing'
if not v: a='MISSED (exit %s)'%rc
q='/verif/seeded_results.json'
d=json.load(open(q)) if os.path.exists(q) else {}
d[i]={'a':a,'b':b}
json.dump(d,open(q,'w'),indent=1,sort_keys=True)
print(i,p,'rc='+rc,'A:',a,'| B:',b,flush=True)
P
done
git -C /repo status --short
