#!/bin/bash
# developer tool: quietrun.sh TREE [checks] runs this directory's checks on a scratch tree (made with KEEP=1 quiet.py)
W=$1; shift; cd "$(dirname "$0")/.."; IDS=${*:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}
for c in $IDS; do
  s=$(date +%s); o=$(VERIF_REPO=$W/repo VERIF_EVIDENCE=/tmp/quiet_evidence python3 check.py $c 2>&1); r=$?
  echo "$c rc=$r $(($(date +%s)-s))s $(python3 -c "
import json;e=json.load(open('/tmp/quiet_evidence/$c.json'));u=e.get('coverage',{}).get('undecided',[])
print('undecided',len(u),*[x['what'][:50]+' | '+x['why'][:90]+';' for x in u],sep='\n   ? ')")"
  [ $r != 0 ] && echo "$o" | cut -c1-400 | head -12
done
