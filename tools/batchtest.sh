#!/bin/bash
# batchtest.sh NAME...: applies several planted bugs together to a copy of /repo, bound over /repo in a private mount namespace,
# and says which stable tests fail, so that only bugs the suite does not catch are kept.
rm -rf /tmp/trepo; cp -a /repo /tmp/trepo
for n in "$@"; do git -C /tmp/trepo apply /verif/seeded/$n/patch.diff || echo "does not apply: $n"; done
rm -f /tmp/trepo.json
unshare -Urm sh -c 'mount --bind /tmp/trepo /repo && cd / && bash /opt/vp/test.sh /tmp/trepo.json' > /tmp/trepo.log 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); g=json.load(open('/tmp/trepo.json')); p=set(g['passed'])
print('baseline',len(b),'passed',len(p),'missing',len(b-p))
for t in sorted(b-p)[:80]: print('  FAIL',t)
P
rm -rf /tmp/trepo
