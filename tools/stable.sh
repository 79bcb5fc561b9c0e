#!/bin/bash
# stable.sh [DIR] - builds and runs ludocode/mpack's test suite (of DIR, mounted over /repo in a private
# namespace, or of /repo itself) and says whether all stable tests passed.
set -u
out=$(mktemp /tmp/stable.XXXXXX)
if [ -n "${1:-}" ]; then
    unshare -Urm bash -c "mount --bind '$1' /repo && cd /repo && bash /opt/vp/test.sh $out" > $out.log 2>&1
else
    bash /opt/vp/test.sh $out > $out.log 2>&1
fi
python3 - $out <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))
try: o=json.load(open(sys.argv[1]))
except Exception as e: print("NO RESULT", e); sys.exit(2)
def passed(d):
    for k in ("stable","passed","pass","stable_passed"):
        if k in d: v=d[k]; return set(v if isinstance(v,list) else [n for n in v])
    print("keys", list(d)); sys.exit(2)
want=passed(b); got=passed(o)
miss=sorted(want-got)
print("stable %d, passed %d, missing %d %s" % (len(want), len(got), len(miss), miss[:5]))
sys.exit(1 if miss else 0)
PY
rc=$?
[ $rc = 0 ] || tail -20 $out.log
/bin/rm -f $out $out.log
exit $rc
