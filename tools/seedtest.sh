#!/bin/bash
# seedtest.sh ID... - validates planted bugs: the patch applies to /repo's HEAD, the demonstration passes
# without it and fails with it, the stable tests pass with it; then runs the property's check against it.
# Works on a copy under /tmp (mounted over /repo for the tests and the demonstration) and removes it.
scrap() { python3 -c 'import shutil,os,sys
for s in ("", ".demo"):
    assert sys.argv[1].startswith("/tmp/seed."); shutil.rmtree(sys.argv[1] + s, ignore_errors=True)
if os.path.exists(sys.argv[1] + ".out"): os.remove(sys.argv[1] + ".out")' "$1"; }
for id in "$@"; do
    d=/verif/seeded/$id
    sc=$(mktemp -d /tmp/seed.XXXXXX)
    cp -a /repo/. $sc/
    git -C $sc checkout -q -- . 
    demo() { (cd $1 && mkdir -p $sc.demo && cp $d/* $sc.demo/ && timeout 300 bash $sc.demo/demo.sh > $sc.out 2>&1; echo $?); }
    clean=$(demo $sc)
    if ! git -C $sc apply $d/patch.diff; then echo "$id: PATCH DOES NOT APPLY"; scrap $sc; continue; fi
    bad=$(demo $sc); tail -2 $sc.out
    st=$([ -n "$NOSTABLE" ] && echo "stable skipped" || bash /verif/tools/stable.sh $sc | head -1)
    prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    res=""
    for p in $prop $ALSO; do
        out=$(cd /verif && VERIF_REPO=$sc timeout 900 python3 run.py $p 2>&1); rc=$?
        res="$res $p:$rc"
        [ -n "$SHOW" ] && echo "$out" | tail -4 | cut -c1-700
    done
    echo "$id: demo clean=$clean patched=$bad | $st | checks:$res"
    scrap $sc
done
