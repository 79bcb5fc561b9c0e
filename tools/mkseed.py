"""mkseed.mk(...) writes /verif/seeded/<id>/ from a list of edits of /repo's HEAD and a demonstration."""
import json, os, shutil, subprocess, tempfile
DEMO = """#!/bin/bash
# builds the demonstration against the library in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
%(cc)s -std=gnu11 -g -w %(flags)s -I src "$here/demo.c" src/mpack/*.c -o "$t/demo" -lm || { echo "does not build"; exit 1; }
cd "$t"; timeout 120 ./demo; rc=$?
python3 -c 'import shutil,sys; shutil.rmtree(sys.argv[1])' "$t"
exit $rc
"""
def mk(id, prop, edits, demo, needs, breaks, flags="", cc="gcc", ledger=False):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="mkseed.", dir="/tmp")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", t + "/r"])
        for f, old, new in edits:
            p = t + "/r/src/mpack/" + f; s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", t + "/r", "diff"], universal_newlines=True)
    finally:
        shutil.rmtree(t)
    open(d + "/patch.diff", "w").write(diff)
    if ledger:
        flags += ' -include "$here/ledger.h"'
        open(d + "/ledger.h", "w").write("""#include <stdlib.h>
extern int live; void* cm(size_t n); void cf(void* p);
#define MPACK_MALLOC cm
#define MPACK_FREE cf
""")
    open(d + "/demo.c", "w").write(demo)
    open(d + "/demo.sh", "w").write(DEMO % {"flags": flags, "cc": cc})
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
