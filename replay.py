#!/usr/bin/env python3
"""replay.py <replay file> - rebuilds the harness from /repo and replays one recorded execution, printing every step."""
import json, os, subprocess, sys, shutil
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
v = json.load(open(sys.argv[1]))
os.environ["VERIF_TIER"] = v["tier"]
import run, checks
job = [j for j in checks.CHECKS[v["property"]]["jobs"] if j["name"] == v["job"]][0]
b = os.path.join(HERE, ".build", "replay.%d" % os.getpid())
try:
    comp, link, exe = run.plan_build(job, b)
    for c in comp: run.sh(c)
    for c in link: run.sh(c)
    r = subprocess.run([exe, "--tier", v["tier"], "--replay", ",".join(map(str, v["choices"]))], env=run.env_for(v["property"]))
    print("exit", r.returncode)
finally:
    shutil.rmtree(b, ignore_errors=True)
sys.exit(0 if r.returncode == 0 else 1)
