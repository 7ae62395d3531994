#!/usr/bin/env python3
"""Runs the property's check against seeded changes, in scratch copies. usage: runseeds.py [substr...]"""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def run(sid):
    d = os.path.join(VERIF, "seeded", sid)
    prop = json.load(open(d + "/meta.json"))["property"]
    w = tempfile.mkdtemp(prefix="rs-"); r = w + "/repo"
    try:
        subprocess.run(["cp", "-a", "/repo", r], check=True)
        subprocess.run(["git", "apply", d + "/patch.diff"], cwd=r, check=True)
        v = w + "/verif"; os.makedirs(v)
        for f in os.listdir(VERIF):
            if f not in ("seeded", ".git", "evidence"): (shutil.copytree if os.path.isdir(VERIF + "/" + f) else shutil.copy)(VERIF + "/" + f, v + "/" + f)
        t = time.time()
        p = subprocess.run(["python3", v + "/check.py", prop], cwd=v, env=dict(os.environ, VERIF_REPO=r), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        viol = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
        how = "MISSED" if p.returncode != 1 else ("caught" if viol and "no-failing-input" not in viol[0] else "caught-no-input")
        obl = [l[19:100] for l in p.stdout.splitlines() if l.startswith("failed obligation")]
        return "%-28s %s %s rc=%d %.0fs obligations=%s" % (sid, prop, how, p.returncode, time.time() - t, obl[:3])
    finally:
        shutil.rmtree(w, ignore_errors=True)
ids = sorted(s for s in os.listdir(VERIF + "/seeded") if not sys.argv[1:] or any(a in s for a in sys.argv[1:]))
with ThreadPoolExecutor(2) as ex:
    for l in ex.map(run, ids): print(l, flush=True)
