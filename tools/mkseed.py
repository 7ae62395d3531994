#!/usr/bin/env python3
"""Builds seeded/<id>/ from a definition file (python: dict SEEDS) and confirms it in a scratch copy.

SEEDS[id] = dict(prop, needs, breaks, edits=[(file, old, new)], pkg=".", demo=<go test source with TestDemo> or script=<sh>)
usage: mkseed.py DEFS.py [id...]
"""
import json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod -buildvcs=false", GOSUMDB="off", CGO_ENABLED="0", TZ="UTC")
DEMO = '''#!/bin/sh
# cwd: the repository. Exit 0 when the property holds.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOSUMDB=off CGO_ENABLED=0 TZ=UTC
printf '{"Replace":{"%%s/%s/zz_demo_test.go":"%%s/demo.go"}}' "$PWD" "$d" > "$t/overlay.json"
go test -overlay "$t/overlay.json" -vet=off -count=1 -run '^TestDemo$' ./%s
rc=$?
rm -rf "$t"
exit $rc
'''
def sh(cmd, cwd, **k): return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, **k)
ns = {}
exec(open(sys.argv[1]).read(), ns)
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def broken(r, w):
    """the stable tests that do not pass in r"""
    vp = os.path.join(w, "vp"); shutil.copytree("/opt/vp", vp, ignore=lambda d, n: [x for x in n if os.path.isdir(os.path.join(d, x))])
    for f in ("env.sh", "test.sh"):
        p = os.path.join(vp, f); t = open(p).read().replace("/opt/vp/", vp + "/").replace("cd /repo", "cd " + r); open(p, "w").write(t)
    sh(["bash", vp + "/test.sh", w + "/o.json"], r)
    return sorted(stable - set(json.load(open(w + "/o.json"))["passed"]))
for sid, s in ns["SEEDS"].items():
    if sys.argv[2:] and sid not in sys.argv[2:]: continue
    w = tempfile.mkdtemp(prefix="seed-")
    r = os.path.join(w, "repo")
    sh(["cp", "-a", "/repo", r], "/")
    out = os.path.join(VERIF, "seeded", sid)
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    if "demo" in s:
        open(os.path.join(out, "demo.go"), "w").write(s["demo"])
        open(os.path.join(out, "demo.sh"), "w").write(DEMO % (s.get("pkg", "."), s.get("pkg", ".")))
    else:
        open(os.path.join(out, "demo.sh"), "w").write(s["script"])
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    bad = []
    a = sh(["sh", os.path.join(out, "demo.sh")], r)
    if a.returncode != 0: bad.append("demo fails on unchanged tree:\n" + a.stdout[-1500:])
    for f, o, n in s["edits"]:
        t = open(os.path.join(r, f)).read()
        if t.count(o) != 1: bad.append("%s: pattern occurs %d times" % (f, t.count(o))); continue
        open(os.path.join(r, f), "w").write(t.replace(o, n))
    open(os.path.join(out, "patch.diff"), "w").write(sh("git diff", r).stdout)
    b = sh("go build . ./cmd/coin ./cmd/ofx2coin ./cmd/csv2coin ./cmd/gen2coin", r)
    if b.returncode: bad.append("build: " + b.stdout[-800:])
    bt = broken(r, w)
    if bt: bad.append("existing tests fail: " + " ".join(bt))
    d = sh(["sh", os.path.join(out, "demo.sh")], r)
    if d.returncode == 0: bad.append("demo passes with the patch")
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    shutil.rmtree(w)
    if bad:
        shutil.rmtree(out)
    print(sid, "OK" if not bad else "REJECTED " + "; ".join(bad))
