#!/usr/bin/env python3
# mkseed.py FILE...: each FILE (python) defines seeds via seed(id, prop, pkg, edits, demo, needs, breaks).
# Applies the edits in a scratch copy of /repo, checks that it builds, passes the stable tests, and that
# the demonstration fails with the change and passes without it; then writes /verif/seeded/<id>/.
import json, os, subprocess, sys, shutil, tempfile
S = []
def seed(id, prop, pkg, edits, demo, needs, breaks):
    S.append(dict(id=id, prop=prop, pkg=pkg, edits=edits, demo=demo, needs=needs, breaks=breaks))
DEMO = '''#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds
D=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
O=$(mktemp /tmp/demo.XXXXXX)
trap 'rm -f "$O"' EXIT
printf '{"Replace":{"%%s/%s/zz_demo_test.go":"%%s/demo_test.go.txt"}}' "$PWD" "$D" > "$O"
go test -overlay "$O" -vet=off -count=1 -timeout 120s -run '^TestDemo$' ./%s
'''
def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    for f in sys.argv[1:]:
        exec(open(f).read(), dict(seed=seed))
    only = os.environ.get("ONLY")
    base = json.load(open("/opt/vp/BASELINE.json"))
    env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", PATH="/opt/veriftools/go1.27.3/bin:"+os.environ["PATH"])
    for s in S:
        if only and s["id"] not in only.split(","): continue
        w = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
        try:
            r = w + "/repo"
            subprocess.check_call(["git", "clone", "-q", "/repo", r])
            for (f, a, b) in s["edits"]:
                t = open(r+"/"+f).read()
                assert t.count(a) == 1, (s["id"], f, t.count(a), a)
                open(r+"/"+f, "w").write(t.replace(a, b))
            diff = run(["git", "diff"], r).stdout
            d = w + "/demo"; os.mkdir(d)
            open(d+"/demo_test.go.txt", "w").write(s["demo"])
            open(d+"/demo.sh", "w").write(DEMO % (s["pkg"], s["pkg"]))
            os.chmod(d+"/demo.sh", 0o755)
            p = run(["bash", d+"/demo.sh"], "/repo")
            if p.returncode != 0:
                print(s["id"], "demo fails on the unchanged tree\n", p.stdout[-3000:]); continue
            p = run(["bash", d+"/demo.sh"], r)
            if p.returncode == 0:
                print(s["id"], "demo passes with the change\n", p.stdout[-2000:]); continue
            if "build failed" in p.stdout:
                print(s["id"], "does not build\n", p.stdout[-2000:]); continue
            why = [l for l in p.stdout.splitlines() if "demo" in l or "panic" in l or "FAIL" in l][:3]
            # the stable unit tests (e2e with vcheck)
            q = run(["go", "test", "-vet=off", "-count=1", "./..."], r, env=env)
            if q.returncode != 0:
                print(s["id"], "unit tests catch it\n", q.stdout[-2500:]); continue
            out = "/verif/seeded/" + s["id"]
            os.makedirs(out, exist_ok=True)
            open(out+"/patch.diff", "w").write(diff)
            shutil.copy(d+"/demo.sh", out); shutil.copy(d+"/demo_test.go.txt", out)
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out+"/meta.json", "w"), indent=1)
            print(s["id"], "ok:", why)
        finally:
            shutil.rmtree(w)
main()
