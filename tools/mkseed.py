#!/usr/bin/env python3
"""Author a planted bug: mkseed.py NAME  reads /tmp/bugs/NAME.py (dict BUG) and writes seeded/NAME after confirming it.

BUG = dict(property, needs, breaks, edits=[(file, old, new)], go="test source"|None, files={name: text}, demo="shell"|None)
"""
import json, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GO_DEMO = '''#!/bin/bash
set -u
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
export TMPDIR=$w
printf '{"Replace":{"%s/SmartCache/sim/cache/zz_demo_test.go":"%s/demo_test.go.txt"}}' "$PWD" "$here" > "$w/overlay.json"
cd SmartCache/sim && GOFLAGS=-mod=readonly "$GO" test -vet=off -count=1 -timeout 200s -overlay "$w/overlay.json" -run '^TestPlantedDemo$' ./cache/
'''

def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def run(name):
    ns = {}
    exec(open("/tmp/bugs/%s.py" % name).read(), ns)
    b = ns["BUG"]
    d = os.path.join(VERIF, "seeded", name)
    os.makedirs(d, exist_ok=True)
    wt = "/tmp/bugwt-" + name
    shutil.rmtree(wt, ignore_errors=True)
    sh("cp -a /repo %s" % wt, "/")
    blame = ""
    for f, old, new in b["edits"]:
        p = os.path.join(wt, f)
        s = open(p).read()
        n = s.count(old)
        if n != 1:
            print("EDIT matches %d times: %s" % (n, old)); return 1
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run("git diff", cwd=wt, shell=True, stdout=subprocess.PIPE, text=True).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    if b.get("go"):
        open(os.path.join(d, "demo_test.go.txt"), "w").write(b["go"])
        demo = GO_DEMO
    else:
        demo = b["demo"]
    for n, t in b.get("files", {}).items():
        open(os.path.join(d, n), "w").write(t)
    open(os.path.join(d, "demo.sh"), "w").write(demo)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    ok = True
    # do the removed lines belong to the original tree?
    base = sh("git rev-list --max-parents=0 HEAD", wt).stdout.strip()
    removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
    for f, _, _ in b["edits"]:
        orig = sh("git show %s:%s" % (base, f), wt).stdout
        for l in removed:
            if l.strip() and l not in orig.splitlines() and any(l in open(os.path.join("/repo", g)).read().splitlines() for g, _, _ in b["edits"]):
                print("WARN line not in the original:", l)
    r = sh("bash %s/demo.sh" % d, "/repo")
    print("demo on clean:", r.returncode); 
    if r.returncode: print(r.stdout[-3000:]); ok = False
    bld = sh(". /opt/vp/env.sh; cd SmartCache/sim && \"$GO\" build -o /dev/null . && cd ../../ && python3 -c pass", wt, executable="/bin/bash")
    print("build:", bld.returncode, bld.stdout[-800:])
    ok = ok and bld.returncode == 0
    r = sh("bash %s/demo.sh" % d, wt)
    print("demo on patched:", r.returncode, "" if r.returncode else "  <- NOT DETECTED"); print(r.stdout[-700:])
    ok = ok and r.returncode != 0
    # stable tests on the patched tree, in place
    st = sh("git status --porcelain", "/repo").stdout
    if st.strip():
        print("repo dirty, skipping tests"); ok = False
    else:
        try:
            a = sh("git apply %s/patch.diff" % d, "/repo")
            if a.returncode: print("apply failed", a.stdout); ok = False
            sh("bash /opt/vp/build.sh", "/repo")
            sh("bash /opt/vp/test.sh /tmp/seedtest.json", "/repo")
            j = json.load(open("/tmp/seedtest.json")); base = json.load(open("/opt/vp/BASELINE.json"))
            print("tests:", verdict(j, base))
            ok = ok and verdict(j, base) == "ok"
        finally:
            sh("git checkout -- .", "/repo")
            sh("bash /opt/vp/build.sh", "/repo")
    sh("rm -rf %s" % wt, "/")
    print(name, "CONFIRMED" if ok else "REJECTED")
    return 0 if ok else 1

def verdict(j, base):
    def passed(x):
        if isinstance(x, dict):
            for k in ("passed", "pass", "stable", "tests"):
                if k in x: return passed(x[k])
            return {k for k, v in x.items() if v in ("pass", "passed", True)}
        return set(x if all(isinstance(i, str) for i in x) else [i["name"] for i in x])
    missing = passed(base) - passed(j)
    return "ok" if not missing else "FAIL %s" % missing

if __name__ == "__main__":
    sys.exit(max(run(n) for n in sys.argv[1:]))
