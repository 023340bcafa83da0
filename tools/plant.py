#!/usr/bin/env python3
"""plant.py SPEC.py : create and confirm seeded/<id>/ from a spec file defining ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new[, nth])], and
either CSP (source text; exits 0 when right), with optional BACKEND, or DEMO (shell text) and FILES={name: text}.
Applies the change to /repo, builds, runs the stable tests and the demonstration, and undoes it."""
import json, os, subprocess, sys, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
ns = {}
exec(open(sys.argv[1]).read(), ns)
d = os.path.join(HERE, "seeded", ns["ID"])
sh = lambda cmd, **kw: subprocess.run(cmd, shell=True, cwd=R, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
assert sh("git status --porcelain").stdout.strip() == "", "repo not clean"
os.makedirs(d, exist_ok=True)
DEMO = ns.get("DEMO") or '''#!/bin/bash
# compiles t.csp with the compiler under test and runs it: exit 0 when every value is right
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
cp "$here/t.csp" "$d" && mkdir "$d/.cache" && cd "$d" || exit 2
HOME=$d timeout 60 /repo/build/bin/cspc build t.csp %s -p /repo/src/std -o ./t.bin --silent </dev/null || exit 1
[ -x ./t.bin ] || exit 1
timeout 20 ./t.bin
''' % ns.get("ARGS", "")
open(os.path.join(d, "demo.sh"), "w").write(DEMO)
os.chmod(os.path.join(d, "demo.sh"), 0o755)
for n, t in {**({"t.csp": ns["CSP"]} if "CSP" in ns else {}), **ns.get("FILES", {})}.items():
    open(os.path.join(d, n), "w").write(t)
json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def demo():
    t = "/tmp/plant_demo"
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(d, t)
    r = sh("timeout 300 bash %s/demo.sh" % t)
    shutil.rmtree(t)
    return r


def tests():
    if sh("bash /opt/vp/build.sh").returncode:
        return "build failed"
    sh("bash /opt/vp/test.sh /tmp/plant_o.json")
    o = json.load(open("/tmp/plant_o.json"))
    return sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(o["passed"]))


ok = True
try:
    if tests():
        print("clean tree:", tests()); ok = False
    r = demo()
    if r.returncode:
        print("demo fails on the clean tree", r.returncode, r.stdout[-800:]); ok = False
    base = sh("git rev-list --max-parents=0 HEAD").stdout.strip()
    root = sh("git log --format=%H --grep='^fix:' --invert-grep -1").stdout.strip()
    for e in ns["EDITS"]:
        f, old, new = e[:3]
        nth = e[3] if len(e) > 3 else 0
        s = open(os.path.join(R, f)).read()
        parts = s.split(old)
        assert len(parts) > nth + 1, ("not found", f, old, len(parts) - 1)
        if len(e) <= 3:
            assert len(parts) == 2, ("ambiguous", f, old, len(parts) - 1)
        open(os.path.join(R, f), "w").write(old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:]))
    diff = sh("git diff").stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    # the removed lines must come from the original repository
    import re
    cur, ln = None, 0
    for l in diff.splitlines():
        if l.startswith("--- a/"): cur = l[6:]
        m = re.match(r"@@ -(\d+)", l)
        if m: ln = int(m.group(1)); continue
        if l.startswith("-") and not l.startswith("---"):
            b = sh("git blame -l -L %d,%d HEAD -- %s" % (ln, ln, cur)).stdout.split()[0].lstrip("^")
            if b[:20] not in root and b[:20] not in base:
                print("changes a line of our own:", l, b[:10]); ok = False
            ln += 1
        elif l.startswith(" "): ln += 1
    t = tests()
    if t:
        print("tests broken by the change:", t); ok = False
    r = demo()
    if r.returncode == 0:
        print("demo passes with the change"); ok = False
    else:
        print("demo with the change: rc", r.returncode, r.stdout[-300:].strip())
finally:
    sh("git checkout -- .")
    sh("bash /opt/vp/build.sh")
print(ns["ID"], "OK" if ok else "NOT KEPT")
if not ok:
    shutil.rmtree(d)
sys.exit(0 if ok else 1)
