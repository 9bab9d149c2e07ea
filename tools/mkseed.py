#!/usr/bin/env python3
"""Makes and verifies a planted change: mkseed.py SPEC.py   (SPEC defines ID, PROP, NEEDS, BREAKS, EDITS, DEMO, FLAGS[, LIBS, EXPECT])

Works in a scratch copy of /repo under /tmp/seedwork; nothing is left in /repo. Writes /verif/seeded/<ID>/."""
import json, os, re, runpy, shutil, subprocess, sys
BASE = "55fdea1"
W = os.environ.get("SEEDW", "/tmp/seedwork")
sp = runpy.run_path(sys.argv[1])
out = "/verif/seeded/" + sp["ID"]


def run(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **k)


if not os.path.isdir(W):
    subprocess.check_call(["cp", "-a", "/repo", W])
run("git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f --detach FETCH_HEAD" % (W, W))
run("git -C %s checkout -q -- ." % W)
for f, edits in sp["EDITS"].items():
    p = os.path.join(W, f)
    s = open(p).read()
    for old, new in edits:
        assert s.count(old) == 1, (f, s.count(old), old)
        s = s.replace(old, new)
    open(p, "w").write(s)
d = run("git -C %s diff" % W).stdout
assert d
os.makedirs(out, exist_ok=True)
open(out + "/patch.diff", "w").write(d)
# removed lines must be original
orig = True
for f in sp["EDITS"]:
    bl = run("git -C %s blame -s HEAD -- %s" % (W, f)).stdout.splitlines()
    base = run("git -C /repo rev-parse --short=8 %s" % BASE).stdout.strip()
    h = run("git -C %s diff -U0 -- %s" % (W, f)).stdout
    for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? \+", h, re.M):
        a, n = int(m.group(1)), int(m.group(2) or 1)
        for i in range(a, a + n):
            if base[:7] not in bl[i - 1].split()[0]:
                orig = False
                print("NOT ORIGINAL", f, bl[i - 1])
        if n == 0:
            print("pure insertion at", f, a)
demo = sp["DEMO"]
open(out + "/demo.cpp", "w").write(demo)
for n, src in sp.get("FILES", {}).items():
    shutil.copy(src, os.path.join(out, n))
sh = """#!/bin/bash
# run with cwd /repo: 0 when the property holds for the demonstrated case
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)" || exit 3
trap 'rm -rf "$t"' EXIT
%s
"$t/demo"
""" % sp.get("SH", '''g++ -std=gnu++20 -O1 -w -DNDEBUG -I"$PWD" %s -DDPM_HANDLE_ERRORS -DDPM_INLINE_EXTENSIONS -DDPM_PROPAGATE_NAN %s "$here/demo.cpp" %s -o "$t/demo" || exit 4''' % (sp.get("INC", ""), sp["FLAGS"], sp.get("LIBS", "")))
open(out + "/demo.sh", "w").write(sh)
os.chmod(out + "/demo.sh", 0o755)
json.dump({"property": sp["PROP"], "needs": sp["NEEDS"], "what_it_breaks": sp["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
r1 = run(["bash", out + "/demo.sh"], cwd="/repo")
r2 = run(["bash", out + "/demo.sh"], cwd=W)
print("demo clean", r1.returncode, r1.stdout[-200:], r1.stderr[-800:], "| patched", r2.returncode, r2.stdout[-300:], r2.stderr[-800:])
ok = r1.returncode == 0 and r2.returncode not in (0, 3, 4) and orig
if not {"--nobuild", "--chk"} & set(sys.argv) and ok:
    run("git -C /repo apply --check " + out + "/patch.diff", check=True)
    run("git -C /repo apply " + out + "/patch.diff", check=True)
    try:
        b = run("bash /opt/vp/build.sh")
        t = run("bash /opt/vp/test.sh /tmp/seed_t.json")
        passed = set(json.load(open("/tmp/seed_t.json")).get("passed", []))
        miss = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - passed
        print("build", b.returncode, "missing", miss)
        ok = ok and b.returncode == 0 and not miss
        c = run("python3 run.py check " + sp["PROP"], cwd="/verif", env=dict(os.environ, VERIF_TIER="quick"))
        print("CHECK", sp["PROP"], "rc", c.returncode, [l for l in c.stdout.splitlines()][:3])
    finally:
        run("git -C /repo checkout -- .")
if "--chk" in sys.argv and ok:
    c = run("python3 run.py check " + sp["PROP"], cwd="/verif", env=dict(os.environ, VERIF_TIER="quick", DPM_REPO=W))
    print("CHECK", sp["PROP"], "rc", c.returncode, [l[:200] for l in c.stdout.splitlines()][:2])
print(sp["ID"], "OK" if ok else "BAD")
