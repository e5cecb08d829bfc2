#!/usr/bin/env python3
"""mkseed.py SPEC.py: build seeded/<id> from a spec defining ID, PROPERTY, NEEDS,
BREAKS, EDITS=[(file, old, new)], DEMO (C++ source). Verifies in a scratch copy that
the demo passes unchanged and fails with the patch, that the stable build/tests pass
with it (in /repo, undone straight afterwards), and reports whether ./check catches it."""
import os, sys, subprocess, shutil, json, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def run(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
ns = {}
exec(open(sys.argv[1]).read(), ns)
ID, d = ns["ID"], os.path.join(V, "seeded", ns["ID"])
shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
wt = tempfile.mkdtemp(prefix="seed.")
try:
    subprocess.check_call(["cp", "-a", "/repo/.", wt])
    if ns.get("DEMO"):
        open(d + "/demo.cpp", "w").write(ns["DEMO"])
        shutil.copytree(V + "/shim", d + "/shim")
        open(d + "/demo.sh", "w").write('''#!/bin/bash
# cwd: the repository.  exit 0: the property holds for the demonstrated case.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 9
trap 'rm -rf -- "$t"' EXIT
g++ -std=c++17 -O1 -w %s -I"$d/shim" -I"$PWD/include" -I/usr/include/eigen3 \\
  "$d/demo.cpp" "$PWD/src/block-kind.cpp" -lfmt -o "$t/demo" || exit 8
timeout 120 "$t/demo" >"$t/out" 2>&1; r=$?
tail -5 "$t/out"
exit $r
''' % ns.get("FLAGS", ""))
        os.chmod(d + "/demo.sh", 0o755)
    a = run(["bash", d + "/demo.sh"], cwd=wt)
    print("unchanged:", a.returncode, a.stdout[-1500:])
    for f, old, new in ns["EDITS"]:
        p = os.path.join(wt, f); s = open(p, newline="").read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w", newline="").write(s.replace(old, new))
    diff = run(["git", "diff"], cwd=wt).stdout
    with open(d + "/patch.diff", "w", newline="") as fh:
        fh.write(subprocess.run(["git","diff"],cwd=wt,stdout=subprocess.PIPE).stdout.decode())
    b = run(["bash", d + "/demo.sh"], cwd=wt)
    print("patched:", b.returncode, b.stdout[-1500:])
    json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    ok = a.returncode == 0 and b.returncode not in (0, 8, 9)
    # blame: changed lines must be original
    base = subprocess.check_output(["git", "rev-list", "--max-parents=0", "HEAD"], cwd=wt, text=True).split()[0]
    for l in diff.splitlines():
        if l.startswith("@@"): hunk = l
    rm = [l[1:].rstrip("\r") for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
    for f, *_ in ns["EDITS"]:
        orig = subprocess.run(["git", "show", "1096cfd:" + f], cwd="/repo", stdout=subprocess.PIPE).stdout.decode()
    origs = "\n".join(subprocess.run(["git", "show", "1096cfd:" + f], cwd="/repo", stdout=subprocess.PIPE).stdout.decode() for f, *_ in ns["EDITS"])
    for l in rm:
        if l not in origs.replace("\r", "").split("\n"): print("NOT ORIGINAL LINE:", l); ok = False
    if run(["git", "-C", "/repo", "status", "--porcelain"]).stdout.strip(): sys.exit("repo dirty")
    try:
        assert run(["git", "-C", "/repo", "apply", d + "/patch.diff"]).returncode == 0
        x = run(["bash", "/opt/vp/build.sh"]); t = run(["bash", "/opt/vp/test.sh", "/tmp/seed.json"])
        res = json.load(open("/tmp/seed.json"))
        print("build rc", x.returncode, "tests", len(res["passed"]), "failed", res["failed"])
        ok = ok and x.returncode == 0 and len(res["passed"]) == 3
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
        run(["bash", "/opt/vp/build.sh"])
    k = run([V + "/check", ns["PROPERTY"]], env=dict(os.environ, MC_REPO=wt))
    print("check rc", k.returncode, k.stdout[-600:])
    print("SEED", ID, "ok" if ok else "INVALID", "caught" if k.returncode == 1 and "VIOLATION property=" + ns["PROPERTY"] in k.stdout else "MISSED")
    if not ok: shutil.rmtree(d)
finally:
    shutil.rmtree(wt, ignore_errors=True)
