#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from a bug definition and confirms it in a scratch copy of /repo.

plant.py FILE [id...]   FILE defines BUGS: a list of dicts id, property, edits [(file, old, new)], needs, breaks,
                        pkg (package the demonstration is compiled into), demo (Go test source), race (optional)
                        or demo_sh (a script instead of a Go test).
A bug is kept only if it compiles, passes the stable tests, changes original lines, and its demonstration fails with
it and passes without it.
"""
import json, os, subprocess, sys, shutil, tempfile

REPO, OUT = "/repo", "/verif/seeded"
DEMO = """#!/bin/bash
# Run with cwd at the root of the repository: exit 0 if the property holds, nonzero if it is broken.
d="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh 2>/dev/null
t=$(mktemp -d) || exit 3
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$d" >"$t/o.json"
go test -count=1 -vet=off %(race)s-timeout 200s -overlay "$t/o.json" -run '^TestZZDemo$' ./%(pkg)s
rc=$?
rm -f "$t/o.json"; rmdir "$t"
exit $rc
"""

def sh(cmd, cwd, timeout=600):
    return subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + cmd], cwd=cwd, capture_output=True, text=True, timeout=timeout)

def root_commit():
    return subprocess.run(["git", "-C", REPO, "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]

def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    ok = True
    w = tempfile.mkdtemp(prefix="plant-")
    base = root_commit()
    try:
        subprocess.run(["cp", "-a", REPO, w + "/r"], check=True)
        r = w + "/r"
        for b in ns["BUGS"]:
            if want and b["id"] not in want: continue
            sh("git checkout -q -- .", r)
            err = None
            for f, old, new in b["edits"]:
                s = open(f"{r}/{f}").read()
                n = s.count(old)
                if n != 1: err = f"{f}: {n} matches of {old!r}"; break
                open(f"{r}/{f}", "w").write(s.replace(old, new))
            if err: print("BAD", b["id"], err); ok = False; continue
            sh("gofmt -w " + " ".join({f for f, _, _ in b["edits"]}), r)
            patch = sh("git diff", r).stdout
            # original lines: removed lines must come from the first commit
            orig = True; bl = {}; changed = 0
            for f in {f for f, _, _ in b["edits"]}:
                blame = sh(f"git blame -s -l HEAD -- {f}", r).stdout.split("\n")
                d = sh(f"git diff -U0 -- {f}", r).stdout
                for l in d.split("\n"):
                    if l.startswith("@@"):
                        a = l.split()[1][1:]; st, _, n = a.partition(","); n = int(n) if n else 1
                        for i in range(int(st), int(st) + n):
                            changed += 1
                            if not blame[i-1].lstrip("^").startswith(base[:30]): orig = False; bl[f] = i
            if not orig or not changed: print("BAD", b["id"], "lines not original", bl, changed); ok = False; continue
            t = sh("go vet ./... && bash -c 'go build ./... && go test -count=1 -timeout 60s ./...'", r)
            if t.returncode: print("BAD", b["id"], "build/tests:", (t.stdout + t.stderr)[-1500:]); ok = False; continue
            d = f"{OUT}/{b['id']}"
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(patch)
            open(d + "/demo.sh", "w").write(b.get("demo_sh") or DEMO % {"pkg": b["pkg"], "race": "-race " if b.get("race") else ""})
            os.chmod(d + "/demo.sh", 0o755)
            if "demo" in b:
                open(d + "/demo_test.go", "w").write(b["demo"].lstrip())
                sh(f"gofmt -w {d}/demo_test.go", r)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            x = sh(f"{d}/demo.sh", r)
            sh("git checkout -q -- .", r)
            y = sh(f"{d}/demo.sh", r)
            good = x.returncode != 0 and y.returncode == 0 and "[build failed]" not in x.stdout and "[setup failed]" not in x.stdout
            print("OK " if good else "BAD", b["id"], "patched", x.returncode, "clean", y.returncode)
            if not good:
                ok = False
                print((x.stdout + x.stderr)[-1200:], (y.stdout + y.stderr)[-1200:])
                shutil.rmtree(d)
    finally:
        shutil.rmtree(w)
    return 0 if ok else 1

sys.exit(main())
