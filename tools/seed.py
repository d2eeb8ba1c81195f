#!/usr/bin/env python3
"""seed.py FILE.json...: makes /verif/seeded/<id>/ from a description and confirms it in a scratch copy.

FILE.json: {id, property, needs, what, pkg: "" | "sdp" | "tcpnetwork", edits: [[file, old, new]...], demo: go test source}
Confirms: patch applies, stable tests pass, demo fails with the change and passes without; then runs the check.
"""
import json, os, shutil, subprocess, sys, tempfile

V = "/verif"
DEMO = '''#!/bin/bash
# Runs demo_test.go in the package through an overlay: fails when the property is broken.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cp go.mod go.sum "$t/"
echo "{\\"Replace\\": {\\"$PWD/%(pkg)szz_demo_test.go\\": \\"$here/demo_test.go\\"}}" > "$t/ov.json"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
timeout 200 go test -vet=off -count=1 -timeout 120s -modfile="$t/go.mod" -overlay="$t/ov.json" -run TestDemo ./%(pkg)s
'''


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def failing(r, e):
    res = set()
    for l in sh(["go", "test", "-json", "-vet=off", "-count=1", "./..."], cwd=r, env=e).stdout.splitlines():
        try:
            j = json.loads(l)
        except ValueError:
            continue
        if j.get("Action") == "fail":
            res.add((j["Package"], j.get("Test")))
    return res


def main(f, check=True):
    d = json.load(open(f)) if isinstance(f, str) else f
    w = tempfile.mkdtemp(prefix="seed-")
    try:
        r = os.path.join(w, "repo")
        sh(["cp", "-a", "/repo", r])
        for fn, old, new in d["edits"]:
            p = os.path.join(r, fn)
            s = open(p, newline="").read()
            crlf = "\r\n" in s
            if crlf:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if s.count(old) != 1:
                print(d["id"], "EDIT MATCHES", s.count(old), repr(old))
                return
            open(p, "w", newline="").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", r, "diff"], stdout=subprocess.PIPE).stdout
        o = os.path.join(V, "seeded", d["id"])
        os.makedirs(o, exist_ok=True)
        open(os.path.join(o, "patch.diff"), "wb").write(diff)
        pk = d.get("pkg", "")
        open(os.path.join(o, "demo.sh"), "w").write(DEMO % {"pkg": pk + "/" if pk else ""})
        os.chmod(os.path.join(o, "demo.sh"), 0o755)
        open(os.path.join(o, "demo_test.go"), "w").write(d["demo"])
        json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["what"]}, open(os.path.join(o, "meta.json"), "w"), indent=1)
        # lines of the original repository only
        for l in sh(["git", "-C", "/repo", "apply", "--check", os.path.join(o, "patch.diff")]).stdout.splitlines():
            print("apply:", l)
        ok = sh([os.path.join(o, "demo.sh")], cwd="/repo")
        bad = sh([os.path.join(o, "demo.sh")], cwd=r)
        e = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local")
        bl = sh(["go", "build", "./..."], cwd=r, env=e)
        if bl.returncode:
            print(bl.stdout)
        t = failing(r, e) - failing("/repo", e)
        print("%s: demo clean %d, demo patched %d, build %d, newly failing tests %s" % (d["id"], ok.returncode, bad.returncode, bl.returncode, sorted(t)))
        if ok.returncode != 0:
            print(ok.stdout[-1500:])
        if bad.returncode == 0 or "build failed" in bad.stdout:
            print(bad.stdout[-1500:])
        if check:
            e = dict(os.environ, VERIF_REPO=r)
            c = sh([os.path.join(V, "check"), d["property"]], cwd=V, env=e)
            print("  check: %d %s" % (c.returncode, "; ".join(c.stdout.strip().splitlines()[-3:])))
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    for f in sys.argv[1:]:
        main(f)
