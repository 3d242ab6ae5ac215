#!/usr/bin/env python3
"""Scratch copies in which planted bugs are made and tried.

lab.py make SPEC.py       makes seeded/<id> from a spec (see below) and confirms it
lab.py try DIFF PROP...   runs checks against a copy of /repo with the diff applied
lab.py all [ID...]        runs, for each seeded bug, the check of its property

A spec sets: id, property, needs, breaks, edits=[(file, old, new[, count])], demo (Go test source, package
tokenizer_test unless pkg is set; test name TestDemo), pkg="." optional.
"""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", CGO_ENABLED="1", GOSUMDB="off",
           GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
           PATH="/opt/veriftools/go1.24.13/bin:" + os.environ["PATH"])


def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=k.pop("env", ENV), capture_output=True, text=True, errors="replace", shell=isinstance(cmd, str), **k)


class Lab:
    def __init__(self):
        self.d = tempfile.mkdtemp(prefix="lab.", dir="/tmp")
        self.repo = self.d + "/repo"
        subprocess.run(["cp", "-a", "/repo", self.repo], check=True)

    def verif(self):
        v = self.d + "/verif"
        os.makedirs(v)
        for x in ("harness", "check.sh", "go.mod", "go.sum", "known_findings.txt"):
            subprocess.run(["cp", "-a", f"{V}/{x}", v], check=True)
        s = open(v + "/go.mod").read().replace("=> /repo", "=> " + self.repo)
        open(v + "/go.mod", "w").write(s)
        return v

    def close(self):
        assert self.d.startswith("/tmp/lab.")
        shutil.rmtree(self.d)


def tests(repo):
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    w = tempfile.mkdtemp(prefix="lab.t", dir="/tmp")
    try:
        run(["python3", "/opt/vp/run_tests.py", w], repo)
        run(["python3", "/opt/vp/results.py", w + "/out.json", "gojson:" + w + "/log.json"], repo)
        r = json.load(open(w + "/out.json"))
        return sorted(base - set(r["passed"]))
    finally:
        shutil.rmtree(w)


DEMO = '''#!/bin/bash
# exit 0: the property holds here; nonzero: it does not. Run in the repository's root.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.24.13/bin:$PATH HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/%szz_demo_test.go":"%s/zz_demo_test.go.txt"}}' "$PWD" "PKGDIR" "$here" > "$tmp/o.json"
TMPDIR=$tmp go test @FLAGS@-vet=off -count=1 -timeout 120s -overlay "$tmp/o.json" -run '^TestDemo$' ./PKGDIR
'''


def made(spec):
    g = dict(pkg=".")
    exec(open(spec).read(), g)
    lab = Lab()
    try:
        for e in g["edits"]:
            p = lab.repo + "/" + e[0]
            s = open(p).read()
            n = s.count(e[1])
            want = e[3] if len(e) > 3 else 1
            if n != want:
                return f"{g['id']}: {e[0]}: {n} matches of {e[1][:60]!r}"
            open(p, "w").write(s.replace(e[1], e[2]))
        diff = run("git diff", lab.repo).stdout
        # which of the lines it removes are the original repository's?
        own, theirs = 0, 0
        for f in {e[0] for e in g["edits"]}:
            bl = run(f"git blame -s HEAD -- {f}", lab.repo).stdout.split("\n")
            for h in run(f"git diff -U0 -- {f}", lab.repo).stdout.split("\n"):
                if h.startswith("@@"):
                    a = h.split()[1][1:].split(",")
                    st, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                    for k in range(st, st + n):
                        if bl[k - 1].startswith("^ee9eace") or not _ours(lab.repo, bl[k - 1].split()[0]):
                            theirs += 1
                        else:
                            own += 1
        if theirs == 0:
            return f"{g['id']}: changes no original line"
        b = run("go build ./...", lab.repo)
        if b.returncode:
            return f"{g['id']}: build: {b.stderr[:500]}"
        t = tests(lab.repo)
        if t:
            return f"{g['id']}: tests fail: {t}"
        out = f"{V}/seeded/{g['id']}"
        os.makedirs(out, exist_ok=True)
        pkgdir = "" if g["pkg"] == "." else g["pkg"].strip("./") + "/"
        open(out + "/zz_demo_test.go.txt", "w").write(g["demo"].lstrip())
        open(out + "/demo.sh", "w").write(DEMO.replace("PKGDIR", pkgdir).replace("@FLAGS@", g.get("flags", "") + ("-race " if g.get("race") else "")))
        open(out + "/patch.diff", "w").write(diff)
        json.dump(dict(property=g["property"], needs=g["needs"], what_it_breaks=g["breaks"]), open(out + "/meta.json", "w"), indent=1)
        bad = run(["bash", out + "/demo.sh"], lab.repo)
        run("git checkout -q -- .", lab.repo)
        good = run(["bash", out + "/demo.sh"], lab.repo)
        if good.returncode or not bad.returncode or "FAIL" not in bad.stdout or "build failed" in bad.stdout:
            shutil.rmtree(out)
            return f"{g['id']}: demo: clean {good.returncode} patched {bad.returncode}\n{good.stdout[-1500:]}{good.stderr[-800:]}\n--\n{bad.stdout[-1500:]}{bad.stderr[-500:]}"
        return f"{g['id']}: ok (original lines {theirs}, own {own})"
    finally:
        lab.close()


def _ours(repo, h):
    h = h.lstrip("^")
    return run(f"git merge-base --is-ancestor {h} ee9eace", repo).returncode != 0


def tried(diff, props):
    lab = Lab()
    try:
        if diff != "-":
            a = run(["git", "apply", os.path.abspath(diff)], lab.repo)
            if a.returncode:
                return "does not apply: " + a.stderr
        v = lab.verif()
        res = []
        for p in props:
            r = run(["bash", "check.sh", p], v, env=dict(ENV, VERIF_SEED="1", VERIF_TIER=os.environ.get("VERIF_TIER", "quick")))
            first = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
            key = [l.strip()[:160] for l in r.stdout.split("\n") if l.startswith("  key=")][:1]
            res.append(f"{p}: exit {r.returncode} {'CAUGHT' if r.returncode == 1 and first else 'missed'} {key} {r.stderr[-300:] if r.returncode > 1 else ''}")
        return "\n".join(res)
    finally:
        lab.close()


if __name__ == "__main__":
    if sys.argv[1] == "make":
        for s in sys.argv[2:]:
            print(made(s), flush=True)
    elif sys.argv[1] == "try":
        print(tried(sys.argv[2], sys.argv[3:]))
    else:
        for i in sys.argv[2:] or sorted(os.listdir(V + "/seeded")):
            m = json.load(open(f"{V}/seeded/{i}/meta.json"))
            print(i, tried(f"{V}/seeded/{i}/patch.diff", [m["property"]]), flush=True)
