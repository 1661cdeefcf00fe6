#!/usr/bin/env python3
"""mkbug.py SPEC.py: make a planted bug in a scratch copy of /repo, confirm it, keep it in /verif/seeded/ID.

SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], FILES={name: content} (the demo's files,
demo.sh among them). With no edits file the kept patch.diff is used: 'mkbug.py --confirm ID'.
"""
import json, os, subprocess, sys, shutil, tempfile
REPO = os.environ.get("SIM_REPO", "/repo")
SEED = os.environ.get("SEED_DIR", "/verif/seeded")
ENV = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], HOME="/root", GOTOOLCHAIN="local",
           GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOCACHE="/root/.cache/go-build", GOMODCACHE="/root/go/pkg/mod")

def sh(cmd, cwd, ok=True):
    r = subprocess.run(cmd, cwd=cwd, shell=True, env=ENV, capture_output=True, text=True, timeout=600)
    if ok and r.returncode:
        sys.exit(f"FAILED: {cmd}\n{r.stdout[-3000:]}\n{r.stderr[-3000:]}")
    return r

def original_lines(d, patch):
    """every removed/changed line must stem from the original repository (first commit)"""
    base = sh("git rev-list --max-parents=0 HEAD", REPO).stdout.strip()
    for l in patch.splitlines():
        pass
    files = [l[6:] for l in patch.splitlines() if l.startswith("--- a/")]
    removed = [l[1:] for l in patch.splitlines() if l.startswith("-") and not l.startswith("---")]
    text = "".join(sh(f"git show {base}:{f}", REPO, ok=False).stdout for f in files)
    orig = set(text.split("\n"))
    n = sum(1 for l in removed if l in orig)
    print(f"  removed lines: {len(removed)}, of the original repository: {n}")
    return n

def confirm(id):
    d = f"{SEED}/{id}"
    patch = open(f"{d}/patch.diff").read()
    original_lines(d, patch)
    tmp = tempfile.mkdtemp(prefix="mkbug.", dir="/tmp")
    try:
        sh(f"cp -a {REPO} {tmp}/repo", "/")
        demo = f"{tmp}/demo"
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        pk = "go list -e ./... | grep -vx 'github.com/mescanne/goledger/cmd/web'"
        # the demos run with cwd = the copy; what they print is shown
        r = sh(f"bash {demo}/demo.sh", f"{tmp}/repo", ok=False)
        print("  demo unchanged:", r.returncode)
        if r.returncode: print(r.stdout[-2000:], r.stderr[-2000:]); return False
        sh(f"git apply {d}/patch.diff", f"{tmp}/repo")
        r = sh(f"go build $({pk})", f"{tmp}/repo", ok=False)
        if r.returncode: print("  does not build", r.stderr[-2000:]); return False
        r = sh(f"go test -vet=off -count=1 $({pk})", f"{tmp}/repo", ok=False)
        print("  tests:", r.returncode)
        if r.returncode: print(r.stdout[-2000:]); return False
        r = sh(f"bash {demo}/demo.sh", f"{tmp}/repo", ok=False)
        print("  demo patched:", r.returncode, (r.stdout + r.stderr)[-600:])
        return r.returncode != 0
    finally:
        shutil.rmtree(tmp)

def main():
    if sys.argv[1] == "--confirm":
        for id in sys.argv[2:] or sorted(os.listdir(SEED)):
            print(id); print("  OK" if confirm(id) else "  NOT CONFIRMED")
        return
    for spec in sys.argv[1:]:
        g = {}
        exec(open(spec).read(), g)
        id = g["ID"]; d = f"{SEED}/{id}"
        print(id)
        tmp = tempfile.mkdtemp(prefix="mkbug.", dir="/tmp")
        try:
            sh(f"git worktree prune && git -C {REPO} archive HEAD | tar -x -C {tmp}", REPO)
            sh("git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm x", tmp)
            for f, old, new in g["EDITS"]:
                s = open(f"{tmp}/{f}").read()
                if s.count(old) != 1: sys.exit(f"{f}: {s.count(old)} matches of {old!r}")
                open(f"{tmp}/{f}", "w").write(s.replace(old, new))
            sh("gofmt -l . || true", tmp)
            patch = sh("git diff", tmp).stdout
        finally:
            shutil.rmtree(tmp)
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(f"{d}/patch.diff", "w").write(patch)
        for n, c in g["FILES"].items(): open(f"{d}/{n}", "w").write(c)
        json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)
        print("  OK" if confirm(id) else "  NOT CONFIRMED")
main()
