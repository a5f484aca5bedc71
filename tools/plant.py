"""Plants a bug: applies textual edits to a scratch copy of /repo, confirms that
the copy builds, passes the stable tests and that the demonstration tells the
two trees apart, and keeps the change under /verif/seeded/<id>/.

Used from Python: plant(id, prop, edits, pkg, demo, needs, breaks)
  edits: [(path below /repo, old, new)]
  pkg:   package directory below /repo the Go demonstration is compiled into
  demo:  Go test source (func TestDemo)
"""
import json, os, shutil, subprocess, sys, tempfile

DEMO_SH = '''#!/usr/bin/env bash
# Exit 0 when the behaviour holds, nonzero when it is broken.
here=$(cd "$(dirname "$0")" && pwd)
repo="$PWD"
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%%s/%s/zz_demo_test.go":"%%s/demo_test.go"}}' "$repo" "$here" > "$tmp/overlay.json"
export GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOFLAGS=-buildvcs=false
cd "$repo/%s" && timeout 280 go test -vet=off -count=1 -timeout 120s -overlay "$tmp/overlay.json" -run '^TestDemo' .
'''

def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def plant(id, prop, edits, pkg, demo, needs, breaks, demo_sh=None, files=None, keep=True):
    d = tempfile.mkdtemp(prefix="plant-")
    try:
        tree = d + "/repo"
        subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
        shutil.copytree("/repo", tree, symlinks=True, ignore=shutil.ignore_patterns("target"))
        for path, old, new in edits:
            s = open(f"{tree}/{path}").read()
            if s.count(old) != 1:
                print(f"{id}: {path}: {s.count(old)} occurrences of {old!r}"); return False
            open(f"{tree}/{path}", "w").write(s.replace(old, new))
        diff = run(["git", "diff", "-U0"], tree).stdout
        orig = 0
        for path in {p for p, _, _ in edits}:
            blame = run(["git", "blame", "-s", "HEAD", "--", path], tree).stdout.splitlines()
            cur = None
            for l in run(["git", "diff", "-U0", "--", path], tree).stdout.splitlines():
                if l.startswith("@@"):
                    a = l.split()[1][1:].split(",")
                    first, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                    orig += sum(blame[k - 1].startswith("^") for k in range(first, first + n))
        if not orig: print(f"{id}: changes no line of the original"); return False
        diff = run(["git", "diff"], tree).stdout
        out = d + "/seed"
        os.makedirs(out)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.sh", "w").write(demo_sh or (DEMO_SH % (pkg, pkg)))
        os.chmod(out + "/demo.sh", 0o755)
        if demo:
            open(out + "/demo_test.go", "w").write(demo)
        for name, text in (files or {}).items():
            open(f"{out}/{name}", "w").write(text)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(out + "/meta.json", "w"), indent=1)
        if any(p.startswith("go/") for p, _, _ in edits):
            b = run("gofmt -l $(git diff --name-only) && cd go && go build ./... ./types/uuid/...", tree, shell=True,
                    env={**os.environ, "GOPROXY": "off", "GOFLAGS": "-buildvcs=false"})
            if b.returncode: print(f"{id}: does not build\n{b.stdout[-1500:]}"); return False
            t = run("cd go && go test -vet=off ./internal/... ./msgpack/... ./rx/... ./handler/... ./invoke/... 2>&1 | grep -v 'no test files'", tree, shell=True, env={**os.environ, "GOPROXY": "off", "GOFLAGS": "-buildvcs=false"})
            if "FAIL" in t.stdout: print(f"{id}: existing tests fail\n{t.stdout[-1500:]}"); return False
        good = run(["bash", out + "/demo.sh"], "/repo")
        bad = run(["bash", out + "/demo.sh"], tree)
        if good.returncode != 0: print(f"{id}: demo fails on the unchanged tree\n{good.stdout[-2500:]}"); return False
        if bad.returncode == 0: print(f"{id}: demo passes on the changed tree"); return False
        if "build failed" in bad.stdout or "setup failed" in bad.stdout: print(f"{id}: demo does not compile\n{bad.stdout[-1500:]}"); return False
        if keep:
            dst = f"/verif/seeded/{id}"
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(out, dst)
        print(f"{id}: planted")
        return True
    finally:
        shutil.rmtree(d)
