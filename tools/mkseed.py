#!/usr/bin/env python3
"""Makes and confirms planted bugs: mkseed.py SPEC.py

SPEC.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], test=Go source, place=package directory,
stubs=bool, needs, breaks)].  Everything happens in a scratch copy of /repo.
"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off")
DEMO = r'''#!/bin/bash
# exit 0: the property held; nonzero: it did not
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
cp "$R/go.mod" "$T/go.mod" && cp "$R/go.sum" "$T/go.sum" || exit 3
@STUBS@
{ echo '{"Replace":{'; sep=''
for f in "$D"/*_test.go; do echo "$sep\"$R/@PLACE@/zz_$(basename "$f")\":\"$f\""; sep=','; done
echo '}}'; } > "$T/overlay.json"
go test -c -vet=off -modfile="$T/go.mod" -overlay "$T/overlay.json" -o "$T/demo.test" "./@PLACE@" || exit 3
cd "$T" && "$T/demo.test" -test.run 'TestDemo' -test.timeout 120s
'''
STUBS = '''printf '\\nreplace github.com/indigo-web/utils => %s\\nreplace github.com/indigo-web/chunkedbody => %s\\n' "$D/stubs/utils" "$D/stubs/chunkedbody" >> "$T/go.mod"'''

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def make(s, scratch):
    d = os.path.join(HERE, "seeded", s["id"])
    repo = scratch + "/repo"
    sh(["git", "checkout", "-q", "--", "."], repo)
    sh(["git", "clean", "-fdq"], repo)
    for f, old, new in s["edits"]:
        p = os.path.join(repo, f)
        t = open(p).read()
        if t.count(old) != 1:
            return "edit of %s matches %d times" % (f, t.count(old))
        open(p, "w").write(t.replace(old, new))
    sh("gofmt -l $(git diff --name-only) >&2", repo, shell=True)
    r = sh("git diff", repo, shell=True)
    patch = r.stdout
    # deleted lines have to be original
    base = sh("git rev-list --max-parents=0 HEAD", repo, shell=True).stdout.strip()
    orig = False
    for f in sh("git diff --name-only", repo, shell=True).stdout.split():
        for h in sh(["git", "diff", "-U0", "--", f], repo).stdout.splitlines():
            if h.startswith("@@"):
                a = h.split()[1][1:]
                st, n = (a.split(",") + ["1"])[:2] if "," in a else (a, "1")
                if int(n) == 0:
                    continue
                b = sh(["git", "blame", "-s", "-l", "-L", "%s,+%s" % (st, n), "HEAD", "--", f], repo).stdout
                for l in b.splitlines():
                    if l.lstrip("^").startswith(base[:30]):
                        orig = True
                    else:
                        print("   note: changes a line of ours:", l[60:])
    if not orig:
        return "no original line is changed"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/patch.diff", "w").write(patch)
    open(d + "/demo_test.go", "w").write(s["test"])
    if s.get("lib"):
        shutil.copy(os.path.join(HERE, "tools/demolib_test.go"), d + "/demolib_test.go")
    stubs = s.get("stubs", True)
    if stubs:
        shutil.copytree(HERE + "/stubs", d + "/stubs")
    place = s.get("place", "internal/verifdemo")
    open(d + "/demo.sh", "w").write(DEMO.replace("@STUBS@", STUBS if stubs else "").replace("@PLACE@", place))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    # with the change: builds, tests pass, demo fails
    r = sh(["go", "build", "-modfile=" + scratch + "/go.mod", "./..."], repo)
    if r.returncode:
        return "does not build:\n" + r.stdout
    r = sh(["go", "test", "-timeout", "40s", "-vet=off", "-modfile=" + scratch + "/go.mod", "./..."], repo)
    if r.returncode:
        print("   NOTE: full tests:", "\n".join(l for l in r.stdout.splitlines() if "FAIL" in l)[:600])
    leaf = "http/coding http/encryption http/method http/mime http/status internal/address internal/hexconv internal/stash internal/strlenmap internal/tcp internal/tcp/dummy internal/types internal/uridecode router/inbuilt/uri router/virtual/internal/domain".split()
    r = sh(["go", "test", "-timeout", "40s", "-vet=off", "-modfile=" + scratch + "/go.mod"] + ["./" + l for l in leaf], repo)
    if r.returncode:
        return "baseline tests fail:\n" + r.stdout[-1500:]
    bad = sh([d + "/demo.sh"], repo)
    sh(["git", "checkout", "-q", "--", "."], repo)
    good = sh([d + "/demo.sh"], repo)
    if bad.returncode == 0:
        return "the demo passes with the change"
    if good.returncode != 0:
        return "the demo fails without the change:\n" + good.stdout[-1500:]
    if bad.returncode == 3:
        return "the demo does not build with the change:\n" + bad.stdout[-1500:]
    print("   demo:", [l for l in bad.stdout.splitlines() if l.strip()][1][:200] if len(bad.stdout.splitlines()) > 1 else bad.stdout)
    return None

def main():
    ns = {}
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"), ns)
    scratch = "/tmp/mkseed"
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    subprocess.check_call(["git", "clone", "-q", "/repo", scratch + "/repo"])
    m = open("/repo/go.mod").read() + "\nreplace github.com/indigo-web/utils => %s/stubs/utils\nreplace github.com/indigo-web/chunkedbody => %s/stubs/chunkedbody\n" % (HERE, HERE)
    open(scratch + "/go.mod", "w").write(m)
    shutil.copy("/repo/go.sum", scratch + "/go.sum")
    only = sys.argv[2:]
    for s in ns["SEEDS"]:
        if only and s["id"] not in only:
            continue
        e = make(s, scratch)
        print(s["id"], "BAD: " + e if e else "ok", flush=True)
        if e:
            shutil.rmtree(os.path.join(HERE, "seeded", s["id"]), ignore_errors=True)
    shutil.rmtree(scratch, ignore_errors=True)
main()
