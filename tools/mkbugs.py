#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in bugdefs.py and confirms each in a scratch copy of /repo.
usage: mkbugs.py [--write-only] [ID...]"""
import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugdefs import BUGS, COMMON
SEEDED = "/verif/seeded"
WT = "/tmp/bugwt"

LIB = '''#!/bin/bash
# cwd: the repository, built. Exit 0 if the property's promise is kept.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 99
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++20 -O1 -w -include algorithm -I include -I "$here" "$here/demo.cpp" -o "$tmp/demo" -L _build -lINNC -Wl,-rpath,"$PWD/_build" -pthread || exit 98
%s timeout 120 "$tmp/demo"
'''
SRC = '''#!/bin/bash
# cwd: the repository, built. Exit 0 if the property's promise is kept.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 99
trap 'rm -rf "$tmp"' EXIT
pids=()
for f in $(find src -name '*.cpp') "$here/demo.cpp"; do
  g++ -std=c++20 -O1 -g -w -include algorithm %s -I include -I "$here" -c "$f" -o "$tmp/$(echo "$f" | md5sum | cut -c1-12).o" &
  pids+=($!)
done
for p in "${pids[@]}"; do wait "$p" || exit 98; done
g++ %s "$tmp"/*.o -o "$tmp/demo" -pthread || exit 98
%s timeout 200 "$tmp/demo"
'''


def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)


def write(b):
    d = os.path.join(SEEDED, b["id"])
    os.makedirs(d, exist_ok=True)
    shutil.rmtree(WT, ignore_errors=True)
    sh("git -C /repo worktree prune")
    r = sh("git -C /repo archive HEAD | (mkdir -p %s && tar x -C %s)" % (WT, WT))
    sh("git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", cwd=WT)
    for f, old, new in b["edits"]:
        p = os.path.join(WT, f)
        s = open(p).read()
        assert s.count(old) == 1, (b["id"], f, old, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = sh("git diff", cwd=WT).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.cpp"), "w").write(COMMON + b["demo"])
    fl = b.get("flags")
    env = b.get("env", "")
    open(os.path.join(d, "demo.sh"), "w").write(LIB % env if fl is None else SRC % (fl, fl, env))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    shutil.rmtree(WT)


def confirm(b):
    """build + tests + demo, in /repo itself (clean before and after)"""
    d = os.path.join(SEEDED, b["id"])
    assert not sh("git -C /repo status --porcelain").stdout
    assert sh("bash /opt/vp/build.sh").returncode == 0
    r0 = sh("bash %s/demo.sh" % d, cwd="/repo")
    try:
        r = sh("git -C /repo apply %s/patch.diff" % d)
        if r.returncode:
            return "does not apply: " + r.stderr
        r = sh("bash /opt/vp/build.sh")
        if r.returncode:
            return "does not build: " + r.stdout[-1500:]
        sh("bash /opt/vp/test.sh /tmp/bugtest.json")
        t = json.load(open("/tmp/bugtest.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        base = base.get("passed") or base.get("stable") or base
        bad = [x for x in base if x not in t["passed"]]
        r1 = sh("bash %s/demo.sh" % d, cwd="/repo")
    finally:
        sh("git -C /repo checkout -- .")
    return "tests %s; demo clean %d, patched %d %s%s" % ("ok" if not bad else "FAIL " + str(bad[:3]), r0.returncode, r1.returncode,
                                                         (r0.stdout + r0.stderr)[-300:] if r0.returncode else "", "| " + (r1.stdout + r1.stderr).strip()[-160:].replace("\n", " / "))


if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    for b in BUGS:
        if ids and b["id"] not in ids:
            continue
        write(b)
        if "--write-only" not in sys.argv:
            print(b["id"], confirm(b), flush=True)
    sh("bash /opt/vp/build.sh")
