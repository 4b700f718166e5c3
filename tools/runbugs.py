#!/usr/bin/env python3
"""Runs the checks against planted bugs in scratch copies (never in /repo). usage: runbugs.py [--all-checks] [--dir D] [ID...]"""
import glob, json, os, re, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
root = os.path.join(VERIF, "seeded")
args = sys.argv[1:]
allc = "--all-checks" in args
if "--dir" in args:
    i = args.index("--dir"); root = args[i + 1]; del args[i:i + 2]
ids = [a for a in args if not a.startswith("--")]
base = "/tmp/runbugs.%d" % os.getpid()
os.makedirs(base)
shutil.copytree(os.path.join(VERIF, "build"), base + "/build")
for d in sorted(glob.glob(root + "/*/meta.json")):
    d = os.path.dirname(d)
    b = os.path.basename(d)
    if ids and b not in ids:
        continue
    m = json.load(open(d + "/meta.json"))
    wt = base + "/repo"
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.run("mkdir -p %s && git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q . && git apply %s/patch.diff" % (wt, wt, wt, d), shell=True, check=True)
    props = ["C%02d" % i for i in range(1, 15)] if allc else [m["property"]]
    out = []
    for p in props:
        t = time.time()
        env = dict(os.environ, INNC_REPO=wt, SIM_BUILD=base + "/build", SIM_EVIDENCE=base + "/ev")
        r = subprocess.run(["python3", os.path.join(VERIF, "check.py"), p], capture_output=True, text=True, env=env)
        ok = r.returncode == 1 and "VIOLATION property=%s " % p in r.stdout
        if allc:
            out.append("%s:%s" % (p, "caught" if ok else "-" if r.returncode == 0 else "ERR"))
        else:
            first = [l for l in r.stdout.split("\n") if "(seed " in l]
            out.append("%s %s in %.0f s %s" % (p, "CAUGHT" if ok else "missed" if r.returncode == 0 else "ERROR " + r.stdout[-600:], time.time() - t, (first[0][:150] if first else "")))
        if r.returncode not in (0, 1):
            print(r.stdout[-800:], r.stderr[-800:])
    print(b, " ".join(out), flush=True)
shutil.rmtree(base)
