#!/usr/bin/env python3
"""Validate the planted changes in seeded/: apply to a scratch copy of /repo, build, stable tests, demo on both.
usage: seed.py [id...]   (all by default);   seed.py --checks [id...]  also runs the property's check on a copy"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
E = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off")
PK = [p.strip() for p in open("/opt/vp/packages.txt") if p.strip()]
args = sys.argv[1:]
checks = "--checks" in args
ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(S))


def sh(cmd, cwd, timeout=300, env=E):
    try:
        return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        class R: returncode, stdout = 124, "timeout"
        return R


bad = 0
for i in ids:
    d = os.path.join(S, i)
    w = tempfile.mkdtemp(prefix="seed-")
    r = os.path.join(w, "repo")
    demo = os.path.join(w, "demo")
    res = []
    try:
        subprocess.run(["git", "clone", "-q", "--shared", "/repo", r], check=True)
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        x = sh(["bash", demo + "/demo.sh"], r)
        res.append(("demo clean", x.returncode == 0, x.stdout))
        x = sh(["git", "apply", d + "/patch.diff"], r)
        res.append(("applies", x.returncode == 0, x.stdout))
        x = sh(["go", "build"] + PK, r)
        res.append(("build", x.returncode == 0, x.stdout))
        x = sh(["go", "test", "-vet=off", "-count=1"] + [p for p in PK if p != "./internal/hexconv"], r)
        res.append(("tests", x.returncode == 0, x.stdout))
        x = sh(["bash", demo + "/demo.sh"], r)
        res.append(("demo patched fails", x.returncode != 0, x.stdout))
        meta = json.load(open(d + "/meta.json"))
        if checks:
            x = sh([V + "/bin/check", meta["property"]], r, 900, dict(E, VERIF_REPO=r))
            res.append(("caught", x.returncode == 1 and "VIOLATION property=" + meta["property"] in x.stdout, x.stdout))
    finally:
        shutil.rmtree(w, ignore_errors=True)
    okk = all(v for _, v, _ in res)
    bad += not okk
    print(i, meta["property"], " ".join("%s=%s" % (n, "ok" if v else "FAIL") for n, v, _ in res))
    for n, v, o in res:
        if not v:
            print("   ", n, ":", o[-800:])
sys.exit(1 if bad else 0)
