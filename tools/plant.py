#!/usr/bin/env python3
"""Confirm a planted bug in a scratch copy:  plant.py ID [--nocheck] [--seed N]
Applies seeded/ID/patch.diff to a scratch copy of /repo (WT, default /tmp/wt), builds, runs the stable
tests and the demonstration, then runs the property's check against the copy."""
import json, os, re, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = os.environ.get("WT", "/tmp/wt")


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def prepare():
    if not os.path.isdir(WT):
        sh(f"git clone -q /repo {WT}")
    sh(f"cd {WT} && git checkout -q -- . && git pull -q")
    for n in ("build.sh", "test.sh"):
        t = open("/opt/vp/" + n).read().replace("/opt/vp/build.sh", WT + ".build.sh").replace("/repo", WT)
        open(f"{WT}.{n}", "w").write(t)


def main():
    pid = sys.argv[1]
    d = os.path.join(HERE, "seeded", pid)
    meta = json.load(open(d + "/meta.json"))
    prepare()
    r = sh(f"bash {WT}.build.sh")
    if r.returncode: sys.exit("clean build failed\n" + r.stdout[-2000:])
    r = sh(f"bash {d}/demo.sh", cwd=WT, timeout=300)
    print("demo clean:", r.returncode, r.stdout[-300:] if r.returncode else "")
    r = sh(f"git apply {d}/patch.diff", cwd=WT)
    if r.returncode: sys.exit("patch does not apply\n" + r.stdout)
    try:
        r = sh(f"bash {WT}.test.sh {WT}.o.json")
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        passed = set(json.load(open(WT + ".o.json"))["passed"])
        lost = stable - passed
        print("tests lost:", sorted(lost), "" if passed else r.stdout[-1500:])
        r = sh(f"bash {d}/demo.sh", cwd=WT, timeout=300)
        print("demo bug:", r.returncode, r.stdout[-300:])
        if "--nocheck" not in sys.argv:
            e = dict(os.environ, VERIF_REPO=WT, VERIF_BUILD=WT + ".vb", VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
            r = sh(f"python3 {HERE}/run.py {meta['property']}", env=e)
            print("check:", r.returncode, "\n".join(r.stdout.splitlines()[-4:]))
            m = [l for l in r.stdout.splitlines() if "FAILURE in" in l]
            print("\n".join(m))
    finally:
        sh("git checkout -q -- .", cwd=WT)


main()
