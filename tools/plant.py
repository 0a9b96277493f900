#!/usr/bin/env python3
"""Make and validate planted bugs (never run by a check).
  plant.py make FILE.py      FILE.py defines BUGS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo, flags)]
  plant.py catch ID...       run the check of the property against a patched scratch copy
  plant.py recheck           validate all kept bugs against the present tree (demo only)
Everything happens in scratch copies below /tmp."""
import json, os, shutil, subprocess, sys, tempfile, difflib
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()
DEMO = """#!/bin/bash
# cwd: root of the repository. Exit 0 if the property holds for the demonstrated input.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -w -O1 %s -I"$PWD/include" -I/usr/include/eigen3 "$d/demo.cpp" -o "$t/demo" || exit 3
timeout 120 "$t/demo"
"""
PRE = """#define GOOSEFEM_EIGEN
#include <GooseFEM/GooseFEM.h>
#include <GooseFEM/GooseFEM.h>
#include <iostream>
"""


def sh(cmd, cwd=None, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")


def copy():
    d = tempfile.mkdtemp(prefix="plant", dir="/tmp")
    wt = os.path.join(d, "repo")
    sh("cp -a /repo %s && rm -rf %s/_build" % (wt, wt))
    return d, wt


def tests_pass(d, wt):
    for f in ("build.sh", "test.sh"):
        s = open("/opt/vp/" + f).read().replace("/opt/vp/build.sh", d + "/build.sh").replace("/repo", wt)
        open(os.path.join(d, f), "w").write(s)
    p = sh("bash %s/test.sh %s/out.json" % (d, d), cwd=wt)
    if not os.path.exists(d + "/out.json"):
        return False, p.stdout[-3000:]
    r = json.load(open(d + "/out.json"))
    ok = BASE <= set(r["passed"])
    return ok, "" if ok else p.stdout[-3000:]


def make(path):
    g = {}
    exec(open(path).read(), g)
    for b in g["BUGS"]:
        d, wt = copy()
        try:
            out = os.path.join(SEED, b["id"])
            tmp = os.path.join(d, "seed")
            os.makedirs(tmp)
            open(tmp + "/demo.cpp", "w").write(PRE + b["demo"])
            open(tmp + "/demo.sh", "w").write(DEMO % b.get("flags", ""))
            os.chmod(tmp + "/demo.sh", 0o755)
            r0 = sh("bash %s/demo.sh" % tmp, cwd=wt)
            if r0.returncode != 0:
                print(b["id"], "REJECTED: demo fails on the clean tree", r0.returncode, r0.stdout[-1500:])
                continue
            bad = None
            for f, old, new in b["edits"]:
                p = os.path.join(wt, "include/GooseFEM", f)
                s = open(p).read()
                if s.count(old) != 1:
                    bad = "%s: %d occurrences of %r" % (f, s.count(old), old)
                    break
                open(p, "w").write(s.replace(old, new))
            if bad:
                print(b["id"], "REJECTED:", bad)
                continue
            diff = sh("git diff", cwd=wt).stdout
            open(tmp + "/patch.diff", "w").write(diff)
            ok, msg = tests_pass(d, wt)
            if not ok:
                print(b["id"], "REJECTED: tests fail", msg[-1500:])
                continue
            r1 = sh("bash %s/demo.sh" % tmp, cwd=wt)
            if r1.returncode in (0, 3):
                print(b["id"], "REJECTED: demo does not fail with the change", r1.stdout[-1500:])
                continue
            json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(tmp + "/meta.json", "w"), indent=1)
            if os.path.exists(out):
                shutil.rmtree(out)
            shutil.copytree(tmp, out)
            print(b["id"], "kept (demo rc %d: %s)" % (r1.returncode, r1.stdout[-200:].strip()))
            catch_one(b["id"], wt)
        finally:
            shutil.rmtree(d)


def catch_one(i, wt):
    prop = json.load(open(os.path.join(SEED, i, "meta.json")))["property"]
    r = sh("python3 run.py check %s --tier quick" % prop, cwd=HERE, env=dict(os.environ, VERIF_REPO=wt))
    p = os.path.join(HERE, "tools", "catches.json")
    c = json.load(open(p)) if os.path.exists(p) else {}
    c[i] = dict(property=prop, caught=r.returncode == 1 and "VIOLATION property=%s" % prop in r.stdout)
    json.dump(c, open(p, "w"), indent=1, sort_keys=True)
    print("   %s by %s: rc %d %s" % ("CAUGHT" if r.returncode == 1 and "VIOLATION property=%s" % prop in r.stdout else "MISSED", prop, r.returncode,
                                    " | ".join(r.stdout.strip().splitlines()[-3:])[:400]), flush=True)


def catch(ids):
    for i in ids:
        d, wt = copy()
        try:
            r = sh("git apply %s" % os.path.join(SEED, i, "patch.diff"), cwd=wt)
            if r.returncode:
                print(i, "does not apply", r.stdout)
                continue
            print(i)
            catch_one(i, wt)
        finally:
            shutil.rmtree(d)


def recheck(ids):
    for i in ids:
        d, wt = copy()
        try:
            r0 = sh("bash %s/demo.sh" % os.path.join(SEED, i), cwd=wt)
            a = sh("git apply %s" % os.path.join(SEED, i, "patch.diff"), cwd=wt)
            r1 = sh("bash %s/demo.sh" % os.path.join(SEED, i), cwd=wt)
            print(i, "ok" if r0.returncode == 0 and a.returncode == 0 and r1.returncode not in (0, 3) else "BAD %s %s %s" % (r0.returncode, a.returncode, r1.returncode), flush=True)
        finally:
            shutil.rmtree(d)


if __name__ == "__main__":
    what, ids = sys.argv[1], sys.argv[2:]
    if what == "make":
        for p in ids:
            make(p)
    elif what == "catch":
        catch(ids or sorted(os.listdir(SEED)))
    else:
        recheck(ids or sorted(os.listdir(SEED)))
