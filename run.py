#!/usr/bin/env python3
"""Driver of all checks: build the harness of a property from /repo's working tree, enumerate its whole
bounded space on all cores, re-run every failing case alone before reporting it, write the evidence.

  run.py check ID [--tier quick|thorough]
  run.py replay FILE            re-execute the case of a replay file
  run.py setup                  compile nothing but verify that the toolchain is present
Exit: 0 property held on everything explored; 1 VIOLATION; 2 error of the machinery."""
import argparse, hashlib, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
NCPU = int(os.environ.get("VERIF_JOBS", "8"))

sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

COMMON = ["-std=c++17", "-w", "-I" + REPO + "/include", "-I/usr/include/eigen3", "-I" + HERE + "/harness"]
MODES = {
    # bounds-checked containers, pattern-initialised locals; asserts of GooseFEM come from common.h
    "checked": ["g++", "-O1", "-DXTENSOR_ENABLE_ASSERT", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"],
    "fast": ["g++", "-O2", "-ftrivial-auto-var-init=pattern"],
    "asan": ["g++", "-O1", "-g1", "-fsanitize=address,bounds,shift,integer-divide-by-zero,signed-integer-overflow,bool,return,unreachable",
             "-fno-sanitize-recover=all",
             "-D_GLIBCXX_ASSERTIONS"],
}


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            h.update(open(root, "rb").read())
            continue
        for d, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()[:20]


def build(spec, mode):
    src = os.path.join(HERE, "harness", spec["src"])
    cmd = MODES[mode] + COMMON + spec.get("flags", [])
    key = tree_hash([os.path.join(REPO, "include"), os.path.join(HERE, "harness")]) + "-" + hashlib.sha256(
        (" ".join(cmd) + src).encode()).hexdigest()[:12]
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, "%s-%s-%s" % (spec["src"].replace(".cpp", ""), mode, key))
    if os.path.exists(exe):
        return exe
    tmp = exe + ".tmp%d" % os.getpid()
    if spec.get("openmp"):
        return build_openmp(spec, cmd, exe, tmp)
    p = subprocess.run(cmd + [src, "-o", tmp] + spec.get("libs", []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace")
    if p.returncode != 0:
        print(p.stdout[-6000:])
        die("harness %s does not compile against the tree" % spec["src"])
    os.rename(tmp, exe)
    return exe


def build_openmp(spec, cmd, exe, tmp):
    """The library twice (serial, in a shared object; OpenMP with instrumented memory accesses) and the controlled runtime."""
    suite = os.path.join(HERE, "harness", spec["openmp"])
    src = os.path.join(HERE, "harness", spec["src"])
    serial = spec.get("serial", True)
    steps = [cmd + (["-fopenmp"] if serial else []) + ["-fsanitize=thread", "-c", suite, "-o", tmp + ".suite.o"],
             cmd + ["-c", src, "-o", tmp + ".main.o"]]
    if serial:
        steps.append(cmd + ["-fPIC", "-shared", "-fvisibility=hidden", "-Wl,-Bsymbolic", suite, "-o", tmp + ".so"])
    link = ["g++", tmp + ".suite.o", tmp + ".main.o", "-ldl", "-o", tmp] + [
        "-Wl,--wrap=" + f for f in ("memcpy", "memmove", "memset", "free")]
    with ThreadPoolExecutor(3) as pool:
        res = list(pool.map(lambda c: subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                                     errors="replace"), steps))
    if all(p.returncode == 0 for p in res):
        res = [subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")]
    for p in res:
        if p.returncode != 0:
            print(p.stdout[-6000:])
            die("harness %s does not build against the tree" % spec["src"])
    if serial:
        os.rename(tmp + ".so", exe + ".serial.so")
    os.rename(tmp, exe)
    for f in (tmp + ".suite.o", tmp + ".main.o"):
        os.remove(f)
    return exe


def env_for(mode):
    e = dict(os.environ)
    e["MALLOC_PERTURB_"] = "165"
    e["OMP_NUM_THREADS"] = "1"
    e["ASAN_OPTIONS"] = "exitcode=99:detect_leaks=0:max_malloc_fill_size=100000000:malloc_fill_byte=90:allocator_may_return_null=1"
    e["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=99:print_stacktrace=1"
    return e


def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def limit_mem():
    import resource
    limit()
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def execute(exe, mode, args, timeout):
    with tempfile.TemporaryDirectory(prefix="vh") as tmp:
        out, prog = os.path.join(tmp, "out.json"), os.path.join(tmp, "progress")
        err = open(os.path.join(tmp, "err"), "w+", errors="replace")
        cmd = [exe, "--out", out, "--progress", prog] + args
        t0 = time.time()
        try:
            p = subprocess.run(cmd, stdout=err, stderr=err, env=env_for(mode), timeout=timeout,
                               preexec_fn=limit if mode == "asan" else limit_mem)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
        err.seek(0)
        text = err.read()[-5000:]
        err.close()
        idx, res = None, None
        if os.path.exists(prog) and os.path.getsize(prog) >= 8:
            idx = int.from_bytes(open(prog, "rb").read(8), "little")
            if idx == 2**64 - 1:
                idx = None
        if rc in (0, 1) and os.path.exists(out):
            try:
                res = json.load(open(out))
            except ValueError:
                res = None
        return dict(rc=rc, text=text, index=idx, res=res, wall=time.time() - t0)


def run_all(spec, mode, tier_args, timeout):
    exe = build(spec, mode)
    n = spec.get("shards", NCPU)
    with ThreadPoolExecutor(NCPU) as pool:
        return exe, list(pool.map(
            lambda i: execute(exe, mode, tier_args + ["--shard", "%d/%d" % (i, n)], timeout), range(n)))


def known(prop):
    path = os.path.join(HERE, "known_findings.json")
    items = json.load(open(path))["known"] if os.path.exists(path) else []
    return [k for k in items if k["property"] == prop]


def check(prop, tier):
    t0 = time.time()
    spec = CHECKS[prop]
    plans = [("checked", spec.get("quick", []))] if tier == "quick" else [("fast", spec.get("thorough", ["--thorough"])), ("asan", [])]
    if tier == "quick" and os.environ.get("VERIF_QUICK_ARGS"):
        plans = [("checked", os.environ["VERIF_QUICK_ARGS"].split())]
    plans = spec.get("plans", {}).get(tier, plans)
    timeout = spec.get("timeout", 800 if tier == "quick" else 3600)
    agg = dict(evaluations=0, nontrivial=0, checks=0, transitions=0, cases_total=0, capped=False)
    outcomes, states, samples, counts, bounds, failures, passes = set(), set(), [], {}, [], [], []
    for mode, args in plans:
        exe, results = run_all(spec, mode, args, timeout)
        for i, r in enumerate(results):
            if r["res"] is not None:
                d = r["res"]
                if d["capped"]:
                    agg["capped"] = True
                for k in ("evaluations", "nontrivial", "checks", "transitions"):
                    agg[k] += d[k]
                outcomes.update(d["outcomes"])
                states.update(d["states"])
                if len(samples) < 6:
                    samples += d["samples"][:1]
                for k, v in d["counts"].items():
                    counts[k] = counts.get(k, 0) + v
                if d["bounds"] not in bounds:
                    bounds.append(d["bounds"])
                if i == 0:
                    agg["cases_total"] += d["cases_total"]
                failures += [dict(f, mode=mode, args=args) for f in d["failures"]]
            elif r["rc"] == "timeout":
                die("%s shard %d exceeded %d s" % (mode, i, timeout))
            elif r["index"] is not None:
                failures.append(dict(index=r["index"], desc="", tag="crash", mode=mode, args=args,
                                     msg="abnormal end (%s) %s" % (r["rc"], r["text"])))
            else:
                print(r["text"])
                die("%s shard %d ended with %s before its first case" % (mode, i, r["rc"]))
        passes.append("%s%s: %d processes" % (mode, " " + " ".join(args) if args else "", len(results)))
        if failures:
            break

    # replay each failing case alone, twice, before believing it
    findings, violations = {}, []
    for f in sorted(failures, key=lambda f: f["index"])[:8]:
        exe = build(spec, f["mode"])
        again = [execute(exe, f["mode"], f["args"] + ["--only", str(f["index"])], 300) for _ in range(2)]
        for r in again:
            if r["res"] is not None and r["res"]["failures"]:
                continue
            if r["res"] is None and r["rc"] != "timeout":
                continue
            if f["tag"] == "crash" and "HANG" in f["msg"] and r["rc"] == "timeout":
                continue
            die("failure of case %d does not replay: %s" % (f["index"], f["msg"][:500]))
        if again[0]["res"] is not None:
            f.update(again[0]["res"]["failures"][0])
        k = [k for k in known(prop) if k["tag"] == f["tag"] and k["tag"]]
        if k:
            findings[k[0]["id"]] = k[0]
        else:
            violations.append(f)
    # known findings that were demonstrated through counters (harness keeps exploring past them)
    for k in known(prop):
        if counts.get("known:" + k["tag"], 0) > 0:
            findings[k["id"]] = k
    unknown_tags = [t[6:] for t in counts if t.startswith("known:") and t[6:] not in [k["tag"] for k in known(prop)]]
    wall = time.time() - t0
    level = spec["level"]
    cov = dict(samples=samples[:6] or ["none"], bounds=bounds, passes=passes, oracle_comparisons=agg["checks"],
               cases_in_bounded_space=agg["cases_total"], exhaustive=not agg["capped"] and not violations,
               distinct_outcomes=len(outcomes), counts=counts)
    if level == "model_checking":
        cov.update(states=len(states), transitions=agg["transitions"], traces_validated_against_impl=agg["evaluations"],
                   rule=spec["rule"])
    else:
        cov.update(evaluations=agg["evaluations"], distinct_nontrivial=min(len(outcomes), agg["nontrivial"]),
                   rule=spec["rule"])
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=level, coverage=cov,
              wall_s=round(wall, 2), assumptions=spec.get("assumptions", []), violations=len(violations))
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")
    for k in findings.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print("%s %s: %d cases, %d comparisons, %d transitions, %d states, %d distinct outcomes, %.1f s" % (
        prop, tier, agg["evaluations"], agg["checks"], agg["transitions"], len(states), len(outcomes), wall))
    if unknown_tags:
        die("harness skipped findings that are not listed: %s" % unknown_tags)
    if violations:
        rdir = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        v = violations[0]
        path = os.path.join(rdir, "%s-%s-%d.json" % (prop, tier, v["index"]))
        with open(path, "w") as fh:
            json.dump(dict(property=prop, case=v["index"], mode=v["mode"], args=v["args"], input=v["desc"],
                           message=v["msg"], command="python3 run.py replay %s" % os.path.relpath(path, HERE)), fh, indent=1)
            fh.write("\n")
        print("input:   " + v["desc"][:2000])
        print("message: " + v["msg"][:3000])
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, HERE)), flush=True)
        return 1
    if agg["evaluations"] == 0 or (len(outcomes) < 2 and agg["evaluations"] > 1):
        die("vacuous exploration")
    return 0


def replay(path):
    d = json.load(open(path))
    spec = CHECKS[d["property"]]
    exe = build(spec, d["mode"])
    r = execute(exe, d["mode"], d["args"] + ["--only", str(d["case"]), "--verbose"], 300)
    print(r["text"])
    bad = r["res"] is None or bool(r["res"]["failures"])
    print("reproduced" if bad else "not reproduced")
    return 1 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("what", choices=["check", "replay", "setup"])
    ap.add_argument("arg", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    if a.what == "setup":
        for tool in ("g++",):
            if not shutil.which(tool):
                die("missing " + tool)
        print("nothing to prepare: every check builds its own harness from " + REPO)
        return 0
    if a.what == "replay":
        return replay(a.arg)
    if a.arg not in CHECKS:
        die("unknown property")
    return check(a.arg, a.tier)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException as e:  # an error of the machinery is never an alarm
        import traceback
        traceback.print_exc()
        print("ERROR: %r" % e)
        sys.exit(2)
