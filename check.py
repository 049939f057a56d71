#!/usr/bin/env python3
"""check.py <property> quick|thorough     run one check
   check.py <property> replay <file>      re-execute one recorded case
"""
import glob
import json
import os
import shutil
import struct
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "mc"))
import build as B  # noqa: E402
from registry import CHECKS  # noqa: E402


def load_known(pid):
    known, p = {}, os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.rstrip("\n")
            if line.startswith("known: property=%s " % pid):
                rest = line.split(" key=", 1)[1]
                key, end = json.JSONDecoder().raw_decode(rest)
                known[key] = rest[end:].strip()
    return known


def unjson(s):
    """keys are byte strings written with one code point per byte"""
    return s.encode("latin-1", errors="replace")


def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "abort_on_error=0:exitcode=99:detect_leaks=1:allocator_may_return_null=1:" \
                        "detect_stack_use_after_return=0:handle_abort=1:print_legend=0:malloc_context_size=10:max_allocation_size_mb=4096"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    e["LC_ALL"] = "C.UTF-8"
    return e


def stack(part):
    """Sanitizers need much larger stack frames than regular builds."""
    import resource
    size = (512 << 20) if part.get("config", "fast") in ("san", "rel") else (8 << 20)

    def f():
        hard = resource.getrlimit(resource.RLIMIT_STACK)[1]
        resource.setrlimit(resource.RLIMIT_STACK, (size if hard == resource.RLIM_INFINITY else min(size, hard), hard))
    return f


def replay(pid, part, key_bytes, rundir, timeout):
    kf = os.path.join(rundir, "replay.key")
    with open(kf, "wb") as f:
        f.write(key_bytes)
    exe = part["exe"]
    cmd = [exe, "--replay", kf] + (["--thorough"] if part.get("thorough") else []) + part.get("args", [])
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env(), preexec_fn=stack(part))
    except subprocess.TimeoutExpired:
        return True, "no termination within %d s" % timeout
    out = r.stdout.decode(errors="replace")
    if r.returncode == 0:
        return False, out
    if r.returncode == 3:
        return None, out
    return True, out[-8000:]


def main():
    pid, tier = sys.argv[1], sys.argv[2]
    check = CHECKS[pid]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    thorough = tier == "thorough"
    parts = []
    for p in check["parts"]:
        p = dict(p)
        if p.get("only") and p["only"] != tier and tier != "replay":
            continue
        try:
            p["exe"] = B.build(p["src"], p.get("config", "fast"))
        except B.BuildError as e:
            print("check %s cannot be built:\n%s" % (pid, e))
            return 2
        p["thorough"] = thorough and not p.get("quick_only")
        parts.append(p)
    t_build = time.time() - t0
    rundir = os.path.join(VERIF, ".run", "%s-%d" % (pid, os.getpid()))
    os.makedirs(rundir, exist_ok=True)

    if tier == "replay":
        rep = json.load(open(sys.argv[3]))
        for p in parts:
            if p["src"] == rep["part"] and p.get("config", "fast") == rep["config"]:
                p["thorough"] = rep["thorough"]
                bad, out = replay(pid, p, unjson(rep["key"]), rundir, 600)
                print(out)
                shutil.rmtree(rundir)
                return 1 if bad else 0
        print("unknown part")
        return 2

    known = load_known(pid)
    kf = os.path.join(rundir, "known")
    with open(kf, "wb") as f:
        for k in known:
            b = unjson(k)
            f.write(b"%d\n" % len(b) + b + b"\n")
    total = dict(cases=0, states=0, transitions=0, traces=0, evaluations=0, nontrivial=0)
    outcomes = set()
    covs, samples, caps = {}, [], []
    violations, known_seen, unconfirmed = [], {}, []
    exhaustive = True
    deadline = t0 + (780 if not thorough else 6 * 3600)
    part_report = []
    for p in parts:
        d = os.path.join(rundir, "%s-%s" % (p["src"], p.get("config", "fast")))
        os.makedirs(d, exist_ok=True)
        budget = max(30, min(p.get("budget", 420) if not thorough else p.get("thorough_budget", 7200), deadline - time.time() - 60))
        cmd = [p["exe"], "--dir", d, "--known", kf, "--seed", str(seed), "--workers", str(os.cpu_count() or 8),
               "--budget", "%d" % budget, "--hang", str(p.get("hang", 60)), "--chunk", str(p.get("chunk", 16))]
        if p["thorough"]:
            cmd.append("--thorough")
        cmd += p.get("args", [])
        subprocess.run(cmd, env=env(), preexec_fn=stack(p))
        try:
            s = json.load(open(os.path.join(d, "summary.json")))
        except (OSError, ValueError):
            print("check %s: the explorer ended without a summary" % pid)
            return 2
        for k in total:
            total[k] += s[k]
        fails = []
        for ff in sorted(glob.glob(os.path.join(d, "fail-*.jsonl"))):
            for line in open(ff, encoding="latin-1"):
                try:
                    fails.append(json.loads(line))
                except ValueError:
                    pass
        for rf in glob.glob(os.path.join(d, "report-*.json")):
            r = json.load(open(rf, encoding="latin-1"))
            for k, v in r["cov"].items():
                covs[k] = covs.get(k, 0) + v
            samples += r["samples"][:2] if len(samples) < 8 else []
            caps += [c for c in r["caps"] if c not in caps]
        for of in glob.glob(os.path.join(d, "outcomes-*.bin")):
            b = open(of, "rb").read()
            outcomes.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        if s["timed_out"]:
            caps.append("time budget of %d s reached in part %s" % (budget, p["src"]))
            exhaustive = False
        elif s["stopped"]:
            exhaustive = False
        part_report.append({"part": p["src"], "config": p.get("config", "fast"), "cases": s["cases"], "wall_s": s["wall"]})
        fails.sort(key=lambda f: (len(f["key"]), f["key"]))
        confirmed_here = 0
        for f in fails:
            if f["key"] in known:
                known_seen[f["key"]] = f
                continue
            if confirmed_here >= 5 or (unconfirmed and len(unconfirmed) > 15):
                continue
            if not f["key"]:
                print("check %s: %s" % (pid, f["detail"]))
                unconfirmed.append(f)
                continue
            bad, out = replay(pid, p, unjson(f["key"]), rundir, 3 * p.get("hang", 60))
            if not bad and f.get("batch"):
                # only together with the programs that ran before it in the same machine
                bkey = "BATCH " + f["batch"]
                bad, out = replay(pid, p, unjson(bkey), rundir, 3 * p.get("hang", 60))
                f = dict(f, key=bkey, note=f["key"] + "\n" + f["note"])
            if bad:
                confirmed_here += 1
                violations.append((p, f, out))
            else:
                unconfirmed.append(f)
                print("NOTE: a failure did not reproduce in isolation and is not reported: %s\n%s" %
                      (f["key"][:300], f["detail"][:1500]))
    if caps:
        exhaustive = False

    vdir = os.path.join(VERIF, ".run", "violations")
    rc = 0
    for i, (p, f, out) in enumerate(violations):
        os.makedirs(vdir, exist_ok=True)
        path = os.path.join(vdir, "%s-%d.json" % (pid, i))
        with open(path, "w") as fh:
            json.dump({"property": pid, "part": p["src"], "config": p.get("config", "fast"), "thorough": p["thorough"],
                       "key": f["key"], "detail": f["detail"], "note": f["note"], "replayed": out}, fh, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  case: %s" % f["key"][:2000])
        if f["note"]:
            print("  note: %s" % f["note"][:3000].replace("\n", "\n        "))
        print("  %s" % (f["detail"] or out)[:2500].replace("\n", "\n  "))
        rc = 1
    for k in known:
        if k in known_seen:
            print("KNOWN-FINDING: property=%s %s" % (pid, known[k] or k))

    level = check["level"]
    cov = {"samples": samples[:8] or ["(none)"], "exhaustive": exhaustive and rc == 0,
           "distinct_outcomes": len(outcomes), "cases": total["cases"], "parts": part_report,
           "counters": covs, "bounds": check["bounds_thorough" if thorough and "bounds_thorough" in check else "bounds"],
           "caps": caps}
    if level == "model_checking":
        cov.update(states=total["states"], transitions=total["transitions"],
                   traces_validated_against_impl=total["traces"])
    else:
        cov.update(evaluations=total["evaluations"] or total["cases"],
                   distinct_nontrivial=total["nontrivial"] or len(outcomes), rule=check["rule"])
    ev = {"property": pid, "tier": "thorough" if thorough else "quick", "seed": seed, "level": level,
          "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": len(violations),
          "assumptions": check.get("assumptions", []) + [
              "known findings observed: %d" % len(known_seen), "unconfirmed failures: %d" % len(unconfirmed)]}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s %s: %d cases, %d states, %d transitions, %d distinct outcomes, %d violations, build %.0f s, total %.0f s"
          % (pid, tier, total["cases"], total["states"], total["transitions"], len(outcomes), len(violations),
             t_build, time.time() - t0))
    if total["cases"] == 0 and rc == 0:
        print("nothing was explored")
        rc = 2
    shutil.rmtree(rundir, ignore_errors=True)
    return rc


sys.exit(main())
