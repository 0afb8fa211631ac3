#!/usr/bin/env python3
"""run.py <ID> [--tier quick|thorough] [--replay FILE]   -- decide one property on /repo's current working tree
   run.py --setup                                        -- compile everything the checks need (optional warm-up)"""
import sys, os, json, subprocess, time, re, shutil, tempfile, argparse
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import vbuild
from checks import CHECKS
V = vbuild.VERIF

def known_findings(pid):
    out = []
    try:
        for line in open(f"{V}/known_findings.txt"):
            m = re.match(r"finding: property=(\S+) match=/(.*)/ :: (.*)$", line.strip())
            if m and m.group(1) == pid: out.append((re.compile(m.group(2)), m.group(3)))
    except FileNotFoundError: pass
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--nshards", type=int, default=8)
    a = ap.parse_args()
    os.makedirs(vbuild.CACHE, exist_ok=True)
    if a.setup:
        seen = set()
        for pid, c in CHECKS.items():
            for part in c["parts"]:
                k = json.dumps([part["harness"], part.get("profile", "std")])
                if k in seen: continue
                seen.add(k); t = time.time()
                vbuild.build(**part_build(part)); print(f"built {part['harness']} [{part.get('profile','std')}] {time.time()-t:.1f}s", flush=True)
        return 0
    return check(a.id, a.tier, a.replay, a.nshards)

def part_build(p):
    return {k: p[k] for k in ("harness", "profile", "sources", "extra", "defs", "libs", "harness_flags", "max_row", "extra_harness") if k in p}

def run_part(pid, part, tier, nshards, tmp, replay=None):
    exe = vbuild.build(**part_build(part))
    env = dict(os.environ, OMP_NUM_THREADS="1", LC_ALL="C.UTF-8", VERIF_SCRATCH=tmp, VERIF_REPO=vbuild.REPO,
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1")
    env.update(part.get("env", {}))
    nsh = 1 if replay else part.get("nshards", nshards)
    procs = []
    for i in range(nsh):
        out, case, log = f"{tmp}/out{i}.json", f"{tmp}/case{i}", f"{tmp}/log{i}"
        wd = f"{tmp}/wd{i}"; os.makedirs(wd, exist_ok=True)
        cmd = [exe, "--tier", tier, "--shard", str(i), "--nshards", str(nsh), "--out", out, "--casefile", case] + part.get("args", [])
        if replay: cmd += ["--replay", replay]
        procs.append((subprocess.Popen(cmd, stdout=open(log, "wb"), stderr=subprocess.STDOUT, env=env, cwd=wd, stdin=subprocess.DEVNULL), out, case, log))
    res = []
    err = None
    deadline = time.time() + part.get("timeout", {"quick": 780, "thorough": 6*3600}.get(tier, 780))
    for p, out, case, log in procs:
        try: rc = p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill(); p.wait(); rc = "timeout"
        d = None
        if os.path.exists(out):
            try: d = json.load(open(out))
            except ValueError: d = None
        if rc not in (0, 1) or d is None:
            c = open(case, "rb").read().split(b"\0")[0].decode(errors="replace") if os.path.exists(case) else ""
            tail = open(log, "rb").read()[-3000:].decode(errors="replace")
            if rc == "timeout": err = f"exploration did not finish in time (last case: {c})"
            elif not c: err = f"harness failed before its first case (rc={rc}): {tail}"
            else:
                why = "did not terminate" if rc == 124 else f"crashed (exit status {rc})"
                d = d or {"evals": 0, "transitions": 0, "validated": 0, "samples": [], "extras": {}, "violations": []}
                d["violations"].append({"case": c, "msg": f"{why}: {tail[-1500:]}"})
        if d: res.append(d)
        if replay: sys.stdout.write(open(log, "rb").read().decode(errors="replace"))
    import numpy as np
    agg = {"evals": 0, "transitions": 0, "validated": 0, "samples": [], "extras": {}, "violations": []}
    for d in res:
        for k in ("evals", "transitions", "validated"): agg[k] += d[k]
        agg["samples"] += d["samples"][:2]; agg["violations"] += d["violations"]
        for k, v in d["extras"].items(): agg["extras"][k] = agg["extras"].get(k, 0) + v
    for kind in ("states", "outcomes"):
        arrs = [np.fromfile(f"{tmp}/out{i}.json.{kind}", dtype=np.uint64) for i in range(nsh) if os.path.exists(f"{tmp}/out{i}.json.{kind}")]
        agg[kind] = int(len(np.unique(np.concatenate(arrs)))) if arrs else 0
    agg["samples"] = agg["samples"][:6]
    return agg, err

def check(pid, tier, replay, nshards):
    t0 = time.time()
    c = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tot = None; violations = []; parts_cov = {}
    for n, part in enumerate(c["parts"]):
        name = part.get("name", part["harness"])
        if replay:
            head = open(replay).readline().strip()
            if head != f"# {pid} {name}": continue
        tmp = tempfile.mkdtemp(prefix=f"vx_{pid}_")
        try:
            rp = None
            if replay:
                rp = tmp + "/replay"
                open(rp, "w").write(open(replay).read().split("\n", 1)[1])
            agg, err = run_part(pid, part, tier, nshards, tmp, rp)
            if err and not agg["violations"]:
                print(f"check error: {pid}/{name}: {err}"); return 2
        except vbuild.BuildError as e:
            print(f"check error: build failed: {e}"); return 2
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        for v in agg["violations"]: violations.append((name, v["case"], v["msg"]))
        parts_cov[name] = {k: agg[k] for k in ("evals", "states", "transitions", "outcomes", "validated")} | agg["extras"]
        if tot is None: tot = agg
        else:
            for k in ("evals", "transitions", "validated", "states", "outcomes"): tot[k] += agg[k]
            tot["samples"] += agg["samples"][:3]
    if replay:
        print("replay:", "VIOLATED" if violations else "property held"); return 1 if violations else 0
    known = known_findings(pid); new = []; hit = set()
    for name, case, msg in violations:
        k = next((i for i, (rx, _) in enumerate(known) if rx.search(case)), None)
        if k is None: new.append((name, case, msg))
        else: hit.add(k)
    for i in sorted(hit): print(f"KNOWN-FINDING: property={pid} {known[i][1]}")
    if c["level"] == "model_checking":
        cov = {"states": tot["states"], "transitions": tot["transitions"], "traces_validated_against_impl": tot["validated"], "samples": tot["samples"] or ["none"],
               "executions": tot["evals"], "distinct_outcomes": tot["outcomes"]}
    else:
        cov = {"evaluations": tot["evals"], "distinct_nontrivial": tot["outcomes"], "rule": c["rule"], "samples": tot["samples"] or ["none"]}
    cov["exhaustive"] = True
    if c.get("bounds"): cov["bounds"] = c["bounds"]
    cov["parts"] = parts_cov
    ev = {"property": pid, "tier": tier, "seed": seed, "level": c["level"], "coverage": cov, "assumptions": c.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(f"{V}/evidence", exist_ok=True)
    vbuild.write_atomic(f"{V}/evidence/{pid}.json", json.dumps(ev, indent=1).encode())
    if new:
        os.makedirs(f"{V}/replay", exist_ok=True)
        for i, (name, case, msg) in enumerate(new[:5]):
            path = f"{V}/replay/{pid}-{i}.txt"
            open(path, "w").write(f"# {pid} {name}\n{case}")
            print(f"VIOLATION property={pid} replay={path}")
            print(f"  [{name}] {case[:400]}\n  {msg[:1500]}")
        print(f"{pid}: {len(new)} violation(s); replay with: python3 /verif/run.py {pid} --replay <path>")
        return 1
    print(f"{pid} held: {json.dumps(parts_cov)} ({time.time()-t0:.1f}s)")
    return 0

if __name__ == "__main__":
    sys.exit(main())
