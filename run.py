#!/usr/bin/env python3
"""Builds the model checker for one property from /repo's working tree, runs it and reports.

usage: run.py PROPERTY [--thorough] [--replay FILE] [-v] [extra mc options]
Exit 0: held on everything explored (known findings are printed, not counted). Exit 1: VIOLATION. Exit 2: machinery error.
"""
import json, os, subprocess, sys, time, hashlib, re
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
KNOWN = os.path.join(V, "known-findings.txt")
sys.path.insert(0, os.path.join(V, "tools"))
import checkinfo

def known(prop):
    r = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) sig=(\S+) (.*)", l)
            if m and m.group(1) == prop: r.append((m.group(2), m.group(3).strip()))
    return r

def build(prop, variant):
    B = os.path.join(V, "build", variant)
    os.makedirs(B, exist_ok=True)
    cmd = ["make", "-s", "-f", os.path.join(V, "mc", "Makefile"), "-j%d" % (os.cpu_count() or 4), "VARIANT=" + variant, "ONLY=" + prop, "REPO=" + REPO]
    p = subprocess.run(cmd, cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        print(p.stdout[-6000:]); print("build failed"); sys.exit(2)
    return os.path.join(B, "mc-" + prop)

def main():
    a = sys.argv[1:]
    prop = a[0]
    thorough = "--thorough" in a
    info = checkinfo.INFO[prop]
    extra = []
    replay = None
    i = 1
    while i < len(a):
        if a[i] == "--thorough": pass
        elif a[i] == "--replay": replay = a[i + 1]; i += 1
        else: extra.append(a[i])
        i += 1
    t0 = time.time()
    variants = info.get("variants", ["plain"])
    total = dict(executions=0, choice_points=0, forks=0, ops=0, states=0, stopped=0, pruned=0)
    counters, samples, viols, parts = {}, [], [], []
    for stage in info.get("stages", [{}]):
        variant = os.environ.get("MC_VARIANT") or stage.get("variant", "plain")
        if stage.get("thorough_only") and not thorough: continue
        binary = build(prop, variant)
        if replay:
            sys.exit(subprocess.call([binary, "--check", prop, "--replay", replay] + (["--thorough"] if thorough else []) + extra))
        out = os.path.join(V, "build", "out-%s-%s.json" % (prop, variant))
        if os.path.exists(out): os.remove(out)
        limit = stage.get("limit_thorough", 7200) if thorough else int(os.environ.get("MC_LIMIT") or stage.get("limit", 420))
        cmd = [binary, "--check", prop, "--out", out, "--limit", str(limit)] + (["--thorough"] if thorough else []) + extra
        for s, _ in known(prop): cmd += ["--known", s]
        for k, v in stage.get("set", {}).items(): cmd += ["--set", "%s=%d" % (k, v)]
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=1:handle_segv=1:use_sigaltstack=0")
        p = subprocess.run(cmd, cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if not os.path.exists(out):
            print(p.stdout.decode(errors="replace")[-3000:]); print("model checker gave no result, status %d" % p.returncode); sys.exit(2)
        r = json.load(open(out))
        for k in total: total[k] += r[k]
        for k, v in r["counters"].items(): counters[k] = counters.get(k, 0) + v
        samples += [s for s in r["samples"] if s]
        for v in r["violations"]: viols.append((variant, v))
        parts.append({"variant": variant, "executions": r["executions"], "wall_s": r["wall_s"], "complete": r["stopped"] == 0})
    kf = known(prop)
    reported, known_hit, errors = [], set(), []
    for variant, v in viols:
        if v["sig"] == "harness": errors.append(v); continue
        k = [d for s, d in kf if s == v["sig"]]
        if k: known_hit.add(v["sig"]); continue
        if v["confirmed"] == 0: errors.append(v); continue
        rd = os.path.join(V, "build", "replays"); os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%s.txt" % (prop, re.sub(r"[^A-Za-z0-9_.-]", "_", v["sig"])[:80]))
        with open(path, "w") as f:
            f.write("property: %s\nsignature: %s\nwhat: %s\nvariant: %s\nreplay with: %s/run.py %s %s--replay %s\ntrail: %s\n\nhistory:\n%s\n" % (
                prop, v["sig"], v["msg"], variant, V, prop, "--thorough " if thorough else "", path, v["trail"], v["history"]))
        reported.append((v, path))
    for s, d in kf:
        # a known finding is shown whenever it is listed; whether this run met it is in the evidence file
        print("KNOWN-FINDING: property=%s %s" % (prop, d))
    level = info["level"]
    rule = info["rule"]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cov = {"samples": [s[:2500] for s in samples[:4]] or ["(none)"]}
    if level == "model_checking":
        cov.update(states=max(total["states"], 1), transitions=total["ops"] + total["choice_points"],
                   traces_validated_against_impl=total["executions"])
    else:
        cov.update(evaluations=total["executions"], distinct_nontrivial=max(total["states"], 1), rule=rule)
    cov.update(executions=total["executions"], choice_points=total["choice_points"], oracle_steps=total["ops"], counters=counters, stages=parts,
               bound=info.get("bound_thorough" if thorough else "bound", info.get("bound", "")))
    ev = {"property": prop, "tier": "thorough" if thorough else "quick", "seed": seed, "level": level, "wall_s": round(time.time() - t0, 2),
          "coverage": cov, "violations": [{"what": v["msg"][:1500], "replay": p} for v, p in reported],
          "assumptions": info.get("assumptions", checkinfo.ASSUMPTIONS), "exhaustive": total["stopped"] == 0,
          "known_findings_met": sorted(known_hit)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %d executions, %d choice points, %d states, %d oracle steps, %.1f s%s" % (prop, total["executions"], total["choice_points"], total["states"], total["ops"], time.time() - t0, "" if total["stopped"] == 0 else " (capped: %d branches not explored)" % total["stopped"]))
    if counters: print("counters: " + ", ".join("%s=%d" % kv for kv in sorted(counters.items())))
    for v, path in reported:
        print("%s: %s" % (v["sig"], v["msg"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if reported: sys.exit(1)
    if errors:
        for v in errors: print("machinery error: %s %s\n%s" % (v["sig"], v["msg"], v["history"][-1500:]))
        sys.exit(2)
    if total["executions"] == 0: print("nothing was explored"); sys.exit(2)
    sys.exit(0)
main()
