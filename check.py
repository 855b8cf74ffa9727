#!/usr/bin/env python3
"""Runs the check of one property: builds the harness from /repo's working tree, explores, writes evidence.

  check.py C01 [--tier quick|thorough] [--seed N] [--replay FILE]
"""
import sys, os, json, subprocess, time, argparse
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "lib"))
import build
from props import PROPS, BINS

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--dev", action="store_true")
    a = ap.parse_args()
    parts = PROPS[a.prop]
    t0 = time.time()
    tmp = os.path.join(V, "build", "check-" + a.prop)
    os.makedirs(tmp, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    exes = {}
    bad = 0
    ev = []
    replay_part = None
    if a.replay:
        for l in open(a.replay, errors="replace"):
            if l.startswith("part:"):
                replay_part = l.split()[1]
    for k, part in enumerate(parts):
        pname = part.get("name", part["prop"])
        if replay_part and replay_part != pname:
            continue
        b = part["bin"]
        mode = part.get("mode", "rel")
        key = (b, mode)
        if key not in exes:
            spec = dict(BINS[b])
            pre = spec.pop("pre", None)
            out = os.path.join(tmp, b + "-" + mode)
            try:
                bl = build.Builder(out, mode)
                if pre:
                    pre(bl, spec)
                exes[key] = bl.build(os.path.join(out, "exe"), **spec)
            except build.BuildError as e:
                print("build failed: %s" % e)
                sys.exit(3)
            print("built %s (%s) in %.1fs" % (b, mode, time.time() - t0), flush=True)
        n = part["thorough" if a.tier == "thorough" else "quick"]
        wall = part.get("wall", 240 if a.tier == "quick" else 3600)
        e = os.path.join(tmp, "evidence-%d.json" % k)
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=%d:abort_on_error=0:exitcode=55:allocator_may_return_null=1:malloc_context_size=6:quarantine_size_mb=16:detect_stack_use_after_return=0:handle_abort=0" % (1 if part.get("leaks") else 0)
        env["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1:exitcode=56"
        cmd = [exes[key], "--prop", part["prop"], "--as", a.prop, "--tier", a.tier, "--seed", str(a.seed), "--part", pname,
               "--cases", str(int(n * a.scale)), "--jobs", str(a.jobs), "--wall", str(wall), "--evidence", e, "--replaydir", os.path.join(V, "replays")]
        if part.get("memonly"):
            cmd += ["--memonly", "1"]
        if a.dev:
            cmd += ["--dev", "1"]
        if a.replay:
            cmd += ["--replay", a.replay]
        r = subprocess.run(cmd, env=env)
        if r.returncode == 1:
            bad += 1
        elif r.returncode:
            print("harness ended with %d" % r.returncode)
            sys.exit(4)
        if not a.replay:
            ev.append((pname, json.load(open(e))))
        if bad and not a.dev:
            break
    if not a.replay:
        cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "parts": {}}
        assume = []
        rules = []
        kf = []
        for name, d in ev:
            c = d["coverage"]
            cov["evaluations"] += c["evaluations"]
            cov["distinct_nontrivial"] += c["distinct_nontrivial"]
            r = c["rule"]
            if r not in rules:
                rules.append(r)
            cov["samples"] += ["[%s] %s" % (name, s) for s in c["samples"][:2 if len(parts) < 4 else 1]]
            kf += c.get("known_findings", [])
            cov["parts"][name] = {"evaluations": c["evaluations"], "distinct_nontrivial": c["distinct_nontrivial"], "labels": c["labels"]}
            for s in d["assumptions"]:
                if s not in assume:
                    assume.append(s)
        cov["rule"] = " || ".join(rules)
        cov["known_findings"] = kf
        out = {"property": a.prop, "tier": a.tier, "seed": a.seed, "level": "exploration", "coverage": cov, "assumptions": assume,
               "wall_s": round(time.time() - t0, 2), "violations": sum(d["violations"] for _, d in ev)}
        with open(os.path.join(V, "evidence", a.prop + ".json"), "w") as f:
            json.dump(out, f, indent=1)
            f.write("\n")
    sys.exit(1 if bad else 0)

main()
