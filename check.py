#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only REGEX]   decide one property on /repo's current tree
check.py --replay FILE                                        run one recorded counterexample on the real code"""
import argparse
import concurrent.futures as cf
import json
import os
import re
import shutil
import sys
import tempfile
import threading
import time

import lcv
import plans


def load_known():
    p = os.path.join(lcv.VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def replay_file(path):
    r = json.load(open(path))
    work = tempfile.mkdtemp(prefix="lcv")
    try:
        b = lcv.Build(work)
        exe = b.native(r["harness"])
        ok, text = lcv.confirms(r["violation"], exe, r["params"], b, r["harness"])
        print("reproduced" if ok else "not reproduced", text)
        return 1 if ok else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay_file(a.replay))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    limit = 780 if a.tier == "quick" else 840
    meta, jobs = plans.plan(a.prop, a.tier)
    if a.only:
        jobs = [j for j in jobs if re.search(a.only, j.name)]
    work = tempfile.mkdtemp(prefix="lcv")
    try:
        rc = run(a, meta, jobs, work, seed, t0, limit)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def run(a, meta, jobs, work, seed, t0, limit):
    prop = a.prop
    eng = lcv.engine()
    b = lcv.Build(work)
    harnesses = sorted(set(j.harness for j in jobs))
    try:
        b.bitcode()
        with cf.ThreadPoolExecutor(4) as ex:
            list(ex.map(b.harness_bc, harnesses))
    except lcv.BuildError as e:
        print("BUILD-ERROR", e)
        return 2
    nat_err = []

    def build_native():
        try:
            b.native(harnesses[0])
            for h in harnesses[1:]:
                b.native(h)
        except lcv.BuildError as e:
            nat_err.append(str(e))
    nt = threading.Thread(target=build_native)
    nt.start()
    known = [k for k in load_known()["findings"] if k["property"] == prop]
    results = {}
    skipped = []

    def one(j):
        left = limit - (time.time() - t0)
        if left < 5:
            skipped.append(j.name)
            return None
        j.time = min(j.time, max(5, left - 15))
        d = lcv.run_engine(eng, b.bc[j.harness], j, work, seed)
        if a.verbose:
            print("%-40s rc=%s paths=%s checks=%s q=%s z3=%.1fs %.1fs %s %s" % (j.name, d["rc"], d.get("paths"), d.get("checks"), d.get("queries"), d.get("z3_time", 0), d["secs"],
                  "INC " + "; ".join(d["incomplete"])[:150] if d.get("incomplete") else "", "V " + d["violations"][0]["msg"] if d.get("violations") else ""), flush=True)
        return d
    order = sorted(jobs, key=lambda j: -j.time)
    with cf.ThreadPoolExecutor(lcv.NCPU) as ex:
        for j, d in zip(order, ex.map(one, order)):
            if d:
                results[j.name] = d
    nt.join()
    if nat_err:
        print("BUILD-ERROR (native replay build)", nat_err[0])
        return 2

    violations, known_hit, unconfirmed, errors, vacuous, incomplete = [], [], [], [], [], list(skipped)
    replays = mism = 0

    def post(j):
        nonlocal replays, mism
        d = results.get(j.name)
        if d is None:
            return
        exe = b.nat[j.harness]
        if d.get("errors") or d["rc"] not in (0, 1, 2):
            errors.append((j.name, "; ".join(d.get("errors") or [d["text"]])[:400]))
        if d["rc"] == 2 or d.get("incomplete"):
            incomplete.append(j.name + ": " + "; ".join(d.get("incomplete") or ["?"])[:200])
        seen = set()
        confirmed_here = False
        for v in d.get("violations", []):
            key = (v["kind"], v["msg"], v["loc"])
            if key in seen:
                continue
            seen.add(key)
            ok, text = lcv.confirms(v, exe, j.params, b, j.harness)
            replays += 1
            rec = {"property": prop, "job": j.name, "harness": j.harness, "params": j.params, "violation": v, "native": text}
            if not ok:
                unconfirmed.append(rec)
                continue
            confirmed_here = True
            k = next((k for k in known if k["job"] == j.name and re.search(k["match"], "%s %s %s" % (v["kind"], v["msg"], v["loc"]))), None)
            if k:
                known_hit.append((k, rec))
            else:
                violations.append(rec)
        if not confirmed_here and j.covers and not d.get("incomplete") and not j.known:
            miss = [c for c in j.covers if c not in d.get("covers", {})]
            if miss:
                vacuous.append((j.name, miss))
        for s in d.get("samples", []):
            rc, out, err = lcv.native_run(exe, j.params, s["values"])
            replays += 1
            if rc == 0:
                got = [(l.split(" ")[1], l.split(" ")[2]) for l in out.splitlines() if l.startswith("OBS ")]
                want = [(l, str(v)) for l, v in s["obs"]]
                if got == want:
                    continue
            mism += 1
            v = {"kind": "check", "msg": (re.findall(r"LC_FAIL (.*)", out) or ["native run of an explored path failed"])[0], "loc": "native", "values": s["values"]}
            if rc in (70, 99):
                # the real code fails on an input the engine explored without a complaint: still a failure of the real code
                violations.append({"property": prop, "job": j.name, "harness": j.harness, "params": j.params, "violation": dict(v, kind="memory" if rc == 99 else "check"), "native": "exit=%s %s" % (rc, err[:300])})
            elif a.verbose:
                print("SAMPLE-MISMATCH", j.name, rc, s["values"], [(x, y) for x, y in zip(got, want) if x != y][:3] if rc == 0 else err[-300:] + out[-200:])
    with cf.ThreadPoolExecutor(lcv.NCPU) as ex:
        list(ex.map(post, jobs))

    rdir = os.path.join(lcv.VERIF, "replays")
    out_v = []
    uniq = {}
    for rec in violations:
        uniq.setdefault((rec["job"], rec["violation"]["kind"], rec["violation"]["msg"]), rec)
    for n, rec in enumerate(uniq.values()):
        os.makedirs(rdir, exist_ok=True)
        p = os.path.join(rdir, "%s-%s.json" % (prop, re.sub(r"[^A-Za-z0-9_.-]", "_", rec["job"])))
        with open(p, "w") as f:
            json.dump(rec, f, indent=1)
        v = rec["violation"]
        print("VIOLATION property=%s replay=%s" % (prop, p))
        print("  job=%s %s: %s at %s; input %s; native replay: %s" % (rec["job"], v["kind"], v["msg"], v["loc"], v["values"][:24], rec["native"]))
        if a.verbose:
            print("   ", v.get("stack"))
        out_v.append({"job": rec["job"], "what": v["msg"], "where": v["loc"], "replay": p})
    for k, rec in known_hit:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for k in known:
        if k not in [x for x, _ in known_hit]:
            print("note: known finding not reproduced on this tree: %s" % k["what"])
    for rec in unconfirmed:
        print("INCONCLUSIVE job=%s %s: %s at %s not reproduced natively (%s)" % (rec["job"], rec["violation"]["kind"], rec["violation"]["msg"], rec["violation"]["loc"], rec["native"]))
        if a.verbose:
            print("   ", rec["violation"]["values"], rec["violation"].get("stack"))
    for j, e in errors:
        print("ENGINE-ERROR job=%s %s" % (j, e))
    for j, m in vacuous:
        print("VACUOUS job=%s never reached: %s" % (j, m))
    for i in incomplete:
        print("INCOMPLETE", i)
    tot = lambda k: sum(d.get(k, 0) or 0 for d in results.values())
    funcs = sorted(set(f for d in results.values() for f in d.get("functions", []) if "/repo" in f or lcv.REPO in f))
    fn = sorted(set(f.split("|")[0] for f in funcs))
    files = sorted(set(f.split("|")[1].replace(lcv.REPO + "/", "") for f in funcs if "|" in f))
    labels = {}
    for d in results.values():
        for k, v in d.get("check_labels", {}).items():
            labels[k] = labels.get(k, 0) + v
    samples = []
    for j in jobs:
        for s in results.get(j.name, {}).get("samples", [])[:1]:
            if len(samples) < 5:
                samples.append({"job": j.name, "input": s["values"][:20], "observed": s["obs"][:20]})
    cov = {
        "states": tot("paths"), "transitions": tot("forks"), "traces_validated_against_impl": replays - mism, "samples": samples or [{"note": "no path completed"}],
        "instructions_executed": tot("steps"), "checks_reached": tot("checks"), "checks_discharged": tot("checks_discharged"), "assertions": labels,
        "solver_queries": tot("queries"), "z3_calls": tot("z3_calls"), "solver_seconds": round(tot("z3_time"), 2), "solver_unknown": tot("unknowns"),
        "native_replays": replays, "native_mismatches": mism,
        "functions_encoded": fn, "files_encoded": files,
        "jobs": [{"name": j.name, "bounds": dict(j.params), "paths": results.get(j.name, {}).get("paths"), "complete": not results.get(j.name, {}).get("incomplete") and results.get(j.name, {}).get("rc") in (0,),
                  "checks": results.get(j.name, {}).get("checks"), "queries": results.get(j.name, {}).get("queries"), "seconds": round(results.get(j.name, {}).get("secs", 0), 1)} for j in jobs],
        "incomplete": incomplete, "unconfirmed": [{"job": r["job"], "what": r["violation"]["msg"], "where": r["violation"]["loc"]} for r in unconfirmed],
        "vacuous": [j for j, _ in vacuous], "errors": ["%s: %s" % e for e in errors], "known_findings": [k["what"] for k, _ in known_hit],
    }
    ev = {"property": prop, "tier": a.tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": round(time.time() - t0, 2), "assumptions": meta["assumptions"], "violations": out_v}
    if not a.only:
        os.makedirs(os.path.join(lcv.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(lcv.VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s: jobs=%d paths=%d checks=%d queries=%d z3=%.1fs replays=%d mismatches=%d violations=%d incomplete=%d wall=%.1fs" % (
        prop, a.tier, len(jobs), tot("paths"), tot("checks"), tot("queries"), tot("z3_time"), replays, mism, len(out_v), len(incomplete), time.time() - t0))
    if out_v:
        return 1
    if vacuous or (errors and len(set(j for j, _ in errors)) == len(jobs)):
        return 2
    return 0


if __name__ == "__main__":
    main()
