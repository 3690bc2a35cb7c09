#!/usr/bin/env python3
"""Decide one property:  run.py --property C01 [--tier quick|thorough]
Replay a violation:      run.py --replay replay/<file>.json
Record the proved units: run.py --baseline (all properties; committed file baseline.json)"""
import argparse
import ast
import concurrent.futures as cf
import hashlib
import json
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get("VC_REPO", "/repo")
VT = os.environ.get("VC_VT", "python3-vt")
TORCH_PY = os.environ.get("VC_TORCH_PY", "/opt/venv/bin/python")
JOBS = int(os.environ.get("VC_JOBS", "8"))

TRUSTED = [
    "the verification-condition generator and prover of /verif/vc (terms, prover, engine, storch, ftorch, loader)",
    "CPython 3.12 executing the real source of /repo (the loader only rewrites loops and comprehensions over symbolic ranges, while loops and builtins such as range/len/int; see DESIGN.md)",
    "z3 5.3 (only for the obligations counted under z3)",
    "assumed contracts of the torch/numpy/math/scipy/sklearn operations called (vc/storch.py, vc/ftorch.py, vc/fnumpy.py), cross-checked against the real torch on concrete inputs every run",
    "machine arithmetic treated as mathematical: floats are reals, integers unbounded; NaN is tracked, infinities and rounding are not",
]


def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", TQDM_DISABLE="1", CUDA_VISIBLE_DEVICES="")
    e.pop("PYTHONPATH", None)
    return e


def spawn(cmd, seconds):
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=HERE, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=max(1, seconds))
    except subprocess.TimeoutExpired as ex:
        o = ex.stdout or b""
        return (o.decode() if isinstance(o, bytes) else o), "timeout", time.time() - t0
    return p.stdout, ("" if p.returncode == 0 else f"exit {p.returncode}: {p.stderr[-500:]}"), time.time() - t0


def lines(out):
    return [json.loads(l[2:]) for l in out.splitlines() if l.startswith("@@")]


def sym_task(u, seconds, budget):
    out, err, wall = spawn([VT, "-m", "vc.worker", "sym", u.uid, REPO, str(seconds), str(budget)], seconds + 30)
    r = lines(out)
    if not r or not r[-1]:
        return {"status": "unknown", "reason": f"worker: {err or 'no result'}", "obligations": 0, "discharged": 0, "bad": [], "by": {}, "functions": [], "files": [], "bounded": [], "stubs": [], "paths": 0, "seconds": wall}
    return r[-1]


def con_task(items, seconds):
    out, err, wall = spawn([TORCH_PY, "-m", "vc.worker", "con", json.dumps({"repo": REPO, "units": items})], seconds)
    return {r["uid"]: r for r in lines(out)}, err


def load_json(name, default):
    p = os.path.join(HERE, name)
    if os.path.exists(p):
        with open(p) as f:
            return json.load(f)
    return default


def hints_of(r):
    """numbers occurring in failing obligations and in the code they execute"""
    vals = set()
    for f in r.get("files", []):
        try:
            tree = ast.parse(open(f).read())
        except (OSError, SyntaxError):
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool) and abs(n.value) < 1e6:
                vals.add(float(n.value))
                vals.add(-float(n.value))
    for o in r.get("bad", []):
        for s in o.get("path", []):
            for m in re.findall(r"-?\d+(?:\.\d+)?(?:/\d+)?", s):
                try:
                    a, _, b = m.partition("/")
                    vals.add(float(a) / float(b or 1))
                except (ValueError, ZeroDivisionError):
                    pass
    return sorted(v for v in vals if abs(v) < 1e6)[:80]


def dims_of(r):
    ds = []
    for o in r.get("bad", []):
        m = o.get("model")
        if m:
            d = {}
            for k, v in m.items():
                try:
                    if 0 <= int(v) <= 40:
                        d[k] = int(v)
                except ValueError:
                    pass
            if d and d not in ds:
                ds.append(d)
    return ds[:6]


def decide(prop, tier, seed, record=None):
    t0 = time.time()
    import contracts

    units = [u for u in contracts.load_all().values() if u.prop == prop and (tier == "thorough" or u.tier == "quick")]
    baseline = load_json("baseline.json", {})
    known = [k for k in load_json("known_findings.json", []) if k.get("status") == "known" and k["property"] == prop]
    total = 780.0 if tier == "quick" else 6000.0
    t_end = t0 + total
    sym_s = 150 if tier == "quick" else 900
    budget = 20 if tier == "quick" else 120
    nseed = 1 if tier == "quick" else 12
    results, con, conerr = {}, {}, []
    order = sorted([u for u in units if u.sym], key=lambda u: -baseline.get(u.uid, {}).get("seconds", 30))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = {}
        # concrete cross-check of every unit, in a few batches
        ngroups = min(3, max(1, len(units) // 3))
        groups = [units[k::ngroups] for k in range(ngroups)]
        for g in groups:
            items = [{"uid": u.uid, "seeds": [seed * 1000 + k for k in range(max(1, u.con_seeds * nseed))], "stats": u.stat, "seconds": 40 * nseed} for u in g]
            futs[ex.submit(con_task, items, min(total * 0.6, 60 + 45 * len(items) * nseed))] = None
        for u in order:
            futs[ex.submit(sym_task, u, min(u.seconds if tier == "quick" else sym_s, sym_s), budget)] = u
        for f in cf.as_completed(futs):
            u = futs[f]
            if u is None:
                r, e = f.result()
                con.update(r)
                if e:
                    conerr.append(e)
            else:
                results[u.uid] = f.result()
        # deeper concrete search where the proof did not go through
        retry = {}
        for u in units:
            r = results.get(u.uid)
            if r is None or r["status"] == "proved":
                continue
            if con.get(u.uid, {}).get("violation"):
                continue
            left = t_end - time.time() - 40
            if left < 20:
                break
            # known-unprovable units keep the bounded stand-in; a unit that used to be proved gets the deep search
            fresh = baseline.get(u.uid, {}).get("status") == "proved" or u.uid not in baseline
            n = (60 if fresh else 20) * (1 if tier == "quick" else 6)
            items = [{"uid": u.uid, "seeds": [seed * 7919 + 17 + k for k in range(n)], "stats": max(u.stat, 0) + (1 if fresh and u.stat else 0), "seconds": min(left, 120 if fresh else 60), "dims": dims_of(r), "hints": hints_of(r)}]
            retry[ex.submit(con_task, items, min(left, 200))] = u
        for f in cf.as_completed(retry):
            u = retry[f]
            r2, e = f.result()
            if e:
                conerr.append(e)
            for uid, r in r2.items():
                old = con.get(uid) or {"runs": 0, "checks": 0, "errors": [], "violation": None, "skipped": 0}
                con[uid] = {"runs": old["runs"] + r["runs"], "checks": old["checks"] + r["checks"], "errors": (old["errors"] + r["errors"])[:5], "violation": old["violation"] or r["violation"], "skipped": old["skipped"] + r["skipped"]}

    violations, notes, findings = [], [], []
    proved = bounded = undecided = 0
    per = []
    for u in units:
        r = results.get(u.uid, {"status": "not-attempted", "reason": "no symbolic run: bounded by design", "bad": []})
        c = con.get(u.uid)
        row = {"unit": u.uid, "status": r["status"], "obligations": r.get("obligations", 0), "discharged": r.get("discharged", 0), "paths": r.get("paths", 0), "solver": r.get("by", {}), "seconds": r.get("seconds", 0), "concrete_runs": (c or {}).get("runs", 0)}
        if r.get("reason"):
            row["reason"] = r["reason"][:300]
        if r.get("bounded"):
            row["bounded"] = r["bounded"]
        v = (c or {}).get("violation")
        if v:
            k = match_known(known, u.uid, v)
            if k is not None:
                findings.append(k)
                row["status"] = "known-finding"
            else:
                violations.append((u, r, v))
                row["status"] = "violated"
        elif r["status"] == "proved" and r.get("bounded"):
            bounded += 1
            row["status"] = "proved within a stated bound: " + "; ".join(r["bounded"])
        elif r["status"] == "proved":
            proved += 1
        elif r["status"] == "failed" and baseline.get(u.uid, {}).get("status") == "proved" and definite(r):
            violations.append((u, r, None))
            row["status"] = "violated (no failing input found)"
        else:
            if c and c.get("runs", 0) > 0:
                bounded += 1
                row["status"] = f"bounded stand-in ({c['runs']} concrete runs; prover: {r['status']})"
            else:
                undecided += 1
                row["status"] = f"undecided (prover: {r['status']})"
            if c and c.get("errors"):
                row["errors"] = c["errors"][:2]
        per.append(row)
    # ---- report
    allr = list(results.values())
    ob = sum(r["obligations"] for r in allr)
    dis = sum(r["discharged"] for r in allr)
    by = {}
    for r in allr:
        for k, v in r.get("by", {}).items():
            by[k] = round(by.get(k, 0) + v, 3)
    functions = sorted({f for r in allr for f in r.get("functions", [])})
    wall = round(time.time() - t0, 1)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof", "wall_s": wall, "violations": len(violations),
        "coverage": {
            "obligations": ob, "discharged": dis,
            "checker_cmd": f"python3 run.py --property {prop} --tier {tier}",
            "trusted_base": TRUSTED,
            "units": len(units), "units_proved": proved, "units_bounded": bounded, "units_undecided": undecided,
            "functions_under_contract": functions, "back_ends": by,
            "evaluations": sum(c.get("runs", 0) for c in con.values()),
            "distinct_nontrivial": sum(1 for c in con.values() if c.get("checks", 0) > 0),
            "rule": "evaluations: concrete executions of the same contracts on the real torch (cross-check of the assumed contracts, bounded stand-ins), random sizes and values; distinct_nontrivial: contracts whose concrete runs evaluated at least one condition",
            "per_unit": per,
        },
        "assumptions": sorted({"bounded: " + b for r in allr for b in r.get("bounded", [])} | {"stubbed by its contract: " + b for r in allr for b in r.get("stubs", [])})
        + [f"not proved, bounded stand-in only: {x['unit']}: {x['status']}" for x in per if x["status"].startswith(("bounded", "undecided"))],
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} [{tier}]: {len(units)} contracts, {proved} proved, {bounded} bounded, {undecided} undecided; {dis}/{ob} obligations discharged {by}; {wall}s")
    for x in per:
        if not x["status"].startswith("proved"):
            print("   ", x["unit"], "-", x["status"], "-", x.get("reason", ""), x.get("errors", ""))
    for e in conerr:
        print("    concrete worker:", e[:300])
    for k in {json.dumps(k): k for k in findings}.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for u, r, v in violations:
        path = write_replay(prop, u, r, v)
        if v:
            print(f"violated: {u.uid}: {v['obligation']}: {v['detail']} inputs={v['inputs']}")
            print(f"VIOLATION property={prop} replay={path}")
        else:
            o = r["bad"][0]
            print(f"violated: {u.uid}: obligation '{o['name']}' no longer discharged: {o.get('why', '')}")
            print(f"VIOLATION property={prop} replay={path} no-failing-input-found")
    if record is not None:
        for u in units:
            r = results.get(u.uid)
            if r is not None:
                record[u.uid] = {"status": r["status"], "obligations": r["obligations"], "seconds": r["seconds"]}
                if r.get("bounded"):
                    record[u.uid]["bounded"] = r["bounded"]
    if ob == 0 and not any(c.get("runs") for c in con.values()):
        print(f"{prop}: nothing was checked: the check did not run")
        return 2
    return 1 if violations else 0


def definite(r):
    """the prover refuted an obligation (as opposed to giving up, or running into something the engine does not model)"""
    bad = [o for o in r["bad"] if o["status"] == "failed"]
    for o in bad:
        if o.get("pattern") or o["name"] == "no exception is raised":
            continue
        if "unknown" in o.get("why", "") or "budget" in o.get("why", ""):
            continue
        return True
    return False


def match_known(known, uid, v):
    for k in known:
        if re.search(k["unit"], uid) and re.search(k["obligation"], v["obligation"]) and re.search(k.get("detail", ""), v["detail"]):
            return k
    return None


def write_replay(prop, u, r, v):
    os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
    d = {"property": prop, "unit": u.uid, "contract": u.about, "prover": {k: r.get(k) for k in ("status", "reason", "bad")}, "witness": v}
    if v:
        d["rerun"] = "python3 run.py --replay <this file>"
    h = hashlib.sha1(u.uid.encode()).hexdigest()[:10]
    p = os.path.join("replay", f"{prop}-{h}.json")
    with open(os.path.join(HERE, p), "w") as f:
        json.dump(d, f, indent=1, default=str)
    return p


def replay(path):
    d = json.load(open(path))
    if not d.get("witness"):
        print("no failing input; the failed obligations are:")
        print(json.dumps(d["prover"], indent=1)[:4000])
        return 1
    r, err = con_task([{"uid": d["unit"], "plan": d["witness"]["plan"]}], 300)
    v = r.get(d["unit"], {}).get("violation")
    print(json.dumps(v, indent=1) if v else f"the violation does not reproduce {err}")
    return 1 if v else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--baseline", nargs="*")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if a.replay:
        sys.exit(replay(a.replay))
    if a.baseline is not None:
        import contracts

        rec = load_json("baseline.json", {})
        allu = contracts.load_all()
        rec = {k: v for k, v in rec.items() if k in allu}
        bad = 0
        for p in a.baseline or sorted({u.prop for u in allu.values()}):
            bad |= decide(p, "quick", seed, rec)
            with open(os.path.join(HERE, "baseline.json"), "w") as f:
                json.dump(rec, f, indent=1, sort_keys=True)
        sys.exit(bad)
    sys.exit(decide(a.property, a.tier, seed))


if __name__ == "__main__":
    main()
