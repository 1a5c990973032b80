#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] : decide one property by symbolic execution of the current /repo sources."""
import sys, os, json, re, subprocess, time, glob, argparse
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF + "/tools")
import sxbuild as B
ENV = dict(os.environ, LD_LIBRARY_PATH=B.NGS + "/lib", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", NGS_NUM_THREADS="1", PYTHONHOME="/usr")

def registry():
    reg = {}
    for f in sorted(glob.glob(VERIF + "/harness/*.cpp")):
        head = open(f).read(4000)
        m = re.search(r"^// PROPERTY: *(.+)$", head, re.M)
        if not m: continue
        t = re.search(r"^// TUS: *(.*)$", head, re.M)
        for p in m.group(1).split():
            reg.setdefault(p, []).append((os.path.basename(f), t.group(1).split() if t else []))
    return reg

def harness_notes(f):
    """assumptions / stubs stated in the harness header"""
    return re.findall(r"^// ASSUME: *(.*)$", open(VERIF + "/harness/" + f).read(), re.M)

def known():
    p = VERIF + "/known_findings.json"
    return json.load(open(p))["findings"] if os.path.exists(p) else []

def run_sx(exe, out, tier, jobs, budget, seed, only):
    p = subprocess.run([exe, "--out", out, "--tier", str(tier), "--jobs", str(jobs), "--budget", str(budget), "--seed", str(seed), "--only", only], env=ENV,
                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    if not os.path.exists(out): raise RuntimeError("engine produced no result for %s: %s" % (exe, p.stderr[-1000:]))
    return json.load(open(out))

def replay(exe, harness, path, tier, witness=False):
    try: p = subprocess.run([exe, harness, path, str(tier)] + (["w"] if witness else []), env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=120)
    except subprocess.TimeoutExpired: return "violated", "timeout (hang)"
    out = [l for l in p.stdout.splitlines() if l.startswith("REPLAY-")]
    if p.returncode == 0: return "held", ""
    if p.returncode == 1 and any(l.startswith("REPLAY-VIOLATION") for l in out): return "violated", "; ".join(l for l in out if "VIOLATION" in l)[:600]
    if p.returncode < 0: return "violated", "crash signal %d %s" % (-p.returncode, p.stderr[-300:].replace("\n", " "))
    return {3: "assume", 4: "diverged", 5: "unresolved"}.get(p.returncode, "error %d" % p.returncode), "; ".join(out)[:300] + p.stderr[-200:]

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--budget", type=int, default=0)
    ap.add_argument("--build-only", action="store_true"); ap.add_argument("-v", action="store_true")
    a = ap.parse_args(); prop = a.prop; t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1")); tier = 1 if a.tier == "thorough" else 0
    budget = a.budget or (600 if tier == 0 else 2400)
    reg = registry()
    if prop == "all":   # setup: prebuild everything
        B.build_engine(); os.makedirs(B.BUILD + "/exe", exist_ok=True); jobs = []
        for h, tus in sorted({h: t for v in reg.values() for h, t in v}.items()):
            for mode in ("sx", "nat"): jobs.append((h, tus, mode, "%s/exe/%s-%s" % (B.BUILD, h[:-4], mode)))
        return 0 if B.build_many(jobs) else 2
    if prop not in reg: print("no harness for", prop); return 2
    bd = B.BUILD + "/exe"; os.makedirs(bd, exist_ok=True); os.makedirs(VERIF + "/evidence/replay", exist_ok=True)
    B.build_engine()
    # ---- build (symbolic + native in parallel)
    jobs = []
    for h, tus in reg[prop]:
        for mode in ("sx", "nat"): jobs.append((h, tus, mode, "%s/%s-%s" % (bd, h[:-4], mode)))
    msgs = []
    ok = B.build_many(jobs, log=lambda m: msgs.append(m))
    tb = time.time() - t0
    if not ok:
        print("\n".join(msgs)); print("ERROR: build of the checked code failed"); return 2
    if a.build_only: print("built", prop, "%.1fs" % tb); return 0
    # ---- symbolic runs
    ev = dict(property=prop, tier=a.tier, seed=seed, level="model_checking", coverage={}, assumptions=[], wall_s=0, violations=0)
    errors, viol, findings, validated, disagreements, samples, funcs, bounds = [], [], [], 0, [], [], set(), {}
    tot = {}
    kf = [k for k in known() if k["property"] == prop and k.get("status") == "known"]
    for h, tus in reg[prop]:
        exe = "%s/%s" % (bd, h[:-4]); out = "%s/%s-%s.json" % (bd, h[:-4], prop)
        if os.path.exists(out): os.remove(out)
        left = max(30, int(budget - (time.time() - t0)))
        r = run_sx(exe + "-sx", out, tier, 8, left, seed, prop + "_")
        if not r["harnesses"]: errors.append("%s: no harness for %s in this file" % (h, prop))
        funcs.update(r["functions"])
        for x in r["harnesses"]:
            n = x["harness"]; bounds[n] = x["bounds"]
            for k, v in x.items():
                if isinstance(v, int): tot[k] = tot.get(k, 0) + v
            if a.v: print({k: v for k, v in x.items() if k != "log"})
            if not x["reach"].get("end") and not x["violations"] and not x["errors"]: errors.append("%s: vacuous, the end of the harness is never reached" % n)
            vs, ws = [], []
            for l in x["log"]:
                if l.startswith("E|"): errors.append("%s: %s" % (n, l[2:]))
                elif l.startswith("V|"): vs.append(l.split("|", 2)[1:])
                elif l.startswith("W|"): ws.append(l.split("|", 2)[2])
            for i, w in enumerate(ws):
                rp = "%s/evidence/replay/%s-%s-w%d.txt" % (VERIF, prop, n, i); open(rp, "w").write(w.replace(";", "\n"))
                res, why = replay(exe + "-nat", n, rp, tier, True)
                if res == "held": validated += 1
                elif res == "violated": viol.append((n, "native run of a solver model of this path", rp, why))
                elif res != "assume": disagreements.append("%s: native run of a model of a passing path: %s %s (%s)" % (n, res, why, rp))
                if i == 0 and len(samples) < 6: samples.append(dict(harness=n, inputs=w[:1500], native_replay=res))
                if res == "held": os.remove(rp)
            if len(vs) == 0 and x["violations"]: errors.append("%s: violation without model" % n)
            seen, conf = {}, 0
            for label, m in vs:
                if seen.get(label, 0) >= 6: continue
                seen[label] = seen.get(label, 0) + 1
                rp = "%s/evidence/replay/%s-%s-%d.txt" % (VERIF, prop, n, len(seen) * 10 + seen[label]); open(rp, "w").write(m.replace(";", "\n"))
                res, why = replay(exe + "-nat", n, rp, tier)
                k = next((k for k in kf if k["harness"] == n and k["label"] == label), None)
                if res == "violated":
                    validated += 1
                    if k: findings.append(k)
                    else: viol.append((n, label, rp, why))
                    seen[label] = 99
                elif not k and seen[label] == 6: pass
                if res != "violated": seen.setdefault("~" + label, (res, why, rp))
            for label in [l for l in seen if not l.startswith("~")]:
                if seen[label] < 99:
                    res, why, rp = seen["~" + label]
                    errors.append("%s: solver counterexample for '%s' did not reproduce natively: %s %s %s" % (n, label, res, why, rp))
    uniq = {k["id"]: k for k in findings}
    for k in uniq.values(): print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    amg = sorted(f for f in funcs if "amg::" in f.split("(")[0])
    ev["coverage"] = dict(
        states=tot.get("paths", 0), transitions=tot.get("forks", 0), traces_validated_against_impl=validated, samples=samples, exhaustive=not errors,
        method="path-exhaustive symbolic execution of the LLVM IR of the current sources; every branch on a symbolic value is decided by z3, every assertion is discharged by z3 for all values on its path",
        functions_encoded=amg[:400], functions_encoded_count=len(amg), bounds=bounds,
        queries=tot.get("queries", 0), queries_sat=tot.get("sat", 0), queries_unsat=tot.get("unsat", 0), queries_unknown=tot.get("unknown", 0),
        assertions=tot.get("checks", 0), assertions_discharged=tot.get("checks_discharged", 0), solver_s=round(tot.get("solver_ms", 0) / 1000, 3),
        symbolic_reals=tot.get("real_inputs", 0), symbolic_ints=tot.get("int_inputs", 0), paths_cut_by_assumptions=tot.get("paths_cut", 0), build_s=round(tb, 1),
        known_findings=[k["what"] for k in uniq.values()], errors=errors[:20])
    ev["assumptions"] = ["doubles are interpreted as exact real numbers: rounding is outside the claim", "single process / single thread unless the harness states otherwise",
                         "NGSolve dense/sparse kernels are replaced by their textbook definition (engine/shim_la.cpp)"] + [n for h, _ in reg[prop] for n in harness_notes(h)]
    ev["violations"] = len(viol); ev["wall_s"] = round(time.time() - t0, 2)
    json.dump(ev, open("%s/evidence/%s.json" % (VERIF, prop), "w"), indent=1)
    for n, label, rp, why in viol: print("VIOLATION property=%s replay=%s\n  harness %s: %s -- %s" % (prop, rp, n, label, why))
    for d in disagreements: print("DISAGREEMENT", d)
    for e in list(dict.fromkeys(re.sub(r" @0x[0-9a-f]+", "", e) for e in errors))[:10]: print("ERROR", e[:700])
    print("%s %s: %d paths, %d assertions (%d discharged), %d queries, %.1fs solver, %.1fs build, %.1fs total" % (prop, a.tier, tot.get("paths", 0), tot.get("checks", 0),
          tot.get("checks_discharged", 0), tot.get("queries", 0), tot.get("solver_ms", 0) / 1000, tb, time.time() - t0))
    if viol: return 1
    if errors or disagreements: return 2
    return 0

if __name__ == "__main__": sys.exit(main())
