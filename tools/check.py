#!/usr/bin/env python3
"""Decide one property: check.py <ID> [--tier quick|thorough] [--only HARNESS]

Copies /repo's current sources next to the environment models, has Kani/CBMC
decide every harness of the property, replays counterexamples against the
natively compiled (untransformed) sources, and writes evidence/<ID>.json.

Exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer.
"""
import argparse, json, os, re, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gencopy

VERIF = gencopy.VERIF
RED = ["-Z", "unstable-options", "--no-memory-safety-checks", "--no-overflow-checks",
       "--no-assertion-reach-checks", "-Z", "restrict-vtable"]
CB = ["--cbmc-args", "--max-field-sensitivity-array-size", "1024"]


os.environ["CARGO_NET_OFFLINE"] = "true"
os.environ.pop("RUSTFLAGS", None)


def log(*a):
    print(*a, flush=True)


def harnesses():
    """harness name -> (module, source file)"""
    out = {}
    hd = os.path.join(VERIF, "kani/h")
    for f in sorted(os.listdir(hd)):
        if f.startswith("p_"):
            s = open(os.path.join(hd, f)).read()
            for m in re.finditer(r"kani::proof[^\]]*\]\s*pub fn (\w+)", s):
                out[m.group(1)] = f[:-3]
    return out


def select(prop, tier, spec):
    hs = harnesses()
    names = [h for h in hs if h.startswith(prop.lower() + "_")]
    names += [h for h in spec.get("also", []) if h in hs]
    if tier == "quick":
        names = [h for h in names if not h.endswith("_thorough") and h not in spec.get("thorough_only", [])]
    return {h: hs[h] for h in names}


def run(cmd, cwd, timeout, out, env=None):
    e = dict(os.environ)
    e.update(env or {})
    with open(out, "w") as f:
        try:
            return subprocess.run(cmd, cwd=cwd, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, env=e).returncode
        except subprocess.TimeoutExpired:
            return -9


def tail(p, n=40):
    return "\n".join(open(p, errors="replace").read().splitlines()[-n:])


def native_build(bd, mods, prop, tag="n", transformed=False):
    d = os.path.join(bd, tag)
    gencopy.main(d, mods, native=not transformed, bin=True, prop=prop)
    env = {"RUSTFLAGS": "--cfg ka" if transformed else ""}
    rc = run(["cargo", "build", "--offline", "--bin", "replay"], d, 600, os.path.join(bd, tag + ".log"), env)
    if rc != 0:
        log(tail(os.path.join(bd, tag + ".log")))
        return None
    return os.path.join(d, "target/debug/replay")


def replay(binp, h, vals, timeout=60):
    """(returncode, output) of running harness h on the solver's values"""
    p = subprocess.run([binp, h], input="\n".join(" ".join(map(str, v)) for v in vals) + "\n",
                       capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def playback(kd, bd, h, mod, timeout):
    """description -> concrete values, for each failed check of h"""
    o = os.path.join(bd, f"pb_{h}.log")
    run(["cargo", "kani", "--harness", f"process::{mod}::{h}", "--exact"] + RED +
        ["-Z", "concrete-playback", "--concrete-playback=print"] + CB, kd, timeout, o)
    s = open(o, errors="replace").read()
    out = {}
    for m in re.finditer(r"/// Check for `(\w+)`: \"(.*?)\"\n\n#\[test\]\nfn \w+\(\) \{\n    let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n    \];", s, re.S):
        vals = [[int(x) for x in v.split(",") if x.strip()] for v in re.findall(r"vec!\[([^\]]*)\]", m.group(3))]
        # Kani prints equal values once, under any one of the checks they belong to
        if vals not in out.setdefault("*", []):
            out["*"].append(vals)
        if m.group(1) != "cover":
            out.setdefault(m.group(2).strip('"'), []).append(vals)
    return out


def known():
    """tag -> text, for the findings recorded and not repaired"""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\w+) tag=(\S+) (.*)", l)
            if m:
                out[m.group(2)] = (m.group(1), m.group(3).strip())
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--bd")
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop
    spec = json.load(open(os.path.join(VERIF, "tools/spec.json"))).get(prop, {})
    hs = select(prop, a.tier, spec)
    if a.only:
        hs = {h: m for h, m in harnesses().items() if h in a.only.split(",")}
    if not hs:
        log("no harness")
        return 2
    bd = a.bd or os.path.join(VERIF, ".build", prop)
    shutil.rmtree(os.path.join(bd, "k/src"), ignore_errors=True)
    os.makedirs(bd, exist_ok=True)
    kd = os.path.join(bd, "k")
    mods = set(hs.values())
    try:
        gencopy.main(kd, None if prop == "DEV" else mods, prop=None if prop == "DEV" else prop)
    except Exception as e:
        log("cannot prepare the sources:", repr(e))
        return 2
    ej = os.path.join(kd, "out.json")
    if os.path.exists(ej):
        os.remove(ej)
    budget = int(os.environ.get("VERIF_BUDGET", 820 if a.tier == "quick" else 7200))
    jobs = str(min(len(hs), int(os.environ.get("VERIF_JOBS", "7"))))
    cmd = ["cargo", "kani"]
    for h, m in hs.items():
        cmd += ["--harness", f"process::{m}::{h}"]
    cmd += ["--exact", "-j", jobs, "--output-format", "terse", "--export-json", ej, "--harness-timeout",
            f"{int(budget * 0.85)}s"] + RED + CB
    o = os.path.join(bd, "kani.log")
    rc = run(cmd, kd, budget, o)
    if not os.path.exists(ej):
        log(tail(o))
        log("no result from the model checker")
        return 2
    d = json.load(open(ej))
    res = {r["harness_id"].split("::")[-1]: r for r in d["verification_results"]["results"]}
    stats = {r["harness_id"].split("::")[-1]: r for r in d.get("cbmc", [])}
    kn = known()
    errors, candidates, aborts, findings = [], [], set(), []
    ev = {"harnesses": {}, "functions": set()}
    tot = dict(checks=0, discharged=0, witnesses=0)
    solver = 0.0
    for h in hs:
        r = res.get(h)
        if r is None or not r.get("checks"):
            errors.append(f"{h}: no verdict (timeout, memory, or compilation)")
            continue
        n_ok = 0
        nwit = 0
        for c in r["checks"]:
            st, desc, cat = c["status"], c["description"].strip('"'), c.get("category", "")
            fn = c.get("function", "")
            f = c.get("location", {}).get("file", "")
            if f.startswith("src/") and not f.startswith("src/kh/") and fn:
                ev["functions"].add(re.sub(r"::\{closure#.*", "", fn))
            if cat == "cover":
                nwit += 1
                if st != "Satisfied":
                    errors.append(f"{h}: witness not reachable: {desc}")
                continue
            tot["checks"] += 1
            if st == "Success":
                n_ok += 1
                continue
            if st == "Undetermined":
                continue
            tag = re.match(r"\[(P\d+)([^\]]*)\]", desc)
            if tag and prop in (tag.group(1), "DEV"):
                full = tag.group(1) + tag.group(2)
                candidates.append((h, desc, full))
            elif tag:
                aborts.add(f"{h}: (other property) {desc}")
            elif "KENV" in desc:
                errors.append(f"{h}: {desc} in {fn}")
            elif cat == "unwind" or "unwinding assertion" in desc:
                errors.append(f"{h}: {desc} at {f}:{c.get('location', {}).get('line')}")
            else:
                aborts.add(f"{fn}: {desc}")
        und = sum(1 for c in r["checks"] if c["status"] == "Undetermined")
        if und:
            errors.append(f"{h}: {und} checks undetermined")
        tot["discharged"] += n_ok
        tot["witnesses"] += nwit
        if nwit == 0:
            errors.append(f"{h}: has no reachability witness")
        s = stats.get(h, {}).get("cbmc_stats", {})
        solver += s.get("runtime_decision_procedure_s", 0) or 0
        ev["harnesses"][h] = {"verdict": r["status"], "checks": len(r["checks"]), "witnesses": nwit,
                              "seconds": round(r["duration_ms"] / 1000, 1),
                              "steps": s.get("size_program_expression"), "vccs": s.get("vccs_generated"), "vccs_after_simplification": s.get("vccs_remaining"),
                              "symex_s": s.get("runtime_symex_s"),
                              "solver_s": s.get("runtime_decision_procedure_s")}
    if prop == "DEV":
        for h, desc, full in candidates:
            log(f"FAILED {h}: {desc}")
        for e in errors:
            log("no answer:", e)
        for x in sorted(aborts):
            log("note:", x)
        for h, v in ev["harnesses"].items():
            log(f"  {h}: {v}")
        log(f"{time.time() - t0:.0f}s")
        return 0
    # ---- counterexamples
    violations = []
    new = [c for c in candidates if c[2] not in kn]
    for h, desc, full in candidates:
        if full in kn:
            findings.append((full, kn[full][1]))
    replays = 0
    if new:
        binp = native_build(bd, mods, prop)
        bint = None
        for h in sorted({c[0] for c in new}, key=lambda h: ev["harnesses"].get(h, {}).get("seconds", 0)):
            if violations:
                break  # one confirmed counterexample is enough
            pb = playback(kd, bd, h, hs[h], 900)
            for hh, desc, full in new:
                if hh != h:
                    continue
                got = False
                for vals in pb.get(desc) or pb.get("*", []):
                    how = "async"
                    rc2, out = replay(binp, h, vals) if binp else (4, "no native build")
                    if rc2 != 101 or desc not in out:
                        # schedule differences: fall back to the rewritten sources
                        if bint is None:
                            bint = native_build(bd, mods, prop, "t", True) or ""
                        if bint:
                            how = "rewritten"
                            rc2, out = replay(bint, h, vals)
                    replays += 1
                    if rc2 == 101 and desc in out:
                        rp = os.path.join(VERIF, "replays", f"{prop}_{h}.txt")
                        os.makedirs(os.path.dirname(rp), exist_ok=True)
                        with open(rp, "w") as f:
                            f.write(f"# {desc}\n# replay: python3 tools/replay.py {prop} {h} <this file>  ({how} build)\n")
                            for v in vals:
                                f.write(" ".join(map(str, v)) + "\n")
                        violations.append((h, desc, rp))
                        got = True
                        break
                    log(f"counterexample of {h} ({desc}) does not reproduce natively: rc={rc2} {out[-300:]}")
                if not got:
                    errors.append(f"{h}: counterexample not confirmed: {desc}")
    ok_n = sum(1 for h in ev["harnesses"].values() if h["verdict"] == "Success")
    coverage = {
        "states": sum((v["steps"] or 0) for v in ev["harnesses"].values()),
        "transitions": sum((v["vccs"] or 0) for v in ev["harnesses"].values()),
        "traces_validated_against_impl": replays,
        "witnesses_reached": tot["witnesses"],
        "samples": [f"{h}: {v}" for h, v in list(ev["harnesses"].items())[:12]],
        "functions_encoded": sorted(ev["functions"]),
        "harnesses": ev["harnesses"],
        "queries_discharged": tot["discharged"],
        "solver_s": round(solver, 2),
        "bounds": spec.get("bounds", ""),
        "outside_bounds": spec.get("outside", ""),
        "handler_aborts_reachable": sorted(aborts)[:20],
        "known_findings": sorted({f[0] for f in findings}),
        "no_answer": errors,
        "exhaustive": False,
        "explanation": "bounded model checking has no explicit state count: states is the number of symbolic execution "
                       "steps (SSA assignments and guards) encoded, transitions the number of verification conditions "
                       "generated from them; queries_discharged is the number of checks the solver proved",
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump({"property": prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
               "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
               "coverage": coverage,
               "assumptions": spec.get("assumptions", []) + [
                   "third-party crates and stores are the models in kani/stubs and kani/h/support.rs",
                   "async code is executed in the synchronous form produced by tools/deasync.py"],
               "wall_s": round(time.time() - t0, 1), "violations": len(violations)},
              open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w"), indent=1)
    for tag, txt in sorted(set(findings)):
        log(f"KNOWN-FINDING: property={prop} {txt} [{tag}]")
    for x in sorted(aborts):
        log("note:", x)
    for e in errors:
        log("no answer:", e)
    for h, v in ev["harnesses"].items():
        log(f"  {h}: {v['verdict']} {v['seconds']}s checks={v['checks']} witnesses={v['witnesses']}")
    if violations:
        for h, desc, rp in violations:
            log(f"  {h}: {desc}")
        log(f"VIOLATION property={prop} replay={violations[0][2]}")
        return 1
    if errors:
        return 2
    log(f"{prop}: {ok_n} harnesses, {tot['discharged']} checks discharged, {time.time() - t0:.0f}s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
