#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--case NAME] [--keep]      decide one property
   check.py --replay FILE                                           replay one counterexample against the real code

Per case: symbolic execution of the repository's bitcode from the public API, every counterexample replayed on a native
AddressSanitizer build of the same sources, and solver models of completed paths replayed to validate the encoding."""
import concurrent.futures as cf, json, os, re, subprocess, sys, time, shutil, hashlib, tempfile
import build
V = build.V
sys.path.insert(0, V)
NAT_TIMEOUT = 30
TOKEN = re.compile("01(?:3[0-9]){4}02")
def same_obs(enc, nat):
    """Observations agree; in text, the executor's token of a printed symbolic floating-point number stands for any characters."""
    return len(enc) == len(nat) and all(a[0] == b[0] and (a[1] == b[1] or (TOKEN.search(a[1]) and re.fullmatch("(?:..)*".join(TOKEN.split(a[1])), b[1]))) for a, b in zip(enc, nat))

def write_replay(path, prop, case, viol):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as o:
        o.write(f"# property {prop} case {case['name']} harness {case['harness']}\n# {viol.get('kind','sample')}: {viol.get('label','')}\n")
        o.write(f"# replay: cd /verif && python3 check.py --replay {path}\n")
        for k, v in case["params"].items():
            o.write(f"param {k} {v}\n")
        for n, w, x in viol["inputs"]:
            o.write(f"in {n} {w} {x}\n")
def replay(binary, path):
    tmp = tempfile.mkdtemp(prefix="pfsrun.")
    env = dict(os.environ, PFS_REPLAY=path, PFS_TMP=tmp, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=64:detect_stack_use_after_return=0")
    try:
        p = subprocess.run(binary if isinstance(binary, list) else [binary], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=NAT_TIMEOUT, cwd=tmp)
        rc, out, err = p.returncode, p.stdout.decode("latin1"), p.stderr.decode("latin1")
    except subprocess.TimeoutExpired as e:
        rc, out, err = "timeout", (e.stdout or b"").decode("latin1"), (e.stderr or b"").decode("latin1")
    shutil.rmtree(tmp, ignore_errors=True)
    lines = out.splitlines()
    failed = [l[13:] for l in lines if l.startswith("CHECK-FAILED ")]
    obs = [[l.split(" ")[1], l.split(" ")[2]] for l in lines if l.startswith("OBS ")]
    finished = "FINISHED" in lines
    diverged = any(l.startswith(("DIVERGED", "ASSUME-FAILED")) for l in lines)
    crash = None
    if rc == "timeout": crash = "does not terminate"
    elif not finished and not failed and not diverged and "ASSUME-STOP" not in lines:
        a = [l for l in err.splitlines() if "ERROR: AddressSanitizer" in l or "terminate called" in l or "Assertion" in l or "what()" in l or "runtime error" in l]
        crash = (a[0][:200] if a else f"process ended with {rc}")
    return {"rc": rc, "failed": failed, "obs": obs, "finished": finished, "diverged": diverged, "crash": crash, "stderr": err[-1500:]}
VT = "/opt/veriftools/pyvenv/bin/python"
def is_py(h): return os.path.exists(os.path.join(V, "harness", h + ".py"))
def native_py(h): return [sys.executable, os.path.join(V, "pysym", "native.py"), os.path.join(V, "harness", h + ".py"), build.REPO]
def engine_run(eng, rt, rp, hb, case, tier, seed):
    out = tempfile.mktemp(prefix="pfsym.", suffix=".json")
    cmd = [eng, "-o", out, "--seed", str(seed), "--samples", str(case.get("samples", 4)), "--time", str(case["time"])]
    cmd += ["--timeout", str(case.get("smt_ms", 20000)), "--insts", str(case.get("insts", 60000000))] if rt else []
    if not rt: cmd[:1] = [VT, "-B", os.path.join(V, "pysym", "run.py")]
    for k, v in case["params"].items():
        cmd += ["-p", f"{k}={v}"]
    t = time.time()
    p = subprocess.run(cmd + [hb, rp] + (["--rt", rt] if rt else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if not os.path.exists(out):
        return {"error": f"executor ended with {p.returncode}: {p.stderr.decode('latin1')[-400:]}", "wall_s": time.time() - t}
    d = json.load(open(out))
    os.remove(out)
    d["proc_s"] = time.time() - t
    return d
def main():
    a = sys.argv[1:]
    if a[0] == "--replay":
        h = [l for l in open(a[1]) if l.startswith("# property")][0].split()
        b = h[h.index("harness") + 1]
        b = native_py(b) if is_py(b) else build.native(b)
        r = replay(b, os.path.abspath(a[1]))
        print(json.dumps({k: v for k, v in r.items()}, indent=1))
        return 1 if r["failed"] or r["crash"] else 0
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    only = a[a.index("--case") + 1] if "--case" in a else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import cases as C
    P = C.PROPS[prop]
    cs = []
    for c in P["cases"]:
        if tier == "quick" and c.get("tier") == "thorough": continue
        if only and c["name"] != only: continue
        c = dict(c)
        c.setdefault("params", {})
        c.setdefault("reach", [])
        c["time"] = c.get("time", 60) * (4 if tier == "thorough" else 1)
        cs.append(c)
    t0 = time.time()
    pys = {c["harness"] for c in cs if is_py(c["harness"])}
    try:
      eng = rt = rp = None
      hbs, nos = {}, None
      if any(c["harness"] not in pys for c in cs):
        eng = build.engine()
        rj, qj = build.rt_bc(), build.repo_bc()
        hbs = {h: build.harness_bc(h) for h in {c["harness"] for c in cs} - pys}
        nos = build.native_objs()
        rt, rp = build.link_bc(rj, "rt"), build.link_bc(qj, "repo")
        hbs = {h: j.result() for h, j in hbs.items()}
    except build.BuildError as e:
        print("BUILD-ERROR", e)
        return 2
    ex = cf.ThreadPoolExecutor(int(os.environ.get("PFS_JOBS", "8")))
    runs = [(c, ex.submit(engine_run, eng, None, build.REPO, os.path.join(V, "harness", c["harness"] + ".py"), c, tier, seed) if c["harness"] in pys
             else ex.submit(engine_run, eng, rt, rp, hbs[c["harness"]], c, tier, seed)) for c in cs]
    try:
        nat = {}
        with cf.ThreadPoolExecutor(4) as bx:
            nj = {h: bx.submit(build.native, h, nos) for h in hbs}
            nat = {h: j.result() for h, j in nj.items()}
            nat.update({h: native_py(h) for h in pys})
    except build.BuildError as e:
        print("BUILD-ERROR", e)
        return 2
    known = json.load(open(os.path.join(V, "known_findings.json")))
    reports, notes, samples, validated, diverged, unrepro = [], [], [], 0, 0, 0
    tot = {"paths": 0, "assume_pruned": 0, "incomplete_paths": 0, "forks": 0, "instructions": 0, "checks": 0, "discharged_by_solver": 0, "constant": 0, "unknown": 0,
           "queries": 0, "smt_calls": 0, "solver_s": 0.0}
    funcs, incomplete, per_case, labels = set(), {}, [], {}
    seen_known = set()
    rx = cf.ThreadPoolExecutor(8)
    for c, f in runs:
        d = f.result()
        if "error" in d:
            notes.append(f"case {c['name']}: {d['error']}")
            incomplete["executor error"] = incomplete.get("executor error", 0) + 1
            continue
        tot["paths"] += d["paths"]["done"]; tot["assume_pruned"] += d["paths"]["assume"]; tot["incomplete_paths"] += d["paths"]["incomplete"]
        tot["forks"] += d["forks"]; tot["instructions"] += d["instructions"]
        tot["checks"] += d["checks"]["evaluated"]; tot["discharged_by_solver"] += d["checks"]["discharged"]; tot["constant"] += d["checks"]["constant"]
        tot["unknown"] += d["checks"]["unknown"]
        tot["queries"] += d["solver"]["queries"]; tot["smt_calls"] += d["solver"]["smt_calls"]; tot["solver_s"] += d["solver"]["time_s"]
        funcs |= set(d["functions"])
        for k, v in d["incomplete"].items(): incomplete[k] = incomplete.get(k, 0) + v
        for k, v in d["labels"].items(): labels[k] = labels.get(k, 0) + v
        miss = [r for r in c["reach"] if r not in d["reach"]]
        if miss and not d["violations"]: notes.append(f"case {c['name']}: not reached: {miss}")
        per_case.append({"case": c["name"], "harness": c["harness"], "params": c["params"], "bounds": c.get("bounds", ""), "paths": d["paths"], "checks": d["checks"],
                         "reach": d["reach"], "incomplete": d["incomplete"], "wall_s": round(d["wall_s"], 2), "solver": d["solver"]})
        b = nat[c["harness"]]
        # counterexamples
        for i, v in enumerate(d["violations"]):
            path = os.path.join(V, "evidence", "replay", f"{prop}-{c['name']}-{i}.txt")
            write_replay(path, prop, c, v)
            r = replay(b, path)
            if r["failed"] or r["crash"]:
                what = r["failed"][0] if r["failed"] else r["crash"]
                k = next((e for e in known if e.get("status") == "known" and e["property"] == prop and e["case"] == c["name"] and e["label"] in (v["label"], what)), None)
                if k:
                    seen_known.add(k["id"])
                else:
                    reports.append((c["name"], v["kind"], v["label"], what, path))
            else:
                unrepro += 1
                notes.append(f"case {c['name']}: counterexample for '{v['label']}' ({v['kind']} {v['detail']}) not reproduced by the real code (rc {r['rc']}, diverged {r['diverged']}); inconclusive, replay {path}")
        # validation of the encoding: models of completed paths on the real code
        js = []
        for i, s in enumerate(d["samples"]):
            path = os.path.join(V, "evidence", "replay", f"{prop}-{c['name']}-s{i}.txt")
            write_replay(path, prop, c, s)
            js.append((s, path, rx.submit(replay, b, path)))
        for s, path, j in js:
            r = j.result()
            if r["failed"] or r["crash"]:
                what = r["failed"][0] if r["failed"] else r["crash"]
                k = next((e for e in known if e.get("status") == "known" and e["property"] == prop and e["case"] == c["name"] and e["label"] == what), None)
                if k: seen_known.add(k["id"])
                else: reports.append((c["name"], "model of a completed path fails natively", what, what, path))
                continue
            if r["diverged"] or not r["finished"] or not same_obs(s["obs"], r["obs"]):
                diverged += 1
                x = [(e, n) for e, n in zip(s["obs"], r["obs"]) if e != n][:2]
                notes.append(f"case {c['name']}: a replayed path differs from the encoding: {x} diverged={r['diverged']} {path}")
                continue
            validated += 1
            if len(samples) < 6: samples.append({"case": c["name"], "inputs": s["inputs"][:24], "observed": s["obs"][:12]})
            os.remove(path)
    wall = time.time() - t0
    tot["solver_s"] = round(tot["solver_s"], 2)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": P.get("level", "model_checking"), "wall_s": round(wall, 2), "violations": len(reports),
          "assumptions": (C.ASSUME_PY if pys and len(pys) == len({c["harness"] for c in cs}) else C.ASSUME) + P.get("assume", []),
          "coverage": {"states": tot["paths"] + tot["assume_pruned"] + tot["incomplete_paths"], "transitions": tot["instructions"], "traces_validated_against_impl": validated,
                       "samples": samples or [{"note": "no completed path"}],
                       "meaning": "states = symbolic path states explored to an end; transitions = LLVM instructions (lines, for the Python tools) executed symbolically; each path stands for every input satisfying its condition",
                       "totals": tot, "check_labels": labels, "incomplete": incomplete, "diverged_replays": diverged, "unreproduced_counterexamples": unrepro,
                       "exhaustive_within_bounds": not incomplete and not unrepro and not tot["unknown"], "bounds": P.get("bounds", ""),
                       "cases": per_case, "functions_encoded": len(funcs), "functions": sorted(funcs)[:600], "notes": notes}}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as o:
        json.dump(ev, o, indent=1)
    for n in notes: print("note:", n)
    for e in known:
        if e.get("id") in seen_known: print(f"KNOWN-FINDING: property={prop} {e['what']}")
    print(f"{prop} [{tier}]: {len(per_case)} cases, {tot['paths']} paths, {tot['checks']} checks ({tot['constant']} constant, {tot['discharged_by_solver']} discharged by the solver, "
          f"{tot['unknown']} unknown), {tot['smt_calls']} solver calls {tot['solver_s']} s, {validated} paths validated, incomplete {incomplete}, {wall:.1f} s")
    seen = set()
    for cn, kind, label, what, path in reports:
        if (cn, label) in seen: continue
        seen.add((cn, label))
        print(f"  case {cn}: {kind}: {label} / native: {what}")
        print(f"VIOLATION property={prop} replay={path}")
    return 1 if reports else 0
if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
