#!/usr/bin/env python3
"""dev.py HARNESS [name=val ...] [--time s] [--native N]: run one symbolic execution and print a summary."""
import sys, subprocess, json, build, os, tempfile
h = sys.argv[1]; ps = []; extra = []; nat = 0; raw=False
it = iter(sys.argv[2:])
for a in it:
    if a == "--native": nat = int(next(it))
    elif a == "--raw": raw=True
    elif a.startswith("--"):
        extra.append(a)
        if a not in ("--trace",): extra.append(next(it))
    else: ps += ["-p", a]
try:
    e = build.engine(); r = build.rt_bc(); q = build.repo_bc(); hb = build.harness_bc(h)
    rt, rp, hb = build.link_bc(r, "rt"), build.link_bc(q, "repo"), hb.result()
except build.BuildError as x:
    print(str(x)[:1500]); os._exit(2)
out = f"/tmp/dev-{h}.json"
env = dict(os.environ, PFSYM_DEBUG="1")
if os.path.exists(out): os.remove(out)
subprocess.run([e, "-o", out, "--samples", str(max(nat, 2))] + ps + extra + ["--time", "120", hb, rp, "--rt", rt] if "--time" not in extra else [e, "-o", out, "--samples", str(max(nat,2))] + ps + extra + [hb, rp, "--rt", rt], env=env)
d = json.load(open(out)); nf = len(d["functions"]); del d["functions"]
for k in ("wall_s", "paths", "forks", "instructions", "checks", "incomplete", "reach", "labels", "solver"): print(k, d[k])
for v in d["violations"]: print("VIOL", json.dumps(v)[:900])
print("repo functions", nf)
if nat or d["violations"]:
    n = build.native(h)
    for kind, l in (("viol", d["violations"]), ("sample", d["samples"][:nat])):
        for i, s in enumerate(l):
            f = f"/tmp/dev-{h}.{kind}{i}.txt"
            with open(f, "w") as o:
                for p in ps:
                    if p != "-p": o.write("param %s %s\n" % tuple(p.split("=")))
                for x in s["inputs"]: o.write("in %s %d %s\n" % tuple(x))
            p = subprocess.run([n], env=dict(os.environ, PFS_REPLAY=f, ASAN_OPTIONS="detect_leaks=0"), capture_output=True, text=True)
            ob = [l.split(" ") for l in p.stdout.splitlines() if l.startswith("OBS ")]
            same = [[a[1], a[2]] for a in ob] == s.get("obs", None)
            bad = [l for l in p.stdout.splitlines() if not l.startswith(("OBS", "REACH", "FINISHED"))]
            print(kind, i, "rc", p.returncode, "obs-match" if same else "obs-DIFFER" if kind == "sample" else "", bad[:5], p.stderr[:600] if (p.returncode or raw) else "")
            if kind == "sample" and not same: print("   engine", s["obs"], "\n   native", ob)
