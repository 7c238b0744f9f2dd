#!/usr/bin/env python3
"""run.py -o OUT [--seed N] [--samples N] [--time S] [--steps N] [-p name=value]... HARNESS.py REPO
   Explores every path of a harness over the repository's Python sources; the solver decides every branch and assertion."""
import importlib.util, json, os, sys, time, traceback, warnings
import z3
import sym
from sym import Prune, Limit, SymStr, branch, expr, lit, mk
class Explore:
    def __init__(self, a):
        self.a, self.queue, self.samples, self.viol, self.labels, self.reach, self.funcs = a, [[]], [], {}, {}, set(), set()
        self.n = dict(done=0, assume=0, incomplete=0)
        self.inc, self.forks, self.steps_all, self.calls, self.solver_t, self.slowest = {}, 0, 0, 0, 0.0, 0.0
        self.ch = dict(evaluated=0, discharged=0, constant=0, unknown=0)
    def sat(self, *cs):
        t = time.time()
        self.calls += 1
        r = self.solver.check(*cs)
        t = time.time() - t
        self.solver_t += t
        self.slowest = max(self.slowest, t)
        if r == z3.unknown: raise Limit("solver gave no answer")
        return r == z3.sat
    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            if not self.sat(c): v = False
            elif not self.sat(z3.Not(c)): v = True
            else:
                self.forks += 1
                self.queue.append(self.prefix + [False])
                v = True
            self.prefix.append(v)
        self.pos += 1
        self.solver.add(c if v else z3.Not(c))
        return v
    def pin(self, c):
        if isinstance(c, str): return c
        while True:
            if self.pos < len(self.prefix) and isinstance(self.prefix[self.pos], int) and not isinstance(self.prefix[self.pos], bool):
                v = self.prefix[self.pos]
            else:
                self.sat()
                v = self.solver.model().eval(c, True).as_long()
                self.prefix.append(v)
            self.pos += 1
            if self.branch(c == v): return chr(v)
    # --- what a harness sees
    native = False
    def param(self, n, d=0): return type(d)(self.a["p"].get(n, d))
    def var(self, n, lo, hi):
        v = z3.BitVec(n, 8)
        self.inputs.append((n, v))
        self.solver.add(z3.UGE(v, lo), z3.ULE(v, hi))
        return v
    def choice(self, n, k):
        v = self.var(n, 0, k - 1)
        for i in range(k - 1):
            if branch(v == i): return i
        return k - 1
    def maybe(self, n): return self.choice(n, 2) == 1
    def text(self, n, lo, hi, chars):
        k = lo + self.choice(n + "#", hi - lo + 1) if hi > lo else lo
        out = []
        for i in range(k):
            v = self.var(f"{n}.{i}", 0, 127)
            self.solver.add(expr(sym.Or(*[sym.crange(v, *r) for r in ranges(chars)])))
            out.append(v)
        return mk(out)
    def lit(self, s): return lit(s)
    def assume(self, c):
        if not branch(expr(c)): raise Prune
    def reach_(self, l): self.reach.add(l)
    def same(self, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b): return False
            return sym.mkbool(sym.And(*[expr(self.same(x, y)) for x, y in zip(a, b)]))
        if isinstance(a, SymStr) and isinstance(b, SymStr): return sym.mkbool(sym.S(a).eqx(b)) # real strings included
        return a == b
    def check(self, c, label):
        self.ch["evaluated"] += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        c = expr(c)
        if c is True: self.ch["constant"] += 1; return
        if c is not False:
            c = z3.simplify(c)
            if not self.sat(z3.Not(c)): self.ch["discharged"] += 1; return
        else: c = z3.BoolVal(False)
        self.solver.push()
        self.solver.add(z3.Not(c))
        self.violation("check", label)
        self.solver.pop()
        self.assume(sym.mkbool(z3.simplify(c)))
    def equivalent(self, f, g, n, label):
        """two formulas over n atoms (nested ('All'|'Any', …) or numbers) agree for every truth assignment"""
        xs = [z3.Bool(f"atom{i}") for i in range(n)]
        def b(t): return xs[t] if isinstance(t, int) else (z3.And if t[0] == "All" else z3.Or)(*[b(u) for u in t[1]]) if t[1] else z3.BoolVal(t[0] == "All")
        self.ch["evaluated"] += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        if self.sat(b(f) != b(g)):
            self.violation("check", label)
            raise Prune
        self.ch["discharged"] += 1
    def fail(self, label): self.check(False, label)
    def observe(self, n, v): self.obs.append((n, v))
    def word(self, c, chars): return branch(sym.Or(*[sym.crange(c, *r) for r in ranges(chars)]))
    def items(self, s): return sym.S(s).c
    def char(self, c): return mk((c,))
    def load(self, name): return self.loader.load(name)
    def str(self, x): return sym.tostr(x)
    def note(self, *a): pass
    # ---
    def model(self):
        self.sat()
        return self.solver.model()
    def violation(self, kind, label, detail=""):
        if (kind, label) in self.viol: return
        if not self.sat(): return
        m = self.solver.model()
        self.viol[kind, label] = {"kind": kind, "label": label, "detail": detail, "inputs": [[n, 8, m.eval(v, True).as_long()] for n, v in self.inputs]}
    def hook(self, code):
        mon, t = sys.monitoring, 4
        def walk(c):
            mon.set_local_events(t, c, mon.events.LINE | mon.events.PY_START)
            for k in c.co_consts:
                if hasattr(k, "co_code"): walk(k)
        walk(code)
    def line(self, code, n):
        self.steps += 1
        if self.steps > self.a["steps"]: raise Limit("steps")
    def start(self, code, off): self.funcs.add(os.path.basename(code.co_filename) + ":" + code.co_qualname)
    def run(self, harness, folders):
        t0 = time.time()
        mon = sys.monitoring
        mon.use_tool_id(4, "pysym")
        mon.register_callback(4, mon.events.LINE, self.line)
        mon.register_callback(4, mon.events.PY_START, self.start)
        sym.EX = self
        while self.queue:
            if time.time() - t0 > self.a["time"]:
                self.inc["time limit"] = len(self.queue)
                self.n["incomplete"] += len(self.queue)
                break
            self.prefix, self.pos, self.steps = self.queue.pop(), 0, 0
            self.inputs, self.obs = [], []
            self.solver = z3.SolverFor("QF_BV")
            self.solver.set("timeout", 20000)
            self.loader = sym.Loader(folders, self.hook)
            end = "done"
            try: harness.main(self)
            except Prune: end = "assume"
            except Limit as e:
                if str(e) == "steps": self.violation("termination", "does not terminate")
                else: end = "incomplete"; self.inc[str(e)] = self.inc.get(str(e), 0) + 1
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                where = next((f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb) if any(f.filename.startswith(d) for d in folders)), f"{tb[-1].filename}:{tb[-1].lineno}")
                if self.a["p"].get("trace"): traceback.print_exc()
                self.violation("exception", f"{type(e).__name__} at {where}", sym.tostr(e).__str__()[:100])
            self.n[end] += 1
            self.steps_all += self.steps
            if end == "done" and not self.viol:
                k, s = self.n["done"], self.a["samples"]
                if len(self.samples) < s or (k * 2654435761 + self.a["seed"]) % max(1, k // s * 2) == 0:
                    m = self.model()
                    ev = lambda v: "".join(i if isinstance(i, str) else chr(m.eval(i, True).as_long()) for i in v.c) if isinstance(v, SymStr) else str(v)
                    x = {"inputs": [[n, 8, m.eval(v, True).as_long()] for n, v in self.inputs], "obs": [[n.encode().hex(), ev(v).encode().hex()] for n, v in self.obs]}
                    self.samples = self.samples + [x] if len(self.samples) < s else self.samples[1:] + [x]
        return {"paths": self.n, "forks": self.forks, "instructions": self.steps_all, "checks": self.ch, "functions": sorted(self.funcs), "incomplete": self.inc, "labels": self.labels,
                "solver": {"queries": self.calls, "smt_calls": self.calls, "time_s": round(self.solver_t, 3), "slowest_s": round(self.slowest, 3)}, "reach": sorted(self.reach),
                "violations": list(self.viol.values()), "samples": self.samples, "wall_s": time.time() - t0}
def ranges(chars):
    """'a-z_' as pairs of codes"""
    out, i = [], 0
    while i < len(chars):
        if i + 2 < len(chars) and chars[i + 1] == "-": out.append((ord(chars[i]), ord(chars[i + 2]))); i += 3
        else: out.append((ord(chars[i]), ord(chars[i]))); i += 1
    return out
def main():
    v, a = sys.argv[1:], dict(p={}, seed=1, samples=4, time=60.0, steps=200000)
    pos = []
    while v:
        x = v.pop(0)
        if x == "-o": a["o"] = v.pop(0)
        elif x == "-p": k, w = v.pop(0).split("="); a["p"][k] = w
        elif x in ("--seed", "--samples", "--steps"): a[x[2:]] = int(v.pop(0))
        elif x == "--time": a["time"] = float(v.pop(0))
        else: pos.append(x)
    harness = load(pos[0])
    sys.setrecursionlimit(5000)
    warnings.simplefilter('ignore')
    d = Explore(a).run(harness, [os.path.join(pos[1], f) for f in harness.FOLDERS])
    json.dump(d, open(a["o"], "w"))
def load(p):
    s = importlib.util.spec_from_file_location("harness", p)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m
if __name__ == "__main__": main()
