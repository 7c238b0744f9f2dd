#!/usr/bin/env python3
"""native.py HARNESS.py REPO: one concrete run of a harness on the repository's unchanged Python sources; inputs from $PFS_REPLAY."""
import importlib, importlib.util, itertools, os, sys
sys.dont_write_bytecode = True
class Stop(BaseException): pass
class Native:
    native = True
    def __init__(self, f):
        self.p, self.v = {}, []
        for l in open(f):
            w = l.split()
            if w and w[0] == "param": self.p[w[1]] = w[2]
            if w and w[0] == "in": self.v.append((w[1], int(w[3])))
    def param(self, n, d=0): return type(d)(self.p.get(n, d))
    def var(self, n):
        if not self.v or self.v[0][0] != n: print("DIVERGED", n); raise Stop
        return self.v.pop(0)[1]
    def choice(self, n, k): return self.var(n)
    def maybe(self, n): return self.var(n) == 1
    def text(self, n, lo, hi, chars):
        k = lo + self.choice(n + "#", 0) if hi > lo else lo
        return "".join(chr(self.var(f"{n}.{i}")) for i in range(k))
    def lit(self, s): return s
    def assume(self, c):
        if not c: print("ASSUME-STOP"); raise Stop
    def reach_(self, l): pass
    def same(self, a, b): return a == b
    def check(self, c, label):
        if not c: print("CHECK-FAILED", label); raise Stop
    def equivalent(self, f, g, n, label):
        def b(t, x): return x[t] if isinstance(t, int) else (all if t[0] == "All" else any)(b(u, x) for u in t[1])
        self.check(all(b(f, x) == b(g, x) for x in itertools.product((False, True), repeat=n)), label)
    def fail(self, label): self.check(False, label)
    def observe(self, n, v): print("OBS", n.encode().hex(), str(v).encode().hex())
    def word(self, c, chars): return c and any(lo <= ord(c) <= hi for lo, hi in ranges(chars))
    def items(self, s): return tuple(s)
    def load(self, name): return importlib.import_module(name)
    def str(self, x): return str(x)
    def note(self, *a): print("NOTE", *a, file=sys.stderr)
def ranges(chars):
    out, i = [], 0
    while i < len(chars):
        if i + 2 < len(chars) and chars[i + 1] == "-": out.append((ord(chars[i]), ord(chars[i + 2]))); i += 3
        else: out.append((ord(chars[i]), ord(chars[i]))); i += 1
    return out
s = importlib.util.spec_from_file_location("harness", sys.argv[1])
h = importlib.util.module_from_spec(s)
s.loader.exec_module(h)
sys.path[:0] = [os.path.join(sys.argv[2], f) for f in h.FOLDERS]
try:
    h.main(Native(os.environ["PFS_REPLAY"]))
    print("FINISHED")
except Stop: pass
except Exception as e:
    import traceback
    traceback.print_exc()
    print(f"terminate called: {type(e).__name__}: {e}"[:200], file=sys.stderr)
    sys.exit(1)
