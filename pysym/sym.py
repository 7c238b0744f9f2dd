"""Symbolic values for the repository's Python tools: strings whose characters may be symbolic, decided by Z3.

The tools' sources are parsed anew on every run; every string literal becomes a SymStr and `str`, `re`, `print` … are replaced by
versions that work on them. A condition on symbolic characters asks the solver which outcomes are possible and forks."""
import ast, builtins, re, string, sys, types
import z3
try:
    import re._parser as sre
    import re._constants as K
except ImportError:
    import sre_parse as sre, sre_constants as K

class Prune(BaseException): pass
class Limit(BaseException): pass
class Unsupported(Exception): pass
EX = None # the current exploration

def branch(cond):
    if isinstance(cond, bool): return cond
    return EX.branch(cond)
class SymBool:
    __slots__ = ("e",)
    def __init__(self, e): self.e = e
    def __bool__(self): return branch(self.e)
def mkbool(e):
    if isinstance(e, bool): return e
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return SymBool(e)
def expr(b): return b.e if isinstance(b, SymBool) else b
def And(*xs):
    xs = [x for x in xs if x is not True]
    if any(x is False for x in xs): return False
    return True if not xs else xs[0] if len(xs) == 1 else z3.And(*xs)
def Or(*xs):
    xs = [x for x in xs if x is not False]
    if any(x is True for x in xs): return True
    return False if not xs else xs[0] if len(xs) == 1 else z3.Or(*xs)
def Not(x): return (not x) if isinstance(x, bool) else z3.Not(x)
# --- characters: a real one-character string, or an 8-bit term
def ceq(a, b):
    if isinstance(a, str) and isinstance(b, str): return a == b
    if isinstance(a, str): a, b = b, a
    if isinstance(b, str):
        return False if ord(b) > 255 else a == ord(b)
    return True if a.eq(b) else a == b
def crange(a, lo, hi):
    if isinstance(a, str): return lo <= ord(a) <= hi
    if lo > 127: return False # symbolic characters are ASCII
    return z3.And(z3.UGE(a, lo), z3.ULE(a, min(hi, 127)))
def cin(a, chars):
    if isinstance(a, str): return a in chars
    return Or(*[ceq(a, c) for c in chars])
SPACE = " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f"
def cspace(a): return a.isspace() if isinstance(a, str) else cin(a, SPACE)

class Meta(type):
    def __instancecheck__(cls, x): return type.__instancecheck__(cls, x) or (cls is SymStr and builtins.isinstance(x, str))
def conc(x): # the real string, or None
    if builtins.type(x) is SymStr: return x.s
    return x if builtins.isinstance(x, str) else None
def S(x):
    if builtins.type(x) is SymStr: return x
    return lit(x)
def lit(s):
    r = object.__new__(SymStr)
    r.s, r.c = s, tuple(s)
    return r
def mk(items):
    items = tuple(items)
    r = object.__new__(SymStr)
    r.c = items
    r.s = "".join(items) if all(isinstance(i, str) for i in items) else None
    return r
def wrap(x):
    if builtins.type(x) is str: return lit(x)
    if builtins.type(x) is list: return [wrap(i) for i in x]
    if builtins.type(x) is tuple: return tuple(wrap(i) for i in x)
    return x
def unwrap(x):
    if builtins.type(x) is SymStr: return x.s
    if builtins.type(x) is tuple: return tuple(unwrap(i) for i in x)
    if builtins.type(x) is list: return [unwrap(i) for i in x]
    return x
def fully(x):
    if builtins.type(x) is SymStr: return x.s is not None
    if builtins.type(x) in (tuple, list): return all(fully(i) for i in x)
    return True
def realize(x):
    if builtins.type(x) is SymStr and x.s is None: return lit("".join(EX.pin(i) for i in x.c))
    if builtins.type(x) in (tuple, list): return type(x)(realize(i) for i in x)
    return x
def tostr(x):
    """str(x) for a value of the program"""
    if builtins.isinstance(x, (SymStr, str)): return S(x)
    f = builtins.type(x).__str__
    if builtins.isinstance(f, types.FunctionType): return S(f(x))
    if builtins.isinstance(x, BaseException): return S("") if not x.args else tostr(x.args[0]) if len(x.args) == 1 else S(f(x))
    return S(f(x))
def torepr(x):
    if builtins.type(x) is SymStr: return S(repr(x.s)) if x.s is not None else mk(("'",) + x.c + ("'",))
    f = builtins.type(x).__repr__
    return S(f(x))

class SymStr(metaclass=Meta):
    __slots__ = ("s", "c")
    def __new__(cls, x="", *a): return tostr(x)
    def __len__(self): return len(self.c)
    def __bool__(self): return bool(self.c)
    def __hash__(self): return 0
    def __iter__(self): return iter([mk((i,)) for i in self.c])
    def __getitem__(self, k): return mk(self.c[k]) if isinstance(k, slice) else mk((self.c[k],))
    def __str__(self): return self.s if self.s is not None else "<symbolic>"
    def __repr__(self): return repr(self.__str__())
    def eqx(self, o):
        o = S(o)
        if self.s is not None and o.s is not None: return self.s == o.s
        if len(self.c) != len(o.c): return False
        return And(*[ceq(a, b) for a, b in zip(self.c, o.c)])
    def __eq__(self, o):
        t = builtins.type(o)
        if t is str: return self.s == o if self.s is not None else mkbool(self.eqx(o))
        if t is not SymStr: return NotImplemented
        return mkbool(self.eqx(o))
    def __ne__(self, o):
        if not builtins.isinstance(o, (SymStr, str)): return NotImplemented
        return mkbool(Not(self.eqx(o)))
    def lt(self, o):
        o = S(o)
        if self.s is not None and o.s is not None: return self.s < o.s
        for a, b in zip(self.c, o.c):
            if branch(ceq(a, b)): continue
            a, b = (ord(i) if isinstance(i, str) else i for i in (a, b))
            return a < b if isinstance(a, int) and isinstance(b, int) else branch(z3.ULT(*(z3.BitVecVal(i, 8) if isinstance(i, int) else i for i in (a, b))))
        return len(self.c) < len(o.c)
    def __lt__(self, o): return self.lt(o)
    def __gt__(self, o): return S(o).lt(self)
    def __le__(self, o): return not S(o).lt(self)
    def __ge__(self, o): return not self.lt(o)
    def __add__(self, o):
        if not builtins.isinstance(o, (SymStr, str)): raise TypeError("can only concatenate str")
        return mk(self.c + S(o).c)
    def __radd__(self, o): return S(o) + self
    def __mul__(self, n): return mk(self.c * n)
    __rmul__ = __mul__
    def __contains__(self, o): return find(self, S(o)) >= 0
    def __mod__(self, a):
        t = realize(self).s
        out, i, k = [], 0, 0
        for m in re.finditer(r"%(?:\((\w+)\))?([-#0 +]*\d*(?:\.\d+)?)([sdrixXfeg%])", t):
            out += t[i:m.start()]
            i = m.end()
            if m.group(3) == "%": out += "%"; continue
            if m.group(1): v = a[lit(m.group(1))]
            elif isinstance(a, tuple): v = a[k]; k += 1
            else: v = a
            if m.group(3) == "s" and not m.group(2): out += tostr(v).c
            elif m.group(3) == "r" and not m.group(2): out += torepr(v).c
            else: out += ("%" + m.group(2) + m.group(3)) % (unwrap(realize(v)),)
        return mk(tuple(out) + tuple(t[i:]))
    def __int__(self): return int(realize(self).s)
    def __float__(self): return float(realize(self).s)
    def __format__(self, spec): return format(realize(self).s, spec)
def find(t, o, lo=0, hi=None, last=False):
    hi = len(t.c) if hi is None else hi
    r = range(lo, hi - len(o.c) + 1)
    for i in (reversed(r) if last else r):
        if branch(And(*[ceq(a, b) for a, b in zip(t.c[i:i + len(o.c)], o.c)])): return i
    return -1
# methods on symbolic text; anything else first fixes its characters, one path per text
class Impl:
    @staticmethod
    def strip(t, chars=None): return Impl.rstrip(Impl.lstrip(t, chars), chars)
    @staticmethod
    def lstrip(t, chars=None):
        i = 0
        while i < len(t.c) and branch(cspace(t.c[i]) if chars is None else cin2(t.c[i], chars)): i += 1
        return mk(t.c[i:])
    @staticmethod
    def rstrip(t, chars=None):
        i = len(t.c)
        while i and branch(cspace(t.c[i - 1]) if chars is None else cin2(t.c[i - 1], chars)): i -= 1
        return mk(t.c[:i])
    @staticmethod
    def split(t, sep=None, maxsplit=-1):
        out, i, n = [], 0, 0
        if sep is None:
            while True:
                while i < len(t.c) and branch(cspace(t.c[i])): i += 1
                if i == len(t.c): return out
                if 0 <= maxsplit <= n: return out + [Impl.rstrip(mk(t.c[i:]))]
                j = i
                while j < len(t.c) and not branch(cspace(t.c[j])): j += 1
                out.append(mk(t.c[i:j]))
                i, n = j, n + 1
        sep = S(sep)
        if not len(sep): raise ValueError("empty separator")
        while maxsplit < 0 or n < maxsplit:
            j = find(t, sep, i)
            if j < 0: break
            out.append(mk(t.c[i:j]))
            i, n = j + len(sep), n + 1
        return out + [mk(t.c[i:])]
    @staticmethod
    def rsplit(t, sep=None, maxsplit=-1):
        if maxsplit < 0: return Impl.split(t, sep)
        if sep is None: raise Unsupported
        sep, out, j = S(sep), [], len(t.c)
        while len(out) < maxsplit:
            i = find(t, sep, 0, j, True)
            if i < 0: break
            out.insert(0, mk(t.c[i + len(sep):j]))
            j = i
        return [mk(t.c[:j])] + out
    @staticmethod
    def partition(t, sep):
        sep = S(sep)
        i = find(t, sep)
        return (t, lit(""), lit("")) if i < 0 else (mk(t.c[:i]), sep, mk(t.c[i + len(sep):]))
    @staticmethod
    def rpartition(t, sep):
        sep = S(sep)
        i = find(t, sep, 0, None, True)
        return (lit(""), lit(""), t) if i < 0 else (mk(t.c[:i]), sep, mk(t.c[i + len(sep):]))
    @staticmethod
    def splitlines(t, keepends=False):
        out, i = [], 0
        for j, a in enumerate(t.c):
            if branch(cin(a, "\n\r\x0b\x0c\x1c\x1d\x1e")): out.append(mk(t.c[i:j + bool(keepends)])); i = j + 1
        return out + ([mk(t.c[i:])] if i < len(t.c) else [])
    @staticmethod
    def find(t, o, lo=0, hi=None): return find(t, S(o), lo, hi)
    @staticmethod
    def rfind(t, o, lo=0, hi=None): return find(t, S(o), lo, hi, True)
    @staticmethod
    def index(t, o, lo=0, hi=None):
        i = find(t, S(o), lo, hi)
        if i < 0: raise ValueError("substring not found")
        return i
    @staticmethod
    def count(t, o): return len(Impl.split(t, o)) - 1
    @staticmethod
    def startswith(t, o, lo=0):
        if isinstance(o, tuple): return any(Impl.startswith(t, i, lo) for i in o)
        o = S(o)
        return len(o) + lo <= len(t.c) and branch(mk(t.c[lo:lo + len(o)]).eqx(o))
    @staticmethod
    def endswith(t, o):
        if isinstance(o, tuple): return any(Impl.endswith(t, i) for i in o)
        o = S(o)
        return len(o) <= len(t.c) and branch(mk(t.c[len(t.c) - len(o):]).eqx(o))
    @staticmethod
    def removeprefix(t, o): return mk(t.c[len(o):]) if Impl.startswith(t, o) else t
    @staticmethod
    def removesuffix(t, o): return mk(t.c[:len(t.c) - len(o)]) if len(o) and Impl.endswith(t, o) else t
    @staticmethod
    def replace(t, a, b, n=-1): return Impl.join(S(b), Impl.split(t, a, n))
    @staticmethod
    def join(t, xs):
        out = []
        for i, x in enumerate(xs):
            if not builtins.isinstance(x, (SymStr, str)): raise TypeError("sequence item: expected str instance")
            if i: out += t.c
            out += S(x).c
        return mk(out)
    @staticmethod
    def isspace(t): return bool(t.c) and branch(And(*[cspace(a) for a in t.c]))
    @staticmethod
    def isdigit(t): return bool(t.c) and branch(And(*[crange(a, 48, 57) for a in t.c]))
    @staticmethod
    def isalpha(t): return bool(t.c) and branch(And(*[Or(crange(a, 65, 90), crange(a, 97, 122)) for a in t.c]))
    @staticmethod
    def isalnum(t): return bool(t.c) and branch(And(*[Or(crange(a, 48, 57), crange(a, 65, 90), crange(a, 97, 122)) for a in t.c]))
    @staticmethod
    def lower(t): return mk([a.lower() if isinstance(a, str) else z3.If(crange(a, 65, 90), a + 32, a) for a in t.c])
    @staticmethod
    def upper(t): return mk([a.upper() if isinstance(a, str) else z3.If(crange(a, 97, 122), a - 32, a) for a in t.c])
    @staticmethod
    def format(t, *a, **k):
        t, out, auto = realize(t).s, [], 0
        for text, name, spec, conv in string.Formatter().parse(t):
            out += text
            if name is None: continue
            m = re.match(r"[^.\[]*", name)
            first, rest = m.group(0), name[m.end():]
            if first == "": v = a[auto]; auto += 1
            elif first.isdigit(): v = a[int(first)]
            else: v = k[first]
            for at, ix in re.findall(r"\.(\w+)|\[([^\]]*)\]", rest):
                v = getattr(v, at) if at else v[int(ix) if ix.isdigit() else lit(ix)]
            out += fmt(v, conv, spec).c
        return mk(out)
def cin2(a, chars):
    return Or(*[ceq(a, b) for b in S(chars).c])
def fmt(v, conv=None, spec=""):
    if conv == "r": v = torepr(v)
    elif conv == "s" or not spec: v = tostr(v)
    if not spec: return tostr(v)
    return lit(format(unwrap(realize(v)), unwrap(realize(spec))))
def method(name):
    real, sym = getattr(str, name), getattr(Impl, name, None)
    def m(self, *a, **k):
        self = S(self)
        if name == "join" and a: a = (list(a[0]),) + a[1:]
        if name == "format": return Impl.format(self, *a, **k)
        if name == "join": return Impl.join(self, a[0])
        if self.s is not None and fully(a) and fully(tuple(k.values())):
            return wrap(real(self.s, *unwrap(a), **{x: unwrap(y) for x, y in k.items()}))
        if sym:
            try: return sym(self, *a, **k)
            except Unsupported: pass
        return wrap(real(realize(self).s, *unwrap(realize(a)), **{x: unwrap(realize(y)) for x, y in k.items()}))
    return m
for _n in dir(str):
    if not _n.startswith("_"): setattr(SymStr, _n, method(_n))

# --- regular expressions
CAT = {K.CATEGORY_DIGIT: lambda a: crange(a, 48, 57), K.CATEGORY_SPACE: cspace,
       K.CATEGORY_WORD: lambda a: Or(crange(a, 48, 57), crange(a, 65, 90), crange(a, 97, 122), ceq(a, "_")),
       K.CATEGORY_NOT_DIGIT: lambda a: Not(crange(a, 48, 57)), K.CATEGORY_NOT_SPACE: lambda a: Not(cspace(a)),
       K.CATEGORY_NOT_WORD: lambda a: Not(CAT[K.CATEGORY_WORD](a))}
def inset(a, items):
    neg, alt = False, []
    for op, arg in items:
        if op is K.NEGATE: neg = True
        elif op is K.LITERAL: alt.append(ceq(a, chr(arg)))
        elif op is K.RANGE: alt.append(crange(a, *arg))
        elif op is K.CATEGORY: alt.append(CAT[arg](a))
        else: raise Unsupported(op)
    return Not(Or(*alt)) if neg else Or(*alt)
class Match:
    def __init__(self, p, t, lo, hi, g):
        self.re, self.string, self.lo, self.hi, self.g = p, t, lo, hi, g
    def _n(self, k):
        k = conc(k) if builtins.isinstance(k, (SymStr, str)) else k
        return self.re.names[k] if isinstance(k, str) else k
    def span(self, k=0):
        k = self._n(k)
        return (self.lo, self.hi) if k == 0 else self.g.get(k, (-1, -1))
    def start(self, k=0): return self.span(k)[0]
    def end(self, k=0): return self.span(k)[1]
    def one(self, k, default=None):
        lo, hi = self.span(k)
        if self._n(k) > self.re.groups: raise IndexError("no such group")
        return default if lo < 0 else self.string[lo:hi]
    def group(self, *ks):
        ks = ks or (0,)
        return self.one(ks[0]) if len(ks) == 1 else tuple(self.one(k) for k in ks)
    __getitem__ = one
    def groups(self, default=None): return tuple(self.one(k, default) for k in range(1, self.re.groups + 1))
    def groupdict(self, default=None): return {lit(n): self.one(k, default) for n, k in self.re.names.items()}
    @property
    def lastindex(self): return max(self.g) if self.g else None
class Pattern:
    def __init__(self, p, flags=0):
        self.pattern = S(p)
        self.real = re.compile(realize(self.pattern).s, flags)
        self.flags, self.names, self.groups = self.real.flags, self.real.groupindex, self.real.groups
        self.tree = sre.parse(self.real.pattern, flags)
        self.simple = not self.flags & (re.IGNORECASE | re.MULTILINE | re.VERBOSE)
    def run(self, t, pos, full):
        def m(ops, k, i, g, cont):
            if k == len(ops): return cont(i, g)
            op, arg = ops[k]
            nxt = lambda i, g: m(ops, k + 1, i, g, cont)
            if op in (K.LITERAL, K.NOT_LITERAL, K.ANY, K.IN):
                if i >= len(t.c): return None
                a = t.c[i]
                c = ceq(a, chr(arg)) if op is K.LITERAL else Not(ceq(a, chr(arg))) if op is K.NOT_LITERAL else inset(a, arg) if op is K.IN else \
                    True if self.flags & re.DOTALL else Not(ceq(a, "\n"))
                return nxt(i + 1, g) if branch(c) else None
            if op is K.BRANCH:
                for alt in arg[1]:
                    r = m(alt, 0, i, g, nxt)
                    if r: return r
                return None
            if op is K.SUBPATTERN:
                n, add, sub, body = arg
                if add or sub: raise Unsupported(op)
                return m(body, 0, i, g, lambda j, h: nxt(j, dict(h, **{}) if n is None else {**h, n: (i, j)}))
            if op in (K.MAX_REPEAT, K.MIN_REPEAT):
                lo, hi, body = arg
                def rep(n, i, g):
                    more = lambda: m(body, 0, i, g, lambda j, h: rep(n + 1, j, h) if j != i or n < lo else None) if n < hi else None
                    stop = lambda: nxt(i, g) if n >= lo else None
                    return (more() or stop()) if op is K.MAX_REPEAT else (stop() or more())
                return rep(0, i, g)
            if op is K.AT:
                if arg in (K.AT_BEGINNING, K.AT_BEGINNING_STRING): return nxt(i, g) if i == 0 else None
                if arg is K.AT_END: return nxt(i, g) if i == len(t.c) or (i == len(t.c) - 1 and branch(ceq(t.c[i], "\n"))) else None
                if arg is K.AT_END_STRING: return nxt(i, g) if i == len(t.c) else None
                if arg in (K.AT_BOUNDARY, K.AT_NON_BOUNDARY):
                    w = lambda j: 0 <= j < len(t.c) and branch(CAT[K.CATEGORY_WORD](t.c[j]))
                    return nxt(i, g) if (w(i - 1) != w(i)) == (arg is K.AT_BOUNDARY) else None
                raise Unsupported(arg)
            if op in (K.ASSERT, K.ASSERT_NOT) and arg[0] > 0:
                r = m(arg[1], 0, i, g, lambda j, h: (j, h))
                return nxt(i, r[1] if r else g) if bool(r) == (op is K.ASSERT) else None
            raise Unsupported(op)
        return m(self.tree, 0, pos, {}, lambda i, g: (i, g) if not full or i == len(t.c) else None)
    def at(self, t, pos=0, full=False, search=False):
        t = S(t)
        if t.s is None and self.simple:
            try:
                for i in range(pos, (len(t.c) if search else pos) + 1):
                    r = self.run(t, i, full)
                    if r: return Match(self, t, i, *r)
                return None
            except Unsupported: t = realize(t)
        t = realize(t)
        r = (self.real.search if search else self.real.fullmatch if full else self.real.match)(t.s, pos)
        return r and Match(self, t, r.start(), r.end(), {k: r.span(k) for k in range(1, self.groups + 1) if r.start(k) >= 0})
    def match(self, t, pos=0): return self.at(t, pos)
    def fullmatch(self, t, pos=0): return self.at(t, pos, full=True)
    def search(self, t, pos=0): return self.at(t, pos, search=True)
    def finditer(self, t):
        t, out, pos = S(t), [], 0
        while pos <= len(t.c):
            m = self.search(t, pos)
            if not m: break
            out.append(m)
            pos = m.hi if m.hi > m.lo else m.hi + 1
        return out
    def findall(self, t): return [(m.group() if not self.groups else m.groups(lit(""))[0] if self.groups == 1 else m.groups(lit(""))) for m in self.finditer(t)]
    def split(self, t, maxsplit=0):
        t, out, i = S(t), [], 0
        for m in self.finditer(t):
            if maxsplit and len(out) >= maxsplit * (1 + self.groups): break
            out.append(t[i:m.lo])
            out += m.groups()
            i = m.hi
        return out + [t[i:]]
    def sub(self, r, t, count=0):
        t, out, i = S(t), [], 0
        for n, m in enumerate(self.finditer(t)):
            if count and n >= count: break
            out += t.c[i:m.lo]
            if callable(r): out += S(r(m)).c
            else:
                q = realize(S(r)).s
                if "\\" in q: q = None
                if q is None: raise NotImplementedError("template in re.sub")
                out += q
            i = m.hi
        return mk(tuple(out) + t.c[i:])
PATTERNS, CODE = {}, {}
class Re:
    error = re.error
    Pattern, Match = Pattern, Match
    @staticmethod
    def compile(p, flags=0):
        if isinstance(p, Pattern): return p
        k = (realize(S(p)).s, int(flags))
        if k not in PATTERNS: PATTERNS[k] = Pattern(*k)
        return PATTERNS[k]
    escape = staticmethod(lambda t: lit(re.escape(realize(S(t)).s)))
for _f in ("I IGNORECASE M MULTILINE S DOTALL X VERBOSE A ASCII U UNICODE".split()): setattr(Re, _f, getattr(re, _f))
for _f in ("match", "fullmatch", "search", "finditer", "findall", "split"):
    setattr(Re, _f, staticmethod((lambda f: lambda p, t, *a, flags=0, **k: getattr(Re.compile(p, flags), f)(t, *a, **k))(_f)))
Re.sub = staticmethod(lambda p, r, t, count=0, flags=0: Re.compile(p, flags).sub(r, t, count))

# --- loading the program under test
class Rewrite(ast.NodeTransformer):
    def visit_Constant(self, n):
        if type(n.value) is not str: return n
        return ast.copy_location(ast.Call(ast.Name("_S_", ast.Load()), [ast.Constant(n.value)], []), n)
    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant): return n # documentation
        return self.generic_visit(n)
    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant): parts.append(ast.Call(ast.Name("_S_", ast.Load()), [v], []))
            else: parts.append(ast.Call(ast.Name("_F_", ast.Load()), [self.visit(v.value), ast.Constant(None if v.conversion < 0 else chr(v.conversion)),
                                                                     self.visit(v.format_spec) if v.format_spec else ast.Constant("")], []))
        return ast.copy_location(ast.Call(ast.Name("_J_", ast.Load()), [ast.List(parts, ast.Load())], []), n)
    def visit_Attribute(self, n):
        self.generic_visit(n)
        if n.attr in ("__name__", "__qualname__", "__doc__") and isinstance(n.ctx, ast.Load):
            return ast.copy_location(ast.Call(ast.Name("_N_", ast.Load()), [n], []), n)
        return n
    def visit_Name(self, n):
        if n.id == "__name__" and isinstance(n.ctx, ast.Load): return ast.copy_location(ast.Call(ast.Name("_N_", ast.Load()), [n], []), n)
        return n
    def visit_MatchValue(self, n): raise SyntaxError("match statement")
class Out:
    own_ = True # of this module or of a harness: no boundary around it
    def write(self, *a): return 0
    def flush(self): pass
class Proxy(types.ModuleType):
    def __init__(self, m, over):
        super().__init__(m.__name__)
        self.__dict__["_m"], self.__dict__["_o"] = m, over
    def __getattr__(self, n):
        o = self.__dict__["_o"]
        return o[n] if n in o else getattr(self.__dict__["_m"], n)
class Boundary:
    """A library object that is not executed symbolically: concrete strings are handed over as they are and taken back."""
    def __init__(self, o): object.__setattr__(self, "_o", o)
    def __getattr__(self, n): return outw(getattr(self._o, n))
    def __setattr__(self, n, v): setattr(self._o, n, inw(v))
    def __call__(self, *a, **k): return outw(self._o(*inw(a), **{q: inw(v) for q, v in k.items()}))
    def __iter__(self): return (outw(i) for i in self._o)
    def __next__(self): return outw(next(self._o))
    def __getitem__(self, k): return outw(self._o[inw(k)])
    def __setitem__(self, k, v): self._o[inw(k)] = inw(v)
    def __contains__(self, k): return inw(k) in self._o
    def __len__(self): return len(self._o)
    def __bool__(self): return bool(self._o)
    def __eq__(self, o): return self._o == inw(o)
    def __hash__(self): return hash(self._o)
    def __str__(self): return str(self._o)
    def __or__(self, o): return outw(self._o | inw(o))
    def __enter__(self): return outw(self._o.__enter__())
    def __exit__(self, *a): return self._o.__exit__(*a)
def outw(x):
    if x is None or builtins.isinstance(x, (bool, int, float, bytes, SymStr, Boundary)): return x
    if builtins.isinstance(x, str): return lit(x)
    if builtins.isinstance(x, list): return [outw(i) for i in x]
    if builtins.type(x) is tuple: return tuple(outw(i) for i in x)
    if builtins.isinstance(x, BaseException) or builtins.isinstance(x, type) and issubclass(x, BaseException): return x
    return x if getattr(builtins.type(x), "own_", False) else Boundary(x)
def inw(x):
    t = builtins.type(x)
    if t is Boundary: return x._o
    if t is SymStr: return x if x.s is None else x.s
    if t in (list, tuple): return t(inw(i) for i in x)
    if t is dict: return {inw(k): inw(v) for k, v in x.items()}
    return x
OUTSIDE = {"argparse", "xml", "tempfile", "subprocess", "os", "shutil", "optparse"}
class Loader:
    def __init__(self, folders, hook):
        self.folders, self.mods, self.hook = folders, {}, hook
        b = dict(vars(builtins))
        b.update(str=SymStr, repr=torepr, print=lambda *a, **k: None, __import__=self.imp,
                 ascii=torepr, ord=lambda x: ord(unwrap(realize(x))), open=self.open, format=lambda v, s="": fmt(v, None, S(s)),
                 getattr=lambda o, n, *d: getattr(o, unwrap(realize(n)), *d), hasattr=lambda o, n: hasattr(o, unwrap(realize(n))), setattr=lambda o, n, v: setattr(o, unwrap(realize(n)), v))
        self.b = b
    def open(self, *a, **k): raise OSError("files are not available here")
    def path(self, name):
        import os
        for f in self.folders:
            p = os.path.join(f, *name.split("."))
            for q in (p + ".py", os.path.join(p, "__init__.py")):
                if os.path.exists(q): return q
    def load(self, name):
        if name in self.mods: return self.mods[name]
        p = self.path(name)
        m = types.ModuleType(name)
        self.mods[name] = m
        m.__dict__.update(__builtins__=self.b, _S_=lit, _F_=fmt, _N_=lambda x: wrap(x), _J_=lambda ps: mk([i for q in ps for i in S(q).c]), __file__=p)
        if p not in CODE:
            tree = ast.fix_missing_locations(Rewrite().visit(ast.parse(open(p, encoding="utf-8").read(), p)))
            CODE[p] = compile(tree, p, "exec", dont_inherit=True)
            self.hook(CODE[p])
        exec(CODE[p], m.__dict__)
        return m
    def imp(self, name, g=None, l=None, fromlist=(), level=0):
        name = unwrap(name)
        if name == "re": return Re
        if name == "sys": return Proxy(sys, {"stdout": Out(), "stderr": Out(), "argv": [lit("tool")]})
        if self.path(name): return self.load(name)
        if name.split(".")[0] in OUTSIDE: return Boundary(builtins.__import__(name, g, l, tuple(unwrap(f) for f in fromlist or ()), level))
        return builtins.__import__(name, g, l, tuple(unwrap(f) for f in fromlist or ()), level)
