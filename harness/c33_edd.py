"""C33: an EDD file and a criteria file become exactly the settings they describe (tools/xmlGenerator)."""
FOLDERS = ["tools/xmlGenerator"]
GD, DO, CT, CO, RU, ANY, ALL, CP, PA, CM, BL = range(11) # kinds of line
MAY = {None: {GD, DO}, GD: {GD, DO, CT, RU, ANY, ALL}, DO: {CT, CO, RU, ANY, ALL}, CT: {CT, CO, RU, ANY, ALL, CP}, CO: {RU, ANY, ALL, CP, PA},
       CP: {CP, PA}, ANY: {RU, ANY, ALL}, ALL: {RU, ANY, ALL}, RU: set(), PA: set()}
class Line:
    def __init__(self, depth, kind, a="", b="", c="", seq=False):
        self.depth, self.kind, self.a, self.b, self.c, self.seq, self.kids = depth, kind, a, b, c, seq, []
    def text(self, tag=None, colon=": "):
        k = self.kind
        t = {GD: "domainGroup", DO: "domain", CT: "confType", CO: "conf", CP: "component"}.get(k)
        if t: s = (tag or t) + colon + self.a + (" sequenceAware" if self.seq else "")
        elif k == RU: s = self.a + " " + self.b + " " + self.c
        elif k == PA: s = self.a + " = " + self.b
        else: s = {ANY: "ANY", ALL: "ALL", CM: "# domain: x", BL: ""}[k]
        return "\t" * self.depth + s + "\n"
class Refused(Exception):
    def __init__(self, line): self.line = line
class Differ(Exception): pass
class Unsaid(Exception): pass
# --- the meaning of a file, from its lines
def tree(lines):
    root = Line(-1, None)
    stack, prev = [root], -1
    for n, l in enumerate(lines):
        if l.kind in (CM, BL): continue
        if l.depth > prev + 1: raise Refused(n + 1)
        prev = l.depth
        stack[l.depth + 1:] = [l]
        up = stack[-2]
        if l.kind not in MAY[up.kind]: raise Refused(n + 1)
        up.kids.append(l)
    return root
def formula(l): return (l.a, l.b, l.c) if l.kind == RU else ("Any" if l.kind == ANY else "All", [formula(k) for k in l.kids])
def own(l): return [formula(k) for k in l.kids if k.kind in (RU, ANY, ALL)]
def params(l, prefix):
    out = []
    for k in l.kids:
        if k.kind == PA: out.append((prefix + k.a, k.b))
        if k.kind == CP: out += params(k, prefix + k.a + "/")
    return out
def mixed(l): # parameters directly and through components: the order is not specified
    ks = {k.kind for k in l.kids if k.kind in (PA, CP)}
    return len(ks) > 1 or any(mixed(k) for k in l.kids if k.kind == CP)
def dot(names):
    s = names[0]
    for n in names[1:]: s = s + "." + n
    return s
def meaning(root):
    doms = []
    def walk(l, names, seq, rules, types, confs, prefix):
        rules, types = rules + own(l), list(types)
        for k in l.kids:
            if k.kind in (GD, DO):
                mine = [] if k.kind == DO else None
                at = len(doms)
                if k.kind == DO and any(d["name"] == dot(names + [k.a]) for d in doms): raise Unsaid
                if k.kind == DO: doms.append(dict(name=dot(names + [k.a]), seq=seq or k.seq, confs=mine))
                walk(k, names + [k.a], seq or k.seq, rules, types, mine, [])
                if k.kind == DO:
                    sets = [sorted(p for p, v in c["params"]) for c in mine]
                    for s in sets:
                        if len(s) != len(sets[0]) or any(not (a == b) for a, b in zip(s, sets[0])): raise Differ(doms[at]["name"])
            elif k.kind in (CT, CO):
                inherited = [r for n, rs in types if n == k.a for r in rs]
                if k.kind == CT:
                    types.append((k.a, own(k)))
                    if any(x.kind == CP for x in k.kids): raise Unsaid
                    walk(k, names, seq, rules + inherited, types, confs, prefix + [k.a])
                else:
                    if confs is None: raise Unsaid # a configuration outside any domain
                    ps = params(k, "")
                    for i in range(len(ps)):
                        for j in range(i):
                            if ps[i][0] == ps[j][0]: raise Unsaid # set twice
                    if any(c["name"] == dot(prefix + [k.a]) for c in confs): raise Unsaid # created twice
                    confs.append(dict(name=dot(prefix + [k.a]), rule=("All", rules + inherited + own(k)), params=ps, mixed=mixed(k)))
    # walk() is given an element's own rules once its children are visited
    walk(root, [], False, [], [], None, [])
    return doms
# --- the meaning of the commands produced
def rule_of(x, t):
    """the rule of a text: nested All{…}/Any{…} and criterion tests"""
    items, pos = x.items(t), [0]
    def at(chars): # the characters left open are those of words
        return pos[0] < len(items) and isinstance(items[pos[0]], str) and items[pos[0]] in chars
    def ws():
        while at(" "): pos[0] += 1
    def word():
        s = x.lit("")
        while pos[0] < len(items) and not at(" {},"):
            c = items[pos[0]]
            s = s + (c if isinstance(c, str) else x.char(c))
            pos[0] += 1
        return s
    def one():
        ws()
        w = word()
        if at("{"):
            pos[0] += 1
            kids = []
            ws()
            while not at("}"):
                kids.append(one())
                ws()
                if at(","): pos[0] += 1; ws()
                elif not at("}"): x.fail("the rule's text is well formed")
            pos[0] += 1
            name = "All" if w == "All" else "Any" if w == "Any" else x.fail("a rule is made of All and Any")
            return name, kids
        parts = [w]
        for i in range(2):
            if not at(" "): x.fail("a criterion test is written as the framework reads it")
            ws()
            parts.append(word())
        if not all(parts): x.fail("a criterion test is written as the framework reads it")
        return tuple(parts)
    r = one()
    ws()
    x.check(pos[0] == len(items), "the rule's text is well formed")
    return r
def run(x, commands):
    doms = []
    def dom(n):
        for d in doms:
            if d["name"] == n: return d
        x.fail("commands refer to domains created before")
    def conf(d, n):
        for c in dom(d)["confs"]:
            if c["name"] == n: return c
        x.fail("commands refer to configurations created before")
    for c in commands:
        k, a = c[0], c[1:]
        if k == "createDomain": doms.append(dict(name=a[0], seq=False, confs=[], elems=[]))
        elif k == "setSequenceAwareness": x.check(a[1] == "true", "sequence awareness is switched on"); dom(a[0])["seq"] = True
        elif k == "addElement": x.check(not dom(a[0])["confs"] or True, ""); dom(a[0])["elems"].append(a[1])
        elif k == "createConfiguration": dom(a[0])["confs"].append(dict(name=a[1], rule=None, params=[], order=None))
        elif k == "setElementSequence": conf(a[0], a[1])["order"] = list(a[2:])
        elif k == "setRule": conf(a[0], a[1])["rule"] = a[2]
        elif k == "setConfigurationParameter":
            if not any(e == a[2] for e in dom(a[0])["elems"]): x.fail("a configuration sets parameters of its domain")
            conf(a[0], a[1])["params"].append((a[2], a[3]))
        else: x.fail("only commands the framework knows")
    return doms
def atoms(f, table):
    if isinstance(f, tuple) and len(f) == 3:
        for i, t in enumerate(table):
            if all(a == b for a, b in zip(f, t)): return i
        table.append(f)
        return len(table) - 1
    return (f[0], [atoms(k, table) for k in f[1]])
def compare(x, want, got):
    x.check(len(want) == len(got), "every domain described, and no other, is created")
    for w, g in zip(want, got):
        x.check(x.same(w["name"], g["name"]), "a domain is named after its groups and itself")
        x.check(w["seq"] == g["seq"], "a domain is sequence aware if it or a group of it says so")
        x.check(len(w["confs"]) == len(g["confs"]), "every configuration described, and no other, is created in its domain")
        for c, d in zip(w["confs"], g["confs"]):
            x.check(x.same(c["name"], d["name"]), "a configuration is named after its groups and itself")
            table = []
            a = atoms(c["rule"], table)
            b = atoms(rule_of(x, d["rule"]), table) if d["rule"] is not None else ("All", [])
            x.equivalent(a, b, len(table), "a configuration applies exactly when its rules, those of its groups and of its types hold")
            x.check(len(c["params"]) == len(d["params"]), "every parameter is set, and no other")
            left = list(d["params"])
            for p, v in c["params"]:
                i = next((i for i, q in enumerate(left) if q[0] == p), None)
                if i is None: x.fail("every parameter is set, under the path its components give it")
                x.check(x.same(v, left.pop(i)[1]), "every parameter gets its value")
            if d["order"] is not None or w["seq"]:
                if d["order"] is None: x.fail("a sequence aware domain's configurations have their sequence")
                x.check(len(d["order"]) == len(c["params"]), "the sequence is the configuration's parameters")
                for i, (p, v) in enumerate(c["params"]):
                    if c["mixed"]: x.check(any(p == q for q in d["order"]), "the sequence is the configuration's parameters")
                    else: x.check(x.same(p, d["order"][i]), "the sequence is the order written")
        if w["confs"]:
            x.check(len(g["elems"]) == len(w["confs"][0]["params"]), "a domain has the parameters of its configurations")
            for p, v in w["confs"][0]["params"]: x.check(any(p == q for q in g["elems"]), "a domain has the parameters of its configurations")
def decide(x, lines, texts):
    """the tool against the meaning of the lines"""
    try: want, refusal = meaning(tree(lines)), None
    except Unsaid: return x.assume(False)
    except (Refused, Differ) as e: want, refusal = None, e
    edd = x.load("EddParser")
    try:
        root = edd.Parser().parse(iter(texts))
        root.propagate()
    except edd.MySyntaxError as e:
        if not isinstance(refusal, Refused): x.note(x.str(e)); x.fail("what is well formed is accepted")
        x.check("Line %d," % refusal.line in x.str(e), "a faulty line is refused by its number")
        x.reach_("refused")
        return
    except edd.MyPropagationError as e:
        if not isinstance(refusal, Differ): x.fail("what is well formed is accepted")
        x.check(refusal.args[0] in x.str(e), "the domain whose configurations set different parameters is named")
        x.reach_("differ")
        return
    if refusal is not None: x.fail("a faulty line is refused" if isinstance(refusal, Refused) else "a domain whose configurations set different parameters is refused")
    gen = x.load("domainGenerator")
    class Log:
        def info(self, *a): pass
        warning = debug = error = critical = info
    cmds = list(gen.generateDomainCommands(Log(), [], None, [], [("f.pfw", root)]))
    starts = [i for i, c in enumerate(cmds) if c[0] == "start"]
    x.check(starts == [0], "the framework is started once, before the settings")
    compare(x, want, run(x, cmds[1:]))
    x.reach_("translated")
    x.observe("commands", len(cmds))
    for i, c in enumerate(cmds[1:5]): x.observe(f"c{i}", c[-1])
WORD = "a-zA-Z0-9_"
def m_lines(x): # any few lines, of any kind and depth, after a given start
    n, start = x.param("n", 3), x.param("start", 0)
    D, C, P = Line(0, DO, "D"), Line(1, CO, "c"), Line(2, PA, "/S/p", "1")
    lines = [[], [D], [D, C], [Line(0, GD, "G"), Line(1, DO, "D")], [D, Line(1, CT, "t")], [D, C, Line(2, CP, "/S/b")], [D, C, Line(2, ANY)], [D, C, P, Line(1, CO, "d")]][start][:]
    for i in range(n):
        k = x.choice(f"kind{i}", 11) if i or x.param("first", -1) < 0 else x.param("first", 0)
        depth = x.choice(f"depth{i}", x.param("depths", 5))
        name = "tuvw"[i]
        lines.append(Line(depth, k, {RU: "K" + name, PA: name, CP: "/S/" + name}.get(k, name), {RU: "Is", PA: str(i)}.get(k, ""), "v" if k == RU else ""))
    decide(x, lines, [x.lit(l.text()) for l in lines])
def m_inherit(x): # groups, types and rules around two configurations; each rule may be there or not
    def rule(depth, n): return [Line(depth, RU, "K" + n, "Is", "v")] if x.maybe("rule" + n) else []
    nm = lambda n: "AB"[x.choice("name" + n, 2)]
    L = []
    part = x.param("part", -1) # which of the first choices this case makes
    if x.param("groups", 1):
        L.append(Line(0, GD, "G", seq=x.maybe("seqG") if part < 0 else part & 1 == 1))
        L += rule(1, "g") if part < 0 else [Line(1, RU, "Kg", "Is", "v")][:part >> 1 & 1]
        if x.maybe("typeG") if part < 0 else part >> 2 & 1: L += [Line(1, CT, nm("tg"))] + rule(2, "tg")
        if x.maybe("inner"):
            L += [Line(1, GD, "H")] + rule(2, "h")
            d = 2
        else: d = 1
    else: d = 0
    L += [Line(d, DO, "D", seq=x.maybe("seqD") if part in (-1, 0, 1) else part & 2 == 0)]
    L += rule(d + 1, "d")
    if x.param("types", 1):
        L += [Line(d + 1, CT, nm("t"))] + rule(d + 2, "t")
    inside = x.maybe("group")
    c = d + 1
    if inside:
        L += [Line(c, CT, nm("cg"))] + rule(c + 1, "cg")
        c += 1
    L += [Line(c, CO, nm("c"))] + rule(c + 1, "c") + [Line(c + 1, PA, "/S/p", "1")]
    if part in (-1, 0, 7): L += rule(d + 1, "late")
    L += [Line(d + 1, CO, nm("e"))] + [Line(d + 2, PA, "/S/p", "2")]
    if x.param("second", 0): L += [Line(0, DO, "E"), Line(1, CO, nm("f")), Line(2, PA, "/S/q", "3")]
    tags = ["confType", "confGroup", "supConf"]
    t = tags[x.choice("tag", 3)] if x.param("tags", 0) else None
    decide(x, L, [x.lit(l.text(tag=t if l.kind == CT else None)) for l in L])
def m_components(x): # parameters through nested components, two configurations
    def body(depth, n):
        L = []
        if x.maybe("a" + n): L.append(Line(depth, PA, "/S/a", "1" + n))
        if x.maybe("comp" + n):
            L.append(Line(depth, CP, "/S"))
            if x.maybe("b" + n): L.append(Line(depth + 1, PA, "b", "2" + n))
            if x.maybe("in" + n): L += [Line(depth + 1, CP, "c"), Line(depth + 2, PA, "d", "3" + n)]
            if x.maybe("e" + n): L.append(Line(depth + 1, PA, "e/f", "4" + n))
            if x.maybe("two" + n): L += [Line(depth, CP, "/T"), Line(depth + 1, PA, "b", "5" + n)]
        if x.maybe("z" + n): L.append(Line(depth, PA, "/S/A", "6" + n))
        return L
    L = [Line(0, DO, "D", seq=x.maybe("seq")), Line(1, CO, "c")] + (body(2, "x") if not x.param("three", 0) else [])
    L += [Line(1, CO, "d")] + body(2, "y") if x.param("both", 1) else []
    if x.param("three", 0): # the first two alike, the third anything
        L = L[:2] + [Line(2, PA, "/S/a", "1"), Line(1, CO, "d"), Line(2, PA, "/S/a", "2"), Line(1, CO, "e")] + body(2, "y")
    decide(x, L, [x.lit(l.text()) for l in L])
def m_rules(x): # nested operators
    def some(depth, n, level):
        L = []
        for i in range(2 if level else 1):
            k = x.choice(f"r{n}{i}", 4 if level else 2)
            if k == 1: L.append(Line(depth, RU, "K" + n + str(i), ["Is", "IsNot", "Includes", "Excludes"][len(n) % 4], "v"))
            if k > 1: L += [Line(depth, ANY if k == 2 else ALL)] + some(depth + 1, n + str(i), level - 1)
        return L
    L = [Line(0, DO, "D"), Line(1, CO, "c")] + some(2, "", x.param("level", 2)) + [Line(2, PA, "/S/p", "1")]
    decide(x, L, [x.lit(l.text()) for l in L])
def m_names(x): # any names
    n = x.param("len", 2)
    g, d, c, t = (x.text(i, 1, n, WORD + ".-") for i in "gdct")
    L = [Line(0, GD, g), Line(1, DO, d, seq=x.maybe("seq")), Line(2, CT, t), Line(3, RU, "K", "Is", "v"), Line(2, CO, c), Line(3, PA, "/S/p", "1")]
    spell = x.choice("spelling", 3)
    T = [l.text(colon=[": ", " : ", ":"][spell]) if l.kind in (GD, DO, CT, CO) else l.text() for l in L]
    decide(x, L, [x.lit(t) if isinstance(t, str) else t for t in T])
def m_texts(x): # any rule words, paths and values
    n = x.param("len", 3)
    what = x.param("what", "rule")
    L = [Line(0, DO, "D"), Line(1, CO, "c"), Line(2, RU, "K", "Is", "v"), Line(2, PA, "/S/p", "1")]
    T = [x.lit(l.text()) for l in L]
    if what == "rule":
        L[2] = Line(2, RU, x.text("crit", 1, n + 1, WORD + "."), ["Is", "IsNot", "Includes", "Excludes"][x.choice("type", 4)], x.text("state", 1, 2, WORD + "."))
        if x.maybe("operator"): # criteria named like an operator
            L[2].a = x.lit(["ANY", "ALL"][x.choice("which", 2)]) + L[2].a
        gap = " " * (1 + x.choice("gap", 2))
        T[2] = "\t\t" + L[2].a + gap + L[2].b + gap + L[2].c + "\n"
    elif what == "value":
        v = x.text("value", 1, n, " -~")
        cs = x.items(v)
        x.assume(not x.word(cs[0], " ") and not x.word(cs[-1], " "))
        L[3] = Line(2, PA, "/S/p", v)
        T[3] = "\t\t/S/p =" + " " * x.choice("gap", 3) + v + "\n"
    elif what == "path":
        p = x.text("path", 1, n, "a-zA-Z0-9_/.[]")
        L[3:] = [Line(2, CP, "/S"), Line(3, PA, p, "1")]
        T[3:] = [x.lit(L[3].text()), "\t\t\t" + p + " " * x.choice("gap", 2) + "= 1\n"]
    elif what == "type": # a word that is no relation
        w = x.text("relation", 1, n, "A-Za-z")
        x.assume(not any(w == r for r in ("Is", "IsNot", "Includes", "Excludes")))
        bad = "\t\tK " + w + " v\n"
        T[2] = bad
        edd = x.load("EddParser")
        try: edd.Parser().parse(iter(T))
        except edd.MySyntaxError as e:
            x.check("Line 3," in x.str(e), "a faulty line is refused by its number")
            x.reach_("refused")
            return
        x.fail("a line that is nothing known is refused")
    elif what == "indent": # spaces and tabulations
        s = x.text("indent", 0, n, " \t")
        cs = x.items(s)
        sp = any(x.word(c, " ") for c in cs)
        L[3] = Line(len(cs) if not sp else 9, PA, "/S/p", "1")
        T[3] = s + "/S/p = 1\n"
    decide(x, L, T)
def m_criteria(x): # a criteria file
    gen = x.load("domainGenerator")
    want, text = [], []
    for i in range(x.param("n", 2)):
        incl = x.maybe(f"kind{i}")
        name = x.text(f"name{i}", 1, x.param("len", 2), WORD)
        vals = [x.text(f"v{i}{j}", 1, 2 if j == 0 else 1, WORD) for j in range(x.choice(f"n{i}", 3))]
        gap = " " * (1 + x.choice(f"gap{i}", 2))
        l = ("InclusiveCriterion" if incl else "ExclusiveCriterion") + gap + name + " :"
        for v in vals: l = l + gap + v
        text.append(l + "\n")
        want.append((("inclusive" if incl else "exclusive"), name, vals))
    if x.param("bad", 0):
        t = x.text("word", 1, 3, WORD)
        text.append([t + "Criterion K : v\n", "ExclusiveCriterion K v" + t + "\n", t + "\n"][x.choice("how", 3)])
        class F(list): name = "criteria"
        try: gen.parseCriteria(F(text))
        except ValueError: x.reach_("refused"); return
        x.fail("a line that is no criterion is refused")
    crit = gen.parseCriteria(text)
    class Log:
        def info(self, *a): pass
        warning = debug = error = critical = info
    cmds = list(gen.generateDomainCommands(Log(), crit, x.lit("/i.xml"), [x.lit("/a.xml"), x.lit("/b.xml")], []))
    mine = [c for c in cmds if c[0] == "createSelectionCriterion"]
    x.check(len(mine) == len(want), "every criterion is created")
    for w, c in zip(want, mine):
        x.check(c[1] == w[0], "a criterion is of its kind")
        x.check(x.same(c[2], w[1]), "a criterion has its name")
        x.check(len(c) == 3 + len(w[2]), "a criterion has its values")
        for a, b in zip(w[2], c[3:]): x.check(x.same(a, b), "a criterion has its values, in order")
    rest = [list(c) for c in cmds[len(mine):]]
    x.check(rest == [["start"], ["importDomainsWithSettingsXML", "/i.xml"], ["importDomainWithSettingsXML", "/a.xml"], ["importDomainWithSettingsXML", "/b.xml"]],
            "criteria come before the start, imports after it in the order given")
    x.reach_("criteria")
    x.observe("n", len(cmds))
# --- the programs themselves: what they read is given, what they start is a stand-in
class File:
    own_ = True
    def __init__(self, name, lines=()): self.name, self.lines, self.text, self.open = name, list(lines), [], True
    def __iter__(self): return iter(self.lines)
    def readlines(self): return list(self.lines)
    def read(self):
        t = self.lines[0] if self.lines else ""
        for l in self.lines[1:]: t = t + l
        return t
    def write(self, t): self.text.append(t)
    def flush(self): pass
    def close(self): self.open = False
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
def environment(x, argv, files, popen=None, tmp=None):
    import argparse, logging, subprocess, sys, tempfile
    logging.disable(logging.CRITICAL)
    sys.argv = argv
    argparse.FileType = lambda mode="r", *a, **k: lambda name: files[name]
    argparse._sys.stderr = File("stderr")
    if popen: subprocess.Popen = popen
    if tmp: tempfile.tempdir = tmp
def program(x, module, call=True):
    import sys
    err = sys.stderr
    try: return x.load(module).main() or 0
    except SystemExit as e: return e.code or 0
    finally: sys.stderr = err
def script_lines(x, text):
    out = []
    for l in text.split(x.lit("\n")):
        if not len(l): continue
        k = str(l.split(x.lit(" "), 1)[0])
        n = {"createDomain": 1, "setSequenceAwareness": 2, "addElement": 2, "createConfiguration": 2, "setRule": 3, "setConfigurationParameter": 4}.get(k, -1)
        out.append(list(l.split(x.lit(" "), n)))
    return out
def joined(x, parts):
    t = x.lit("")
    for q in parts: t = t + q
    return t
def sample(x, n, bad=0): # an EDD file
    name, v = x.text("name" + n, 1, 1, WORD), x.text("value" + n, 2, 2, "a-z0-9_")
    L = [Line(0, DO, name + n, seq=x.maybe("seq" + n)), Line(1, CO, "c"), Line(2, RU, "K", "Is", "v"), Line(2, PA, "/S/p", v), Line(2, PA, "/S/q", "0")]
    if bad == 1: L.insert(2, Line(3, PA, "/S/r", "2"))
    if bad == 2: L += [Line(1, CO, "d"), Line(2, PA, "/S/p", "1")]
    return L, [x.lit(t) if isinstance(t, str) else t for t in (l.text() for l in L)]
def m_script(x): # PFWScriptGenerator.py
    bad = x.choice("bad", 3)
    L, T = sample(x, "a", bad)
    i, o = File("in.pfw", T), File("out")
    argv = ["PFWScriptGenerator.py", "in.pfw", "-o", "out"] + (["-d"] if x.maybe("debug") else []) + [[], ["--output-kind", "pfw"]][x.choice("kind", 2)]
    environment(x, argv, {"in.pfw": i, "out": o})
    rc = program(x, "PFWScriptGenerator")
    x.check(rc == (0, 2, 1)[bad], "a faulty file ends the program with its exit code")
    if bad: x.check(not o.text, "nothing is written from a faulty file"); x.reach_("refused"); return
    compare(x, meaning(tree(L)), run(x, script_lines(x, joined(x, o.text))))
    x.reach_("translated")
def m_main(x): # domainGenerator.py
    import os, shutil, tempfile, xml.dom.minidom
    tempfile.tempdir = None
    d = os.path.realpath(tempfile.mkdtemp(prefix="pfs33"))
    cwd = os.getcwd()
    try:
        os.chdir(d)
        wide = x.param("wide", 0)
        base, one, two = x.choice("base", 2), 8 if wide else x.choice("one", 9), 8 if wide else x.choice("two", 9) # any two options otherwise than the rest
        x.assume(one <= two)
        names = ["folder", "port", "tuning", "settings", "relative", "schemas", "validate", "verbose"]
        option = lambda n: base ^ (names.index(n) == one) ^ (names.index(n) == two)
        bad = x.choice("bad", 3) if one == two and not wide else 0
        top = os.path.join(d, "in", "top.xml") if option("folder") else os.path.join(d, "top.xml")
        os.makedirs(os.path.dirname(top), exist_ok=True)
        server = option("port")
        with open(top, "w") as f:
            f.write("<?xml version='1.0' encoding='UTF-8'?><ParameterFrameworkConfiguration SystemClassName='S'%s TuningAllowed='%s'><SubsystemPlugins><Location Folder='f'><Plugin Name='a'/></Location>"
                    "<Location Folder=''><Plugin Name='b'/></Location></SubsystemPlugins><StructureDescriptionFileLocation Path='s/S.xml'/>%s</ParameterFrameworkConfiguration>"
                    % (" ServerPort='5001'" if server else "", "true" if option("tuning") else "false", "<SettingsConfiguration><ConfigurableDomainsFileLocation Path='d.xml'/></SettingsConfiguration>" if option("settings") else ""))
        before = open(top).read()
        cname, kind = x.text("criterion", 1, 1, WORD), base == 1
        files = {"crit": File("crit", [("InclusiveCriterion " if kind else "ExclusiveCriterion ") + cname + " : v w\n"])}
        rel = option("relative")
        argv = ["domainGenerator.py", "--toplevel-config", os.path.relpath(top, d) if rel else top, "--criteria", "crit"]
        L, edds = [], []
        nE = x.choice("edds", 3) if wide else 1
        for i in range(nE):
            l, t = sample(x, "ab"[i], bad)
            L.append(l)
            files["e%d.pfw" % i] = File("e%d.pfw" % i, t)
            edds.append("e%d.pfw" % i)
        if edds: argv += ["--add-edds"] + edds
        doms = ["one.xml", "/two.xml"][:x.choice("domains", 3)] if wide else []
        if doms: argv += ["--add-domains"] + doms
        initial = x.maybe("initial") if wide else False
        if initial: argv += ["--initial-settings", "initial.xml"]
        schemas = option("schemas")
        if schemas: argv += ["--schemas-dir", "/xsd"]
        validate, verbose = option("validate"), option("verbose")
        argv += ["--validate"] * validate + ["--verbose"] * verbose
        code = (0, 3, 255)[x.choice("code", 3)] if one == two else (0, 7)[base]
        seen = []
        class Pipe(File):
            def __init__(self, text): File.__init__(self, "stdin"); self.mode = text
            def write(self, t):
                if not self.mode and not isinstance(t, bytes): raise TypeError("a bytes-like object is required, not 'str'")
                x.check(self.open, "commands are written before the input is closed")
                self.text.append(t)
        class Popen:
            own_ = True
            def __init__(self, args, stdin=None, stdout=None, stderr=None, universal_newlines=False, text=False, encoding=None, **k):
                import subprocess
                args = list(args)
                for a in args:
                    if not isinstance(a, str): raise TypeError("expected str, bytes or os.PathLike object, not %s" % type(a).__name__)
                x.check(len(args) == 5 and os.path.basename(args[0]) == "domainGeneratorConnector", "the generator program is started with all its arguments")
                x.check([args[2] == "verbose", args[3] == "validate"] == [verbose, validate], "the generator program is told whether to validate and to be verbose")
                x.check(args[4] == ("/xsd" if schemas else ""), "the generator program is told where the schemas are")
                x.check(stdin == subprocess.PIPE, "the generator program is given the commands")
                self.stdin, self.returncode = Pipe(universal_newlines or text or encoding), None
                self.conf = args[1]
                dom = xml.dom.minidom.parse(args[1])
                r = dom.documentElement
                x.check(r.getAttribute("TuningAllowed") == "true" and r.getAttribute("SystemClassName") == "S", "the configuration used allows tuning")
                x.check(not r.getElementsByTagName("SettingsConfiguration") and not r.getElementsByTagName("Plugin"), "the configuration used has no settings and no plug-ins")
                p = [n.getAttribute("Path") for n in r.getElementsByTagName("StructureDescriptionFileLocation")]
                x.check([os.path.normpath(q) for q in p] == [os.path.join(os.path.dirname(top), "s/S.xml")], "the configuration used has the structure of the one given")
                seen.append(self)
            def wait(self, *a, **k):
                x.check(not self.stdin.open, "the input is closed before its outcome is waited for")
                x.check(os.path.exists(self.conf), "the configuration used lasts as long as the program")
                self.returncode = code
                return code
        environment(x, argv, files, Popen, d)
        rc = program(x, "domainGenerator")
        x.check(open(top).read() == before, "the configuration given is left as it is")
        if bad:
            x.check(rc == (0, 2, 1)[bad] and not seen, "a faulty file ends the program with its exit code")
            x.reach_("refused")
            return
        x.check(rc == code and len(seen) == 1, "the program ends with the generator program's exit code")
        x.check(not os.path.exists(seen[0].conf), "nothing temporary is left")
        cmds = [list(l.split(x.lit("\0"))) for l in joined(x, seen[0].stdin.text).split(x.lit("\n"))]
        x.check(len(cmds[-1]) == 1 and not len(cmds[-1][0]), "every command is a whole line")
        cmds.pop()
        want = [["createSelectionCriterion", "inclusive" if kind else "exclusive", cname, "v", "w"], ["start"]]
        if initial: want.append(["importDomainsWithSettingsXML", os.path.join(d, "initial.xml")])
        for q in doms: want.append(["importDomainWithSettingsXML", q])
        x.check(len(cmds) >= len(want), "criteria come before the start, imports after it in the order given")
        for w, c in zip(want, cmds):
            x.check(len(w) == len(c), "criteria come before the start, imports after it in the order given")
            for a, b in zip(w, c): x.check(x.same(a, b), "criteria come before the start, imports after it in the order given")
        expect = []
        for l in L: expect += meaning(tree(l))
        if len(expect) == 2: x.assume(not (expect[0]["name"] == expect[1]["name"]))
        compare(x, expect, run(x, cmds[len(want):]))
        x.reach_("translated")
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)
def main(x): globals()["m_" + x.param("mode", "lines")](x)
