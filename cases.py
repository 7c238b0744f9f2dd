"""The cases each check decides: a harness, its parameters, what it must reach, its time budget (seconds, x4 in the thorough tier)."""
ASSUME = [
    "the C++ run-time library, libc, libxml2 and asio are represented by the models in rt/ (streams, number formatting and parsing, "
    "red-black tree and list primitives, exceptions, an in-memory file system, XML parsing of ASCII documents, sockets as byte strings)",
    "operator new succeeds below 64 MB and throws above", "little-endian LP64 target; clang 18 front end at -O1",
    "one thread calls the API unless the property says otherwise"]
ASSUME_PY = [
    "the Python tools run on pysym/: every string literal of their sources is replaced by a string that may hold symbolic characters, str, re and print by versions working "
    "on these (ASCII, lengths decided by forking); everything else is the interpreter itself", "files, processes and command lines are not encoded"]
PROPS = {}
def case(name, harness, reach=(), time=60, tier="quick", bounds="", samples=4, insts=60000000, **params):
    return {"name": name, "harness": harness, "reach": list(reach), "time": time, "tier": tier, "bounds": bounds, "samples": samples, "insts": insts, "params": params}
def prop(pid, cases, bounds, assume=()):
    PROPS[pid] = {"cases": cases, "bounds": bounds, "assume": list(assume)}

AR = ("accepted", "rejected")
AR28 = ("started", "refused")
W = 99999999999
h = "c01_integer"
prop("C01", [
    case("s8-dec", h, AR, size=8, signed=1, min=-10, max=100, mode=0, lim=W, raw=1),
    case("u8-dec", h, AR, size=8, signed=0, min=3, max=200, mode=0, lim=W, raw=1),
    case("s16-dec", h, AR, size=16, signed=1, min=-5000, max=3000, mode=0, lim=W),
    case("u16-dec", h, AR, size=16, signed=0, min=0, max=65535, mode=0, lim=W),
    case("s32-dec", h, AR, size=32, signed=1, min=-2147483648, max=2147483647, mode=0, lim=W),
    case("u32-dec", h, AR, size=32, signed=0, min=5, max=4000000000, mode=0, lim=W),
    case("s8-hex", h, AR, size=8, signed=1, min=-100, max=50, mode=1),
    case("u16-hex", h, AR, size=16, signed=0, min=16, max=50000, mode=1),
    case("s16-hex", h, AR, size=16, signed=1, min=-300, max=300, mode=1),
    case("u32-hex", h, AR, size=32, signed=0, min=5, max=4000000000, mode=1, notext=1, raw=1),
    case("s32-hex", h, AR, size=32, signed=1, min=-2147483648, max=2147483647, mode=1, notext=1, raw=1),
    case("s8-unsigned-api", h, AR, size=8, signed=1, min=-10, max=100, mode=2),
    case("u32-unsigned-api", h, AR, size=32, signed=0, min=5, max=4000000000, mode=2, notext=1, raw=1),
    case("s32-unsigned-api", h, AR, size=32, signed=1, min=-50, max=2147483647, mode=2, notext=1),
    case("u8-signed-api", h, AR, size=8, signed=0, min=3, max=200, mode=3),
    case("u32-signed-api", h, AR, size=32, signed=0, min=5, max=4000000000, mode=3, notext=1),
    case("s16-signed-api", h, AR, size=16, signed=1, min=-5000, max=-3000, mode=3, raw=1),
    case("s32-signed-api", h, AR, size=32, signed=1, min=-2000000000, max=3, mode=3, notext=1, raw=1),
    case("double-refused", h, ("rejected",), size=16, signed=1, min=-5, max=5, mode=4),
    case("boolean-refused", h, ("rejected",), size=16, signed=1, min=-5, max=5, mode=5),
    case("u8-any-range", h, AR, size=8, signed=0, symrange=1, mode=0, lim=99999),
    case("s8-any-range", h, AR, size=8, signed=1, symrange=1, mode=0, lim=99999),
    case("s8-any-range-api", h, AR, size=8, signed=1, symrange=1, mode=3),
    case("s16-any-range-api", h, AR, size=16, signed=1, symrange=1, mode=2, notext=1),
    case("s16-any-range", h, AR, size=16, signed=1, symrange=1, mode=0, lim=9999999, tier="thorough", time=150),
    case("u32-any-range-api", h, AR, size=32, signed=0, symrange=1, mode=2, notext=1, tier="thorough", time=200),
    case("s32-any-range-api", h, AR, size=32, signed=1, symrange=1, mode=3, notext=1, tier="thorough", time=200),
], "sizes 8, 16, 32, both signs; every decimal value up to 10^11 in magnitude, every hexadecimal pattern up to 4 bits past the size, every 32-bit "
   "argument of the typed calls; bounds concrete per case, or every pair of bounds for the any-range cases")

h = "c02_enum"
AN = dict(n0=-1, n1=0, n2=1, n3=5, n4=100)
def enum(name, reach=AR, **kw):
    d = dict(size=8, n0=-128, n1=-1, n2=0, n3=5, n4=127, mode=0)
    d.update(kw)
    return case(name, h, reach, **d)
prop("C02", [
    enum("e8-dec"), enum("e8-literal", mode=1), enum("e8-typed", mode=2), enum("e8-hex", mode=3), enum("e8-other", ("rejected",), mode=4),
    enum("e8-oversized-dec", n4=300), enum("e8-oversized-typed", n4=300, mode=2),
    enum("e16-dec", size=16, n0=-32768, n4=32767), enum("e16-literal", size=16, n0=-32768, n4=32767, mode=1),
    enum("e16-typed", size=16, n0=-300, n4=30000, mode=2), enum("e16-hex", size=16, n0=-300, n4=30000, mode=3),
    enum("e32-dec", size=32, n0=-2147483648, n4=2147483647), enum("e32-literal", size=32, n0=-2147483648, n4=2147483647, mode=1),
    enum("e32-typed", size=32, n0=-2147483648, n4=2147483647, mode=2), enum("e32-hex", size=32, n0=-2147483648, n4=2147483647, mode=3),
    enum("e8-any-entries-typed", symnum=1, mode=2, n4=300, n3=77, tier="thorough", time=120),
], "five entries per enumeration, sizes 8, 16, 32; entries at the extremes of the size and one outside it; every 32-bit argument, every decimal text of a 64-bit value "
   "in the harness's window, every hexadecimal pattern, literals from the declared set and near misses")

h = "c03_fixed"
def fx(name, reach=AR, **kw):
    return case(name, h, reach, **kw)
prop("C03", [
    fx("q3.4-8-text", size=8, n=3, m=4, mode=0), fx("q3.4-8-double", size=8, n=3, m=4, mode=1), fx("q3.4-8-hex", size=8, n=3, m=4, mode=2), fx("q3.4-8-raw", size=8, n=3, m=4, mode=3),
    fx("q3.4-16-text", size=16, n=3, m=4, mode=0), fx("q3.4-16-double", size=16, n=3, m=4, mode=1), fx("q3.4-16-hex", size=16, n=3, m=4, mode=2), fx("q3.4-16-raw", size=16, n=3, m=4, mode=3),
    fx("q15.16-32-text", size=32, n=15, m=16, mode=0, rawview=0), fx("q15.16-32-double", size=32, n=15, m=16, mode=1, rawview=0), fx("q15.16-32-hex", size=32, n=15, m=16, mode=2), fx("q15.16-32-raw", size=32, n=15, m=16, mode=3),
    fx("q0.31-32-double", size=32, n=0, m=31, mode=1, rawview=0), fx("q31.0-32-double", size=32, n=31, m=0, mode=1, rawview=0), fx("q20.3-32-text", size=32, n=20, m=3, mode=0, rawview=0),
    fx("other", ("rejected",), size=16, n=3, m=4, mode=4),
    fx("q7.8-16-text", size=16, n=7, m=8, mode=0, tier="thorough"), fx("q0.7-8-double", size=8, n=0, m=7, mode=1, tier="thorough"), fx("q0.31-32-text", size=32, n=0, m=31, mode=0, rawview=0, tier="thorough"),
], "the listed Q formats and sizes; every finite double, every raw pattern; decimal text is the text of a double (parsed back within half a unit of its last digit)")

h = "c04_float"
prop("C04", [case(f"r{r}-{n}", h, AR if m < 4 else ("rejected",) if m == 4 else (), range=r, mode=m)
             for r in range(4) for m, n in enumerate(("text", "double", "hex", "raw", "other", "digits")) if m != 4 or r == 0],
     "four declared ranges including one-sided, negative and full; every double for the typed call, every 32-bit pattern for raw access; real text is checked to six significant digits")

h = "c05_boolstr"
prop("C05", [
    case("bool-text", h, AR, mode=0), case("bool-bool", h, ("accepted",), mode=1), case("bool-integer", h, AR, mode=2), case("bool-other", h, ("rejected",), mode=3),
    case("string-text", h, AR, mode=10, len=4), case("string-typed", h, AR, mode=11, len=4), case("string-other", h, ("rejected",), mode=12, len=4),
    case("string-text-9", h, AR, mode=10, len=9), case("string-typed-9", h, AR, mode=11, len=9),
], "every 32-bit argument; every string up to two bytes past the declared maximum length (4 and 9), every byte value but NUL")

h = "c06_bits"
prop("C06", [
    case("b16-dec", h, AR, bs=16, mode=0, vbits=20), case("b16-hex", h, AR, bs=16, mode=1, vbits=20), case("b16-integer", h, AR, bs=16, mode=2), case("b16-bool", h, (), bs=16, mode=3),
    case("b16-other", h, (), bs=16, mode=4), case("b16-garbage", h, (), bs=16, mode=5), case("b64-garbage", h, (), bs=64, pos=0, size=64, mode=5),
    case("b8-any-layout", h, AR, bs=8, symlayout=1, mode=2), case("b8-any-max-bool", h, (), bs=8, symmax=1, mode=3), case("b64-whole", h, (), bs=64, pos=0, size=64, mode=0, time=100),
    case("b64-across-integer", h, AR, bs=64, pos=20, size=24, max=16000000, mode=2), case("b64-upper-integer", h, AR, bs=64, pos=44, size=20, mode=2),
    case("b64-across-dec", h, AR, bs=64, pos=20, size=24, max=16000000, mode=0, vbits=30), case("b64-upper-hex", h, AR, bs=64, pos=44, size=20, mode=1, vbits=24),
    case("b32-top-integer", h, AR, bs=32, pos=25, size=7, max=100, mode=2), case("b32-any-layout", h, AR, bs=32, symlayout=1, mode=2, tier="thorough", time=100),
], "blocks of 8, 16 and 64 bits; every position and width for the any-layout case; decimal values of 20 bits (64 for the whole block), every 32-bit argument")

h = "c07_array"
prop("C07", [case(f"text-{k}{s}", h, AR, mode=0, kind=k, sep=s, tier=t) for k in (0, 1, 2, 3) for s, t in ((0, "quick" if k in (0, 1) else "thorough"), (1, "thorough"), (2, "quick" if k in (2,) else "thorough"), (3, "quick" if k == 3 else "thorough"))] +
            [case(f"typed-{k}", h, AR, mode=1, kind=k) for k in range(6)],
     "arrays of three elements of six kinds; up to four values from every start index, separators blank, comma, mixed; every value in a window around the bounds")

h = "c08_adapt"
prop("C08", [case(f"back-{l}", h, ("round",), layout=l, mode=0, time=200) for l in range(10)] + [case(f"back-{l}-each", h, ("round",), layout=l, mode=0, each=1, time=200) for l in (10, 11)] +
            [case(f"set-{l}", h, ("accepted", "rejected") + (("floored",) if l in (7, 9) else ()), layout=l, mode=1, time=200) for l in range(10)] + [case("set-11", h, AR, layout=11, mode=1, time=300)] +
            [case(f"back-array-{l}", h, ("round",), layout=l, mode=0, array=1, time=200) for l in (2, 5)] + [case(f"set-array-{l}", h, AR, layout=l, mode=1, array=1, time=200) for l in (3, 6)],
     "twelve adaptations (nine linear, three logarithmic; slopes below and above one, negative, non-integer; offsets up to the extremes) over 8, 16 and 32 bit ranges; every stored value and every double for the linear ones, "
     "special values included; every stored value and 21 chosen user values for the logarithmic ones")

h = "c12_criteria"
prop("C12", [
    case("types", h, AR, mode=0), case("types-inclusive", h, AR, mode=0, inclusive=1), case("state", h, AR, mode=1), case("state-inclusive", h, AR, mode=1, inclusive=1),
    case("lookup", h, ("state",), mode=2), case("lookup-inclusive", h, ("state",), mode=2, inclusive=1),
], "up to three value pairs with any 32-bit numerical value; any 32-bit state")

h = "c13_rules"
RM = ("matched", "unmatched")
prop("C13", [
    case("rule-text", h, RM, shape=0, rounds=1), case("rule-inclusive", h, RM, shape=0, inclusive=1, rounds=1), case("nested-1", h, RM, shape=1, rounds=1),
    case("nested-2", h, RM, shape=2), case("nested-3", h, RM, shape=3), case("xml-4", h, RM, shape=4, xml=1), case("nested-5", h, RM, shape=5), case("xml-6", h, RM, shape=6, xml=1),
    case("nested-7", h, RM, shape=7), case("xml-8", h, RM, shape=8, xml=1, rounds=1),
    case("nested-4", h, RM, shape=4, tier="thorough"), case("xml-0", h, RM, shape=0, xml=1, rounds=1, tier="thorough"), case("xml-3", h, RM, shape=3, xml=1, tier="thorough"),
    case("xml-7", h, RM, shape=7, xml=1, tier="thorough"), case("nested-8", h, RM, shape=8, rounds=1, tier="thorough"), case("nested-1-twice", h, RM, shape=1, rounds=2, tier="thorough", time=120),
], "nine rule shapes up to three levels deep, over one exclusive and one inclusive criterion; every criterion state, two successive states for most")

h = "c14_ruletext"
prop("C14", [case(f"b{b}-m{m}", h, ("accepted",) if m == 0 else AR if m == 1 else ("rejected",), base=b, mode=m, time=90, tier="quick" if m < 3 or b in (1, 4) else "thorough") for b in range(6) for m in (0, 1, 2, 3, 4, 6)] +
            [case("free-5", h, (), mode=5, len=5), case("free-7", h, (), mode=5, len=7)],
     "six base rules, with any character replaced, any one inserted, any one dropped, cut at any point, two arbitrary characters; free texts of up to seven bytes")

h = "c15_apply"
prop("C15", [case(f"layout{l}-ops{o}", h, ("applied", "tuned"), layout=l, ops=o, steps=2, time=100) for l in range(4) for o in range(2)] +
            [case(f"layout{l}-three-{f}", h, ("applied",), layout=l, ops=0, steps=3, first=f, time=150, tier="thorough") for l in range(4) for f in range(3)] +
            [case(f"layout{l}-more-{f}", h, ("applied",), layout=l, ops=1, steps=3, first=f, time=220, tier="thorough") for l in range(4) for f in range(6)],
     "four layouts of up to three overlapping domains with up to three configurations each; every history of two operations (three in the thorough tier), any 32-bit criterion states")

h = "c16_gating"
prop("C16", [case(f"on{on}", h, ("applied", "edited"), on=on, steps=2, time=200) for on in (0, 1)] + [case("prohibited", h, ("applied", "edit-refused"), forbid=1, steps=2, time=200)] +
            [case("histories-off", "c17_domains", ("refused", "added", "created"), ops=16, off=1, steps=1), case("histories-prohibited", "c17_domains", ("refused",), ops=16, off=1, forbid=1, steps=1)] +
            [case(f"on{on}-three-{f}", h, (), on=on, steps=3, first=f, time=220, tier="thorough") for on in (0, 1) for f in range(10)],
     "every history of two operations (three in the thorough tier) among typed, XML and bytes sets through handles of rogue and owned elements, sets by path, setting and editing commands, edits of names, rules and values of configurations, "
     "criterion changes, tuning mode switches; tuning on, off and prohibited; any digit as value, any criterion state")

h = "c17_domains"
def large():
    return [case(f"large-{n}-{m}", "c17_large", ("restored",), n=n, m=m, tier=t) for n, m, t in ((3, 5, "quick"), (64, 70, "quick"), (300, 250, "quick"), (4200, 260, "thorough"))]
def opcases(ops, n, layouts, reach):
    return [case(f"l{l}-op{k}", h, reach, ops=ops, steps=2, opa=k, layout=l, time=150) for l in layouts for k in range(n)]
prop("C17", large() + opcases(17, 5, (0, 1), ("saved", "restored", "set")) + [case(f"l2-{k}-three", h, (), ops=17, steps=3, opa=k, layout=2, time=220, tier="thorough") for k in range(5)] +
            [case(f"l{l}-{k}{m}-three", h, (), ops=17, steps=3, opa=k, opb=m, layout=l, time=220, tier="thorough") for l in (0, 1) for k in range(5) for m in range(5)],
     "three layouts of three domains; every history of two operations (three in the thorough tier) among save, restore, set in a configuration, set by path, applying a criterion change in between; any digit as value; an element of up to 556 (4466) bytes in two configurations, with any two adjacent bytes at its ends and joints")
prop("C18", large() + opcases(18, 4, (0,), ("added", "removed", "split")) + [case(f"l{l}-op{k}", h, (), ops=18, steps=2, opa=k, layout=l, time=150, tier="thorough") for l in (1, 2) for k in range(4) if (l, k) not in ((1, 2), (2, 1))] +
            [case("l1-op2", h, (), ops=18, steps=2, opa=2, layout=1, time=150), case("l2-op1", h, (), ops=18, steps=2, opa=1, layout=2, time=150)] +
            [case(f"l0-{k}{m}-three", h, (), ops=18, steps=3, opa=k, opb=m, time=220, tier="thorough") for k in range(4) for m in range(4)],
     "three domains over a tree of parameters, a block and bit fields; every history of two operations (three in the thorough tier) among adding, removing and splitting any element in any domain and setting a value; an element of up to 556 (4466) bytes divided, joined, exported and imported")
prop("C19", opcases(19, 10, (0,), ()) + [case(f"l{l}-op{k}", h, (), ops=19, steps=2, opa=k, layout=l, time=220, tier="thorough") for l in (1, 2) for k in range(10)] +
            [case("one-step-l1", h, ("created", "deleted", "renamed", "sequenced"), ops=19, steps=1, layout=1), case("one-step-l2", h, ("sequenced",), ops=19, steps=1, layout=2)],
     "three domains with up to two configurations; every history of two operations among creating, deleting and renaming domains and configurations, sequence awareness, element sequences and rules, existing and absent names")

h = "c20_sync"
prop("C20", [case(f"start-l{l}", h, ("started", "applied", "failed"), layout=l, vary=1, steps=1, faults=2) for l in range(4)] +
            [case(f"l{l}-off", h, ("applied", "failed", "resynchronised"), layout=l, steps=2, time=200) for l in range(2)] +
            [case(f"l{l}-on", h, ("set", "restored", "failed"), layout=l, on=1, steps=2, time=200) for l in range(4)] +
            [case(f"l{l}-noauto", h, ("synced", "failed"), layout=l, on=1, noauto=1, steps=2, time=200) for l in range(2)] +
            [case(f"edit-l{l}", h, (), layout=l, on=1, steps=3, first=9, faults=0, time=200, tier="thorough" if l > 1 else "quick") for l in range(4)] +
            [case(f"l{l}-{n}-three-{f}", h, (), layout=l, steps=3, first=f, time=220, tier="thorough", **kw) for l in range(4) for n, kw in (("off", {}), ("on", dict(on=1)), ("noauto", dict(on=1, noauto=1))) for f in range(9)],
     "a plug-in with four mapped objects under four layouts of two domains, sequence aware or not; every history of two operations (three for edited domains and in the thorough tier), "
     "any subset of the objects failing and the subsystem dead or alive at every step, any criterion state, any digit as value")

h = "c22_domxml"
prop("C22", [case("all-edits", h, ("imported",), mode=0, time=250), case("one-edits", h, ("imported", "refused"), mode=1, time=300), case("all-layout1-file", h, ("imported",), mode=0, layout=1, file=1, time=250),
             case("partial-all", h, ("imported",), mode=2, time=250), case("partial-one", h, ("imported",), mode=3, time=250), case("faulty-all", h, ("accepted", "refused"), mode=4), case("faulty-one", h, ("accepted", "refused"), mode=5), case("faulty-one-l1", h, ("accepted", "refused"), mode=5, layout=1), case("untuned", h, ("refused",), mode=6)] +
            [case(f"all-{k}-then", h, ("imported",), mode=0, edit=k, layout=k % 2, time=250, tier="quick" if k in (6, 11) else "thorough") for k in range(12)] +
            [case(f"one-{k}-then", h, ("imported",), mode=1, edit=k, layout=k % 2, file=1, time=300, tier="quick" if k in (5, 8) else "thorough") for k in range(12)],
     "two layouts of three domains; every one of twelve kinds of edits before the export (and every pair before and after it in the -then cases), any digit as value, both document kinds, settings on either side or not, three value formats, "
     "from text or file; every subset of the settings of three configurations of three elements; sixteen faults, with any printable character and any three-digit value")

h = "c21_settings"
prop("C21", [case(f"document-{n}", h, ("restored",), mode=0, format=f, time=100) for f, n in enumerate(("real", "raw", "hex"))] +
            [case(f"document-{l}-other-format", h, ("restored",), mode=1, leaf=l, time=100, tier="quick" if l in (0, 3, 4, 9) else "thorough") for l in range(11)] +
            [case(f"domain-{n}", h, ("restored",), mode=2, format=f, time=100) for f, n in enumerate(("real", "raw", "hex"))] +
            [case(f"domain-{n}-back-raw", h, ("restored",), mode=2, format=f, back=1, time=100, tier="thorough") for f, n in enumerate(("real", "raw", "hex"))] +
            [case("domain-raw-negative-literal", h, (), mode=2, leaf=2, negative=1, format=1), case("domain-hex-negative-literal", h, (), mode=2, leaf=2, negative=1, format=2)] +
            [case("faulty", h, ("accepted", "refused"), mode=3), case("bytes", h, ("accepted", "refused"), mode=4), case("owned", h, ("accepted", "refused"), mode=5)],
     "a tree with one leaf of every kind, arrays, repeated blocks and bit fields; every stored value of one leaf at a time (floats within 1000, six significant digits in real text; strings of up to five printable characters), documents of the leaf, its "
     "block, the subsystem and the system, three output formats, read back in each; any bytes of any length up to twice the size; fourteen faults of a document with symbolic characters")

APIS = ("get", "set", "handle", "size", "dump", "list", "domain", "configuration", "belongs")
h = "c23_paths"
PR = ("named", "refused", "done")
prop("C23", [case(f"{n}-whole", h, (("found",) if a == 2 else ()) + ("not-found",), api=a, len=8 if a not in (3, 4, 5, 8) else 4) for a, n in enumerate(APIS)] +
            [case(f"{n}-{pn}", h, ("found", "not-found"), api=a, len=5 if a not in (3, 4, 5, 8) else 3, prefix=pr) for a, n in enumerate(APIS) for pr, pn in ((1, "below"), (2, "deeper"), (3, "index")) if (a, pr) not in ((0, 9),)] +
            [case(n, "c23_misspelt", PR, mode=m, time=100) for m, n in ((0, "one-replaced"), (1, "one-added"), (2, "one-or-two-left-out"))] +
            [case(f"more-{n}", "c23_misspelt", PR, mode=3, len=n, time=100) for n in (2, 4)] + [case("any", "c23_misspelt", PR, mode=4, len=7, time=100)] +
            [case("two-replaced-0", "c23_misspelt", PR, mode=5, count=1, time=200), case("two-replaced-4", "c23_misspelt", PR, mode=5, count=4, time=800, tier="thorough", **{"from": 1}),
             case("two-replaced-6", "c23_misspelt", PR, mode=5, count=1, time=200, **{"from": 6}), case("more-5", "c23_misspelt", PR, mode=3, len=5, time=300, tier="thorough"), case("any-9", "c23_misspelt", PR, mode=4, len=9, time=800, tier="thorough")],
     "a tree of thirteen elements in two subsystems; every path text of eight bytes (four for commands, whose arguments are stripped of blanks), every continuation of five (three) bytes of /s/t/, /s/t/k/b and of the path of an array; "
     "a system of eighteen elements with values, arrays, arrays of blocks, bit blocks, components and texts; every path of up to seven characters (nine in the thorough tier), and eight longer paths with one or two characters replaced by any, one added anywhere, up to two left out, "
     "or up to four characters (five) appended; twenty-two places a path is used; not NUL; printable in documents; doubled separators, index texts other than plain numerals, and single array values in configurations may be refused")

h = "c32_policies"
SR = ("started", "refused")
prop("C32", [case("plug-ins", h, SR, mode=0, both=0, time=150), case("plug-ins-both-policies", h, SR, mode=0, time=250, tier="thorough")] + [case(f"plug-in-names-{n}", h, ("generic",) + (("library",) if n > 2 else ()), mode=1, len=n, tier="quick" if n < 6 else "thorough") for n in (1, 2, 3, 4, 5, 6, 8)] +
            [case("settings", h, SR, mode=2), case("documents", h, SR, mode=3)] + [case(f"remote-{n}", h, ("started", "closed"), mode=4, len=n) for n in (1, 2, 3, 5)] +
            [case("options", h, ("started",), mode=5, steps=3), case("options-4", h, ("started",), mode=5, steps=4, tier="thorough", time=250)],
     "three plug-ins in two folders, each loading, never loading, lacking its entry point, or loading after either other one; plug-in names of up to five letters (eight); nine states of the settings; the three documents at absolute or relative places, any two-letter name of an included one; any port number of up to five digits, free or taken; three (four) changes of options around the start")

h = "c25_messages"
prop("C25", [case("requests", h, AR, mode=0, len=1, args=2, time=200), case("requests-longer", h, AR, mode=0, len=2, args=1, time=200), case("answers", h, AR, mode=2, len=3, time=100), case("bytes-7", h, ("rejected",), mode=1, len=7),
             case("bytes-12", h, ("rejected",), mode=1, len=12, time=100), case("bytes-14", h, AR, mode=1, len=14, time=200), case("contents-4", h, AR, mode=1, len=4, framed=1), case("contents-6", h, AR, mode=1, len=6, framed=1, time=120),
             case("contents-8", h, AR, mode=1, len=8, framed=1, time=250), case("bytes-16", h, AR, mode=1, len=16, time=300, tier="thorough"), case("contents-9", h, AR, mode=1, len=9, framed=1, time=400, tier="thorough"), case("requests-two", h, AR, mode=0, len=2, args=2, time=500, tier="thorough")],
     "requests of a command and up to two arguments of one or two bytes, whole, cut at every length, or with any one byte of marker, kind, contents or check sum altered to anything; up to sixteen arbitrary bytes with a size field of at most 40; "
     "up to nine arbitrary bytes as contents of a correct frame; answers of up to three bytes to one or two requests, the peer gone after any number of bytes; a second connection after each")

h = "c26_commands"
prop("C26", [case(f"arguments-{k}", h, AR, mode=0, parts=4, part=k, time=150) for k in range(4)] + [case("operations", h, AR, mode=1, time=100), case("names", h, AR, mode=2, len=4), case("names-5", h, ("rejected",), mode=2, len=5)] +
            [case(f"operations-{k}-two", h, (), mode=1, op=k, steps=2, time=250, tier="thorough") for k in range(20)],
     "two domains with two configurations over a parameter, an array and a flag; every command help lists, in and out of tuning mode, with 0 to needed+1 arguments, each one of up to four fitting texts or any printable character; "
     "every one of twenty operations (pairs in the thorough tier) compared with the connector's; every command name of four or five bytes")

h = "c27_locks"
prop("C27", [case("handles", h, ("used",), api=0, time=100), case("parameter-handles", h, ("used",), api=3, time=100), case("operations", h, ("used",), api=1), case("commands", h, ("used", "refused"), api=2), case("two-operations", h, ("used",), api=1, steps=2, time=200), case("edits", h, ("edited",), api=4),
             case("two-commands", h, ("used", "refused"), api=2, steps=2, time=600, tier="thorough")],
     "one operation (two in the two- cases) out of all uses of handles, of connector operations and of commands on a system with every kind of parameter, two configurations and a plug-in, in and out of tuning mode, with and without automatic synchronisation, "
     "the plug-in failing or not; thirteen edits of names, rules and values of configurations outside tuning mode, each store to a domain, configuration or rule watched; every load and store to the blackboard's storage is checked against the set of locks held; single-threaded execution, the lock set argument extends it to all schedules")

h = "c24_mapping"
prop("C24", [case("combinations", h, AR, mode=0, time=100), case("parameter-value", h, AR, mode=1, len=5, time=150), case("parameter-mapping", h, AR, mode=2, len=5, time=100), case("subsystem-mapping", h, AR, mode=3, len=5, time=100),
             case("context-value", h, AR, mode=4, len=5, time=100), case("context-mapping", h, AR, mode=5, len=5, time=100), case("parameter-mapping-6", h, AR, mode=2, len=6, time=250, tier="thorough"), case("subsystem-mapping-6", h, AR, mode=3, len=6, time=250, tier="thorough"),
             case("parameter-value-6", h, AR, mode=1, len=6, time=400, tier="thorough"), case("context-value-6", h, AR, mode=4, len=6, time=250, tier="thorough")],
     "a plug-in with three context keys and three object keys (one with an ancestor and a size limit, one with another ancestor); a component with a type and an extended type, a parameter of any of ten kinds, a bit block; about 1500 combinations of mappings; any printable text of up to five (six) characters (quotes and markup of XML aside)")

h = "c29_cbinding"
prop("C29", [case("new-two", h, ("started", "not-started"), steps=2)] + [case(f"start-{f}-then-two", h, ("started",), steps=3, first=0, start0=f, time=200, tier="quick" if f in (0, 1, 3, 4) else "thorough") for f in range(10)] + [case("started-two", h, ("bound", "written", "set"), started=1, steps=2)] +
            [case(f"started-three-{f}", h, (), started=1, steps=3, first=f, states=3, time=250, tier="quick" if f in (1, 3, 4, 5) else "thorough") for f in range(7)] +
            [case(f"new-three-{f}", h, (), steps=3, first=f, time=300, tier="thorough") for f in range(1, 7)],
     "a system with an integer and a text outside every domain and a parameter in a domain of two configurations; two criteria with values 0 to 4 (0 to 2 in the longer histories)")

h = "c28_start"
prop("C28", [case("configuration-attributes", h, AR28, mode=0, doc=0), case("domains-attributes", h, AR28 + ("fit", "unfit"), mode=0, doc=2)] +
            [case(f"structure-attributes-{a}", h, AR28, mode=0, doc=1, len=l, time=100, **{"from": a, "count": n}) for a, n, l in ((0, 19, 2), (19, 1, 1), (20, 2, 2), (22, 2, 1), (24, 5, 2), (29, 1, 1), (30, 18, 2), (48, 99, 2))] +
            [case(f"{d}-{n}", h, AR28, mode=m, doc=k) for k, d in enumerate(("configuration", "structure", "domains")) for m, n in ((1, "attribute-left-out"), (2, "elements"))] +
            [case(f"{d}-characters-{p}", h, ("refused",), mode=3, doc=k, light=1, parts=n, part=p, time=100) for k, d, n in ((0, "configuration", 1), (1, "structure", 3), (2, "domains", 2)) for p in range(n)] +
            [case("missing-documents", h, AR28, mode=4), case("component-types", h, AR28, mode=5), case("plug-ins-and-settings", h, AR28, mode=6),
             case("array-length", h, AR28, mode=0, doc=1, len=2, time=250, tier="thorough", **{"from": 19, "count": 1}), case("maximum-length", h, AR28, mode=0, doc=1, len=2, time=250, tier="thorough", **{"from": 29, "count": 1})],
     "a configuration, a structure with every kind of element (57 attributes) and a domain; any attribute replaced by any text of up to two printable characters or left out, any element left out, doubled, emptied or renamed, any character replaced by any other, "
     "cut anywhere; any of the documents missing; three component types extending and containing each other in any way; settings required or not, plug-ins required or not; elements in places the schema does not allow are outside")

h = "c30_structure"
prop("C30", [case(f"{n}-2", h, r, mode=m, count=2) for m, n, r in ((0, "described", ("described",)), (1, "stored", ("read", "written")), (2, "exported", ("described",)))] + [case("properties", h, ("described",), mode=3, time=250), case("exported-adaptation", h, (), mode=4)] +
            [case(f"described-3-{k}", h, ("described",), mode=0, count=3, first=k, time=200) for k in (2, 9, 12, 15, 16)] +
            [case(f"stored-3-{k}", h, ("read", "written"), mode=1, count=3, first=k, time=200) for k in range(20)] +
            [case(f"described-3-{k}", h, ("described",), mode=0, count=3, first=k, tier="thorough", time=200) for k in range(20) if k not in (2, 9, 12, 15, 16)] +
            [case(f"exported-3-{k}", h, ("described",), mode=2, count=3, first=k, tier="thorough", time=200) for k in range(20)],
     "two elements of any of twenty kinds (three for storage) in any order, with any content; any element then replaced by any bytes; fourteen declarations with any digit in their numbers, with and without description, unit and length")

h = "c31_listings"
TOLD = ("told",)
prop("C31", [case(f"ownership-{l}-op{k}", h, TOLD, mode=0, ops=18, steps=2, layout=l, opa=k, time=200) for l in range(2) for k in range(3)] +
            [case("ownership-domains", h, TOLD, mode=0, ops=19, steps=2, layout=1, time=300)] +
            [case(f"dump-{o}", h, TOLD, mode=1, ops=o, steps=2, time=300) for o in (17, 18, 19)] +
            [case("state", h, TOLD, mode=2, steps=0), case("criteria", h, TOLD, mode=5)] + [case(f"contents-{w}", h, TOLD, mode=3, steps=0, where=w) for w in (0, 2, 4, 6, 8)] +
            [case(f"exports-{o}", h, TOLD, mode=4, ops=o, steps=1) for o in (18, 19)] +
            [case(f"ownership-3-op{k}{n}", h, TOLD, mode=0, ops=18, steps=3, layout=1, opa=k, opb=n, time=800, tier="thorough") for k in range(3) for n in range(3)],
     "any two operations (three in the thorough tier) on the elements of three domains over nine nested elements, or on domains and configurations; any 32-bit states of criteria of both kinds with up to three values, and all settings of the interface; any two adjacent bytes")

h = "c33_edd"
RT = ("refused", "translated")
prop("C33", [case(f"lines-{s}", h, RT if s != 7 else ("refused", "differ"), mode="lines", start=s, n=2) for s in range(8)] +
            [case("inherit-domain", h, ("translated",), mode="inherit", groups=0, time=120), case("components", h, ("translated", "differ"), mode="components", time=200),
             case("components-one", h, ("translated",), mode="components", both=0), case("operators", h, ("translated",), mode="rules", time=120),
             case("names", h, ("translated",), mode="names", len=2), case("criteria", h, ("criteria",), mode="criteria", n=1, len=3), case("two-criteria", h, ("criteria",), mode="criteria", n=2, len=1, time=120),
             case("no-criterion", h, ("refused",), mode="criteria", n=0, bad=1), case("components-three", h, ("translated", "differ"), mode="components", three=1),
             case("script", h, ("translated", "refused"), mode="script"), case("generator", h, ("translated", "refused"), mode="main", time=120), case("generator-files", h, ("translated",), mode="main", wide=1, time=120)] +
            [case(f"text-{w}", h, r, mode="texts", what=w, len=n) for w, r, n in (("rule", ("translated",), 2), ("value", ("translated",), 3), ("path", ("translated",), 3), ("type", ("refused",), 5), ("indent", RT, 5))] +
            [case(f"inherit-{k}", h, ("translated",), mode="inherit", part=k, time=200) for k in range(8)] +
            [case(f"lines-3-{s}-{k}", h, (), mode="lines", start=s, n=3, first=k, time=220, tier="thorough") for s in (1, 2, 4) for k in range(11)] +
            [case("names-3", h, ("translated",), mode="names", len=3, time=200, tier="thorough"), case("inherit-tags", h, ("translated",), mode="inherit", groups=0, tags=1, second=1, time=200, tier="thorough")],
     "the two programs with any two options unlike the rest, up to two EDD files, two domain files, initial settings, and any outcome of the generator program; two lines of any of eleven kinds at any of five depths after any of eight starts; nested groups, types and configurations with every rule there or not and names equal or not; parameters through nested components; "
     "operators nested in one another; names, criteria, values, paths and indentation of any characters, up to three of them (five for relations and indentation)")

h = "c34_generator"
DF = ("done", "failures")
prop("C34", [case("settings", h, DF + ("settings",), mode=0), case("text", h, DF + ("settings",), mode=0, text=1), case("conflicts", h, DF + ("settings", "conflict"), mode=0, second=1, time=150), case("no-criterion", h, DF + ("settings",), mode=0, criteria=0),
             case("four-values", h, DF + ("settings",), mode=0, values=4, time=120), case("start", h, DF + ("fatal",), mode=1), case("two-criteria", h, DF + ("fatal",), mode=1, criteria=2), case("no-value", h, ("fatal",), mode=1, values=0), case("one-value", h, DF, mode=0, values=1)] +
            [case(f"line-{n}", h, DF, mode=3, len=n, criteria=0) for n in (1, 2, 3, 4)] + [case(f"failures-{n}", h, DF, mode=2, steps=n) for n in (3, 255, 256, 600)] + [case("arguments", h, ("done",), mode=4)] +
            [case("line-5", h, DF, mode=3, len=5, criteria=0, time=250, tier="thorough"), case("failures-2048", h, DF, mode=2, steps=2048, tier="thorough")],
     "a system of an integer and a text; up to two criteria of up to four values of either kind; domains, rules and one-character values, each command right or wrong; any line of up to four (five) bytes after a command name; up to 600 failing commands")

h = "c35_client"
prop("C35", [case("words-3", h, ("done", "failed", "usage"), mode=0, len=2, words=3, faults=0), case("long-words", h, ("done", "failed"), mode=0, len=8, words=1, faults=0), case("faults", h, ("done", "failed", "usage", "cut", "part"), mode=0, len=1, words=1),
             case("framework", h, ("done", "failed", "part"), mode=1), case("faults-two", h, ("done", "failed", "cut", "part"), mode=0, len=1, words=2, time=200), case("faults-long", h, ("done", "failed", "cut", "part"), mode=0, len=3, words=1, time=300, tier="thorough"),
             case("words-long", h, ("done", "failed"), mode=0, len=4, words=3, faults=0, time=300, tier="thorough")],
     "a command of up to three words of up to three bytes (one of nine), answers of up to two bytes (eight), a peer that leaves after any number of bytes of the request or of the answer, or is not there; seven commands given to a framework")
