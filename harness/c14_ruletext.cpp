// C14: rule texts: well-formed ones are kept and dumped equivalently, malformed ones refused without effect, export and import keep the rule
#include "dom.hpp"
using namespace fw;
static const char *IL[3] = {"x", "y", "w"};
// reference reader: 1 well formed, 0 malformed, 2 unusual white space (not specified)
struct Ref
{
    const S &t;
    size_t p = 0;
    int odd = 0;
    S out;
    explicit Ref(const S &t) : t(t) {}
    bool at(char c) { return p < t.size() && t[p] == c; }
    void sp() { while (at(' ')) p++; }
    bool word(S &w) // up to a delimiter
    {
        size_t b = p;
        while (p < t.size() && t[p] != '{' && t[p] != '}' && t[p] != ' ' && t[p] != ',') p++;
        w = t.substr(b, p - b);
        return !w.empty();
    }
    int value(const S &c, const S &w, S &norm)
    {
        if (c == "E") { norm = w; return w == "a" || w == "b"; }
        unsigned m = 0;
        size_t b = 0;
        while (b <= w.size()) {
            size_t e = w.find('|', b);
            if (e == S::npos) e = w.size();
            S q = w.substr(b, e - b);
            if (q.empty()) odd = 1; // empty alternatives
            else if (q != "none") {
                int f = -1;
                for (int i = 0; i < 3; i++) if (q == IL[i]) f = i;
                if (f < 0) return 0;
                m |= 1u << f;
            }
            b = e + 1;
        }
        norm = "";
        for (int i = 0; i < 3; i++) if (m >> i & 1) norm += (norm.empty() ? S() : S("|")) + IL[i];
        if (norm.empty()) norm = "none";
        return 1;
    }
    int rule(bool root)
    {
        S w;
        if (!word(w)) return 0;
        if (at('{')) {
            if (w != "Any" && w != "All") return 0;
            p++;
            out += w + "{";
            sp();
            if (at('}')) { p++; out += "}"; return 1; }
            for (bool first = true;; first = false) {
                if (!first) out += ", ";
                if (!rule(false)) return 0;
                size_t b = p;
                sp();
                if (p != b) odd = 1;
                if (at('}')) { p++; out += "}"; return 1; }
                if (!at(',')) return 0;
                p++;
                sp();
            }
        }
        if (root || !at(' ')) return 0;
        S v, x, n;
        sp();
        if (!word(v)) return 0;
        sp();
        if (!word(x)) return 0;
        if (w != "E" && w != "I") return 0;
        bool both = v == "Is" || v == "IsNot";
        if (!both && !(w == "I" && (v == "Includes" || v == "Excludes"))) return 0;
        if (!value(w, x, n)) return 0;
        out += w + " " + v + " " + n;
        return 1;
    }
    int read()
    {
        size_t b = p;
        sp();
        if (p != b) odd = 1;
        if (!rule(true)) return 0;
        b = p;
        sp();
        if (p != b) odd = 1;
        return p == t.size();
    }
};
static const char *BASE[6] = {"All{E Is a}", "Any{I Includes x|w, E IsNot b}", "All{Any{E Is a, I Excludes y}, I Is none}", "All{}", "Any{All{}, Any{I IsNot x|y|w}}", "All{E Is a, All{I Includes y}}"};
extern "C" void harness_main()
{
    unsigned mode = param("mode", 0), b = param("base", 0);
    Cfg c;
    c.instances = intDef("p");
    Dom d;
    d.name = "D";
    d.elements = {"/test/test/p"};
    d.confs = {{"one", S(), {{"/test/test/p", intXml("p", "11")}}}, {"two", always(), {{"/test/test/p", intXml("p", "22")}}}};
    c.domains = d.xml();
    PF pf(c);
    auto *te = critType(pf, false, {{3, "a"}, {5, "b"}});
    auto *ti = critType(pf, true, {{1, "x"}, {2, "y"}, {8, "w"}});
    pf.createSelectionCriterion("E", te);
    pf.createSelectionCriterion("I", ti);
    pf.upTuning();
    S e, got;
    CHECK(pf.getApplicationRule("D", "one", got) && got == "<none>", "a configuration may have no rule");
    const S old = "Any{E Is b}";
    CHECK(pf.setApplicationRule("D", "one", old, e), "a well formed rule is accepted");
    S t = BASE[b];
    if (mode == 1) { // one character replaced by any other
        size_t at = choice("at", (unsigned)t.size());
        S r = symText("c", 1);
        ASSUME((r[0] != 0) & (r[0] < 127) & (r[0] >= 32));
        t[at] = r[0];
    }
    if (mode == 6) { // two characters replaced by anything
        size_t a1 = choice("at1", (unsigned)t.size() - 1), a2 = a1 + 1 + choice("gap", (unsigned)(t.size() - 1 - a1));
        S r = symText("c", 2);
        for (char ch : r) ASSUME((ch >= 32) & (ch < 127));
        t[a1] = r[0];
        t[a2] = r[1];
    }
    if (mode == 2) t = t.substr(0, choice("cut", (unsigned)t.size()));                                       // cut short
    if (mode == 3) { size_t at = choice("at", (unsigned)t.size()), n = 1 + choice("n", 3); t = t.substr(0, at) + (at + n < t.size() ? t.substr(at + n) : S()); } // some characters dropped
    if (mode == 4) { // something inserted anywhere
        static const char *INS[9] = {"{", "}", ",", " junk", "Any{}", ", E Is a", ", I Excludes x", "}, Any{E Is a", "|x"};
        size_t at = choice("at", (unsigned)t.size() + 1);
        t = t.substr(0, at) + INS[choice("what", 9)] + t.substr(at);
    }
    if (mode == 5) { t = symText("t", (unsigned)param("len", 5)); for (char ch : t) ASSUME((ch == '{') | (ch == '}') | (ch == ',') | (ch == ' ') | (ch == 'A') | (ch == 'l') ); } // any short text
    observe("text", t);
    Ref ref(t);
    int want = ref.read();
    bool ok = pf.setApplicationRule("D", "one", t, e);
    if (ref.odd) { REACH("unusual"); }
    else CHECK(ok == (want != 0), "a rule text is accepted exactly when it is well formed and names existing criteria, verbs and values");
    CHECK(pf.getApplicationRule("D", "one", got), "the rule can be read");
    if (!ok) {
        CHECK(sameBytes(got, old), "a refused rule leaves the previous one in force");
        CHECK(!e.empty(), "a refusal is explained");
        REACH("rejected");
        return;
    }
    REACH("accepted");
    if (!ref.odd) CHECK(sameBytes(got, ref.out), "the rule read is the rule set");
    S again = got;
    CHECK(pf.setApplicationRule("D", "two", again, e), "a rule that was read can be set");
    CHECK(pf.getApplicationRule("D", "two", got) && sameBytes(got, again), "a rule that was read and set again is the same");
    // export and import
    S x;
    CHECK(pf.exportDomainsXml(x, true, false, e), "domains can be exported");
    CHECK(pf.clearApplicationRule("D", "one", e), "a rule can be cleared");
    CHECK(pf.getApplicationRule("D", "one", got) && got == "<none>", "a cleared rule is gone");
    CHECK(pf.importDomainsXml(x, true, false, e), "exported domains can be imported");
    CHECK(pf.getApplicationRule("D", "one", got) && sameBytes(got, again), "export and import keep the rule");
}
