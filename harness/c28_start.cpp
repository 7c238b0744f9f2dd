// Starting from faulty documents: refused with an explanation, or started and usable; nothing in between.
#include "dom.hpp"
#include <CommandHandlerInterface.h>
using namespace fw;
static const char *const STRUCT =
    "<SystemClass Name='test'><Subsystem Name='s' Type='Virtual' Mapping='k:v'><ComponentLibrary>"
    "<ComponentType Name='B'><BooleanParameter Name='t'/></ComponentType>"
    "<ComponentType Name='D' Extends='B'><EnumParameter Name='e' Size='8'><ValuePair Literal='one' Numerical='1'/><ValuePair Literal='m' Numerical='-2'/></EnumParameter></ComponentType>"
    "</ComponentLibrary><InstanceDefinition>"
    "<IntegerParameter Name='i' Size='16' Signed='true' Min='-5' Max='50' ArrayLength='2'/>"
    "<FixedPointParameter Name='f' Size='16' Integral='3' Fractional='4'/>"
    "<FloatingPointParameter Name='r' Size='32' Min='-1.5' Max='8.5'/>"
    "<StringParameter Name='x' MaxLength='5'/>"
    "<BitParameterBlock Name='b' Size='8'><BitParameter Name='l' Pos='0' Size='3'/><BitParameter Name='h' Pos='3' Size='5' Max='20'/></BitParameterBlock>"
    "<ParameterBlock Name='g' ArrayLength='2'><IntegerParameter Name='a' Size='8' Signed='false'><LinearAdaptation SlopeNumerator='3' Offset='4'/></IntegerParameter></ParameterBlock>"
    "<Component Name='c' Type='D'/>"
    "<IntegerParameter Name='j' Size='8' Signed='false'><LinearAdaptation SlopeDenominator='2'/></IntegerParameter>"
    "<IntegerParameter Name='k' Size='8' Signed='true'><LogarithmicAdaptation LogarithmBase='2' FloorValue='1'/></IntegerParameter>"
    "</InstanceDefinition></Subsystem></SystemClass>";
static S confText()
{
    return "<ParameterFrameworkConfiguration SystemClassName='test' TuningAllowed='true'><SubsystemPlugins><Location Folder=''/></SubsystemPlugins>"
           "<StructureDescriptionFileLocation Path='" + path("structure.xml") + "'/><SettingsConfiguration><ConfigurableDomainsFileLocation Path='" + path("domains.xml") +
           "'/></SettingsConfiguration></ParameterFrameworkConfiguration>";
}
static const char *const DOMS =
    "<ConfigurableDomains SystemClassName='test'><ConfigurableDomain Name='D' SequenceAware='false'><Configurations><Configuration Name='c1'>"
    "<CompoundRule Type='All'><SelectionCriterionRule SelectionCriterion='K' MatchesWhen='Is' Value='on'/></CompoundRule></Configuration></Configurations>"
    "<ConfigurableElements><ConfigurableElement Path='/test/s/f'/><ConfigurableElement Path='/test/s/x'/></ConfigurableElements><Settings><Configuration Name='c1'>"
    "<ConfigurableElement Path='/test/s/f'><FixedPointParameter Name='f'>1.5</FixedPointParameter></ConfigurableElement>"
    "<ConfigurableElement Path='/test/s/x'><StringParameter Name='x'>ab</StringParameter></ConfigurableElement></Configuration></Settings></ConfigurableDomain></ConfigurableDomains>";
static const char *const HEAD = "<?xml version='1.0' encoding='UTF-8'?>";
// [begin, end) of every attribute value, and of every attribute with the blank before it
struct Span { size_t b, e, nameb; };
static std::vector<Span> attributes(const S &t)
{
    std::vector<Span> v;
    for (size_t i = 0; i < t.size(); i++)
        if (t[i] == '=' && t[i + 1] == '\'') {
            size_t n = i, e = t.find('\'', i + 2);
            while (t[n] != ' ') n--;
            v.push_back(Span{i + 2, e, n});
            i = e;
        }
    return v;
}
// [begin, end) of every element, nameb the end of its name
static std::vector<Span> elements(const S &t)
{
    std::vector<Span> v;
    for (size_t i = 0; i < t.size(); i++)
        if (t[i] == '<' && t[i + 1] != '/') {
            int depth = 0;
            size_t k = i, n = i;
            while (t[n] != ' ' && t[n] != '>' && t[n] != '/') n++;
            for (;; k++) {
                if (t[k] == '<') depth += t[k + 1] == '/' ? -1 : 1;
                if (t[k] == '>') {
                    if (t[k - 1] == '/') depth--;
                    if (!depth) break;
                }
            }
            v.push_back(Span{i, k + 1, n});
        }
    return v;
}
static S printable(const char *n, unsigned len, bool quote = false)
{
    S s = symText(n, len);
    for (unsigned i = 0; i < len; i++) ASSUME((s[i] >= ' ') & (s[i] < 127) & (s[i] != '&') & (s[i] != '<') & (quote | (s[i] != '\'')));
    return s;
}
struct Fx
{
    S doc[3];
    std::unique_ptr<PF> pf;
    bool present[3] = {true, true, true};
    bool started = false, failOnSettings = true, strict = false;
    Fx() { doc[0] = confText(), doc[1] = STRUCT, doc[2] = DOMS; }
    void up()
    {
        static const char *const N[] = {"conf.xml", "structure.xml", "domains.xml"};
        Cfg c;
        pf.reset(new PF(c)); // writes default files, replaced here
        failOnSettings = maybe("fail-on-settings");
        pf->setFailureOnFailedSettingsLoad(failOnSettings);
        pf->setFailureOnMissingSubsystem(strict);
        for (int i = 0; i < 3; i++) put(path(N[i]), present[i] ? S(HEAD) + doc[i] : S(""));
        auto *t = critType(*pf, false, {{0, "off"}, {1, "on"}});
        pf->createSelectionCriterion("K", t);
        started = pf->up();
        pfs_note_str(pf->err.c_str());
        if (!started) CHECK(!pf->err.empty(), "a start refused is explained");
        if (started) REACH("started");
        else REACH("refused");
        if (started && !param("light", 0)) use();
    }
    void use()
    {
        S e;
        std::unique_ptr<CommandHandlerInterface> h(pf->createCommandHandler());
        S out;
        h->process("status", {}, out);
        out.clear();
        h->process("dumpElement", {"/"}, out);
        bool tune = pf->setTuningMode(true, e);
        out.clear();
        h->process("listParameters", {"/"}, out);
        // every parameter listed can be read
        size_t p = 0;
        unsigned n = 0;
        while (p < out.size() && n < 12) {
            size_t q = out.find('\n', p);
            if (q == S::npos) q = out.size();
            S l = out.substr(p, q - p);
            size_t sp = l.find(" [");
            if (!l.empty() && l[0] == '/' && sp != S::npos) {
                S v;
                pf->get(l.substr(0, sp), v);
                n++;
            }
            p = q + 1;
        }
        pf->applyConfigurations();
        S x;
        if (tune) {
            e.clear();
            pf->exportDomainsXml(x, true, false, e);
        }
        std::unique_ptr<ElementHandle> sys(pf->createElementHandle("/test", e));
        if (sys) {
            S s;
            std::vector<uint8_t> b;
            sys->getAsXML(s, e);
            sys->getAsBytes(b, e);
            sys->getStructureAsXML(s, e);
        }
    }
};
// 1: the attribute fits, 0: it does not, 2: this oracle does not tell
static int expected(int d, const S &tag, const S &name, const S &owner, const S &v)
{
    auto has = [&](const char *x) { return owner.find(x) != S::npos; };
    if (d == 0) {
        if (name == "TuningAllowed") return v.empty() ? 0 : v.size() > 1 ? (v[0] == ' ') | (v[1] == ' ') ? 2 : 0 : (v[0] == '0') | (v[0] == '1');
        if (name == "Path") return v.empty() && tag[0] == 'C' ? 2 : 0; // no such file
        return 2;
    }
    if (d == 2) {
        if (name == "SystemClassName") return 0;
        if (name == "SequenceAware") return v.size() == 1 ? (v[0] == '0') | (v[0] == '1') : 2;
        if (name == "SelectionCriterion") return v.size() == 1 ? v[0] == 'K' : 0;
        if (name == "MatchesWhen") return v.size() == 2 ? (v[0] == 'I') & (v[1] == 's') : 0;
        if (name == "Value") return v.size() == 2 ? (v[0] == 'o') & (v[1] == 'n') : 0;
        return 2;
    }
    if (tag == "Component" && name == "Type") return v.size() == 1 ? (v[0] == 'B') | (v[0] == 'D') : 0;
    if (name == "Extends") return v.size() == 1 ? v[0] == 'B' : 0;
    if (name == "Name" || name == "Literal" || name == "Type" || name == "Mapping") return 2;
    // a number
    if (v.empty()) return name == "Size" ? 0 : 2;
    int digits = 1, letter = 0;
    for (char c : v) digits &= (c >= '0') & (c <= '9'), letter |= ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z'));
    if (letter) return 0;
    if (!digits) return 2;
    int n = 0;
    for (char c : v) n = 10 * n + (c - '0');
    int std3 = (n == 8) | (n == 16) | (n == 32);
    if (tag == "IntegerParameter") return name == "Size" ? std3 : name == "Min" ? n <= 50 : name == "Signed" ? 2 : 1;
    if (tag == "FixedPointParameter") return name == "Size" ? std3 : name == "Integral" ? n <= 11 : n <= 12;
    if (tag == "FloatingPointParameter") return name == "Size" ? n == 32 : name == "Min" ? n <= 8 : 1;
    if (tag == "EnumParameter") return std3;
    if (tag == "BitParameterBlock") return std3 | (n == 64);
    if (tag == "BitParameter" && has("Name='l'")) return name == "Pos" ? n <= 5 : n ? n <= 8 : 2;
    if (tag == "BitParameter") return name == "Pos" ? n <= 3 : name == "Size" ? n == 5 : n <= 31;
    if (name == "SlopeDenominator" || name == "LogarithmBase") return n > (name == "LogarithmBase");
    if (name == "FloorValue") return 1;
    if (tag == "StringParameter" || tag == "ParameterBlock" || tag == "LinearAdaptation") return 1;
    return 2;
}
extern "C" void harness_main()
{
    Fx f;
    int d = (int)param("doc", 0);
    S &t = f.doc[d];
    switch (param("mode", 0)) {
    case 0: { // any attribute with any short value
        auto a = attributes(t);
        unsigned lo = (unsigned)param("from", 0), n = (unsigned)param("count", 99);
        if (lo + n > a.size()) n = (unsigned)a.size() - lo;
        unsigned at = lo + choice("attribute", n);
        auto s = a[at];
        S v = printable("text", choice("length", 1 + (unsigned)param("len", 2)));
        S name = t.substr(s.nameb + 1, s.b - s.nameb - 3), was = t.substr(s.b, s.e - s.b);
        size_t lt = t.rfind('<', s.b);
        S tag = t.substr(lt + 1, t.find_first_of(" ", lt) - lt - 1), owner = t.substr(lt, t.find('>', lt) - lt);
        t = t.substr(0, s.b) + v + t.substr(s.e);
        f.up();
        if ((d == 2 || (d == 0 && tag[0] == 'C')) && !f.failOnSettings) {
            if (!v.empty()) CHECK(f.started, "failing settings do not prevent the start");
            break;
        }
        int want = expected(d, tag, name, owner, v);
        if (want == 0) { CHECK(!f.started, "an unfit attribute is refused"); REACH("unfit"); }
        if (want == 1 && (d != 1 || !f.failOnSettings)) { CHECK(f.started, "a fit attribute is accepted"); REACH("fit"); }
        break;
    }
    case 1: { // any attribute left out
        auto a = attributes(t);
        auto s = a[choice("attribute", (unsigned)a.size())];
        t = t.substr(0, s.nameb) + t.substr(s.e + 1);
        f.up();
        break;
    }
    case 2: { // any element left out, doubled, emptied or renamed
        auto a = elements(t);
        auto s = a[choice("element", (unsigned)a.size())];
        S el = t.substr(s.b, s.e - s.b), tag = t.substr(s.b + 1, s.nameb - s.b - 1);
        unsigned how = choice("how", 4);
        if (how == 0) t = t.substr(0, s.b) + t.substr(s.e);
        if (how == 1) t = t.substr(0, s.e) + el + t.substr(s.e);
        if (how == 2) { S o = el.substr(0, el.find('>') + 1); if (o[o.size() - 2] != '/') o += "</" + tag + ">"; t = t.substr(0, s.b) + o + t.substr(s.e); }
        if (how == 3) { S o = "X" + el.substr(1 + tag.size()); if (o[o.size() - 2] != '/') o = o.substr(0, o.size() - tag.size() - 1) + "X>"; t = t.substr(0, s.b) + "<" + o + t.substr(s.e); }
        f.up();
        break;
    }
    case 3: { // cut anywhere, or any character replaced
        unsigned parts = (unsigned)param("parts", 1), part = (unsigned)param("part", 0), at = part + parts * choice("at", (unsigned)(t.size() - part + parts - 1) / parts);
        bool cut = maybe("cut");
        if (cut) t = t.substr(0, at);
        else t[at] = printable("text", 1, true)[0];
        f.up();
        if (cut) CHECK(!f.started || (d == 2 && !f.failOnSettings), "a document cut short is refused");
        break;
    }
    case 5: { // three component types, each extending and containing any of them or none
        S lib;
        bool ok = true;
        std::vector<S> leaves[3]; // paths below an instance
        for (int i = 0; i < 3; i++) {
            int ext = ok ? (int)choice("extends", 4) - 1 : -1, in = ok && ext < i ? (int)choice("contains", 4) - 1 : -1;
            bool block = in >= 0 && maybe("in-a-block");
            if (ext >= i || in >= i) ok = false;
            S n = itoa64(i), c = in < 0 ? S() : "<Component Name='c" + n + "' Type='T" + itoa64(in) + "'/>";
            if (block) c = "<ParameterBlock Name='k" + n + "'>" + c + "</ParameterBlock>";
            lib += "<ComponentType Name='T" + n + "'" + (ext < 0 ? S() : " Extends='T" + itoa64(ext) + "'") + "><BooleanParameter Name='p" + n + "'/>" + c + "</ComponentType>";
            if (!ok) continue;
            if (ext >= 0) leaves[i] = leaves[ext];
            leaves[i].push_back("/p" + n);
            if (in >= 0) for (auto &l : leaves[in]) leaves[i].push_back((block ? "/k" + n : S()) + "/c" + n + l);
        }
        f.doc[1] = "<SystemClass Name='test'><Subsystem Name='s' Type='Virtual'><ComponentLibrary>" + lib + "</ComponentLibrary><InstanceDefinition><Component Name='u' Type='T2'/></InstanceDefinition></Subsystem></SystemClass>";
        f.doc[2] = "<ConfigurableDomains SystemClassName='test'/>";
        f.up();
        CHECK(f.started == ok, "component types refer to earlier ones only");
        if (f.started) {
            f.pf->upTuning();
            for (auto &l : leaves[2]) CHECK(f.pf->set("/test/s/u" + l, "1"), "each parameter of the types exists");
            std::unique_ptr<CommandHandlerInterface> h(f.pf->createCommandHandler());
            S out;
            h->process("listParameters", {"/"}, out);
            size_t n = 0;
            for (size_t k = 0; k < out.size(); k++) n += out[k] == '/' && (!k || out[k - 1] == '\n');
            CHECK(n == leaves[2].size(), "no other parameter exists");
        }
        break;
    }
    case 6: { // a subsystem without a plug-in, a plug-in that cannot be loaded, settings that cannot
        bool type = maybe("unknown-type"), lib = maybe("missing-library"), bad = maybe("bad-settings"), strict = maybe("fail-on-missing");
        if (type) f.doc[1].replace(f.doc[1].find("'Virtual'"), 9, "'Other'");
        if (lib) f.doc[0].replace(f.doc[0].find("<Location Folder=''/>"), 21, "<Location Folder='" + path("none") + "'><Plugin Name='nothing.so'/></Location>");
        if (bad) f.doc[2].replace(f.doc[2].find(">1.5<"), 5, ">99<");
        f.strict = strict;
        f.up();
        CHECK(f.started == !(((lib || type) && strict) || (bad && f.failOnSettings)), "missing plug-ins and failing settings prevent the start as asked for");
        if (f.started) {
            S e;
            std::unique_ptr<CommandHandlerInterface> h(f.pf->createCommandHandler());
            S out;
            h->process("listDomains", {}, out);
            CHECK((out.find('D') == S::npos) == bad, "settings that fail leave no domain");
            CHECK(f.pf->set("/test/s/r", "2.5"), "the framework is usable");
        }
        break;
    }
    case 4: // missing documents
        for (int i = 0; i < 3; i++) f.present[i] = maybe("present");
        f.up();
        CHECK(f.started == (f.present[0] && f.present[1] && (f.present[2] || !f.failOnSettings)), "a missing document is refused");
        break;
    }
}
