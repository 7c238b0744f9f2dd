// C24: which plug-in objects the mapping attributes of a structure create, on what elements and with what values; showMapping.
#include "fw.hpp"
#include <CommandHandlerInterface.h>
#include <Plugin.h>
#include <Subsystem.h>
#include <MappingContext.h>
#include <FormattedSubsystemObject.h>
#include <InstanceConfigurableElement.h>
#include <SubsystemObjectFactory.h>
#include <LoggingElementBuilderTemplate.h>
#include <map>
using namespace fw;
static const char *const KEYS[3] = {"Own", "A1", "A2"};
static const char *const OBJS[3] = {"Obj", "Fre", "Anc"}; // needs Own; needs none; needs A2
struct Seen { S key, path, value, ctx; size_t size; };
static std::vector<Seen> *gSeen;
static S context(const CMappingContext &c)
{
    S r;
    for (size_t i = 0; i < 3; i++) {
        r += c.iSet(i) ? "=" + c.getItem(i) : S("-");
        const S *k = c.getItem(S(KEYS[i]));
        CHECK((k != nullptr) == c.iSet(i), "an item of the context is found by its key when it is set");
        if (k) CHECK(sameBytes(*k, c.getItem(i)), "the value of an item of the context is found by its key");
    }
    CHECK(!c.getItem(S("None")), "an unknown key has no value");
    return r;
}
template <int K> struct Obj : CFormattedSubsystemObject
{
    Obj(const S &map, CInstanceConfigurableElement *e, const CMappingContext &c, core::log::Logger &l) : CFormattedSubsystemObject(e, l, map, 1, 2, c)
    {
        gSeen->push_back(Seen{OBJS[K], e->getPath(), getFormattedMappingValue(), context(c), getSize()});
    }
    bool sendToHW(S &) override { return true; }
};
struct Sub : CSubsystem
{
    Sub(const S &n, core::log::Logger &l) : CSubsystem(n, l)
    {
        for (auto k : KEYS) addContextMappingKey(k);
        addSubsystemObjectFactory(new TSubsystemObjectFactory<Obj<0>>("Obj", 1, 3));
        addSubsystemObjectFactory(new TSubsystemObjectFactory<Obj<1>>("Fre", 0));
        addSubsystemObjectFactory(new TSubsystemObjectFactory<Obj<2>>("Anc", 4));
    }
};
extern "C" void harness_plugin_entry(CSubsystemLibrary *l, core::log::Logger &g) { l->addElementBuilder("Fake", new TLoggingElementBuilderTemplate<Sub>(g)); }

struct Map
{
    bool has = false, bad = false;
    std::vector<std::pair<S, S>> kv; // sorted by key
    const S *get(const S &k) const { for (auto &p : kv) if (p.first == k) return &p.second; return nullptr; }
    S text() const
    {
        S r;
        for (auto &p : kv) r += (r.empty() ? "" : ", ") + p.first + ":" + p.second;
        return r;
    }
};
static Map parse(const S &t)
{
    Map m;
    m.has = !t.empty();
    size_t i = 0;
    while (i < t.size()) {
        size_t e = i;
        while (e < t.size() && t[e] != ',') e++;
        if (e > i) {
            S tok = t.substr(i, e - i), k, v;
            size_t c = 0;
            while (c < tok.size() && tok[c] != ':') c++;
            k = tok.substr(0, c);
            if (c < tok.size()) v = tok.substr(c + 1);
            if (m.get(k)) m.bad = true;
            size_t at = 0;
            while (at < m.kv.size() && m.kv[at].first < k) at++;
            m.kv.insert(m.kv.begin() + at, {k, v});
        }
        i = e + 1;
    }
    return m;
}
typedef std::vector<const Map *> Layers; // own first, then the type's, then the extended type's
struct Ctx { const S *v[3] = {nullptr, nullptr, nullptr}; };
struct World
{
    bool ok = true;
    std::vector<Seen> objs;
    std::vector<std::pair<S, S>> shown; // path, mapping
    static const S *look(const Layers &l, const S &k)
    {
        for (auto *m : l) if (auto *v = m->get(k)) return v;
        return nullptr;
    }
    static S amend(S v, const Ctx &c)
    {
        if (v.size() >= 2 && v[0] == '\'') v = v.substr(1, v.size() - 2);
        S r;
        size_t i = 0;
        while (i < v.size()) {
            if (v[i] != '%') { r += v[i++]; continue; }
            if (i + 1 == v.size() || (v[i + 1] != '1' && v[i + 1] != '2') || !c.v[v[i + 1] - '0']) return r + v.substr(i);
            r += *c.v[v[i + 1] - '0'];
            i += 2;
        }
        return r;
    }
    bool merge(const Layers &l, Ctx &c)
    {
        for (int i = 0; i < 3; i++)
            if (auto *v = look(l, KEYS[i])) {
                if (c.v[i]) return ok = false;
                c.v[i] = v;
            }
        return true;
    }
    // whether the elements below are still to be mapped
    bool element(const Layers &l, Ctx &c, const S &path, size_t size, bool param, const S &above)
    {
        S t = above;
        for (size_t i = l.size(); i-- > 0;) if (!l[i]->text().empty()) t += (t.empty() ? "" : ", ") + l[i]->text();
        shown.push_back({path, t});
        bool has = false;
        for (auto *m : l) { has |= m->has; if (m->bad) ok = false; }
        if (!ok || !has) return ok;
        if (!merge(l, c)) return false;
        for (int k = 0; k < 3; k++) {
            const S *v = look(l, OBJS[k]);
            if (!v) continue;
            if (k == 0 && (!c.v[0] || size > 3)) return ok = false;
            if (k == 2 && !c.v[2]) return ok = false;
            Seen s{OBJS[k], path, amend(*v, c), "", size};
            for (int i = 0; i < 3; i++) s.ctx += c.v[i] ? "=" + *c.v[i] : S("-");
            objs.push_back(s);
            shown.back().second += ", " + s.key + ":" + s.value;
            return false;
        }
        if (param) ok = false;
        return ok;
    }
};
static S pick(const char *n, std::initializer_list<const char *> l)
{
    unsigned k = choice(n, (unsigned)l.size());
    return *(l.begin() + k);
}
static S attr(const S &m) { return m.empty() ? "" : " Mapping=\"" + m + "\""; }
extern "C" void harness_main()
{
    gSeen = new std::vector<Seen>;
    S m0, mB, mT, mC, mX, mY = "Fre:y%2";
    S free = symText("text", (size_t)param("len", 0));
    for (char ch : free) ASSUME((ch > ' ') & (ch < 127) & (ch != '<') & (ch != '&') & (ch != '"'));
    unsigned kind = 0; // of the parameter x
    static const struct { const char *pre, *post; unsigned size; } KIND[] = {{"<IntegerParameter Name='x' Size='16' Signed='false'", "/>", 2}, {"<IntegerParameter Name='x' Size='32' Signed='false'", "/>", 4},
        {"<IntegerParameter Name='x' Size='8' Signed='false' ArrayLength='3'", "/>", 3}, {"<IntegerParameter Name='x' Size='16' Signed='true' ArrayLength='2'", "/>", 4}, {"<StringParameter Name='x' MaxLength='2'", "/>", 3},
        {"<BooleanParameter Name='x'", "/>", 1}, {"<EnumParameter Name='x' Size='16'", "><ValuePair Literal='l' Numerical='0'/></EnumParameter>", 2}, {"<FixedPointParameter Name='x' Size='32' Integral='3' Fractional='4'", "/>", 4},
        {"<FloatingPointParameter Name='x' Size='32'", "/>", 4}, {"<BitParameterBlock Name='x' Size='16'", "><BitParameter Name='m' Size='3' Pos='2'/></BitParameterBlock>", 2}};
    switch (param("mode", 0)) {
    case 0:
        kind = choice("kind", 10);
        if (kind < 2) {
            m0 = pick("subsystem", {"", "Own:o", "A1:s,Obj:n"});
            mB = pick("base", {"", "A1:b", "A2:w,Own:n"});
            mT = pick("type", {"", "A1:t", "Fre:T%1%2"});
        } else m0 = pick("subsystem", {"", "Own:o"});
        mC = pick("instance", {"", "A1:i", "Obj:o%1", "Own:q,Any:1"});
        mX = pick("x", {"", "Obj:%1-%2", "Fre:'%2 %1'", "Own:h,Obj:n%1", "A2:z", "Fre:f,Obj:b", "Anc:%2"});
        break;
    case 1: m0 = "Own:o"; mB = "A1:b"; mC = "A2:%1"; mX = "Fre:" + free; break; // any value
    case 2: m0 = "A1:o"; mX = free; break;                                    // any mapping
    case 3: m0 = free; mX = "Fre:%1%2"; break;
    case 4: m0 = "Own:o"; mC = "A1:" + free; mX = "Obj:%1%2%1"; break;
    case 5: mB = "A2:b"; mC = "A1:" + free + ",A2:e"; mX = "Fre:%1%2"; break;
    }
    Cfg c;
    c.plugins = pluginLocation();
    c.type = "Fake";
    c.withDomains = false;
    c.structure = "<?xml version='1.0' encoding='UTF-8'?><SystemClass Name='test'><Subsystem Name='t' Type='Fake'" + attr(m0) + "><ComponentLibrary><ComponentType Name='B'" + attr(mB) +
        ">" + KIND[kind].pre + attr(mX) + KIND[kind].post + "</ComponentType><ComponentType Name='T' Extends='B'" + attr(mT) +
        "><IntegerParameter Name='y' Size='8' Signed='false'" + attr(mY) + "/></ComponentType></ComponentLibrary><InstanceDefinition><Component Name='c' Type='T'" + attr(mC) +
        "/><IntegerParameter Name='u' Size='8' Signed='false'/><BitParameterBlock Name='k' Size='8' Mapping='Fre:k'><BitParameter Name='m' Size='3' Pos='2'/></BitParameterBlock></InstanceDefinition></Subsystem></SystemClass>";
    World w;
    Map p0 = parse(m0), pB = parse(mB), pT = parse(mT), pC = parse(mC), pX = parse(mX), pY = parse(mY), pU, pK = parse("Fre:k");
    if (p0.bad || pB.bad || pT.bad || pC.bad || pX.bad) w.ok = false;
    Ctx c0;
    w.shown.push_back({"/test/t", p0.text()});
    w.merge({&p0}, c0);
    if (w.ok) {
        Ctx cc = c0;
        size_t xs = KIND[kind].size;
        Layers lc = {&pC, &pT, &pB};
        bool dive = w.element(lc, cc, "/test/t/c", xs + 1, false, p0.text());
        S above = p0.text();
        for (auto *m : {&pB, &pT, &pC}) if (!m->text().empty()) above += (above.empty() ? "" : ", ") + m->text();
        if (w.ok) {
            Map none;
            S upto = above;
            if (dive) {
                Ctx cy = cc, cx = cc;
                w.element({&pY}, cy, "/test/t/c/y", 1, true, upto);
                if (w.ok) w.element({&pX}, cx, "/test/t/c/x", xs, true, upto);
            }
        }
        Ctx ck = c0;
        if (w.ok) w.element({&pU}, ck, "/test/t/u", 1, true, p0.text());
        if (w.ok) w.element({&pK}, ck, "/test/t/k", 1, true, p0.text());
        if (w.ok) w.shown.push_back({"/test/t/k/m", p0.text().empty() ? pK.text() : p0.text() + ", " + pK.text()});
    }
    PF pf(c);
    S e;
    bool up = pf.start(e);
    CHECK(up == w.ok, "a structure is accepted exactly when its mappings are well formed, complete and free of conflicts");
    if (!up) { CHECK(!e.empty(), "a refusal is explained"); REACH("rejected"); return; }
    REACH("accepted");
    CHECK(gSeen->size() == w.objs.size(), "an object is made for each element mapped to one");
    for (size_t i = 0; i < w.objs.size(); i++) {
        auto &a = (*gSeen)[i], &b = w.objs[i];
        CHECK(a.key == b.key && a.path == b.path && a.size == b.size, "the objects are made on the elements mapped to them");
        CHECK(sameBytes(a.value, b.value), "the value of an object has its markers replaced by the mappings of its ancestors");
        CHECK(sameBytes(a.ctx, b.ctx), "an object is given the mappings of its ancestors");
    }
    std::unique_ptr<CommandHandlerInterface> cmd(pf.createCommandHandler());
    S o;
    for (auto &s : w.shown) {
        CHECK(cmd->process("showMapping", {s.first}, o), "the mapping of an element can be shown");
        CHECK(sameBytes(o, s.second), "the mapping shown is that of the element and its ancestors");
    }
    // a handle finds a key in the mapping of the element itself, else of its nearest ancestor that has it
    for (auto &s : w.shown) {
        Handle h(pf, s.first);
        std::vector<const Map *> chain;
        if (s.first == "/test/t/c/x") chain = {&pX};
        if (s.first == "/test/t/c/y") chain = {&pY};
        if (s.first == "/test/t/k" || s.first == "/test/t/k/m") chain = {&pK};
        if (s.first.compare(0, 9, "/test/t/c") == 0) for (auto *m : {&pC, &pT, &pB}) chain.push_back(m);
        chain.push_back(&p0);
        for (const char *key : {"Own", "A1", "A2", "Obj", "Fre", "Anc", "None", "O"}) {
            const S *v = nullptr;
            for (auto *m : chain) if (!v) v = m->get(key);
            S got = "untouched";
            CHECK(h->getMappingData(key, got) == (v != nullptr), "a handle finds a key where the element or an ancestor has it");
            CHECK(sameBytes(got, v ? *v : S("untouched")), "a handle tells the nearest mapping of a key");
        }
    }
    CHECK(!cmd->process("showMapping", {"/test"}, o), "the root has no mapping");
    CHECK(!cmd->process("showMapping", {"/test/t/none"}, o), "an unknown element has no mapping");
}
