// Reference model of the blackboard, domains and configurations, run in lock step with a framework instance through its public API.
#pragma once
#include "dom.hpp"
#include <CommandHandlerInterface.h>
namespace fw
{
// ---- structure: six leaves, two groups, the subsystem
enum { P, GA, GB, LO, HI, Q, LEAVES };
static const char *const LEAF[LEAVES] = {"/test/test/p", "/test/test/g/a", "/test/test/g/b", "/test/test/bits/lo", "/test/test/bits/hi", "/test/test/q"};
struct Elem { const char *path; unsigned leaves; int nkids; int kids[4]; };
enum { EP, EG, EBITS, EQ, EGA, EGB, ELO, EHI, ESUB, ELEMS };
static const Elem ELEM[ELEMS] = {{"/test/test/p", 1u << P, 0, {}}, {"/test/test/g", 1u << GA | 1u << GB, 2, {EGA, EGB}}, {"/test/test/bits", 1u << LO | 1u << HI, 2, {ELO, EHI}},
                                 {"/test/test/q", 1u << Q, 0, {}}, {"/test/test/g/a", 1u << GA, 0, {}}, {"/test/test/g/b", 1u << GB, 0, {}}, {"/test/test/bits/lo", 1u << LO, 0, {}},
                                 {"/test/test/bits/hi", 1u << HI, 0, {}}, {"/test/test", 63, 4, {EP, EG, EBITS, EQ}}};
static const char *const INSTANCES = "<IntegerParameter Name='p' Size='8' Signed='false' Mapping='M'/>"
    "<ParameterBlock Name='g' Mapping='M'><IntegerParameter Name='a' Size='8' Signed='true'/><IntegerParameter Name='b' Size='16' Signed='false'/></ParameterBlock>"
    "<BitParameterBlock Name='bits' Size='16' Mapping='M'><BitParameter Name='lo' Pos='0' Size='5'/><BitParameter Name='hi' Pos='5' Size='9'/></BitParameterBlock>"
    "<IntegerParameter Name='q' Size='32' Signed='true' Mapping='M'/>";
struct MConf
{
    S name;
    int crit = -1; // applicable when criterion state == value; -1: always; -2: no rule; -3: never
    int value = 0;
    S val[LEAVES];
    std::vector<int> order; // of elements
};
struct MDom
{
    S name;
    bool seq = false;
    std::vector<int> elems;
    std::vector<MConf> confs;
    S last;
    unsigned leaves() const { unsigned m = 0; for (int e : elems) m |= ELEM[e].leaves; return m; }
    bool has(int e) const { for (int x : elems) if (x == e) return true; return false; }
    MConf *conf(const S &n) { for (auto &c : confs) if (c.name == n) return &c; return nullptr; }
};
inline S leafXml(int l, const S &v)
{
    static const char *const N[LEAVES] = {"p", "a", "b", "lo", "hi", "q"};
    S k = l == LO || l == HI ? "BitParameter" : "IntegerParameter";
    return "<" + k + " Name=\"" + N[l] + "\">" + v + "</" + k + ">";
}
inline S elemXml(int e, const S *v)
{
    switch (e) {
    case EP: return leafXml(P, v[P]);
    case EQ: return leafXml(Q, v[Q]);
    case EGA: return leafXml(GA, v[GA]);
    case EGB: return leafXml(GB, v[GB]);
    case ELO: return leafXml(LO, v[LO]);
    case EHI: return leafXml(HI, v[HI]);
    case EG: return "<ParameterBlock Name=\"g\">" + leafXml(GA, v[GA]) + leafXml(GB, v[GB]) + "</ParameterBlock>";
    case EBITS: return "<BitParameterBlock Name=\"bits\">" + leafXml(LO, v[LO]) + leafXml(HI, v[HI]) + "</BitParameterBlock>";
    }
    return "<Subsystem Name=\"test\">" + elemXml(EP, v) + elemXml(EG, v) + elemXml(EBITS, v) + elemXml(EQ, v) + "</Subsystem>";
}
inline S ruleText(const MConf &c)
{
    if (c.crit >= 0) return S("All{") + (c.crit ? "Kt" : "Ks") + " Is v" + (char)('0' + c.value) + "}";
    return c.crit == -1 ? "All{}" : c.crit == -3 ? "Any{}" : "<none>";
}
inline S ruleXml(const MConf &c)
{
    if (c.crit >= 0) return compRule(true, critRule(c.crit ? "Kt" : "Ks", "Is", S("v") + (char)('0' + c.value)));
    return c.crit == -1 ? always() : c.crit == -3 ? never() : S();
}
struct Model
{
    S main[LEAVES];
    std::vector<MDom> doms;
    int state[2] = {0, 0};
    bool on = false;
    MDom *dom(const S &n) { for (auto &d : doms) if (d.name == n) return &d; return nullptr; }
    S xml() const
    {
        S o;
        for (auto &d : doms) {
            Dom x;
            x.name = d.name;
            x.seq = d.seq;
            for (int e : d.elems) x.elements.push_back(ELEM[e].path);
            for (auto &c : d.confs) {
                Conf k;
                k.name = c.name;
                k.rule = ruleXml(c);
                for (int e : c.order) k.settings.push_back({ELEM[e].path, elemXml(e, c.val)});
                x.confs.push_back(k);
            }
            o += x.xml();
        }
        return o;
    }
    bool satisfied(const MConf &c) const { return c.crit == -1 || (c.crit >= 0 && state[c.crit] == c.value); } // forks on symbolic states
    void copy(MDom &d, const MConf &c) { unsigned m = d.leaves(); for (int l = 0; l < LEAVES; l++) if (m >> l & 1) main[l] = c.val[l]; }
    void applyOne(MDom &d, bool force)
    {
        if (force) d.last.clear();
        for (auto &c : d.confs)
            if (satisfied(c)) {
                if (d.last != c.name) copy(d, c);
                d.last = c.name;
                return;
            }
    }
    void apply(bool force)
    {
        for (auto &d : doms) if (!d.seq) applyOne(d, force);
        for (auto &d : doms) if (d.seq) applyOne(d, force);
    }
};
inline S digit(const char *n, unsigned lo = 0, unsigned hi = 9)
{
    S v = symText(n, 1);
    ASSUME((v[0] >= (char)('0' + lo)) & (v[0] <= (char)('0' + hi)));
    return v;
}
inline S nm(const char *a, unsigned i) { return S(a) + (char)('a' + i); }
// a framework instance in lock step with the model
struct Run
{
    Model m;
    std::unique_ptr<PF> pf;
    std::unique_ptr<CommandHandlerInterface> cmd;
    ISelectionCriterionInterface *k[2] = {};
    S e;
    MDom &add(const S &name, std::vector<int> elems, bool seq = false) { MDom d; d.name = name; d.elems = elems; d.seq = seq; m.doms.push_back(d); return m.doms.back(); }
    void addConf(MDom &d, const S &name, int crit, int value, unsigned base)
    {
        MConf c;
        c.name = name;
        c.crit = crit;
        c.value = value;
        c.order = d.elems;
        for (int l = 0; l < LEAVES; l++) if (d.leaves() >> l & 1) c.val[l] = itoa64(base + l);
        d.confs.push_back(c);
    }
    Cfg c;
    void start(bool symState = true)
    {
        c.instances = INSTANCES;
        c.domains = m.xml();
        pf.reset(new PF(c));
        for (int i = 0; i < 2; i++) {
            auto *t = critType(*pf, false, {{1, "v1"}, {2, "v2"}, {-3, "v3"}});
            k[i] = pf->createSelectionCriterion(i ? "Kt" : "Ks", t);
        }
        for (auto &d : m.doms) for (auto &c : d.confs) if (c.crit >= 0 && c.value == 3) c.value = -3;
        for (int l = 0; l < LEAVES; l++) m.main[l] = l == GA ? "-128" : l == Q ? "-2147483648" : "0"; // the minimum
        if (!pf->up()) { pfs_note_str(pf->err.c_str()); pfs_fail("the valid configuration is accepted"); }
        cmd.reset(pf->createCommandHandler());
        m.apply(true); // applied at start
        tick();
    }
    void tick() {}
    void setState(int i, int v)
    {
        k[i]->setCriterionState(v);
        m.state[i] = v;
    }
    void apply()
    {
        pf->applyConfigurations();
        if (!m.on) m.apply(false);
    }
    void tuning(bool on)
    {
        bool r = pf->setTuningMode(on, e);
        CHECK(r == (on != m.on), "tuning mode is switched exactly when it changes");
        if (on != m.on) {
            if (!on) m.apply(true);
            m.on = on;
        }
        CHECK(pf->isTuningModeOn() == m.on, "tuning mode is what was set");
    }
    void set(int l, const S &v)
    {
        S t = v;
        bool r = pf->accessParameterValue(LEAF[l], t, true, e);
        CHECK(r == m.on, "a parameter is set exactly in tuning mode");
        if (m.on) m.main[l] = v;
    }
    // --- configuration level operations
    void confSet(const S &d, const S &c, int l, const S &v)
    {
        S t = v;
        MDom *D = m.dom(d);
        MConf *C = D ? D->conf(c) : nullptr;
        bool ok = C && (D->leaves() >> l & 1);
        CHECK(pf->accessConfigurationValue(d, c, LEAF[l], t, true, e) == ok, "a configuration's value can be set exactly when it has the element");
        if (!ok) return;
        C->val[l] = v;
        if (D->last == c) m.main[l] = v;
    }
    bool gate(bool ok) const { return ok && m.on; }
    void save(const S &d, const S &c)
    {
        MDom *D = m.dom(d);
        MConf *C = D ? D->conf(c) : nullptr;
        CHECK(pf->saveConfiguration(d, c, e) == gate(C), "an existing configuration can be saved in tuning mode");
        if (!gate(C)) return;
        for (int l = 0; l < LEAVES; l++) if (D->leaves() >> l & 1) C->val[l] = m.main[l];
    }
    void restore(const S &d, const S &c)
    {
        MDom *D = m.dom(d);
        MConf *C = D ? D->conf(c) : nullptr;
        CParameterMgrFullConnector::Results errs;
        CHECK(pf->restoreConfiguration(d, c, errs) == gate(C), "an existing configuration can be restored in tuning mode");
        if (!gate(C)) { CHECK(!errs.empty(), "a refusal is explained"); return; }
        m.copy(*D, *C);
        D->last = c;
    }
    void createConf(const S &d, const S &c)
    {
        MDom *D = m.dom(d);
        bool ok = D && !D->conf(c);
        CHECK(pf->createConfiguration(d, c, e) == gate(ok), "a configuration with a new name can be created in tuning mode");
        if (!gate(ok)) return;
        MConf n;
        n.name = c;
        n.crit = -2;
        n.order = D->elems;
        for (int l = 0; l < LEAVES; l++) if (D->leaves() >> l & 1) n.val[l] = D->confs.empty() ? m.main[l] : D->confs[0].val[l];
        D->confs.push_back(n);
    }
    void deleteConf(const S &d, const S &c)
    {
        MDom *D = m.dom(d);
        MConf *C = D ? D->conf(c) : nullptr;
        CHECK(pf->deleteConfiguration(d, c, e) == gate(C), "an existing configuration can be deleted in tuning mode");
        if (!gate(C)) return;
        if (D->last == c) D->last.clear();
        D->confs.erase(D->confs.begin() + (C - D->confs.data()));
    }
    void renameConf(const S &d, const S &c, const S &n)
    {
        MDom *D = m.dom(d);
        MConf *C = D ? D->conf(c) : nullptr;
        bool ok = C && (n == c || !D->conf(n));
        CHECK(pf->renameConfiguration(d, c, n, e) == ok, "a configuration can be renamed exactly to a free name");
        if (!ok) return;
        if (D->last == c) D->last = n;
        C->name = n;
    }
    void setRule(const S &d, const S &c, int crit, int value)
    {
        MDom *D = m.dom(d);
        MConf *C = D ? D->conf(c) : nullptr;
        MConf t;
        t.crit = crit;
        t.value = value;
        bool r = crit == -2 ? pf->clearApplicationRule(d, c, e) : pf->setApplicationRule(d, c, ruleText(t), e);
        CHECK(r == (C != nullptr), "a rule can be set on an existing configuration");
        if (!C) return;
        C->crit = crit;
        C->value = value == 3 ? -3 : value;
    }
    void sequence(const S &d, const S &c, const std::vector<S> &paths)
    {
        MDom *D = m.dom(d);
        MConf *C = D ? D->conf(c) : nullptr;
        bool ok = C;
        std::vector<int> front;
        if (C)
            for (auto &p : paths) {
                int f = -1;
                for (int x : C->order) if (p == ELEM[x].path) f = x;
                for (int x : front) if (x == f) f = -1;
                if (f < 0) ok = false;
                front.push_back(f);
            }
        CHECK(pf->setElementSequence(d, c, paths, e) == gate(ok), "a sequence is accepted exactly when its elements are distinct elements of the domain");
        if (!gate(ok)) return;
        for (int x : C->order) {
            bool in = false;
            for (int y : front) in |= x == y;
            if (!in) front.push_back(x);
        }
        C->order = front;
    }
    // --- domain level operations
    void createDom(const S &d)
    {
        bool ok = !m.dom(d);
        CHECK(pf->createDomain(d, e) == gate(ok), "a domain with a new name can be created in tuning mode");
        if (gate(ok)) { MDom n; n.name = d; m.doms.push_back(n); }
    }
    void deleteDom(const S &d)
    {
        MDom *D = m.dom(d);
        CHECK(pf->deleteDomain(d, e) == gate(D), "an existing domain can be deleted in tuning mode");
        if (gate(D)) m.doms.erase(m.doms.begin() + (D - m.doms.data()));
    }
    void deleteAll()
    {
        CHECK(pf->deleteAllDomains(e) == m.on, "all domains can be deleted in tuning mode");
        if (m.on) m.doms.clear();
    }
    void renameDom(const S &d, const S &n)
    {
        MDom *D = m.dom(d);
        bool ok = D && (n == d || !m.dom(n));
        CHECK(pf->renameDomain(d, n, e) == ok, "a domain can be renamed exactly to a free name");
        if (ok) D->name = n;
    }
    void aware(const S &d, bool s)
    {
        MDom *D = m.dom(d);
        CHECK(pf->setSequenceAwareness(d, s, e) == gate(D), "sequence awareness can be set in tuning mode");
        if (gate(D)) D->seq = s;
    }
    static bool covers(int a, int b) { return a != b && (ELEM[a].leaves & ELEM[b].leaves) == ELEM[b].leaves; } // b is a descendant of a
    void addElem(const S &d, int x)
    {
        MDom *D = m.dom(d);
        bool ok = D;
        if (D) for (int y : D->elems) if (y == x || covers(y, x)) ok = false;
        CHECK(pf->addConfigurableElementToDomain(d, ELEM[x].path, e) == gate(ok), "an element can be added to a domain that does not hold it yet");
        if (!gate(ok)) { CHECK(!e.empty(), "a refusal is explained"); return; }
        unsigned had = D->leaves();
        auto drop = [&](std::vector<int> &v) {
            std::vector<int> n;
            for (int y : v) if (!covers(x, y)) n.push_back(y);
            n.push_back(x);
            v = n;
        };
        for (auto &c : D->confs) {
            for (int l = 0; l < LEAVES; l++) if ((ELEM[x].leaves >> l & 1) && !(had >> l & 1)) c.val[l] = m.main[l];
            drop(c.order);
        }
        drop(D->elems);
    }
    static void drop(std::vector<int> &v, int x) { std::vector<int> n; for (int y : v) if (y != x) n.push_back(y); v = n; }
    void removeElem(const S &d, int x)
    {
        MDom *D = m.dom(d);
        bool ok = D && D->has(x);
        CHECK(pf->removeConfigurableElementFromDomain(d, ELEM[x].path, e) == gate(ok), "an element can be removed from a domain exactly when it was added to it");
        if (!gate(ok)) { CHECK(!e.empty(), "a refusal is explained"); return; }
        drop(D->elems, x);
        for (auto &c : D->confs) drop(c.order, x);
    }
    void split(const S &d, int x)
    {
        MDom *D = m.dom(d);
        bool ok = D && D->has(x) && ELEM[x].nkids;
        CHECK(pf->split(d, ELEM[x].path, e) == gate(ok), "an element of a domain that has children can be split");
        if (!gate(ok)) { CHECK(!e.empty(), "a refusal is explained"); return; }
        auto sp = [&](std::vector<int> &v) {
            for (int i = 0; i < ELEM[x].nkids; i++) v.push_back(ELEM[x].kids[i]);
            drop(v, x);
        };
        sp(D->elems);
        for (auto &c : D->confs) sp(c.order);
    }
    // --- comparison of everything observable
    S ask(const char *c, std::vector<S> args = {})
    {
        S o;
        if (!cmd->process(c, args, o)) { pfs_note_str(o.c_str()); pfs_fail("a query succeeds"); }
        return o;
    }
    static S list(const V &v) { S o; for (auto &s : v) o += s + "\n"; return o; }
    void values()
    {
        for (int l = 0; l < LEAVES; l++) {
            S v;
            CHECK(pf->get(LEAF[l], v), "a parameter can be read");
            observe(LEAF[l], v);
            observe("model", m.main[l]);
            CHECK(sameBytes(v, m.main[l]), "every parameter has the value the history gives it");
        }
    }
    void lastApplied()
    {
        S o = ask("status"), want;
        for (auto &d : m.doms) {
            S pend = "<none>";
            for (auto &c : d.confs) if (m.satisfied(c)) { pend = c.name == d.last ? S() : c.name; break; }
            want += d.name + ": " + (d.last.empty() ? "<none>" : d.last) + " [" + pend + "]\n";
        }
        CHECK(o.find(want) != S::npos, "the status shows the last applied and the pending configuration of every domain");
    }
    void configs()
    {
        for (auto &d : m.doms)
            for (auto &c : d.confs)
                for (int l = 0; l < LEAVES; l++) {
                    S v;
                    bool in = d.leaves() >> l & 1;
                    CHECK(pf->accessConfigurationValue(d.name, c.name, LEAF[l], v, false, e) == in, "a configuration has a value exactly for the elements of its domain");
                    if (in) CHECK(sameBytes(v, c.val[l]), "every configuration has the values the history gives it");
                }
    }
    void lists()
    {
        S o;
        for (auto &d : m.doms) o += d.name + (d.seq ? " [sequence aware]" : "") + "\n";
        CHECK(ask("listDomains") == o, "the domains are listed in order");
        for (auto &d : m.doms) {
            V a, b;
            for (auto &c : d.confs) a.push_back(c.name);
            for (int x : d.elems) b.push_back(ELEM[x].path);
            CHECK(ask("listConfigurations", {d.name}) == list(a), "the configurations are listed in order");
            CHECK(ask("listDomainElements", {d.name}) == list(b), "the elements are listed in order");
            for (auto &c : d.confs) {
                V q;
                for (int x : c.order) q.push_back(ELEM[x].path);
                CHECK(ask("getElementSequence", {d.name, c.name}) == "\n" + list(q), "the element sequence is the one set");
                S r;
                CHECK(pf->getApplicationRule(d.name, c.name, r), "the rule can be read");
                MConf t = c;
                if (t.value == -3) t.value = 3;
                CHECK(r == ruleText(t), "the rule is the one set");
            }
            bool s = !d.seq;
            CHECK(pf->getSequenceAwareness(d.name, s, e) && s == d.seq, "sequence awareness is the one set");
        }
    }
    void rogue()
    {
        unsigned own = 0;
        for (auto &d : m.doms) own |= d.leaves();
        for (int l = 0; l < LEAVES; l++) {
            Handle h(*pf, LEAF[l]);
            CHECK(h->isRogue() == !(own >> l & 1), "a parameter is rogue exactly when no domain holds it");
        }
    }
    void all() { values(); configs(); lists(); lastApplied(); rogue(); }
};
} // namespace fw
