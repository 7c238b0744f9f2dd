// C27: whatever part of the framework uses the current settings, it holds their lock, always the same; so no schedule of threads interleaves two uses.
#include "dom.hpp"
#include <CommandHandlerInterface.h>
#include <ParameterHandle.h>
#include <Plugin.h>
#include <Subsystem.h>
#include <SubsystemObject.h>
#include <SubsystemObjectFactory.h>
#include <LoggingElementBuilderTemplate.h>
#include <CompoundRule.h>
#include <ConfigurableDomain.h>
#include <DomainConfiguration.h>
#include <ParameterMgr.h>
using namespace fw;
static bool gFail;
static uint8_t *gSettings;
struct FakeObject : CSubsystemObject
{
    FakeObject(const S &, CInstanceConfigurableElement *e, const CMappingContext &, core::log::Logger &l) : CSubsystemObject(e, l) {}
    bool sendToHW(S &err) override
    {
        if (!gSettings) gSettings = getBlackboardLocation(); // the first element is at the beginning of the settings
        S b(getSize(), '\0');
        blackboardRead(&b[0], b.size());
        if (gFail) err = "rejected";
        return !gFail;
    }
    bool receiveFromHW(S &) override
    {
        S b(getSize(), '\0');
        blackboardWrite(b.data(), b.size());
        return true;
    }
};
struct FakeSubsystem : CSubsystem
{
    FakeSubsystem(const S &n, core::log::Logger &l) : CSubsystem(n, l) { addSubsystemObjectFactory(new TSubsystemObjectFactory<FakeObject>("Obj", 0)); }
};
extern "C" void harness_plugin_entry(CSubsystemLibrary *l, core::log::Logger &g) { l->addElementBuilder("Fake", new TLoggingElementBuilderTemplate<FakeSubsystem>(g)); }
struct Insight : PF // the elements of the framework, domains included
{
    explicit Insight(const Cfg &c) : PF(c) {}
    CElement *root() { return (CElement *)_pParameterMgr; }
    static CElement *find(CElement *e, const S &kind, const S &name)
    {
        if (e->getKind() == kind && e->getName() == name) return e;
        for (size_t i = 0; i < e->getNbChildren(); i++) if (CElement *f = find(e->getChild(i), kind, name)) return f;
        return nullptr;
    }
};
static Conf conf(const S &n, const S &rule, char v) { return {n, rule, {{"/test/test/p", intXml("p", S(1, v))}}}; }
static const char *const PATH[8] = {"/test/test/p", "/test/test/i", "/test/test/b", "/test/test/d", "/test/test/s", "/test/test/a", "/test/test/g", "/test/test/da"};
extern "C" void harness_main()
{
    Cfg c;
    c.type = "Fake";
    c.plugins = pluginLocation();
    c.mapping = "";
    S def = intDef("p", " Mapping='Obj'") + "<IntegerParameter Name='i' Size='32' Signed='true' Mapping='Obj'/><BooleanParameter Name='b'/><FixedPointParameter Name='d' Size='16' Integral='7' Fractional='8'/>"
        "<StringParameter Name='s' MaxLength='9000' Mapping='Obj'/><IntegerParameter Name='a' Size='16' Signed='true' ArrayLength='2'/><ParameterBlock Name='g'>" + intDef("x") + "<BitParameterBlock Name='y' Size='8'><BitParameter Name='z' Size='3' Pos='1'/></BitParameterBlock></ParameterBlock>"
        "<FixedPointParameter Name='da' Size='16' Integral='7' Fractional='8' ArrayLength='2'/>";
    c.instances = def;
    Dom d;
    d.name = "D";
    d.confs = {conf("one", compRule(true, critRule("K", "Is", "v0")), '1'), conf("two", compRule(true, critRule("K", "Is", "v1")), '2')};
    d.elements = {"/test/test/p"};
    c.domains = d.xml();
    Insight pf(c);
    auto *k = pf.createSelectionCriterion("K", critType(pf, false, {{0, "v0"}, {1, "v1"}}));
    CHECK(pf.up(), "the configuration is valid");
    bool tuning = maybe("tuning");
    if (tuning) CHECK(pf.tuning(true), "tuning mode can be switched on");
    if (tuning && maybe("noauto")) CHECK(pf.setAutoSync(false, pf.err), "automatic synchronisation can be switched off");
    unsigned api = (unsigned)param("api");
    std::unique_ptr<CommandHandlerInterface> cmd(pf.createCommandHandler());
    S e, o, xml, one;
    CHECK(pf.exportDomainsXml(xml, true, false, e) && pf.exportSingleDomainXml(one, "D", true, false, e), "domains can be exported");
    std::unique_ptr<ElementHandle> h[8];
    std::unique_ptr<CParameterHandle> ph[8];
    for (int i = 0; i < 8; i++) {
        h[i].reset(pf.createElementHandle(PATH[i], e));
        if (i != 6) ph[i].reset(pf.createParameterHandle(PATH[i], e));
    }
    std::vector<S> names;
    if (api == 2) {
        CHECK(cmd->process("help", {}, o), "help is always there");
        S line;
        for (char ch : o) {
            if (ch != '\n') { line += ch; continue; }
            if (line.find("=> ") != S::npos) names.push_back(line.substr(0, line.find("=> ")));
            line.clear();
        }
    }
    // the settings are watched from here on; a plain reading shows which lock is theirs
    size_t size = 0;
    for (auto &x : h) size += x->getSize();
    CHECK(gSettings && size > 9000, "the settings are there");
    pfs_watch(gSettings, size);
    CHECK(pf.get("/test/test/i", o), "a parameter can be read");
    if (api == 4) { // what the platform uses to apply configurations: changed only under the lock while it may be doing so
        CElement *dom = Insight::find(pf.root(), "ConfigurableDomain", "D"), *one = dom ? Insight::find(dom, "Configuration", "one") : nullptr, *rule = one && one->getNbChildren() ? one->getChild(0) : nullptr;
        CHECK(rule, "the rule is there");
        if (tuning) return; // then the platform applies nothing
        unsigned w = choice("watched", 3);
        if (w == 0) pfs_watch_writes(dom, sizeof(CConfigurableDomain));
        else if (w == 1) pfs_watch_writes(one, sizeof(CDomainConfiguration));
        else pfs_watch_writes(rule, sizeof(CCompoundRule));
        unsigned use = choice("edit", 13);
        bool done = true;
        switch (use) {
        case 0: done = pf.setApplicationRule("D", "one", "Any{}", e); break;
        case 1: done = pf.clearApplicationRule("D", "one", e); break;
        case 2: done = pf.renameConfiguration("D", "one", "other", e); break;
        case 3: done = pf.renameDomain("D", "other", e); break;
        case 4: done = cmd->process("setRule", {"D", "one", "Any{}"}, o); break;
        case 5: done = cmd->process("clearRule", {"D", "one"}, o); break;
        case 6: done = cmd->process("renameConfiguration", {"D", "one", "other"}, o); break;
        case 7: done = cmd->process("renameDomain", {"D", "other"}, o); break;
        case 8: o = "7", done = pf.accessConfigurationValue("D", maybe("last") ? "one" : "two", PATH[0], o, true, e); break;
        case 9: done = pf.setApplicationRule("D", "two", "Any{}", e) && pf.clearApplicationRule("D", "two", e); break;
        case 10: k->setCriterionState(1); pf.applyConfigurations(); k->setCriterionState(0); pf.applyConfigurations(); break;
        case 11: done = !pf.setApplicationRule("D", "one", "Any{", e) && !pf.renameConfiguration("D", "one", "two", e) && !pf.deleteConfiguration("D", "one", e) && !pf.deleteDomain("D", e) && !pf.setSequenceAwareness("D", true, e); break;
        default: done = pf.setTuningMode(true, e) && pf.setTuningMode(false, e); break;
        }
        CHECK(done, "rules, names and values of configurations can be edited");
        pfs_watch(nullptr, 0);
        CHECK(pfs_locks_held() == 0, "no lock is kept");
        REACH("edited");
        return;
    }
    gFail = maybe("fail");
    unsigned steps = (unsigned)param("steps", 1);
    for (unsigned i = 0; i < steps; i++) {
        S id(1, (char)('a' + i));
        if (api == 0 || api == 3) { // handles, on every kind of element
            unsigned n = choice(("element" + id).c_str(), 8);
            ElementHandle *x = h[n].get();
            bool b; uint32_t u; int32_t v; double f;
            std::vector<bool> vb(2); std::vector<uint32_t> vu(2); std::vector<int32_t> vi(2); std::vector<double> vd(2); std::vector<S> vs(2);
            std::vector<uint8_t> raw(x->getSize());
            if (api == 0) switch (choice(("use" + id).c_str(), n == 6 ? 4 : 24)) {
            case 0: x->getAsXML(o, e); break;
            case 1: if (x->getAsXML(o, e)) { S t = o; x->setAsXML(t, e); } break;
            case 2: x->getAsBytes(raw, e); break;
            case 3: x->setAsBytes(raw, e); break;
            case 4: x->getAsBoolean(b, e); break;
            case 5: x->setAsBoolean(true, e); break;
            case 6: x->getAsInteger(u, e); break;
            case 7: x->setAsInteger(1, e); break;
            case 8: x->getAsSignedInteger(v, e); break;
            case 9: x->setAsSignedInteger(1, e); break;
            case 10: x->getAsDouble(f, e); break;
            case 11: x->setAsDouble(1, e); break;
            case 12: x->getAsString(o, e); break;
            case 13: x->setAsString("x", e); break;
            case 14: x->getAsBooleanArray(vb, e); break;
            case 15: x->setAsBooleanArray(vb, e); break;
            case 16: x->getAsIntegerArray(vu, e); break;
            case 17: x->setAsIntegerArray(vu, e); break;
            case 18: x->getAsSignedIntegerArray(vi, e); break;
            case 19: x->setAsSignedIntegerArray(vi, e); break;
            case 20: x->getAsDoubleArray(vd, e); break;
            case 21: x->setAsDoubleArray(vd, e); break;
            case 22: x->getAsStringArray(vs, e); break;
            default: x->setAsStringArray(vs, e); break;
            }
            if (api == 3 && ph[n]) {
                CParameterHandle *y = ph[n].get();
                switch (choice(("old" + id).c_str(), 11)) {
                case 0: y->getAsBoolean(b, e); break;
                case 1: y->setAsBoolean(true, e); break;
                case 2: y->getAsInteger(u, e); break;
                case 3: y->setAsInteger(1, e); break;
                case 4: y->setAsSignedInteger(1, e); break;
                case 5: y->setAsDouble(1, e); break;
                case 6: y->setAsString("x", e); break;
                case 7: y->getAsString(o, e); break;
                case 8: y->setAsIntegerArray(vu, e); break;
                case 9: y->getAsSignedIntegerArray(vi, e); break;
                default: y->setAsDoubleArray(vd, e); break;
                }
            }
            REACH("used");
        } else if (api == 1) { // the platform and the tuning interfaces
            std::list<S> r;
            S t;
            switch (choice(("use" + id).c_str(), 32)) {
            case 0: k->setCriterionState(1); pf.applyConfigurations(); break;
            case 1: pf.applyConfigurations(); break;
            case 2: o = "1", pf.accessParameterValue(PATH[choice(("element" + id).c_str(), 8)], o, true, e); break;
            case 3: pf.accessParameterValue(PATH[choice(("element" + id).c_str(), 8)], o, false, e); break;
            case 4: o = "1", pf.accessConfigurationValue("D", maybe(("last" + id).c_str()) ? "one" : "two", PATH[0], o, true, e); break;
            case 5: pf.accessConfigurationValue("D", "one", PATH[0], o, false, e); break;
            case 6: pf.setTuningMode(true, e); break;
            case 7: pf.setTuningMode(false, e); break;
            case 8: pf.setAutoSync(true, e); break;
            case 9: pf.setAutoSync(false, e); break;
            case 10: pf.sync(e); break;
            case 11: pf.createDomain("E", e); break;
            case 12: pf.createDomain("E", e), pf.addConfigurableElementToDomain("E", "/test/test/g", e), pf.createConfiguration("E", "c", e); break;
            case 13: pf.addConfigurableElementToDomain("D", "/test/test/i", e); break;
            case 14: pf.addConfigurableElementToDomain("D", "/test/test/g", e), pf.split("D", "/test/test/g", e); break;
            case 15: pf.removeConfigurableElementFromDomain("D", "/test/test/p", e); break;
            case 16: pf.createConfiguration("D", "new", e); break;
            case 17: pf.deleteConfiguration("D", "one", e); break;
            case 18: pf.saveConfiguration("D", "one", e); break;
            case 19: pf.restoreConfiguration("D", "two", r); break;
            case 20: pf.importDomainsXml(xml, maybe(("settings" + id).c_str()), false, e); break;
            case 21: pf.importSingleDomainXml(one, true, maybe(("settings" + id).c_str()), false, e); break;
            case 22: pf.exportDomainsXml(t, true, false, e); break;
            case 23: pf.exportSingleDomainXml(t, "D", true, false, e); break;
            case 24: pf.deleteDomain("D", e); break;
            case 25: pf.deleteAllDomains(e); break;
            case 26: pf.renameDomain("D", "E", e); break;
            case 27: pf.setElementSequence("D", "one", {"/test/test/p"}, e); break;
            case 28: pf.setApplicationRule("D", "one", "All{}", e), pf.clearApplicationRule("D", "two", e); break;
            case 29: pf.setSequenceAwareness("D", true, e); break;
            case 30: pf.getParameterMapping(PATH[0], o); break;
            default: h[6]->getStructureAsXML(o, e); break;
            }
            REACH("used");
        } else { // every command, with arguments that fit
            const S &u = names[choice(("command" + id).c_str(), (unsigned)names.size())];
            V words, a;
            S w;
            int depth = 0;
            for (char ch : u + " ") {
                if (ch == '<') depth++;
                if (ch == '>') depth--;
                if (ch != ' ' || depth) { w += ch; continue; }
                if (!w.empty()) words.push_back(w);
                w.clear();
            }
            for (size_t n = 1; n < words.size(); n++) {
                const S &p = words[n];
                if (p[0] == '[') continue;
                if (p == "<domain>") a.push_back(words[0] == "createDomain" ? "E" : "D");
                else if (p == "<configuration>") a.push_back(words[0] == "createConfiguration" ? "new" : maybe(("last" + id).c_str()) ? "one" : "two");
                else if (p.find("elem path") != S::npos || p == "<param path>")
                    a.push_back(words[0] == "setElementSequence" ? PATH[0] : p == "<param path>" || words[0] == "removeElement" ? PATH[0] : words[0] == "addElement" || words[0] == "splitDomain" ? "/test/test/g" : words[0] == "setElementXML" || words[0] == "setElementBytes" ? PATH[0] : maybe(("path" + id).c_str()) ? PATH[6] : PATH[1]);
                else if (p == "<value>") a.push_back("3");
                else if (p == "<values>") a.push_back(words[0] == "setElementXML" ? intXml("p", "3") : S("3"));
                else if (p == "<rule>") a.push_back("All{}");
                else if (p == "<file path>") a.push_back(path("x.xml"));
                else if (p == "<xml configurable domains>") a.push_back(xml);
                else if (p == "<xml configurable domain>") a.push_back(one), a.push_back("overwrite");
                else if (p.find('|') != S::npos) { S t = p.substr(maybe(("second" + id).c_str()) ? p.find('|') + 1 : 0); t = t.substr(0, t.find('|')); a.push_back(t.substr(0, t.find('*'))); }
                else a.push_back("other");
            }
            if (words[0].find("import") == 0) put(path("x.xml"), words[0] == "importDomainWithSettingsXML" ? one : xml);
            o.clear();
            if (cmd->process(words[0], a, o)) REACH("used");
            else REACH("refused");
        }
        CHECK(pfs_locks_held() == 0, "no lock is kept");
    }
    pfs_watch(nullptr, 0);
}
