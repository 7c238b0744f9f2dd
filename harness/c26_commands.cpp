// C26: the commands of a tuning tool: every command, with every number of arguments; and what a command does compared with the API
#include "dom.hpp"
#include <CommandHandlerInterface.h>
using namespace fw;
typedef std::vector<S> V;
static S dump(PF &pf, CommandHandlerInterface &cmd, bool domains = true)
{
    S r, o, e;
    for (const char *c : {"getTuningMode", "getValueSpace", "getOutputRawFormat", "getAutoSync"}) {
        o.clear();
        CHECK(cmd.process(c, {}, o), "the state can be read");
        r += o + "\n";
    }
    o.clear();
    if (domains) CHECK(pf.exportDomainsXml(o, true, false, e), "the domains can be read");
    r += o;
    o.clear();
    Handle h(pf, "/s");
    CHECK(h->getAsXML(o, e), "the settings can be read");
    return r + o;
}
static void prepare(PF &pf)
{
    S e;
    pf.upTuning();
    for (const char *d : {"D", "E"}) {
        CHECK(pf.createDomain(d, e) && pf.addConfigurableElementToDomain(d, *d == 'D' ? "/s/t/v" : "/s/t/b", e), "domains can be made");
        for (const char *c : {"c", "d"}) CHECK(pf.createConfiguration(d, c, e), "configurations can be made");
    }
    CHECK(pf.addConfigurableElementToDomain("D", "/s/t/p", e), "domains can be made");
    CHECK(pf.set("/s/t/v", "1 2") && pf.set("/s/t/p", "3"), "parameters can be set");
    CHECK(pf.saveConfiguration("D", "c", e) && pf.set("/s/t/p", "4"), "a configuration can be saved");
}
static V alternatives(const S &t)
{
    V r;
    S c;
    for (char ch : t + "|")
        if (ch == '|') r.push_back(c), c.clear();
        else if (ch != '*') c += ch;
    return r;
}
static Cfg cfg()
{
    Cfg c;
    c.structure = "<?xml version='1.0' encoding='UTF-8'?><SystemClass Name='s'><Subsystem Name='t' Type='Virtual'><ComponentLibrary/><InstanceDefinition><IntegerParameter Name='p' Size='8' Signed='false'/>"
        "<IntegerParameter Name='v' Size='16' Signed='true' ArrayLength='2'/><BooleanParameter Name='b'/></InstanceDefinition></Subsystem></SystemClass>";
    c.raw = "<?xml version='1.0' encoding='UTF-8'?><ParameterFrameworkConfiguration SystemClassName='s' TuningAllowed='true'><SubsystemPlugins/><StructureDescriptionFileLocation Path='" + path("structure.xml") + "'/></ParameterFrameworkConfiguration>";
    c.withDomains = false;
    return c;
}
static S ch1(const char *n)
{
    S s = symText(n, 1);
    ASSUME((s[0] > ' ') & (s[0] != '/')); // an argument is stripped of blanks: C23, C25
    return s;
}
extern "C" void harness_main()
{
    Cfg c = cfg();
    PF pf(c);
    prepare(pf);
    std::unique_ptr<CommandHandlerInterface> cmd(pf.createCommandHandler());
    S e, out, xml, one;
    CHECK(pf.exportDomainsXml(xml, true, false, e) && pf.exportSingleDomainXml(one, "E", true, false, e), "domains can be exported");
    put(path("in.xml"), xml);
    put(path("one.xml"), one);
    S bad = one;
    size_t at = bad.find(">0</BooleanParameter>");
    CHECK(at != S::npos, "the settings are in the export");
    bad.replace(at + 1, 1, "zz");
    put(path("bad.xml"), bad);
    if (param("mode") == 0) {
        // the commands and their usage, as help shows them
        CHECK(cmd->process("help", {}, out), "help is always there");
        struct Cmd { S name, usage; V args; size_t need = 0; };
        std::vector<Cmd> cmds;
        S line;
        for (char ch : out) {
            if (ch != '\n') { line += ch; continue; }
            size_t arrow = line.find("=> ");
            if (arrow == S::npos) { line.clear(); continue; }
            Cmd k;
            S u = line.substr(0, arrow), t;
            int depth = 0;
            while (!u.empty() && u.back() == ' ') u.pop_back();
            for (char x : u + " ") {
                if (x == '<') depth++;
                if (x == '>') depth--;
                if (x != ' ' || depth) { t += x; continue; }
                if (t.empty()) continue;
                if (k.name.empty()) k.name = t;
                else { k.args.push_back(t); if (t[0] != '[') k.need++; }
                t.clear();
            }
            k.usage = u;
            cmds.push_back(k);
            line.clear();
        }
        CHECK(cmds.size() > 40, "the commands are listed");
        unsigned parts = (unsigned)param("parts", 1), part = (unsigned)param("part");
        std::vector<Cmd> mine;
        for (size_t i = part; i < cmds.size(); i += parts) mine.push_back(cmds[i]);
        Cmd &k = mine[choice("command", (unsigned)mine.size())];
        if (maybe("untuned")) CHECK(pf.setTuningMode(false, e), "tuning mode can be left");
        size_t n = choice("count", (unsigned)k.need + 2);
        V a;
        bool list = false;
        for (size_t i = 0; i < n; i++) {
            S p = i < k.args.size() ? k.args[i] : S();
            S id = S(1, (char)('a' + i));
            V o;
            if (p == "<domain>") o = {"D", "E"};
            else if (p == "<configuration>") o = {"c", "d"};
            else if (p.find("elem path") != S::npos || p == "<param path>") o = {"/s/t/p", "/s/t/v", "/s/t/b", "/s"};
            else if (p == "<value>" || p == "<values>") o = {"1", "1 0", "<ParameterBlock/>", "<BooleanParameter Name=\"b\">1</BooleanParameter>"};
            else if (p == "<rule>") o = {"All{}", "All{"};
            else if (p == "<file path>") o = {path("in.xml"), path("one.xml"), path("bad.xml"), path("none/x.xml")};
            else if (p == "<xml configurable domains>") o = {xml, "<ConfigurableDomains SystemClassName=\"s\"><x/></ConfigurableDomains>"};
            else if (p == "<xml configurable domain>") o = {one, xml, bad};
            else if (p.find('|') != S::npos) o = alternatives(p[0] == '[' ? p.substr(1, p.size() - 2) : p);
            else if (!p.empty() && p[0] == '[') o = {p.substr(1, p.size() - 2)};
            unsigned x = choice(("arg" + id).c_str(), (unsigned)o.size() + 1);
            a.push_back(x < o.size() ? o[x] : ch1(("text" + id).c_str()));
        }
        (void)list;
        // a refused import of all the domains leaves none (C22)
        bool whole = k.name == "importDomainsXML" || k.name == "importDomainsWithSettingsXML" || k.name == "setDomainsWithSettingsXML";
        S before = dump(pf, *cmd), rest = dump(pf, *cmd, false);
        out.clear();
        bool ok = cmd->process(k.name, a, out);
        if (n < k.need) {
            CHECK(!ok, "a command without all its arguments is refused");
            CHECK(out.find(k.usage) != S::npos, "a command without all its arguments is refused with its usage");
        }
        if (!ok) {
            CHECK(!out.empty(), "a refusal is explained");
            S left;
            if (whole) CHECK(cmd->process("listDomains", {}, left), "the domains can be listed");
            CHECK(dump(pf, *cmd) == before || (whole && left.empty() && dump(pf, *cmd, false) == rest), "a command refused has no effect");
            REACH("rejected");
        } else REACH("accepted");
        return;
    }
    if (param("mode") == 2) { // a name that is no command
        S n = symText("name", (size_t)param("len", 4));
        out.clear();
        S before = dump(pf, *cmd);
        bool ok = cmd->process(n, {}, out);
        CHECK((out.find("not found") == S::npos) == (n == "sync" || n == "help"), "only the commands that exist are obeyed");
        CHECK(!out.empty(), "a refusal is explained");
        if (!ok) { CHECK(dump(pf, *cmd) == before, "a command refused has no effect"); REACH("rejected"); }
        else REACH("accepted");
        return;
    }
    // a command and the operation of the API it stands for
    PF api(c);
    prepare(api);
    std::unique_ptr<CommandHandlerInterface> cmd2(api.createCommandHandler());
    if (maybe("untuned")) CHECK(pf.setTuningMode(false, e) && api.setTuningMode(false, e), "tuning mode can be left");
    for (unsigned i = 0; i < (unsigned)param("steps", 1); i++) {
        S id = S(1, (char)('a' + i));
        auto from = [&](const char *n, V o) { unsigned x = choice((n + id).c_str(), (unsigned)o.size() + 1); return x < o.size() ? o[x] : ch1(("t" + (n + id)).c_str()); };
        auto D = [&] { return from("domain", {"D"}); };
        auto C = [&] { return from("conf", {"c"}); };
        auto P = [&] { return from("path", {"/s/t/p", "/s/t/v", "/s/t/b"}); };
        unsigned op = param("op", -1) >= 0 && i == 0 ? (unsigned)param("op") : choice(("op" + id).c_str(), 20);
        bool a, b;
        S d, k, p, v, w, oa, ob, ea, eb;
        std::list<S> res;
        switch (op) {
        case 0: d = D(), a = cmd->process("createDomain", {d}, oa), b = api.createDomain(d, eb); break;
        case 1: d = D(), a = cmd->process("deleteDomain", {d}, oa), b = api.deleteDomain(d, eb); break;
        case 2: d = D(), v = from("new", {"E"}), a = cmd->process("renameDomain", {d, v}, oa), b = api.renameDomain(d, v, eb); break;
        case 3: a = cmd->process("deleteAllDomains", {}, oa), b = api.deleteAllDomains(eb); break;
        case 4: d = D(), v = from("aware", {"true", "false", "", "True"}), a = cmd->process("setSequenceAwareness", {d, v}, oa), b = (v == "true" || v == "false") && api.setSequenceAwareness(d, v == "true", eb); break;
        case 5: d = D(), p = P(), a = cmd->process("addElement", {d, p}, oa), b = api.addConfigurableElementToDomain(d, p, eb); break;
        case 6: d = D(), p = P(), a = cmd->process("removeElement", {d, p}, oa), b = api.removeConfigurableElementFromDomain(d, p, eb); break;
        case 7: d = D(), p = P(), a = cmd->process("splitDomain", {d, p}, oa), b = api.split(d, p, eb); break;
        case 8: d = D(), k = C(), a = cmd->process("createConfiguration", {d, k}, oa), b = api.createConfiguration(d, k, eb); break;
        case 9: d = D(), k = C(), a = cmd->process("deleteConfiguration", {d, k}, oa), b = api.deleteConfiguration(d, k, eb); break;
        case 10: d = D(), k = C(), v = from("new", {"d"}), a = cmd->process("renameConfiguration", {d, k, v}, oa), b = api.renameConfiguration(d, k, v, eb); break;
        case 11: d = D(), k = C(), a = cmd->process("saveConfiguration", {d, k}, oa), b = api.saveConfiguration(d, k, eb); break;
        case 12: d = D(), k = C(), a = cmd->process("restoreConfiguration", {d, k}, oa), b = api.restoreConfiguration(d, k, res); break;
        case 13: d = D(), k = C(), p = P(), v = from("path2", {"/s/t/p"}), a = cmd->process("setElementSequence", {d, k, p, v}, oa), b = api.setElementSequence(d, k, {p, v}, eb); break;
        case 14: d = D(), k = C(), v = from("rule", {"All{}", "Any{}"}), a = cmd->process("setRule", {d, k, v}, oa), b = api.setApplicationRule(d, k, v, eb); break;
        case 15: d = D(), k = C(), a = cmd->process("clearRule", {d, k}, oa), b = api.clearApplicationRule(d, k, eb); break;
        case 16: p = P(), v = from("value", {"5"}), w = from("value2", {"6"}), a = cmd->process("setParameter", {p, v, w}, oa), v += " " + w, b = api.accessParameterValue(p, v, true, eb); break;
        case 17: d = D(), k = C(), p = P(), v = from("value", {"5"}), w = from("value2", {"6"}), a = cmd->process("setConfigurationParameter", {d, k, p, v, w}, oa), v += " " + w, b = api.accessConfigurationValue(d, k, p, v, true, eb); break;
        case 18: p = P(), v = from("value", {"5"}), a = cmd->process("setParameter", {p, v}, oa), b = api.accessParameterValue(p, v, true, eb); break;
        default: { // modes
            static const char *const W[4] = {"setTuningMode", "setValueSpace", "setOutputRawFormat", "setAutoSync"};
            static const char *const ON[4] = {"on", "raw", "hex", "on"}, *const OFF[4] = {"off", "real", "dec", "off"};
            unsigned m = choice(("mode" + id).c_str(), 4);
            v = from("value", {ON[m], OFF[m], "", "ON"});
            a = cmd->process(W[m], {v}, oa);
            bool on = v == ON[m];
            b = on || v == OFF[m];
            if (b) {
                if (m == 0) b = api.setTuningMode(on, eb);
                else if (m == 1) api.setValueSpace(on);
                else if (m == 2) api.setOutputRawFormat(on);
                else b = api.setAutoSync(on, eb);
            }
        }
        }
        CHECK(a == b, "a command succeeds exactly when the operation it stands for does");
        if (a) { CHECK(oa == "Done", "success is reported as such"); REACH("accepted"); }
        else { CHECK(!oa.empty(), "a refusal is explained"); REACH("rejected"); }
        CHECK(dump(pf, *cmd) == dump(api, *cmd2), "a command has the effect of the operation it stands for");
    }
}
