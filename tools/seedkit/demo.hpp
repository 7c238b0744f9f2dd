// builds a parameter framework instance from configuration text in a scratch directory
#pragma once
#include <ParameterMgrFullConnector.h>
#include <ElementHandle.h>
#include <SelectionCriterionInterface.h>
#include <SelectionCriterionTypeInterface.h>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
typedef std::string S;
static S scratch;
static void put(const S &p, const S &t) { std::ofstream(p.c_str()) << t; }
static S slurp(const S &p) { std::ifstream f(p.c_str()); std::stringstream s; s << f.rdbuf(); return s.str(); }
struct Dir { Dir() { char b[] = "/tmp/pfdemoXXXXXX"; scratch = mkdtemp(b); } ~Dir() { for (const char *n : {"conf.xml", "structure.xml", "domains.xml", "out.xml"}) unlink((scratch + "/" + n).c_str()); rmdir(scratch.c_str()); } };
static Dir theDir;
struct Cfg { S instances, components, domains, type = "Virtual", mapping, tuning = "true"; };
static S files(const Cfg &c)
{
    S x = "<?xml version='1.0' encoding='UTF-8'?>";
    put(scratch + "/structure.xml", x + "<SystemClass Name='test'><Subsystem Name='test' Type='" + c.type + "' Mapping='" + c.mapping + "'><ComponentLibrary>" + c.components +
        "</ComponentLibrary><InstanceDefinition>" + c.instances + "</InstanceDefinition></Subsystem></SystemClass>");
    put(scratch + "/domains.xml", x + "<ConfigurableDomains SystemClassName='test'>" + c.domains + "</ConfigurableDomains>");
    put(scratch + "/conf.xml", x + "<ParameterFrameworkConfiguration SystemClassName='test' TuningAllowed='" + c.tuning + "'><SubsystemPlugins/><StructureDescriptionFileLocation Path='" + scratch +
        "/structure.xml'/><SettingsConfiguration><ConfigurableDomainsFileLocation Path='" + scratch + "/domains.xml'/></SettingsConfiguration></ParameterFrameworkConfiguration>");
    return scratch + "/conf.xml";
}
struct PF : CParameterMgrFullConnector
{
    S err;
    PF(const Cfg &c) : CParameterMgrFullConnector(files(c)) { setForceNoRemoteInterface(true); }
    bool up() { return start(err); }
    bool tune(bool on) { return isTuningModeOn() == on || setTuningMode(on, err); }
    void upTuning() { if (!up() || !tune(true)) { std::cerr << "start: " << err << "\n"; exit(3); } }
    bool set(const S &p, const S &v) { S t = v; err.clear(); return accessParameterValue("/test/test/" + p, t, true, err); }
    S get(const S &p) { S v; err.clear(); return accessParameterValue("/test/test/" + p, v, false, err) ? v : "<" + err + ">"; }
    std::unique_ptr<ElementHandle> h(const S &p) { return std::unique_ptr<ElementHandle>(createElementHandle("/test/test/" + p, err)); }
};
static int bad;
#define EXPECT(c) do { if (!(c)) { std::cerr << "FAILED: " #c "\n"; bad = 1; } } while (0)
#define EXPECT_EQ(a, b) do { auto x_ = (a); decltype(x_) y_ = (b); if (!(x_ == y_)) { std::cerr << "FAILED: " #a " is " << x_ << ", expected " << y_ << "\n"; bad = 1; } } while (0)
