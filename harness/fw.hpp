// A parameter framework instance built from configuration text, through the public connector.
#pragma once
#include "pfs.h"
#include <ParameterMgrFullConnector.h>
#include <ElementHandle.h>
#include <SelectionCriterionInterface.h>
#include <SelectionCriterionTypeInterface.h>
#include <list>
#include <memory>
#include <vector>
#include <cmath>
#include <limits>

namespace fw
{
typedef std::string S;
struct Cfg
{
    S instances, components, domains, plugins, type = "Virtual", mapping, tuning = "true", attrs, raw, structure;
    bool withDomains = true;
};
inline S path(const S &n) { return S(pfs_dir()) + "/" + n; }
inline void put(const S &p, const S &t) { pfs_vfs_write(p.c_str(), t.data(), t.size(), 0); }
inline S slurp(const S &p)
{
    const char *d = nullptr;
    size_t n = 0;
    if (pfs_vfs_read(p.c_str(), &d, &n)) return "";
    return S(d, n);
}
inline S structureText(const Cfg &c)
{
    if (!c.structure.empty()) return c.structure;
    return "<?xml version='1.0' encoding='UTF-8'?><SystemClass Name='test'><Subsystem Name='test' Type='" + c.type + "' Mapping='" +
           c.mapping + "'><ComponentLibrary>" + c.components + "</ComponentLibrary><InstanceDefinition>" + c.instances +
           "</InstanceDefinition></Subsystem></SystemClass>";
}
inline S domainsText(const S &d)
{
    return "<?xml version='1.0' encoding='UTF-8'?><ConfigurableDomains SystemClassName=\"test\">" + d + "</ConfigurableDomains>";
}
inline S pluginLocation()
{
    return S("<Location Folder='") + pfs_plugindir() + "'><Plugin Name='" + pfs_pluginlib() + "'/></Location>";
}
inline S writeFiles(const Cfg &c)
{
    S conf = path("conf.xml"), st = path("structure.xml"), dom = path("domains.xml");
    put(st, structureText(c));
    if (c.withDomains) put(dom, domainsText(c.domains));
    if (!c.raw.empty()) { put(conf, c.raw); return conf; }
    S t = "<?xml version='1.0' encoding='UTF-8'?><ParameterFrameworkConfiguration SystemClassName='test' TuningAllowed='" + c.tuning + "' " + c.attrs +
          "><SubsystemPlugins>" + c.plugins + "</SubsystemPlugins><StructureDescriptionFileLocation Path='" + st + "'/>";
    if (c.withDomains)
        t += "<SettingsConfiguration><ConfigurableDomainsFileLocation Path='" + dom + "'/></SettingsConfiguration>";
    t += "</ParameterFrameworkConfiguration>";
    put(conf, t);
    return conf;
}
struct PF : CParameterMgrFullConnector
{
    S err;
    explicit PF(const Cfg &c) : CParameterMgrFullConnector(writeFiles(c)) { setForceNoRemoteInterface(true); }
    bool up() { err.clear(); return start(err); }
    bool tuning(bool on) { err.clear(); return isTuningModeOn() == on || setTuningMode(on, err); }
    void upTuning()
    {
        if (!up()) { pfs_note_str(err.c_str()); pfs_fail("the valid configuration is accepted"); }
        if (!tuning(true)) { pfs_note_str(err.c_str()); pfs_fail("tuning mode can be switched on"); }
    }
    bool set(const S &p, const S &v) { err.clear(); S t = v; return accessParameterValue(p, t, true, err); }
    bool get(const S &p, S &v) { err.clear(); v.clear(); return accessParameterValue(p, v, false, err); }
    S get(const S &p)
    {
        S v;
        if (!get(p, v)) { pfs_note_str(err.c_str()); pfs_fail("an existing parameter can be read"); }
        return v;
    }
    ElementHandle *h(const S &p)
    {
        err.clear();
        ElementHandle *e = createElementHandle(p, err);
        if (!e) { pfs_note_str(err.c_str()); pfs_fail("an existing element can be opened"); }
        return e;
    }
    bool conf(const S &d, const S &c, const S &p, S &v, bool set) { err.clear(); return accessConfigurationValue(d, c, p, v, set, err); }
};
struct Handle
{
    std::unique_ptr<ElementHandle> e;
    Handle(PF &pf, const S &p) : e(pf.h(p)) {}
    ElementHandle *operator->() { return e.get(); }
};
} // namespace fw
