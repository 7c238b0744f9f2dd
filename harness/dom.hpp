// Domain descriptions and selection criteria for the harnesses.
#pragma once
#include "fw.hpp"
namespace fw
{
typedef std::vector<S> V;
struct Setting { S path, xml; };
struct Conf { S name, rule; std::vector<Setting> settings; };
struct Dom
{
    S name;
    std::vector<Conf> confs;
    V elements;
    bool seq = false, withSettings = true;
    S xml() const
    {
        S o = "<ConfigurableDomain Name=\"" + name + "\" SequenceAware=\"" + (seq ? "true" : "false") + "\"><Configurations>";
        for (auto &c : confs) o += "<Configuration Name=\"" + c.name + "\">" + c.rule + "</Configuration>";
        o += "</Configurations><ConfigurableElements>";
        for (auto &e : elements) o += "<ConfigurableElement Path=\"" + e + "\"/>";
        o += "</ConfigurableElements>";
        if (withSettings) {
            o += "<Settings>";
            for (auto &c : confs) {
                o += "<Configuration Name=\"" + c.name + "\">";
                for (auto &s : c.settings) o += "<ConfigurableElement Path=\"" + s.path + "\">" + s.xml + "</ConfigurableElement>";
                o += "</Configuration>";
            }
            o += "</Settings>";
        }
        return o + "</ConfigurableDomain>";
    }
};
inline S intXml(const S &n, const S &v) { return "<IntegerParameter Name=\"" + n + "\">" + v + "</IntegerParameter>"; }
inline S intDef(const S &n, const S &more = "") { return "<IntegerParameter Name='" + n + "' Size='8' Signed='false'" + more + "/>"; }
inline S critRule(const S &c, const S &verb, const S &v) { return "<SelectionCriterionRule SelectionCriterion=\"" + c + "\" MatchesWhen=\"" + verb + "\" Value=\"" + v + "\"/>"; }
inline S compRule(bool all, const S &inner) { return S("<CompoundRule Type=\"") + (all ? "All" : "Any") + "\">" + inner + "</CompoundRule>"; }
inline S always() { return compRule(true, ""); }
inline S never() { return compRule(false, ""); }
inline ISelectionCriterionTypeInterface *critType(PF &pf, bool incl, const std::vector<std::pair<int, S>> &v)
{
    auto *t = pf.createSelectionCriterionType(incl);
    S e;
    for (auto &p : v)
        if (!t->addValuePair(p.first, p.second, e)) { pfs_note_str(e.c_str()); pfs_fail("a valid value pair is accepted"); }
    return t;
}
} // namespace fw
