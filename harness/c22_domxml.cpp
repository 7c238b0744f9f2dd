// C22: exporting and importing domains, whole and single, with and without settings, and documents that must be refused.
#include "model.hpp"
using namespace fw;
static void replaceAll(S &t, const S &a, const S &b)
{
    size_t p = t.find(a);
    if (p == S::npos) { pfs_note_str(a.c_str()); pfs_fail("harness: the text to replace is there"); }
    t.replace(p, a.size(), b);
}
// an importable domain comes back as the model has it
static void afterImport(Model &m, MDom &d, bool settings)
{
    d.last.clear();
    for (auto &c : d.confs) {
        if (!settings) {
            c.order = d.elems;
            for (int l = 0; l < LEAVES; l++) if (d.leaves() >> l & 1) c.val[l] = m.main[l];
        }
    }
}
static void edit(Run &r, unsigned k, const S &s)
{
    switch (k) {
    case 0: break;
    case 1: r.confSet("Da", "cb", GB, digit(("v" + s).c_str())); break;
    case 2: r.set(choice(("leaf" + s).c_str(), 2) ? GA : HI, digit(("v" + s).c_str())); break;
    case 3: r.renameDom("Da", "Dz"); break;
    case 4: r.deleteDom("Da"); break;
    case 5: r.sequence("Da", maybe(("conf" + s).c_str()) ? "ca" : "cb", {ELEM[EHI].path, ELEM[EP].path}); break;
    case 6: r.split("Da", EG); break;
    case 7: r.createConf("Da", "cn"); break;
    case 8: r.setRule("Da", maybe(("conf" + s).c_str()) ? "ca" : "cb", (int)choice(("rule" + s).c_str(), 5) - 3, 2); break;
    case 9: r.aware("Da", maybe(("seq" + s).c_str())); r.addElem("De", EQ); break;
    case 10: r.deleteConf("Da", maybe(("conf" + s).c_str()) ? "ca" : "cb"); break;
    case 11: r.addElem("Da", EBITS); r.removeElem("Da", EP); break;
    }
}
static const unsigned EDITS = 12;
static void start(Run &r)
{
    unsigned layout = (unsigned)param("layout", 0);
    MDom &a = r.add("Da", {EP, EG, EHI}, layout == 1);
    r.addConf(a, "ca", 0, 1, 10);
    r.addConf(a, "cb", -1, 0, 20);
    if (layout == 1) a.confs[0].order = {EHI, EP, EG};
    MDom &b = layout == 0 ? r.add("Db", {EQ, ELO}) : r.add("Db", {EG, EQ, ELO});
    r.addConf(b, "ca", -3, 0, 1);
    r.addConf(b, "cb", -2, 2, 2);
    r.add("De", {});
    r.start();
    r.tuning(true);
}
static void useAll(Run &r)
{
    r.all();
    for (unsigned i = 0; i < r.m.doms.size(); i++)
        for (unsigned j = 0; j < r.m.doms[i].confs.size(); j++) {
            r.restore(r.m.doms[i].name, r.m.doms[i].confs[j].name);
            r.values();
        }
    r.tuning(false);
    r.values();
}
static S exportAll(Run &r, bool settings, bool file)
{
    S dest = file ? path("export.xml") : S();
    if (!r.pf->exportDomainsXml(dest, settings, file, r.e)) { pfs_note_str(r.e.c_str()); pfs_fail("all domains can be exported"); }
    return dest;
}
static S exportOne(Run &r, const S &d, bool settings, bool file)
{
    S dest = file ? path("export.xml") : S();
    bool ok = r.m.dom(d) != nullptr;
    CHECK(r.pf->exportSingleDomainXml(dest, d, settings, file, r.e) == ok, "exactly an existing domain can be exported");
    return ok ? dest : S();
}
// 0: all domains out, edited, and in again; 1: one domain
static void trip(Run &r, bool one)
{
    int fe = (int)param("edit", -1);
    bool wr = maybe("exportSettings"), rd = maybe("importSettings"), file = param("file", 0);
    unsigned show = choice("format", 3); // how values are written out must not matter
    if (show) r.pf->setValueSpace(show & 1), r.pf->setOutputRawFormat(show & 2);
    edit(r, fe >= 0 ? (unsigned)fe : choice("edit", EDITS), "x");
    Model was = r.m;
    S D = one ? S("D") + (char)('a' + choice("which", 3)) : S();
    if (D == "Dc") D = "De";
    S doc = one ? exportOne(r, D, wr, file) : exportAll(r, wr, file);
    r.pf->setValueSpace(false);
    r.pf->setOutputRawFormat(false);
    if (one && doc.empty()) return;
    edit(r, fe >= 0 ? choice("after", EDITS) : (unsigned)param("after", 0), "y");
    bool ok = true;
    if (one) {
        bool over = maybe("overwrite");
        ok = over || !r.m.dom(D);
        CHECK(r.pf->importSingleDomainXml(doc, over, rd, file, r.e) == ok, "a domain is imported exactly where its name is free or may be overwritten");
        if (ok) {
            MDom n = *was.dom(D);
            if (MDom *o = r.m.dom(D)) r.m.doms.erase(r.m.doms.begin() + (o - r.m.doms.data()));
            afterImport(r.m, n, wr && rd);
            r.m.doms.push_back(n);
            REACH("imported");
        } else {
            CHECK(!r.e.empty(), "a refusal is explained");
            REACH("refused");
        }
    } else {
        if (!r.pf->importDomainsXml(doc, rd, file, r.e)) { pfs_note_str(r.e.c_str()); pfs_fail("what was exported can be imported"); }
        r.m.doms = was.doms;
        for (auto &d : r.m.doms) afterImport(r.m, d, wr && rd);
        REACH("imported");
    }
    useAll(r);
}
// documents with settings for some configurations and elements only
static void partial(Run &r, bool one)
{
    Model m;
    MDom d;
    d.name = "Dn";
    d.elems = {EG, EHI, EP};
    d.seq = maybe("seq");
    m.doms.push_back(d);
    r.addConf(m.doms[0], "cx", -1, 0, 30);
    r.addConf(m.doms[0], "cy", 0, 3, 40);
    r.addConf(m.doms[0], "cz", -2, 0, 50);
    MDom &n = m.doms[0];
    Dom x;
    x.name = n.name;
    x.seq = n.seq;
    for (int e : n.elems) x.elements.push_back(ELEM[e].path);
    unsigned mask[3];
    for (int i = 0; i < 3; i++) {
        Conf c;
        c.name = n.confs[i].name;
        c.rule = ruleXml(n.confs[i]);
        mask[i] = choice(nm("given", i).c_str(), 8);
        std::vector<int> given, rest;
        for (int e : n.elems) {
            int bit = e == EG ? 1 : e == EHI ? 2 : 4;
            if (mask[i] & bit) c.settings.push_back({ELEM[e].path, elemXml(e, n.confs[i].val)}), given.push_back(e);
            else rest.push_back(e);
        }
        x.confs.push_back(c);
        given.insert(given.end(), rest.begin(), rest.end());
        n.confs[i].order = given;
    }
    // a missing value comes from the first configuration that has it, else from the current values
    for (int e : n.elems) {
        int bit = e == EG ? 1 : e == EHI ? 2 : 4, from = -1;
        for (int i = 2; i >= 0; i--) if (mask[i] & bit) from = i;
        for (int i = 0; i < 3; i++)
            if (!(mask[i] & bit))
                for (int l = 0; l < LEAVES; l++) if (ELEM[e].leaves >> l & 1) n.confs[i].val[l] = from < 0 ? r.m.main[l] : n.confs[from].val[l];
    }
    S doc = "<?xml version='1.0' encoding='UTF-8'?>" + x.xml();
    if (!one) doc = domainsText(x.xml());
    bool ok = one ? r.pf->importSingleDomainXml(doc, false, true, false, r.e) : r.pf->importDomainsXml(doc, true, false, r.e);
    if (!ok) { pfs_note_str(r.e.c_str()); pfs_fail("settings of some elements only can be imported"); }
    if (!one) r.m.doms.clear();
    r.m.doms.push_back(n);
    REACH("imported");
    useAll(r);
}
static const unsigned FAULTS = 18;
static void faulty(Run &r, bool one)
{
    Model m;
    MDom d;
    d.name = maybe("same") ? "Da" : "Dn";
    d.elems = {EG, EHI, EP};
    m.doms.push_back(d);
    r.addConf(m.doms[0], "cx", 0, 1, 30);
    r.addConf(m.doms[0], "cy", -1, 0, 40);
    S x = m.xml();
    bool ok = false, readable = true;
    unsigned f = choice("fault", FAULTS);
    S v;
    if (f == 0) replaceAll(x, "<ConfigurableElement Path=\"/test/test/bits/hi\"/>", "<ConfigurableElement Path=\"/test/test/bits/no\"/>");
    if (f == 1) replaceAll(x, "<ConfigurableElement Path=\"/test/test/bits/hi\"/>", "<ConfigurableElement Path=\"/tess/test/bits/hi\"/>");
    if (f == 2) replaceAll(x, "<ConfigurableElement Path=\"/test/test/bits/hi\"/>", "<ConfigurableElement Path=\"/test/test/g\"/>");
    if (f == 3) replaceAll(x, "SelectionCriterion=\"Ks\"", "SelectionCriterion=\"Kz\"");
    if (f == 4) replaceAll(x, "Value=\"v1\"", "Value=\"v9\"");
    if (f == 5) replaceAll(x, "MatchesWhen=\"Is\"", "MatchesWhen=\"Includes\"");
    if (f == 6) replaceAll(x, "<Settings><Configuration Name=\"cx\"", "<Settings><Configuration Name=\"cq\"");
    if (f == 7) replaceAll(x, "<ConfigurableElement Path=\"/test/test/p\"><", "<ConfigurableElement Path=\"/test/test/q\"><");
    if (f == 8) { // any last character of the value of b
        v = symText("byte", 1);
        ASSUME((v[0] > ' ') & (v[0] < 127) & (v[0] != '<') & (v[0] != '&') & (v[0] != '>'));
        replaceAll(x, "<IntegerParameter Name=\"b\">42</IntegerParameter>", "<IntegerParameter Name=\"b\">4" + v + "</IntegerParameter>");
        ok = (v[0] >= '0') & (v[0] <= '9');
        m.doms[0].confs[1].val[GB] = "4" + v;
    }
    if (f == 9) { // a value that may be past the maximum of 255
        v = "2" + digit("v1") + digit("v2");
        replaceAll(x, "<IntegerParameter Name=\"p\">40</IntegerParameter>", "<IntegerParameter Name=\"p\">" + v + "</IntegerParameter>");
        ok = (v[1] < '5') | ((v[1] == '5') & (v[2] <= '5'));
        m.doms[0].confs[1].val[P] = v;
    }
    if (f == 10) replaceAll(x, "<IntegerParameter Name=\"p\">40</IntegerParameter>", "<IntegerParameter Name=\"p\">40</IntegerParameter><IntegerParameter Name=\"p\">41</IntegerParameter>");
    if (f == 11) replaceAll(x, "<IntegerParameter Name=\"p\">40</IntegerParameter>", "");
    if (f == 12) replaceAll(x, "<IntegerParameter Name=\"b\">42</IntegerParameter>", "");
    if (f == 13) replaceAll(x, "<IntegerParameter Name=\"a\">41</IntegerParameter><IntegerParameter Name=\"b\">42</IntegerParameter>", "<IntegerParameter Name=\"b\">42</IntegerParameter><IntegerParameter Name=\"a\">41</IntegerParameter>");
    if (f == 14) replaceAll(x, "<Configuration Name=\"cy\">", "<Configuration Name=\"cy\""), readable = false;
    if (f == 16) replaceAll(x, "<Settings>", "<Settings><Configuration Name=\"cq\"/>"); // an unknown configuration without settings
    if (f == 17) replaceAll(x, "</Settings>", "<Configuration Name=\"cq\"/></Settings>");
    S doc = "<?xml version='1.0' encoding='UTF-8'?>" + x;
    if (!one) doc = domainsText(x);
    if (f == 15) doc = one ? domainsText(x) : "<?xml version='1.0' encoding='UTF-8'?>" + x; // the other kind of document
    bool over = one && maybe("overwrite");
    if (one && !over && d.name == "Da") ok = false;
    r.e.clear();
    bool got = one ? r.pf->importSingleDomainXml(doc, over, true, false, r.e) : r.pf->importDomainsXml(doc, true, false, r.e);
    pfs_note_str(r.e.c_str());
    CHECK(got == ok, "a faulty document is refused");
    if (!got) CHECK(!r.e.empty(), "a refusal is explained");
    if (ok) REACH("accepted");
    else REACH("refused");
    if (one) {
        if (ok) {
            if (MDom *o = r.m.dom(d.name)) r.m.doms.erase(r.m.doms.begin() + (o - r.m.doms.data()));
            r.m.doms.push_back(m.doms[0]);
        }
    } else if (ok) r.m.doms = m.doms;
    else if (readable) r.m.doms.clear(); // a refused import leaves no domain behind
    r.all();
    // and the names and elements concerned are still usable
    r.createDom(d.name);
    r.addElem(d.name, EG);
    r.createConf(d.name, "cn");
    useAll(r);
}
extern "C" void harness_main()
{
    Run r;
    start(r);
    switch (param("mode", 0)) {
    case 0: trip(r, false); break;
    case 1: trip(r, true); break;
    case 2: partial(r, false); break;
    case 3: partial(r, true); break;
    case 4: faulty(r, false); break;
    case 5: faulty(r, true); break;
    case 6: // only in tuning mode
        r.tuning(false);
        {
            S doc = exportAll(r, true, false), one = exportOne(r, "Da", true, false);
            CHECK(!r.pf->importDomainsXml(doc, true, false, r.e) && !r.pf->importSingleDomainXml(one, maybe("overwrite"), true, false, r.e), "nothing is imported outside tuning mode");
            r.all();
            CHECK(!r.pf->importDomainsXml(path("missing.xml"), true, true, r.e), "a missing file is refused");
            REACH("refused");
        }
        r.tuning(true);
        CHECK(!r.pf->importDomainsXml(path("missing.xml"), true, true, r.e) && !r.e.empty(), "a missing file is refused");
        CHECK(!r.pf->importSingleDomainXml(path("missing.xml"), true, true, true, r.e) && !r.e.empty(), "a missing file is refused");
        useAll(r);
        break;
    }
}
