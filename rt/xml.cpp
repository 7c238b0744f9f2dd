// Small model of the part of libxml2 the framework uses (tree building, parsing and dumping of plain XML).
#include "pre.h"
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <libxml/xmlschemas.h>
#include <libxml/xinclude.h>
#include <libxml/uri.h>
#include <libxml/xmlerror.h>
#include <cstring>
#include <cstdlib>
#include <string>

typedef xmlChar X;
static X *dupn(const char *p, size_t n)
{
    X *q = (X *)malloc(n + 1);
    memcpy(q, p, n);
    q[n] = 0;
    return q;
}
static X *dup(const X *p) { return dupn((const char *)p, strlen((const char *)p)); }
static xmlStructuredErrorFunc errFn;
static void *errCtx;
static void *myAlloc(size_t n) { return malloc(n); }
static void myFree(void *p) { free(p); }

static xmlNodePtr mkNode(xmlElementType t)
{
    xmlNodePtr n = (xmlNodePtr)malloc(sizeof *n);
    memset(n, 0, sizeof *n);
    n->type = t;
    return n;
}
static void link(xmlNodePtr parent, xmlNodePtr n)
{
    n->parent = parent;
    n->doc = parent->doc;
    n->prev = parent->last;
    if (parent->last) parent->last->next = n;
    else parent->children = n;
    parent->last = n;
}
static void freeNode(xmlNodePtr n)
{
    for (xmlAttrPtr a = n->type == XML_ELEMENT_NODE ? n->properties : nullptr; a;) {
        xmlAttrPtr x = a->next;
        free((void *)a->name);
        free(a->children);
        free(a);
        a = x;
    }
    for (xmlNodePtr c = n->children; c;) {
        xmlNodePtr x = c->next;
        freeNode(c);
        c = x;
    }
    if (n->content) free(n->content);
    if (n->name) free((void *)n->name);
    free(n);
}
// attribute text is kept in children as a raw C string
static xmlAttrPtr addAttr(xmlNodePtr n, X *name, X *val)
{
    xmlAttrPtr a = (xmlAttrPtr)malloc(sizeof *a);
    memset(a, 0, sizeof *a);
    a->type = XML_ATTRIBUTE_NODE;
    a->name = name;
    a->children = (xmlNodePtr)val;
    a->parent = n;
    xmlAttrPtr *p = &n->properties;
    while (*p) p = &(*p)->next;
    *p = a;
    return a;
}
static xmlAttrPtr getAttr(const xmlNode *n, const X *name)
{
    if (!n || n->type != XML_ELEMENT_NODE) return nullptr;
    for (xmlAttrPtr a = n->properties; a; a = a->next)
        if (!strcmp((const char *)a->name, (const char *)name)) return a;
    return nullptr;
}

// ---------------------------------------------------------------- parser
struct P {
    const char *p, *e;
    const char *err = nullptr;
    bool fail(const char *m) { if (!err) err = m; return false; }
    bool at(const char *s) { size_t n = strlen(s); return (size_t)(e - p) >= n && !memcmp(p, s, n); }
    static bool sp(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
    void ws() { while (p < e && sp(*p)) p++; }
    static bool nameCh(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' || c == '-' || c == '.' || c == ':'; }
    bool name(std::string &o)
    {
        const char *s = p;
        while (p < e && nameCh(*p)) p++;
        if (p == s || (*s >= '0' && *s <= '9') || *s == '-' || *s == '.') return fail("name");
        o.assign(s, p - s);
        return true;
    }
    bool skipTo(const char *t)
    {
        while (p < e && !at(t)) p++;
        if (p >= e) return fail("unterminated");
        p += strlen(t);
        return true;
    }
    bool entity(std::string &o)
    {
        p++;
        if (p < e && *p == '#') {
            p++;
            unsigned v = 0;
            bool hex = p < e && *p == 'x';
            if (hex) p++;
            const char *s = p;
            while (p < e && *p != ';') {
                int d = *p >= '0' && *p <= '9' ? *p - '0' : hex && (*p | 32) >= 'a' && (*p | 32) <= 'f' ? (*p | 32) - 'a' + 10 : 99;
                if (d >= (hex ? 16 : 10)) return fail("charref");
                v = v * (hex ? 16 : 10) + d;
                p++;
            }
            if (p >= e || p == s) return fail("charref");
            p++;
            if (v < 32 && v != 9 && v != 10 && v != 13) return fail("charref value");
            if (v < 128) o += (char)v;
            else if (v < 0x800) { o += (char)(0xc0 | v >> 6); o += (char)(0x80 | (v & 63)); }
            else { o += (char)(0xe0 | v >> 12); o += (char)(0x80 | ((v >> 6) & 63)); o += (char)(0x80 | (v & 63)); }
            return true;
        }
        static const struct { const char *n; char c; } t[] = {{"lt;", '<'}, {"gt;", '>'}, {"amp;", '&'}, {"quot;", '"'}, {"apos;", '\''}};
        for (auto &x : t)
            if (at(x.n)) { p += strlen(x.n); o += x.c; return true; }
        return fail("entity");
    }
    // (the executor's token of a printed symbolic floating-point number: \1dddd\2)
    bool token() const
    {
        const char *t = *p == 2 ? p - 5 : p;
        if (e - t < 6 || t[0] != 1 || t[5] != 2) return false;
        for (int i = 1; i < 5; i++) if (t[i] < '0' || t[i] > '9') return false;
        return true;
    }
    bool valid(char c)
    {
        if (c == 1 || c == 2) return token();
        if ((unsigned char)c >= 0x80) pfs_unmodelled("non-ASCII XML input");
        return (unsigned char)c >= 32 || c == '\t' || c == '\n' || c == '\r';
    }
    bool misc()
    {
        while (true) {
            ws();
            if (at("<?")) { if (!skipTo("?>")) return false; }
            else if (at("<!--")) { if (!skipTo("-->")) return false; }
            else if (at("<!DOCTYPE")) { if (!skipTo(">")) return false; }
            else return true;
        }
    }
    bool element(xmlNodePtr n, int depth)
    {
        std::string nm;
        p++; // <
        if (depth > 250) return fail("depth");
        if (!name(nm)) return false;
        n->name = dupn(nm.data(), nm.size());
        while (true) {
            bool had = p < e && sp(*p);
            ws();
            if (p >= e) return fail("tag");
            if (at("/>")) { p += 2; return true; }
            if (*p == '>') { p++; break; }
            if (!had) return fail("attribute spacing");
            std::string an, av;
            if (!name(an)) return false;
            ws();
            if (p >= e || *p != '=') return fail("=");
            p++;
            ws();
            if (p >= e || (*p != '"' && *p != '\'')) return fail("quote");
            char q = *p++;
            while (p < e && *p != q) {
                if (*p == '<') return fail("< in attribute");
                if (*p == '&') { if (!entity(av)) return false; continue; }
                if (!valid(*p)) return fail("char");
                if (at("\r\n")) p++;
                av += sp(*p) ? ' ' : *p;
                p++;
            }
            if (p >= e) return fail("attribute end");
            p++;
            if (getAttr(n, (const X *)an.c_str())) return fail("duplicate attribute");
            addAttr(n, dupn(an.data(), an.size()), dupn(av.data(), av.size()));
        }
        std::string text;
        auto flush = [&] {
            if (text.empty()) return;
            xmlNodePtr t = mkNode(XML_TEXT_NODE);
            t->content = dupn(text.data(), text.size());
            t->name = dupn("text", 4);
            link(n, t);
            text.clear();
        };
        while (true) {
            if (p >= e) return fail("premature end");
            if (at("</")) {
                flush();
                p += 2;
                std::string en;
                if (!name(en)) return false;
                if (en != nm) return fail("mismatched end tag");
                ws();
                if (p >= e || *p != '>') return fail("end tag");
                p++;
                return true;
            }
            if (at("<!--")) {
                flush();
                p += 4;
                if (!skipTo("-->")) return false;
                xmlNodePtr c = mkNode(XML_COMMENT_NODE);
                c->name = dupn("comment", 7);
                c->content = dupn("", 0);
                link(n, c);
            } else if (at("<![CDATA[")) {
                flush();
                p += 9;
                const char *s = p;
                if (!skipTo("]]>")) return false;
                xmlNodePtr c = mkNode(XML_CDATA_SECTION_NODE);
                c->name = dupn("cdata", 5);
                c->content = dupn(s, p - 3 - s);
                link(n, c);
            } else if (at("<?")) {
                flush();
                if (!skipTo("?>")) return false;
            } else if (*p == '<') {
                flush();
                xmlNodePtr c = mkNode(XML_ELEMENT_NODE);
                link(n, c);
                if (!element(c, depth + 1)) return false;
            } else if (*p == '&') {
                if (!entity(text)) return false;
            } else {
                if (!valid(*p)) return fail("char");
                if (at("]]>")) return fail("]]>");
                if (*p == '\r') {
                    text += '\n';
                    p++;
                    if (p < e && *p == '\n') p++;
                } else
                    text += *p++;
            }
        }
    }
};
static xmlDocPtr parseMem(const char *b, size_t n)
{
    P ps;
    ps.p = b;
    ps.e = b + n;
    xmlDocPtr d = xmlNewDoc(BAD_CAST "1.0");
    bool ok = true;
    if (n && P::sp(*b)) { P t = ps; t.ws(); if (t.at("<?xml")) ok = false; }
    if (ok) ok = ps.misc();
    if (ok && (ps.p >= ps.e || *ps.p != '<')) ok = false;
    if (ok) {
        xmlNodePtr r = mkNode(XML_ELEMENT_NODE);
        link((xmlNodePtr)d, r);
        r->doc = d;
        ok = ps.element(r, 1);
    }
    if (ok) ok = ps.misc() && ps.p >= ps.e;
    if (!ok) {
        if (errFn) {
            xmlError er;
            memset(&er, 0, sizeof er);
            er.message = (char *)"xml error\n";
            er.file = (char *)"";
            errFn(errCtx, &er);
        }
        xmlFreeDoc(d);
        return nullptr;
    }
    return d;
}

// ---------------------------------------------------------------- dump
static void esc(std::string &o, const char *s, bool attr)
{
    for (; *s; s++) {
        char c = *s;
        if (c == '<') o += "&lt;";
        else if (c == '>') o += "&gt;";
        else if (c == '&') o += "&amp;";
        else if (c == '"' && attr) o += "&quot;";
        else if (c == '\n' && attr) o += "&#10;";
        else if (c == '\t' && attr) o += "&#9;";
        else if (c == '\r') o += "&#13;";
        else {
            if ((unsigned char)c >= 0x80) pfs_unmodelled("non-ASCII XML output");
            o += c;
        }
    }
}
static void dumpNode(std::string &o, xmlNodePtr n, int level, int format)
{
    if (n->type == XML_TEXT_NODE) { esc(o, (const char *)n->content, false); return; }
    if (n->type == XML_CDATA_SECTION_NODE) { o += "<![CDATA["; o += (const char *)n->content; o += "]]>"; return; }
    if (n->type == XML_COMMENT_NODE) { o += "<!--"; o += (const char *)n->content; o += "-->"; return; }
    int fm = format;
    for (xmlNodePtr c = n->children; c; c = c->next)
        if (c->type == XML_TEXT_NODE || c->type == XML_CDATA_SECTION_NODE) { fm = 0; break; }
    o += '<';
    o += (const char *)n->name;
    for (xmlAttrPtr a = n->properties; a; a = a->next) {
        o += ' ';
        o += (const char *)a->name;
        o += "=\"";
        esc(o, (const char *)a->children, true);
        o += '"';
    }
    if (!n->children) { o += "/>"; return; }
    o += '>';
    if (fm) o += '\n';
    for (xmlNodePtr c = n->children; c; c = c->next) {
        if (fm) o.append((level + 1) * 2, ' ');
        dumpNode(o, c, level + 1, fm);
        if (fm) o += '\n';
    }
    if (fm) o.append(level * 2, ' ');
    o += "</";
    o += (const char *)n->name;
    o += '>';
}

extern "C" {
xmlFreeFunc xmlFree = myFree;
xmlMallocFunc xmlMalloc = myAlloc;
void xmlInitParser() {}
void xmlCleanupParser() {}
void xmlSetStructuredErrorFunc(void *ctx, xmlStructuredErrorFunc f) { errCtx = ctx; errFn = f; }
xmlDocPtr xmlNewDoc(const xmlChar *)
{
    xmlDocPtr d = (xmlDocPtr)malloc(sizeof *d);
    memset(d, 0, sizeof *d);
    d->type = XML_DOCUMENT_NODE;
    d->doc = d;
    return d;
}
xmlNodePtr xmlNewNode(xmlNsPtr, const xmlChar *name)
{
    xmlNodePtr n = mkNode(XML_ELEMENT_NODE);
    n->name = dup(name);
    return n;
}
xmlNodePtr xmlDocGetRootElement(const xmlDoc *d)
{
    if (!d) return nullptr;
    xmlNodePtr c = d->children;
    while (c && c->type != XML_ELEMENT_NODE) c = c->next;
    return c;
}
xmlNodePtr xmlDocSetRootElement(xmlDocPtr d, xmlNodePtr n)
{
    link((xmlNodePtr)d, n);
    n->doc = d;
    return nullptr;
}
void xmlFreeDoc(xmlDocPtr d)
{
    if (!d) return;
    for (xmlNodePtr c = d->children; c;) {
        xmlNodePtr x = c->next;
        freeNode(c);
        c = x;
    }
    free(d);
}
xmlDocPtr xmlReadMemory(const char *b, int n, const char *, const char *, int) { return parseMem(b, n); }
xmlDocPtr xmlReadFile(const char *f, const char *, int)
{
    const char *p;
    size_t n;
    if (pfs_vfs_read(f, &p, &n)) {
        if (errFn) {
            xmlError er;
            memset(&er, 0, sizeof er);
            er.message = (char *)"failed to load external entity\n";
            er.file = (char *)"";
            errFn(errCtx, &er);
        }
        return nullptr;
    }
    return parseMem(p, n);
}
int xmlXIncludeProcess(xmlDocPtr) { return 0; }
xmlAttrPtr xmlHasProp(const xmlNode *n, const xmlChar *name) { return getAttr(n, name); }
xmlChar *xmlGetProp(const xmlNode *n, const xmlChar *name)
{
    xmlAttrPtr a = getAttr(n, name);
    return a ? dup((const X *)a->children) : nullptr;
}
static void content(std::string &o, const xmlNode *n)
{
    if (n->type == XML_TEXT_NODE || n->type == XML_CDATA_SECTION_NODE) { o += (const char *)n->content; return; }
    if (n->type == XML_COMMENT_NODE) return;
    for (xmlNodePtr c = n->children; c; c = c->next) content(o, c);
}
xmlChar *xmlNodeGetContent(const xmlNode *n)
{
    if (!n) return nullptr;
    if (n->type == XML_COMMENT_NODE) return dup(n->content);
    std::string o;
    content(o, n);
    return dupn(o.data(), o.size());
}
xmlAttrPtr xmlNewProp(xmlNodePtr n, const xmlChar *name, const xmlChar *v) { return addAttr(n, dup(name), v ? dup(v) : dupn("", 0)); }
xmlAttrPtr xmlSetProp(xmlNodePtr n, const xmlChar *name, const xmlChar *v)
{
    xmlAttrPtr a = getAttr(n, name);
    if (!a) return xmlNewProp(n, name, v);
    free(a->children);
    a->children = (xmlNodePtr)dup(v);
    return a;
}
xmlNodePtr xmlNewText(const xmlChar *c)
{
    xmlNodePtr n = mkNode(XML_TEXT_NODE);
    n->name = dupn("text", 4);
    n->content = dup(c);
    return n;
}
xmlNodePtr xmlAddChild(xmlNodePtr p, xmlNodePtr n)
{
    if (n->type == XML_TEXT_NODE && p->last && p->last->type == XML_TEXT_NODE) {
        std::string s = std::string((const char *)p->last->content) + (const char *)n->content;
        free(p->last->content);
        p->last->content = dupn(s.data(), s.size());
        freeNode(n);
        return p->last;
    }
    link(p, n);
    return n;
}
xmlNodePtr xmlNewChild(xmlNodePtr p, xmlNsPtr, const xmlChar *name, const xmlChar *c)
{
    xmlNodePtr n = xmlNewNode(nullptr, name);
    if (c) xmlAddChild(n, xmlNewText(c));
    link(p, n);
    return n;
}
void xmlDocDumpFormatMemoryEnc(xmlDocPtr d, xmlChar **out, int *size, const char *enc, int format)
{
    std::string o = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n";
    for (xmlNodePtr c = d->children; c; c = c->next) {
        dumpNode(o, c, 0, format);
        o += '\n';
    }
    *out = dupn(o.data(), o.size());
    *size = (int)o.size();
}
xmlChar *xmlPathToURI(const xmlChar *p) { return p ? dup(p) : nullptr; }
xmlChar *xmlBuildURI(const xmlChar *rel, const xmlChar *base)
{
    if (!rel || !base) return nullptr;
    const char *r = (const char *)rel, *b = (const char *)base;
    if (!*r) return dup(base);
    if (*r == '/') return dup(rel);
    const char *sl = strrchr(b, '/');
    std::string o;
    if (sl) o.assign(b, sl - b + 1);
    o += r;
    return dupn(o.data(), o.size());
}
xmlSchemaParserCtxtPtr xmlSchemaNewDocParserCtxt(xmlDocPtr) { pfs_unmodelled("XML schema validation"); return nullptr; }
xmlSchemaPtr xmlSchemaParse(xmlSchemaParserCtxtPtr) { return nullptr; }
void xmlSchemaFreeParserCtxt(xmlSchemaParserCtxtPtr) {}
xmlSchemaValidCtxtPtr xmlSchemaNewValidCtxt(xmlSchemaPtr) { return nullptr; }
void xmlSchemaFree(xmlSchemaPtr) {}
int xmlSchemaValidateDoc(xmlSchemaValidCtxtPtr, xmlDocPtr) { return 0; }
void xmlSchemaFreeValidCtxt(xmlSchemaValidCtxtPtr) {}
}
