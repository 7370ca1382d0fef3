// Answer sets of every shape through the five response formatters; what they write is read back with libxml2 and json-c
// and compared with the answer set, field by field.
#include "xmldoc.hpp"
#include "cmml.hpp"
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <json-c/json.h>
#include <climits>
#include "mws/types/MwsAnswset.hpp"
#include "mws/types/SchemaAnswset.hpp"
#include "mws/xmlparser/MwsXmlResponseFormatter.hpp"
#include "mws/xmlparser/MwsJsonResponseFormatter.hpp"
#include "mws/xmlparser/MwsIdsResponseFormatter.hpp"
#include "mws/xmlparser/SchemaXmlResponseFormatter.hpp"
#include "mws/xmlparser/SchemaJsonResponseFormatter.hpp"
using namespace mws::parser;
using namespace mws::types;
static string txt(int big) {
    static const char* const U[] = {"&", "<", ">", "\"", "'", "]]>", "\xC3\xA9", "\xE2\x88\x91", "\xF0\x9D\x94\xB8", "\\", "/", "&amp;", "<!--", "a", "b", "xyz", "0", "{", "}", "#", "%s", "%", "=", "*[1]", " ", ";"};
    string o;
    int n = R->coin(10) ? 0 : R->coin(big) ? R->range(200, 6000) : R->below(12);
    for (int i = 0; i < n; i++) o += U[R->below(sizeof U / sizeof *U)];
    return o;
}
template <class F> static string written(F* f, const GenericAnswer& a, const char* what, const char* type) {
    char* buf = nullptr;
    size_t n = 0;
    FILE* o = open_memstream(&buf, &n);
    bool before = R->coin(30);
    if (before) fputs("before", o);
    int r = f->writeData(&a, o);
    fclose(o);
    string s(buf, n);
    free(buf);
    if (before) { CHECK(s.substr(0, 6) == "before", "%s: what was in the file is gone", what); s = s.substr(6); }
    CHECK(r >= 0 && (size_t)r == s.size(), "%s: returned %d but wrote %zu bytes", what, r, s.size());
    CHECK(string(f->getContentType()) == type, "%s: content type %s", what, f->getContentType());
    return s;
}
// XML
static xmlDocPtr readXml(const string& s, const char* what) {
    xmlDocPtr d = xmlReadMemory(s.data(), s.size(), nullptr, nullptr, XML_PARSE_NONET | XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_HUGE);
    CHECK(d, "%s: not a well-formed XML document:\n%.3000s", what, s.c_str());
    return d;
}
static string name(xmlNodePtr n) { return n->ns && n->ns->prefix ? string((const char*)n->ns->prefix) + ":" + (const char*)n->name : (const char*)n->name; }
static std::map<string, string> xattrs(xmlNodePtr n) {
    std::map<string, string> m;
    for (xmlAttrPtr a = n->properties; a; a = a->next) {
        xmlChar* v = xmlNodeListGetString(n->doc, a->children, 1);
        m[a->ns && a->ns->prefix ? string((const char*)a->ns->prefix) + ":" + (const char*)a->name : (const char*)a->name] = v ? (const char*)v : "";
        xmlFree(v);
    }
    return m;
}
static std::vector<xmlNodePtr> kids(xmlNodePtr n, string* text = nullptr) {
    std::vector<xmlNodePtr> v;
    for (xmlNodePtr k = n->children; k; k = k->next) {
        if (k->type == XML_ELEMENT_NODE) v.push_back(k);
        else if (k->type == XML_TEXT_NODE || k->type == XML_CDATA_SECTION_NODE) { if (text) *text += (const char*)k->content; }
        else CHECK(k->type == XML_COMMENT_NODE, "unexpected node of type %d", k->type);
    }
    return v;
}
typedef std::map<string, string> M;
static void node(xmlNodePtr n, const string& nm, const M& at, const char* what) {
    CHECK(name(n) == nm, "%s: element %s where %s should be", what, name(n).c_str(), nm.c_str());
    M got = xattrs(n);
    for (auto& p : at) {
        auto it = got.find(p.first);
        CHECK(it != got.end(), "%s: <%s> has no attribute %s", what, nm.c_str(), p.first.c_str());
        CHECK(it->second == p.second, "%s: <%s> %s is `%.500s', not `%.500s'", what, nm.c_str(), p.first.c_str(), it->second.c_str(), p.second.c_str());
    }
    CHECK(got.size() == at.size(), "%s: <%s> has %zu attributes, not %zu", what, nm.c_str(), got.size(), at.size());
}
static N treeOf(xmlNodePtr n, bool withAttrs, bool indented) {
    N r;
    r.tag = name(n);
    if (withAttrs) for (auto& p : xattrs(n)) r.attrs.push_back(p);
    for (auto k : kids(n, &r.text)) r.kids.push_back(treeOf(k, withAttrs, indented));
    if (indented) r.text = strip(r.text);
    return r;
}
static void sortAttrs(N& n, bool keep) {
    if (!keep) n.attrs.clear();
    std::map<string, string> m(n.attrs.begin(), n.attrs.end());
    n.attrs.assign(m.begin(), m.end());
    for (auto& k : n.kids) sortAttrs(k, keep);
}
static void mwsXml(const MwsAnswset& a) {
    string s = written(RESPONSE_FORMATTER_MWS_XML, a, "mws-xml", "application/xml");
    xmlDocPtr d = readXml(s, "mws-xml");
    xmlNodePtr root = xmlDocGetRootElement(d);
    node(root, "mws:answset", {{"size", std::to_string(a.answers.size())}, {"total", std::to_string(a.total)}}, "mws-xml");
    CHECK(root->ns && string((const char*)root->ns->href) == "http://www.mathweb.org/mws/ns", "mws-xml: wrong name space");
    auto an = kids(root);
    CHECK(an.size() == a.answers.size(), "mws-xml: %zu answers written, there are %zu", an.size(), a.answers.size());
    for (size_t i = 0; i < an.size(); i++) {
        const Answer& x = *a.answers[i];
        node(an[i], "mws:answ", {{"uri", x.uri}, {"xpath", x.xpath}}, "mws-xml");
        auto k = kids(an[i]);
        CHECK(k.size() == a.qvarNames.size() + 1, "mws-xml: answer %zu has %zu children for %zu variables", i, k.size(), a.qvarNames.size());
        for (size_t j = 0; j < a.qvarNames.size(); j++)
            node(k[j], "mws:substpair", {{"qvar", a.qvarNames[j]}, {"xpath", x.xpath + a.qvarXpaths[j]}}, "mws-xml");
        node(k.back(), "data", {}, "mws-xml");
        string t;
        CHECK(kids(k.back(), &t).empty() && t == x.data, "mws-xml: data of answer %zu: `%.700s', not `%.700s'", i, t.c_str(), x.data.c_str());
    }
    xmlFreeDoc(d);
}
static void schemaXml(const SchemaAnswset& a, const std::vector<N>& trees) {
    string s = written(RESPONSE_FORMATTER_SCHEMA_XML, a, "schema-xml", "application/xml");
    xmlDocPtr d = readXml(s, "schema-xml");
    xmlNodePtr root = xmlDocGetRootElement(d);
    node(root, "mws:schemata", {{"size", std::to_string(a.schemata.size())}, {"total", std::to_string(a.total)}}, "schema-xml");
    auto sc = kids(root);
    CHECK(sc.size() == a.schemata.size(), "schema-xml: %zu schemata written, there are %zu", sc.size(), a.schemata.size());
    for (size_t i = 0; i < sc.size(); i++) {
        node(sc[i], "mws:schema", {{"coverage", std::to_string(a.schemata[i].coverage)}}, "schema-xml");
        auto k = kids(sc[i]);
        CHECK(k.size() == 1, "schema-xml: schema %zu has %zu children", i, k.size());
        node(k[0], "math", {}, "schema-xml");
        auto m = kids(k[0]);
        CHECK(m.size() == 1, "schema-xml: schema %zu has %zu trees", i, m.size());
        N got = treeOf(m[0], false, false), want = trees[i];
        sortAttrs(want, false);
        CHECK(got == want, "schema-xml: tree %zu is\n%s\nnot\n%s", i, show(got).c_str(), show(want).c_str());
    }
    xmlFreeDoc(d);
}
// JSON
static json_object* readJson(const string& s, const char* what) {
    json_tokener* t = json_tokener_new_ex(32);
    json_object* o = json_tokener_parse_ex(t, s.data(), s.size());
    enum json_tokener_error e = json_tokener_get_error(t);
    size_t end = t->char_offset;
    json_tokener_free(t);
    CHECK(e == json_tokener_success && o, "%s: not a JSON text:\n%.3000s", what, s.c_str());
    CHECK(end == s.size(), "%s: more than one JSON value", what);
    return o;
}
static json_object* mem(json_object* o, const char* k, json_type t, const char* what) {
    CHECK(json_object_is_type(o, json_type_object), "%s: no object around %s", what, k);
    json_object* r = nullptr;
    CHECK(json_object_object_get_ex(o, k, &r), "%s: no member %s", what, k);
    CHECK(json_object_is_type(r, t), "%s: %s has type %s", what, k, json_type_to_name(json_object_get_type(r)));
    return r;
}
static void size(json_object* o, int n, const char* what) { CHECK(json_object_object_length(o) == n, "%s: an object with %d members, not %d", what, json_object_object_length(o), n); }
static void num(json_object* o, const char* k, int64_t v, const char* what) {
    int64_t g = json_object_get_int64(mem(o, k, json_type_int, what));
    CHECK(g == v, "%s: %s is %lld, not %lld", what, k, (long long)g, (long long)v);
}
static string strOf(json_object* j) { return string(json_object_get_string(j), json_object_get_string_len(j)); }
static void str(json_object* o, const char* k, const string& v, const char* what) {
    string g = strOf(mem(o, k, json_type_string, what));
    CHECK(g == v, "%s: %s is `%.700s', not `%.700s'", what, k, g.c_str(), v.c_str());
}
static void qvars(json_object* o, const MwsAnswset& a, const char* what) {
    json_object* q = mem(o, "qvars", json_type_array, what);
    CHECK((size_t)json_object_array_length(q) == a.qvarNames.size(), "%s: %d variables, not %zu", what, (int)json_object_array_length(q), a.qvarNames.size());
    for (size_t i = 0; i < a.qvarNames.size(); i++) {
        json_object* v = json_object_array_get_idx(q, i);
        str(v, "name", a.qvarNames[i], what);
        str(v, "xpath", a.qvarXpaths[i], what);
        size(v, 2, what);
    }
}
static void mwsJson(const MwsAnswset& a) {
    const char* w = "json";
    json_object* o = readJson(written(RESPONSE_FORMATTER_MWS_JSON, a, w, "application/json"), w);
    num(o, "total", a.total, w);
    num(o, "time", a.time, w);
    qvars(o, a, w);
    json_object* h = mem(o, "hits", json_type_array, w);
    CHECK((size_t)json_object_array_length(h) == a.answers.size(), "json: %d hits, there are %zu", (int)json_object_array_length(h), a.answers.size());
    for (size_t i = 0; i < a.answers.size(); i++) {
        json_object* x = json_object_array_get_idx(h, i), *m = mem(x, "math_ids", json_type_array, w);
        CHECK(json_object_array_length(m) == 1, "json: hit %zu has %d math ids", i, (int)json_object_array_length(m));
        str(json_object_array_get_idx(m, 0), "url", a.answers[i]->uri, w);
        str(json_object_array_get_idx(m, 0), "xpath", a.answers[i]->xpath, w);
        size(json_object_array_get_idx(m, 0), 2, w);
        str(x, "xhtml", a.answers[i]->data, w);
        size(x, 2, w);
    }
    size(o, 4, w);
    json_object_put(o);
}
static void mwsIds(const MwsAnswset& a) {
    const char* w = "mws-ids";
    json_object* o = readJson(written(RESPONSE_FORMATTER_MWS_IDS, a, w, "application/json"), w);
    num(o, "total", a.total, w);
    qvars(o, a, w);
    json_object* ids = mem(o, "ids", json_type_array, w);
    CHECK((size_t)json_object_array_length(ids) == a.ids.size(), "mws-ids: %d ids, there are %zu", (int)json_object_array_length(ids), a.ids.size());
    size_t i = 0;
    for (FormulaId f : a.ids) {
        json_object* j = json_object_array_get_idx(ids, i++);
        CHECK(json_object_is_type(j, json_type_int) && json_object_get_int64(j) == (int64_t)f, "mws-ids: id %lld, not %u", (long long)json_object_get_int64(j), f);
    }
    num(o, "size", a.ids.size(), w);
    size(o, 4, w);
    json_object_put(o);
}
static void schemaJson(const SchemaAnswset& a, const std::vector<N>& trees) {
    const char* w = "schema-json";
    json_object* o = readJson(written(RESPONSE_FORMATTER_SCHEMA_JSON, a, w, "application/json"), w);
    num(o, "total", a.total, w);
    num(o, "size", a.schemata.size(), w);
    json_object* sc = mem(o, "schemata", json_type_array, w);
    CHECK((size_t)json_object_array_length(sc) == a.schemata.size(), "schema-json: %d schemata, there are %zu", (int)json_object_array_length(sc), a.schemata.size());
    for (size_t i = 0; i < a.schemata.size(); i++) {
        const ExprSchema& e = a.schemata[i];
        json_object* x = json_object_array_get_idx(sc, i);
        num(x, "coverage", e.coverage, w);
        json_object* f = mem(x, "formulae", json_type_array, w), *s = mem(x, "subst", json_type_array, w);
        CHECK((size_t)json_object_array_length(f) == e.formulae.size(), "schema-json: %d formulae, not %zu", (int)json_object_array_length(f), e.formulae.size());
        for (size_t j = 0; j < e.formulae.size(); j++)
            CHECK(json_object_is_type(json_object_array_get_idx(f, j), json_type_int) && json_object_get_int64(json_object_array_get_idx(f, j)) == (int64_t)e.formulae[j], "schema-json: formula %lld, not %u", (long long)json_object_get_int64(json_object_array_get_idx(f, j)), e.formulae[j]);
        CHECK((size_t)json_object_array_length(s) == e.subst.size(), "schema-json: %d substitutions, not %zu", (int)json_object_array_length(s), e.subst.size());
        for (size_t j = 0; j < e.subst.size(); j++)
            CHECK(strOf(json_object_array_get_idx(s, j)) == e.subst[j], "schema-json: substitution `%s', not `%s'", strOf(json_object_array_get_idx(s, j)).c_str(), e.subst[j].c_str());
        size(x, 4, w);
        string t = strOf(mem(x, "cmmlSchema", json_type_string, w));
        string doc = "<x xmlns:mws=\"m\" xmlns:m=\"n\" xmlns:xlink=\"l\">" + t + "</x>";
        xmlDocPtr d = readXml(doc, "cmmlSchema");
        auto k = kids(xmlDocGetRootElement(d));
        CHECK(k.size() == 1, "cmmlSchema: %zu trees in `%.700s'", k.size(), t.c_str());
        N got = treeOf(k[0], true, true), want = trees[i];
        sortAttrs(want, true);
        CHECK(got == want, "cmmlSchema `%.2000s' stands for\n%s\nnot\n%s", t.c_str(), show(got).c_str(), show(want).c_str());
        xmlFreeDoc(d);
    }
    size(o, 3, w);
    json_object_put(o);
}
static void spice(N& n) {
    if (n.tag == "ci#") n.tag = "ci";
    static const char* const T[] = {"a<b", "a&b", "&amp;", "x>y", "\"q\"", "'", "\xE2\x88\x91", "]]>", "</ci>", "", "&#65;"};
    if (R->coin(30)) n.text = T[R->below(sizeof T / sizeof *T)];
    if (R->coin(15)) n.attrs.push_back({pick({"name", "low", "id", "xml:id", "xlink:href", "m:x"}), strip(txt(0))});
    std::map<string, string> m;
    for (auto& p : n.attrs) m[p.first] = p.first == "xml:id" ? "i" : p.second;
    n.attrs.assign(m.begin(), m.end());
    for (auto& k : n.kids) spice(k);
}
static uint32_t id() { static const uint32_t B[] = {0, 1, 2147483647u, 2147483648u, 4294967295u}; return R->coin(30) ? B[R->below(5)] : R->coin(50) ? R->next() : R->below(1000); }
int main(int argc, char** argv) {
    drv::init(argc, argv);
    drv::Rng rng(drv::seed);
    R = &rng;
    xmlInitParser();
    {
        drv::kase("answer sets as they are made");
        alignas(MwsAnswset) unsigned char mem[sizeof(MwsAnswset)];
        memset(mem, 0x5a, sizeof mem);
        MwsAnswset* a = new (mem) MwsAnswset();
        CHECK(a->total == 0 && a->time == 0 && a->answers.empty() && a->ids.empty() && a->qvarNames.empty(), "a new answer set has total %d, time %lld", a->total, (long long)a->time);
        mwsXml(*a); mwsJson(*a); mwsIds(*a);
        a->~MwsAnswset();
        SchemaAnswset s;
        CHECK(s.total == 0 && s.schemata.empty(), "a new schema answer set is not empty");
        schemaXml(s, {}); schemaJson(s, {});
    }
    while (drv::more()) {
        MwsAnswset a;
        a.total = R->coin(20) ? (R->coin(50) ? INT_MAX : 12000) : R->below(5000);
        a.time = R->below(R->coin(10) ? INT_MAX : 5000);
        int na = R->coin(5) ? R->range(30, 120) : R->below(5), nq = R->coin(5) ? R->range(10, 40) : R->below(4), ni = R->coin(5) ? R->range(50, 400) : R->below(5);
        string desc = drv::fmt("answers, total %d:", a.total);
        for (int i = 0; i < na; i++) { auto* x = new Answer; x->uri = txt(2); x->xpath = txt(1); x->data = txt(10); if (R->coin(20)) x->data += R->coin(50) ? "\n\r\t" : "\n"; desc += " `" + x->uri + "' `" + x->xpath + "' `" + x->data + "'"; a.answers.push_back(x); }
        for (int i = 0; i < nq; i++) { a.qvarNames.push_back(txt(1)); a.qvarXpaths.push_back(txt(1)); desc += " ?" + a.qvarNames[i] + " at " + a.qvarXpaths[i]; }
        for (int i = 0; i < ni; i++) { a.ids.insert(id()); }
        for (auto i : a.ids) desc += drv::fmt(" #%u", i);
        drv::kase(desc, na || nq || ni);
        mwsXml(a); mwsJson(a); mwsIds(a);
        if (R->coin(30) && na) {       // JSON texts carry control characters as well
            a.answers[0]->data += string("\x01\x08\x0c\x1f\x7f", 5); a.answers[0]->uri += "\x02\x1b";
            mwsJson(a);
        }
        SchemaAnswset s;
        std::vector<N> trees;
        s.total = R->coin(10) ? INT_MAX : R->below(5000);
        Gen g{*R};
        int ns = R->coin(5) ? R->range(20, 60) : R->below(4);
        desc = drv::fmt("schemata, total %d:", s.total);
        for (int i = 0; i < ns; i++) {
            N n = g.tree(R->below(5));
            spice(n);
            ExprSchema e;
            e.root = make(n).release();
            e.coverage = R->below(100);
            for (int j = R->below(6); j--;) { e.formulae.push_back(id()); desc += drv::fmt(" #%u", e.formulae.back()); }
            for (int j = R->below(4); j--;) { e.subst.push_back(txt(1)); desc += " " + e.subst.back(); }
            desc += show(n);
            s.schemata.push_back(e);
            trees.push_back(n);
        }
        drv::kase(desc, ns > 0);
        schemaXml(s, trees); schemaJson(s, trees);
        if (R->coin(50)) {             // texts with white space, which the printed tree does not lay out anew
            for (auto& e : s.schemata) e.root->appendTextContent(R->coin(50) ? " & < x\ty" : "");
            for (size_t i = 0; i < trees.size(); i++) trees[i].text = s.schemata[i].root->getTextContent();
            schemaXml(s, trees);
        }
    }
    return drv::finish("random answer sets and schema sets, written by each formatter and read back with libxml2 and json-c");
}
