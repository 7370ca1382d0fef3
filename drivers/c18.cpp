// Harvests made of XHTML and HTML documents (createHarvestFromDocument), against what the documents were generated from, and read back as a harvest.
#include "drv.hpp"
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <memory>
#include "crawler/parser/MathParser.hpp"
#include "crawler/parser/XmlParser.hpp"
#include "mws/xmlparser/processMwsHarvest.hpp"
#include "mws/types/CmmlToken.hpp"
using std::string;
using std::vector;
using crawler::parser::Harvest;
using crawler::parser::HarvesterConfiguration;
struct E { string tag, text; vector<std::pair<string, string>> attrs; vector<E> kids; };
struct Math { string id; bool named, content; E tree; int place; bool spaces; };       // place: its number in the text, 0 if it is not in it
static drv::Rng* R;
static bool html;          // not well-formed as XML
static string prefix;      // of the MathML elements
static bool spaced;        // whitespace was put between elements
static bool entities;      // a document type, and entities that it declares or does not
static string esc(const string& s) { string o; for (char c : s) o += c == '&' ? "&amp;" : c == '<' ? "&lt;" : c == '>' ? "&gt;" : c == '"' ? "&quot;" : string(1, c); return o; }
static string strip(const string& s) { string o; for (unsigned char c : s) if (!isspace(c)) o += c; return o; }
static string norm(const string& s) {
    string o;
    for (unsigned char c : s) { if (!isspace(c)) o += c; else if (!o.empty() && o.back() != ' ') o += ' '; }
    while (!o.empty() && o.back() == ' ') o.pop_back();
    return o;
}
static string word() {
    static const char* B[] = {"a", "Bc", "x1", "&", "<", ">", "\"", "'", "\xc3\xa9", "\xe2\x84\x9d", "]]>", "math1", "-", "#", ";", "&amp;"};
    string s;
    for (int n = 1 + R->below(4); n--;) s += B[R->below(16)];
    return s;
}
static E content(int depth) {
    static const char* T[] = {"apply", "plus", "times", "ci", "cn", "csymbol", "bind", "eq", "mws:qvar"};
    E e;
    e.tag = T[R->below(8)];
    for (auto a : {"id", "xref", "cd", "type"})
        if (R->coin(30)) e.attrs.push_back({a, word()});
    if (!html && R->coin(8)) e.attrs.push_back({"xlink:href", word()});
    if (depth && R->coin(70)) for (int n = R->below(4); n--;) e.kids.push_back(content(depth - 1));
    if (e.kids.empty() && R->coin(80)) e.text = word();
    return e;
}
static string xml(E& e, bool top) {
    string s = "<" + prefix + e.tag;
    for (auto& a : e.attrs) {
        s += " " + a.first + "=\"" + esc(a.second);
        if (entities && !html && R->coin(10)) { s += "&two;"; a.second += "22"; }
        s += "\"";
    }
    if (e.text.empty() && e.kids.empty() && R->coin(50)) return s + "/>";
    s += ">";
    if (R->coin(10)) s += "<!-- " + string(R->coin(50) ? "a" : "<b>") + " -->";
    s += esc(e.text);
    if (!e.text.empty() && entities && !html && R->coin(30)) {
        static const char* N[] = {"own", "alpha", "InvisibleTimes"};
        int k = R->below(3);
        s += string("&") + N[k] + ";";
        e.text += k == 0 ? "4<2" : string("&") + N[k] + ";";
    }
    for (auto& k : e.kids) { if (R->coin(20)) s += "\n  ", spaced = true; s += xml(k, false); }
    return s + "</" + prefix + e.tag + ">";
}
struct Doc { string s; vector<string> words; vector<Math> maths; string title; };
static void mathEl(Doc& d, bool inText) {
    static int n = 0;
    Math m;
    m.named = R->coin(85);
    m.id = (R->coin(20) ? word() : "m") + std::to_string(n++);
    if (!m.named) m.id.clear();
    m.content = R->coin(80);
    m.spaces = false;
    d.s += "<" + prefix + "math" + (m.named ? " id=\"" + esc(m.id) + "\"" : "") + (prefix.empty() && R->coin(60) ? " xmlns=\"http://www.w3.org/1998/Math/MathML\"" : "") + ">";
    d.s += "<" + prefix + "semantics><" + prefix + "mrow><" + prefix + "mi>x</" + prefix + "mi></" + prefix + "mrow>";
    if (m.content) {
        m.tree = content(R->below(4));
        spaced = false;
        d.s += "<" + prefix + "annotation-xml encoding=\"MathML-Content\">" + (R->coin(30) ? "\n" : "") + xml(m.tree, true);
        m.spaces = spaced;
        for (int n = R->coin(25) ? R->below(3) : 0; n--;) {       // more content than one: the first counts
            E other = content(R->below(2));
            if (R->coin(50)) d.s += "</" + prefix + "annotation-xml><" + prefix + "annotation-xml encoding=\"MathML-Content\">";
            d.s += xml(other, true);
        }
        d.s += "</" + prefix + "annotation-xml>";
    }
    if (R->coin(30)) d.s += "<" + prefix + "annotation encoding=\"application/x-tex\">x</" + prefix + "annotation>";
    d.s += "</" + prefix + "semantics></" + prefix + "math>";
    m.place = 0;
    if (m.named && inText) {
        m.place = 1;
        for (auto& o : d.maths) if (o.place) m.place++;
        d.words.push_back("math" + std::to_string(m.place));
    }
    d.maths.push_back(m);
}
static void block(Doc& d, int depth, bool inText) {
    for (int n = R->below(5); n--;) {
        int w = R->below(10);
        if (w < 4) {
            string t = word();
            d.s += (R->coin(30) ? " " : "") + esc(t) + " ";
            if (inText) d.words.push_back(t);
        } else if (w < 8) mathEl(d, inText);
        else if (depth) {
            string t = R->coin(50) ? "div" : "span";
            d.s += "<" + t + (R->coin(30) ? " class=\"c\"" : "") + ">";
            block(d, depth - 1, inText);
            d.s += "</" + t + ">";
            if (html && R->coin(40)) d.s += "<br>";
        }
    }
}
static Doc document(bool part) {
    Doc d;
    d.title = word();
    if (!html && R->coin(50)) d.s += "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n";
    if (html) d.s += "<!DOCTYPE html>";
    else if (entities) d.s += "<!DOCTYPE html PUBLIC \"-//W3C//DTD XHTML 1.1 plus MathML 2.0//EN\" \"http://www.w3.org/Math/DTD/mathml2/xhtml-math11-f.dtd\" [<!ENTITY own \"4&#38;#60;2\"><!ENTITY two \"22\">]>";
    d.s += "<html" + string(html ? "" : " xmlns=\"http://www.w3.org/1999/xhtml\" xmlns:xlink=\"http://www.w3.org/1999/xlink\"") + (prefix.empty() ? "" : " xmlns:m=\"http://www.w3.org/1998/Math/MathML\"") + "><head><title>" + esc(d.title) + "</title>" + (html ? "<meta name=a>" : "") + "</head><body>";
    if (!part) d.words.push_back(d.title);
    d.s += "<div>";
    block(d, 2, !part);
    d.s += "</div><div id=\"main\">";
    block(d, 3, true);
    d.s += "</div><div>";
    block(d, 1, !part);
    d.s += "</div></body></html>";
    return d;
}
static string text(xmlNode* n) { xmlChar* c = xmlNodeGetContent(n); string s = c ? (char*)c : ""; xmlFree(c); return s; }
static string att(xmlNode* n, const char* a) { xmlChar* c = xmlGetProp(n, BAD_CAST a); string s = c ? (char*)c : "(none)"; xmlFree(c); return s; }
static vector<xmlNode*> kids(xmlNode* n) { vector<xmlNode*> v; for (xmlNode* k = n->children; k; k = k->next) if (k->type == XML_ELEMENT_NODE) v.push_back(k); return v; }
static string show(const E& e) { string s = "<" + e.tag; for (auto& a : e.attrs) s += " " + a.first + "=" + a.second; s += ">" + e.text; for (auto& k : e.kids) s += show(k); return s + "</>"; }
static string plain(const string& s) { auto p = s.find(':'); return p == string::npos ? s : s.substr(p + 1); }
static E tree(xmlNode* n) {
    E e;
    e.tag = (const char*)n->name;
    for (xmlAttr* a = n->properties; a; a = a->next) e.attrs.push_back({plain((const char*)a->name), text((xmlNode*)a)});
    for (xmlNode* k = n->children; k; k = k->next) if (k->type == XML_TEXT_NODE || k->type == XML_CDATA_SECTION_NODE) e.text += (const char*)k->content;
    e.text = strip(e.text);
    for (auto k : kids(n)) e.kids.push_back(tree(k));
    return e;
}
static E cleaned(const E& e) {
    E o;
    o.tag = e.tag;
    o.text = strip(e.text);
    for (auto& a : e.attrs) if (a.first != "id" && a.first != "xref") o.attrs.push_back({plain(a.first), a.second});
    for (auto& k : e.kids) o.kids.push_back(cleaned(k));
    return o;
}
static E asis(const E& e) {
    E o;
    o.tag = e.tag;
    o.text = strip(e.text);
    for (auto& a : e.attrs) o.attrs.push_back({plain(a.first), a.second});
    for (auto& k : e.kids) o.kids.push_back(asis(k));
    return o;
}
static bool blanks(xmlNode* n) {
    for (xmlNode* k = n->children; k; k = k->next)
        if (k->type == XML_TEXT_NODE ? strip((const char*)k->content).empty() : blanks(k)) return true;
    return false;
}
static xmlNode* contentOf(xmlNode* n) {
    if (!strcmp((char*)n->name, "annotation-xml") && att(n, "encoding") == "MathML-Content" && !kids(n).empty()) return kids(n)[0];
    for (auto k : kids(n)) if (xmlNode* c = contentOf(k)) return c;
    return nullptr;
}
struct Loader : mws::parser::HarvestProcessor {
    vector<string> data;
    vector<std::pair<string, string>> got;
    int processExpression(const mws::types::CmmlToken* t, const string& uri, const uint32_t& id) { got.push_back({uri, id ? data[id - 1] : ""}); return 1; }
    mws::dbc::CrawlId processData(const string& s) { data.push_back(s); return data.size(); }
};
struct Quiet { static void on(void*, const char*, ...) {} };
static void round(uint64_t seed) {
    drv::Rng r(seed);
    R = &r;
    HarvesterConfiguration cfg;
    cfg.data_id = std::to_string(r.below(100));
    string head = "<?xml version=\"1.0\" ?>\n<mws:harvest xmlns:m=\"http://www.w3.org/1998/Math/MathML\"\n             xmlns:mws=\"http://search.mathweb.org/ns\">\n", all = head, desc = drv::fmt("seed=%llu:", (unsigned long long)seed);
    vector<std::pair<string, string>> want;
    vector<string> wantData;
    cfg.shouldSaveData = r.coin(70);
    bool part = r.coin(40), title = r.coin(50);
    cfg.textWithMathXpath = part ? "//*[@id='main']" : "/";
    if (title) cfg.documentIdXpath = "//*[local-name()='title']";
    if (r.coin(50)) cfg.metadataItems.push_back({"title", "//*[local-name()='title']"});
    if (r.coin(20)) cfg.metadataItems.push_back({"none", "//*[local-name()='unheard-of']"});
    for (int docs = 1 + r.below(3), k = 0; k < docs; k++) {
        html = r.coin(30);
        prefix = !html && r.coin(30) ? "m:" : "";
        entities = r.coin(25);
        Doc d = document(part);
        string path = drv::dir + "/doc" + (r.coin(20) ? "&\"<" : "") + std::to_string(k) + ".xhtml", id = title ? norm(d.title) : path;
        FILE* f = fopen(path.c_str(), "w");
        fwrite(d.s.data(), 1, d.s.size(), f);
        fclose(f);
        drv::kase(desc + " " + d.s, d.maths.size() > 0);
        cfg.data_id = std::to_string(k);
        Harvest h = crawler::parser::createHarvestFromDocument(path, cfg);
        remove(path.c_str());
        string mine = head + h.dataElement;
        for (auto& e : h.contentMathElements) mine += e, all += "";
        mine += "</mws:harvest>\n";
        all += h.dataElement;
        for (auto& e : h.contentMathElements) all += e;
        xmlDoc* x = xmlReadMemory(mine.data(), mine.size(), "", "UTF-8", XML_PARSE_NOERROR | XML_PARSE_NOWARNING);
        CHECK(x != nullptr, "the harvest is not well-formed XML: %.1500s", mine.c_str());
        auto es = kids(xmlDocGetRootElement(x));
        size_t at = 0;
        vector<int> nums;
        std::map<int, size_t> numOf;      // local id -> which math
        if (cfg.shouldSaveData) {
            CHECK(!es.empty() && !strcmp((char*)es[0]->name, "data") && att(es[0], "data_id") == cfg.data_id, "no data with the id of the document");
            auto ds = kids(es[at++]);
            CHECK(ds.size() >= 3 && text(ds[0]) == id, "the document's id is %s, not %s", text(ds[0]).c_str(), id.c_str());
            string words;
            for (auto& w : d.words) words += w + " ";
            CHECK(strip(text(ds[1])) == strip(words), "text %.400s, not %.400s", text(ds[1]).c_str(), words.c_str());
            for (auto& m : d.maths) if (m.place) CHECK((" " + norm(text(ds[1])) + " ").find(" math" + std::to_string(m.place) + " ") != string::npos, "math%d is no word of the text %.300s", m.place, text(ds[1]).c_str());
            auto ms = kids(ds[2]);
            CHECK(ms.size() == cfg.metadataItems.size(), "%zu metadata items", ms.size());
            for (size_t i = 0; i < ms.size(); i++) CHECK(cfg.metadataItems[i].name == (char*)ms[i]->name && text(ms[i]) == (cfg.metadataItems[i].name == "title" ? norm(d.title) : ""), "metadata item %s is %s", cfg.metadataItems[i].name.c_str(), text(ms[i]).c_str());
            size_t i = 3;
            std::set<string> locals;
            for (auto& m : d.maths) {
                if (!m.named || !m.content) continue;
                CHECK(i < ds.size() && !strcmp((char*)ds[i]->name, "math"), "a formula is missing in the data");
                string l = att(ds[i], "local_id");
                CHECK(locals.insert(l).second, "two formulae of the document are both called %s", l.c_str());
                if (m.place) CHECK(l == std::to_string(m.place), "the formula that the text calls math%d is called %s in the data", m.place, l.c_str());
                string src = text(ds[i]);
                xmlDoc* y = xmlReadMemory(src.data(), src.size(), "", "UTF-8", XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_RECOVER);
                CHECK(y && att(xmlDocGetRootElement(y), "id") == m.id, "another formula, %.300s, stands for #%s", src.c_str(), m.id.c_str());
                if (!entities && prefix.empty()) {
                    xmlNode* c = contentOf(xmlDocGetRootElement(y));
                    CHECK(c && show(tree(c)) == show(asis(m.tree)), "the content of #%s in the data is %s, not %s", m.id.c_str(), c ? show(tree(c)).c_str() : "", show(asis(m.tree)).c_str());
                    CHECK(m.spaces || !blanks(c), "whitespace between the elements of #%s in the data, which the document does not have", m.id.c_str());
                }
                xmlFreeDoc(y);
                i++;
                want.push_back({l, "data" + std::to_string(k)});
            }
            CHECK(i == ds.size(), "the data hold more formulae than the document");
            for (auto& m : d.maths) if (m.named && m.content) nums.push_back(0);
            size_t j = 3;
            for (auto& m : d.maths) {
                if (!m.named || !m.content) continue;
                CHECK(at < es.size() && att(es[at], "url") == att(ds[j], "local_id"), "the url of a formula is not its id in the data");
                CHECK(att(es[at], "data_id") == cfg.data_id, "a formula has data of another document");
                auto c = kids(es[at]);
                CHECK(c.size() == 1 && show(tree(c[0])) == show(cleaned(m.tree)), "formula #%s is %s, not %s", m.id.c_str(), c.size() ? show(tree(c[0])).c_str() : "", show(cleaned(m.tree)).c_str());
                CHECK(m.spaces || !blanks(c[0]), "whitespace between the elements of #%s, which the document does not have", m.id.c_str());
                at++; j++;
            }
        } else {
            CHECK(h.dataElement.empty(), "data although they are not to be saved");
            for (auto& m : d.maths) {
                if (!m.named || !m.content) continue;
                CHECK(at < es.size(), "a formula is missing");
                CHECK(att(es[at], "url") == id + "#" + m.id, "the url of a formula is %s, not %s#%s", att(es[at], "url").c_str(), id.c_str(), m.id.c_str());
                auto c = kids(es[at]);
                CHECK(c.size() == 1 && show(tree(c[0])) == show(cleaned(m.tree)), "formula #%s is %s, not %s", m.id.c_str(), c.size() ? show(tree(c[0])).c_str() : "", show(cleaned(m.tree)).c_str());
                CHECK(m.spaces || !blanks(c[0]), "whitespace between the elements of #%s, which the document does not have", m.id.c_str());
                want.push_back({id + "#" + m.id, ""});
                at++;
            }
        }
        CHECK(at == es.size(), "the harvest holds more formulae than the document");
        xmlFreeDoc(x);
        if (desc.size() < 3000) desc += " " + d.s;
    }
    all += "</mws:harvest>\n";
    string file = drv::dir + "/h.harvest";
    FILE* f = fopen(file.c_str(), "w");
    fwrite(all.data(), 1, all.size(), f);
    fclose(f);
    int fd = open(file.c_str(), O_RDONLY);
    Loader l;
    auto res = mws::parser::processHarvestFromFd(fd, &l, true);
    close(fd);
    CHECK(res.status == 0, "the harvest is not read to its end");
    CHECK(l.got.size() == want.size(), "%zu formulae are read from the harvest, not %zu", l.got.size(), want.size());
    for (size_t i = 0; i < want.size(); i++) {
        CHECK(l.got[i].first == want[i].first, "formula %zu is read with the url %s, not %s", i, l.got[i].first.c_str(), want[i].first.c_str());
        CHECK(l.got[i].second.empty() == want[i].second.empty(), "formula %zu is read with%s data", i, want[i].second.empty() ? "" : "out");
        if (!want[i].second.empty()) CHECK(l.got[i].second == l.data[atoi(want[i].second.c_str() + 4)], "formula %zu is read with the data of another document", i);
    }
}
int main(int argc, char** argv) {
    drv::init(argc, argv);
    xmlSetGenericErrorFunc(nullptr, &Quiet::on);
    for (uint64_t i = 0; drv::more(); i++) round(drv::seed * 1000003 + i);
    return drv::finish("random XHTML and HTML documents with formulae (with and without id and content, inside and outside of the text, with entities, prefixes, special characters) made into harvests with and without data, and read back");
}
