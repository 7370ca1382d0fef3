// Random XML documents with expressions, and an account of what they mean.
#ifndef VP_XMLDOC_HPP
#define VP_XMLDOC_HPP
#include "drv.hpp"
#include <string>
#include <vector>
#include <map>
#include "mws/types/CmmlToken.hpp"
using namespace mws;
using mws::types::CmmlToken;
static const char* const NAMES[] = {"id", "url", "mws:data_id", "name", "m:x", "xlink:href", "a.b", "xmlns:q", "xml:id"};
using std::string;
static drv::Rng* R;
static bool errors;                  // undefined entities (with a document type, so that they are no fatal errors)
static string esc(const string& s, bool attr) {
    string o;
    for (char c : s) o += c == '&' ? "&amp;" : c == '<' ? "&lt;" : c == '>' ? "&gt;" : c == '"' && attr ? "&quot;" : string(1, c);
    return o;
}
static string textEsc(const string& s) {           // the way data are written
    string o;
    for (char c : s) o += c == '&' ? "&amp;" : c == '<' ? "&lt;" : c == '>' ? "&gt;" : c == '"' ? "&quot;" : c == '\r' ? "&#13;" : string(1, c);
    return o;
}
static string attrEsc(const string& s) {
    string e = esc(s, true), o;
    for (size_t i = 0; i < e.size(); i++) if (e[i] == '\xC3') { o += "&#xE9;"; i++; } else o += e[i];
    return o;
}
typedef std::vector<std::pair<string, string>> AV;
struct Ev { int kind; string tree, uri, data; size_t end; bool bad; string did; };     // 0 expression, 1 data
struct Doc { string s; std::vector<Ev> ev; std::vector<size_t> opens; bool anyError = false; };
static string pick(std::initializer_list<const char*> l) { auto it = l.begin(); std::advance(it, R->below(l.size())); return *it; }
static string word(bool spaces) {
    static const char al[] = "abcxyz019.-+&<>\"'\xC3\xA9[]";
    string o;
    int n = R->coin(3) ? R->range(300, 9000) : R->below(9);
    for (int i = 0; i < n; i++) {
        char c = al[R->below(sizeof al - 1)];
        if (c == '\xA9') continue;
        if (c == '\xC3') { o += "\xC3\xA9"; continue; }
        if (spaces && R->coin(15)) c = " \n\t"[R->below(3)];
        o += c;
    }
    return o;
}
static bool blank(const string& s) { for (char c : s) if (!strchr(" \n\t\r", c)) return false; return true; }
static void put(Doc& d, const string& s) { d.s += s; }
static string attrs(const AV& av) {
    string o;
    for (auto& a : av) o += " " + a.first + (R->coin(20) ? " = " : "=") + (R->coin(30) && a.second.find('\'') == string::npos ? "'" + esc(a.second, true) + "'" : "\"" + esc(a.second, true) + "\"");
    return o;
}
static string strip(const string& s) { string o; for (char c : s) if (!strchr(" \n\t\r\v\f", c)) o += c; return o; }
// text as it stands in the document; t gets what it means
static string text(string& t) {
    string w = word(true), o;
    size_t i = 0;
    while (i < w.size()) {
        size_t n = std::min(w.size() - i, (size_t)R->range(1, 6));
        if (w.size() > 100) n = std::min(w.size() - i, (size_t)R->range(100, 4000));
        while (i + n < w.size() && ((unsigned char)w[i + n] & 0xC0) == 0x80) n++;
        string p = w.substr(i, n);
        i += n;
        t += p;
        if (R->coin(15) && p.find("]]>") == string::npos) { o += "<![CDATA[" + p + "]]>"; if (R->coin(20)) o += "<!-- no <text/> -->"; }
        else if (R->coin(10)) { t += "A"; o += esc(p, false) + (R->coin(50) ? "&#x41;" : "&#65;"); }
        else o += esc(p, false);
    }
    if (R->coin(5)) o += R->coin(50) ? "<?some thing?>" : "<!--x-->";
    return o;
}
static string tag() { return pick({"m:apply", "m:ci", "m:cn", "apply", "mws:qvar", "mws:expr", "mws:data", "mws:harvest", "m:", "m:m:x", "a", "mm:ci", "sem.x"}); }
static AV someAttrs() {
    AV r;
    std::map<string, int> seen;
    for (int n = R->coin(60) ? 0 : R->below(5); n > 0; n--) {
        string k = pick({"id", "url", "mws:data_id", "name", "m:x", "xlink:href", "a.b", "xmlns:q", "xml:id"});
        if (seen[k]++) continue;
        r.push_back({k, k == "xmlns:q" ? "http://q" : k == "xml:id" ? "i" + std::to_string(R->below(1000)) : strip(word(false)).substr(0, 20)});
        while (!r.back().second.empty() && ((unsigned char)r.back().second.back() >= 0x80)) r.back().second.pop_back();
    }
    return r;
}
// one element of an expression -> its account
static string tree(Doc& d, int depth, const string& xpath, bool& bad) {
    string t = tag(), content, kids, o;
    AV av = someAttrs();
    put(d, "<" + t + attrs(av));
    std::map<string, string> m(av.begin(), av.end());
    int nk = depth > 0 && R->coin(60) ? R->below(5) : 0;
    bool closed = !nk && R->coin(30);
    if (closed) put(d, "/>");
    else {
        put(d, ">");
        d.opens.push_back(d.s.size());
        int k = 0;
        for (int i = 0; i <= nk; i++) {
            if (R->coin(nk ? 25 : 70)) put(d, text(content));
            if (errors && R->coin(4)) { put(d, "&undefined;"); bad = true; }
            if (i < nk) kids += tree(d, depth - 1, xpath + "/*[" + std::to_string(++k) + "]", bad);
        }
        put(d, "</" + t + ">");
    }
    string loc = t.compare(0, 2, "m:") == 0 ? t.substr(2) : t;
    o = "(" + loc + "@" + xpath;
    for (auto a : NAMES) o += "{" + m[a] + "}";
    return o + "'" + strip(content) + "'" + kids + ")";
}
static string show(const CmmlToken* t) {
    string o = "(" + t->getTag() + "@" + t->getXpath();
    for (auto a : NAMES) o += "{" + t->getAttribute(a) + "}";
    o += "'" + t->getTextContent() + "'";
    for (auto* k : t->getChildNodes()) { CHECK(k->getParentNode() == t, "a child does not know its parent"); o += show(k); }
    return o + ")";
}
static void skipped(Doc& d, int depth, const string& t) {
    put(d, "<" + t + attrs(someAttrs()) + ">");
    d.opens.push_back(d.s.size());
    for (int n = R->below(4); n > 0; n--) {
        string x;
        if (R->coin(50)) put(d, text(x));
        if (errors && R->coin(5)) { put(d, "&undefined;"); d.anyError = true; }
        if (depth > 0) skipped(d, depth - 1, tag());
    }
    put(d, "</" + t + ">");
}
#endif
