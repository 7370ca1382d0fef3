// Schema queries through SchemaQueryHandler, against an independent account: every formula cut off at its depth, formulae with the
// same remainder in one schema, the largest first, and the references of what was cut off of the first formula of each.
#include "cmml.hpp"
#include "mws/types/Query.hpp"
#include "mws/types/SchemaAnswset.hpp"
#define protected public
#include "mws/daemon/SchemaQueryHandler.hpp"
#undef protected
using namespace mws;
using namespace mws::types;
using std::string;
static drv::Rng* R;
struct Cut { string shown, key; int nq = 0; };
static const string& attr(const N& n, const char* a) { static const string none; for (auto& p : n.attrs) if (p.first == a) return p.second; return none; }
struct Enc {                       // how the leaves of one formula are written
    std::map<string, int> names;
    int anon = 0, range = 0;
    bool rename;
    std::map<string, string>* ren;
    std::pair<string, string> of(const N& n, const N* parent, size_t at) {
        if (n.var()) {
            string nm = n.name();
            if (nm.empty()) return {"anonymous_hvar", std::to_string(anon++)};
            if (!names.count(nm)) names[nm] = names.size() + 1;
            return {"hvar", std::to_string(names[nm])};
        }
        if (n.range()) return {"range", std::to_string(range++)};
        if (rename && n.tag == "ci" && n.text.size() <= 1 && !(parent && parent->tag == "apply" && at == 0)) {
            if (!ren->count(n.meaning())) { string id = "~" + std::to_string(ren->size() + 1); (*ren)[n.meaning()] = id; }
            return {"ci", (*ren)[n.meaning()]};
        }
        return {n.tag, n.tag == "mtext" ? "" : n.text};
    }
};
static bool applyish(const string& tag) { return tag.compare(0, 5, "apply") == 0; }
static size_t depthOf(const N& n) { size_t d = 0; for (auto& k : n.kids) d = std::max(d, depthOf(k) + 1); return d; }
static const N* solid(const N& n) { return n.var() || n.range() ? nullptr : &n; }
// what is encoded of the formula: names are given to everything, kept or not
struct Tok { string tag, text; std::vector<Tok> kids; };
static Tok encode(const N& n, Enc& e, const N* parent = nullptr, size_t at = 0) {
    Tok t;
    auto m = e.of(n, parent, at);
    t.tag = m.first; t.text = m.second;
    if (auto* s = solid(n)) for (size_t i = 0; i < s->kids.size(); i++) t.kids.push_back(encode(s->kids[i], e, s, i));
    return t;
}
static string var(int& q) { return "<mws:qvar>x" + std::to_string(++q) + "</>"; }
static string cut(const Tok& t, uint64_t level, uint64_t depth, int& q) {
    string o = "<" + t.tag + ">" + t.text;
    for (size_t i = 0; i < t.kids.size(); i++)
        o += level + 1 < depth || (i == 0 && applyish(t.tag)) ? cut(t.kids[i], level + 1, depth, q) : var(q);
    return o + "</>";
}
static string shown(const CmmlToken* t) {
    string o = "<" + t->getTag() + ">" + t->getTextContent();
    for (auto* k : t->getChildNodes()) { CHECK(k->getParentNode() == t, "a child does not know its parent"); o += shown(k); }
    return o + "</>";
}
// references of what the schema leaves open; nothing below the first child of an apply is reported
static void refs(const N& n, uint64_t level, uint64_t depth, std::vector<string>& out) {
    auto* s = solid(n);
    if (!s) return;
    for (size_t i = 0; i < s->kids.size(); i++) {
        if (n.tag == "apply" && i == 0) continue;
        const N& k = s->kids[i];
        if (level + 1 < depth || (i == 0 && applyish(n.tag))) refs(k, level + 1, depth, out);
        else if (!attr(k, "xref").empty()) out.push_back(attr(k, "xref"));
    }
}
static void label(N& n, int& c, int pct) {
    if (R->coin(pct)) n.attrs.push_back({"xref", "#p" + std::to_string(c++)});
    if (n.tag == "ci#") n.tag = "ci";
    if (n.tag == "bind" && R->coin(30)) n.tag = "apply_to";
    for (auto& k : n.kids) label(k, c, pct);
}
static bool wide(const N& n) {
    std::set<string> nm; int an = 0, ra = 0; bool bad = false;
    std::function<void(const N&)> f = [&](const N& x) {
        if (x.var()) { if (x.name().empty()) an++; else nm.insert(x.name()); return; }
        if (x.range()) { ra++; return; }
        if (x.kids.size() > 255) bad = true;
        for (auto& k : x.kids) f(k);
    };
    f(n);
    return bad || nm.size() > 31 || an > 32 || ra > 32;
}
static void ask(const std::vector<N>& f, char mode, uint32_t depth, uint32_t max, bool rename) {
    string d = drv::fmt("mode %c depth %u at most %u%s:", mode, depth, max, rename ? " renaming" : "");
    for (auto& n : f) { d += " " + show(n); if (d.size() > 6000) break; }
    drv::kase(d, f.size() > 1);
    // the account
    std::map<string, string> ren;
    std::map<string, std::vector<uint32_t>> groups;
    std::vector<uint64_t> cutoff(f.size());
    for (size_t i = 0; i < f.size(); i++) {
        cutoff[i] = mode == 'R' ? (uint64_t)depth * depthOf(f[i]) / 100 : depth;
        if (wide(f[i])) {                 // may have named identifiers before it failed
            CHECK(!rename, "the driver does not rename in formulae that cannot be encoded");
            continue;
        }
        Enc e{};
        e.rename = rename; e.ren = &ren;
        Tok t = encode(f[i], e);
        int q = 0;
        groups[cutoff[i] ? cut(t, 0, cutoff[i], q) : "<mws:qvar>x0</>"].push_back(i);
    }
    std::vector<size_t> sizes;
    for (auto& g : groups) sizes.push_back(g.second.size());
    std::sort(sizes.rbegin(), sizes.rend());
    if (max && sizes.size() > max) sizes.resize(max);
    // the answer
    Query query;
    query.attrResultMaxSize = max;
    query.max_depth = depth;
    query.cutoff_mode = mode;
    for (auto& n : f) query.tokens.push_back(make(n).release());
    index::ExpressionEncoder::Config conf;
    conf.renameCi = rename;
    daemon::SchemaQueryHandler h(conf);
    std::unique_ptr<GenericAnswer> ga(h.handleQuery(&query));
    auto* a = dynamic_cast<SchemaAnswset*>(ga.get());
    CHECK(a, "no answer");
    CHECK(a->total == (int)groups.size(), "total %d, there are %zu schemata", a->total, groups.size());
    CHECK(a->schemata.size() == sizes.size(), "%zu schemata answered, not %zu", a->schemata.size(), sizes.size());
    std::set<string> seen;
    for (size_t i = 0; i < a->schemata.size(); i++) {
        const ExprSchema& s = a->schemata[i];
        string t = shown(s.root);
        CHECK(s.root->isRoot(), "the tree of a schema is not whole");
        CHECK(seen.insert(t).second, "schema %s is there twice", t.c_str());
        auto it = groups.find(t);
        CHECK(it != groups.end(), "no formula has the schema %.3000s", t.c_str());
        string l;
        for (auto x : s.formulae) l += " " + std::to_string(x);
        CHECK(s.formulae == it->second, "schema %.1000s has the formulae%s; there are %zu, the first %u", t.c_str(), l.c_str(), it->second.size(), it->second[0]);
        CHECK(s.coverage == s.formulae.size(), "coverage %zu of %zu formulae", s.coverage, s.formulae.size());
        CHECK(s.coverage == sizes[i], "schema %zu has coverage %zu, not %zu", i, s.coverage, sizes[i]);
        std::vector<string> want;
        uint32_t r = it->second[0];
        if (cutoff[r]) refs(f[r], 0, cutoff[r], want);
        else if (!attr(f[r], "xref").empty()) want.push_back(attr(f[r], "xref"));
        string g, w;
        for (auto& x : s.subst) g += " " + x;
        for (auto& x : want) w += " " + x;
        CHECK(s.subst == want, "schema %.1500s of formula %u has the substitutions%s, not%s", t.c_str(), r, g.c_str(), w.c_str());
    }
}
static N leaf(const char* tag, const char* text = "") { N n; n.tag = tag; n.text = text; return n; }
static N node(const char* tag, std::vector<N> k) { N n; n.tag = tag; n.kids = k; return n; }
static N chain(int n, const char* end) { N t = leaf("ci", end); while (n--) { N u; u.tag = "f"; u.kids.push_back(std::move(t)); t = std::move(u); } return t; }
int main(int argc, char** argv) {
    drv::init(argc, argv);
    drv::Rng rng(drv::seed);
    R = &rng;
    {   // the same tokens kept at different depths are different schemata
        N q = leaf("q"), deep = node("q", {node("q", {q})});
        N A = node("a", {node("b", {node("c", {q})}), node("X", {node("y", {q}), leaf("z")})});
        N B = node("a", {node("b", {node("c", {node("X", {q, q})})}), node("y", {leaf("z")})});
        ask({A, B}, 'R', 100, 0, false);
        ask({B, A, A}, 'R', 75, 0, false);
        ask({chain(300, "x"), chain(300, "y"), chain(300, "x")}, 'R', 100, 0, false);
        ask({chain(300, "x"), chain(300, "y"), chain(300, "x")}, 'R', 50, 0, false);
        ask({chain(300, "x"), chain(300, "y"), chain(300, "x")}, 'A', 300, 0, false);
        ask({chain(300, "x"), chain(300, "y"), chain(300, "x")}, 'A', 301, 0, false);
        ask({chain(3, "x"), chain(3, "y")}, 'R', 4294967295u, 0, false);
        std::vector<N> w(256, leaf("ci", "x"));
        ask({node("f", w), chain(2, "x"), chain(2, "y"), node("g", w), chain(2, "x")}, 'A', 5, 0, false);
        ask({}, 'A', 3, 0, false);
        for (int k : {127, 128, 200, 255}) { std::vector<N> u(k, leaf("ci", "x")); for (int d = 1; d < 5; d++) ask({node("f", {node("h", {node("g", u)}), q, q}), node("f", {node("g", u), q, q})}, 'A', d, 0, false); }
        (void)deep;
    }
    while (drv::more()) {
        Gen g{*R};
        g.texts = R->range(1, 4);
        g.maxar = R->range(1, 4);
        g.pvar = R->coin(50) ? 10 : 0;
        g.panon = R->coin(50) ? 5 : 0;
        g.pqkids = R->coin(10) ? 30 : 0;
        bool rename = R->coin(25);
        std::vector<N> f;
        int nf = R->coin(10) ? R->range(20, 60) : R->range(1, 9), dep = R->range(0, 5), c = 0, pct = R->coin(80) ? 90 : 30;
        for (int i = 0; i < nf; i++) {
            if (i && R->coin(40)) { N n = f[R->below(i)]; if (R->coin(60)) { N* p = &n; while (!p->kids.empty() && R->coin(80)) p = &p->kids[R->below(p->kids.size())]; *p = g.tree(R->below(3)); } f.push_back(n); }
            else if (R->coin(5)) f.push_back(chain(R->range(1, 20), R->coin(50) ? "x" : "y"));
            else f.push_back(g.tree(dep));
            if (R->coin(4)) { N* p = &f.back(); while (!p->kids.empty() && R->coin(80)) p = &p->kids[R->below(p->kids.size())]; N n = leaf("set"); for (int k = R->range(1, 250); k--;) n.kids.push_back(leaf("ci", "x")); *p = n; }
            if (!rename && R->coin(3)) { N n = leaf("set"); for (int k = R->range(250, 260); k--;) n.kids.push_back(leaf("ci", "x")); f.back() = n; }
        }
        for (auto& n : f) label(n, c, pct);
        if (rename) { bool bad = false; for (auto& n : f) bad |= wide(n); if (bad) rename = false; }
        char mode = R->coin(45) ? 'A' : R->coin(80) ? 'R' : "Xar"[R->below(3)];
        uint32_t depth = mode == 'R' ? (R->coin(20) ? 100 : R->coin(50) ? R->below(101) : R->below(400)) : R->coin(10) ? R->range(5, 300) : R->below(5);
        ask(f, mode, depth, R->coin(50) ? 0 : R->range(1, 6), rename);
    }
    return drv::finish("random sets of formulae with common parts, absolute and relative depths, through the schema query handler");
}
