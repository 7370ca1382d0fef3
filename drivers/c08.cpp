// A query finds exactly the indexed expressions that it unifies with: brute force over the corpus as the oracle.
#include "search.hpp"
static void ask(Corpus& c, const N& q, const std::string& desc);
static void round(uint64_t seed) {
    drv::Rng r(seed);
    Gen g{r};
    g.texts = 1 + r.below(4);
    g.names = 1 + r.below(3);
    int style = r.below(4);
    g.pvar = style == 1 ? 15 : 0; g.panon = style == 1 ? 10 : 0; g.prange = 0;
    g.maxar = 1 + r.below(3);
    std::vector<N> ds;
    int n = r.below(8) + (r.coin(10) ? 20 : 0);
    for (int i = 0; i < n; i++) ds.push_back(!ds.empty() && r.coin(25) ? generalise(r, ds[r.below(ds.size())], 0, 1, 0) : g.tree(1 + r.below(4)));
    Corpus c;
    std::string desc = drv::fmt("seed=%llu docs:", (unsigned long long)seed);
    for (auto& d : ds) { desc += " " + show(d); if (desc.size() > 3000) break; }
    drv::kase(desc, false);
    c.build(ds, r);
    for (int k = 0; k < 25; k++) {
        N q;
        if (ds.empty() || r.coin(10)) { Gen h{r}; h.pvar = 30; h.panon = 15; h.prange = 10; h.texts = g.texts; h.maxar = 2; h.pqkids = 10; q = h.tree(r.below(3)); }
        else q = generalise(r, anySub(r, ds[r.below(ds.size())]), 10 + r.below(60), 1 + r.below(3), 0);
        ask(c, q, desc);
    }
}
static void ask(Corpus& c, const N& q, const std::string& desc) {
    auto want = c.find(q);
    size_t hits = 0;
    std::vector<HitRef> wh;
    std::set<uint32_t> wi;
    for (auto f : want) { hits += f->hits.size(); wi.insert(f->id); wh.insert(wh.end(), f->hits.begin(), f->hits.end()); }
    std::sort(wh.begin(), wh.end());
    drv::kase(desc + " query: " + show(q), !want.empty());
    for (int img = 0; img < 2; img++) {
        auto a = c.run(q, img, true, true, 0, 1000000, 1000000);
        if (!a) { CHECK(want.empty(), "a query that matches is refused"); continue; }
        const char* w = img ? "image" : "memory";
        auto got = hitsOf(*a);
        std::sort(got.begin(), got.end());
        for (size_t i = 0; i < got.size(); i++) CHECK(i == 0 || !(got[i] == got[i - 1]), "%s: hit %s is returned twice", w, showHit(got[i]).c_str());
        for (auto& x : got) CHECK(std::binary_search(wh.begin(), wh.end(), x), "%s: hit %s does not unify with the query", w, showHit(x).c_str());
        for (auto& x : wh) CHECK(std::binary_search(got.begin(), got.end(), x), "%s: hit %s is missed", w, showHit(x).c_str());
        CHECK((size_t)a->total == hits, "%s: total %d, %zu hits exist", w, a->total, hits);
        CHECK(std::set<uint32_t>(a->ids.begin(), a->ids.end()) == wi, "%s: %zu formula ids returned, %zu formulas match", w, a->ids.size(), wi.size());
        auto b = c.run(q, img, false, true, 0, 1000000, 1000000);
        CHECK(b->answers.empty() && (size_t)b->total == want.size() && std::set<uint32_t>(b->ids.begin(), b->ids.end()) == wi, "%s: without hits, %zu ids and total %d instead of %zu", w, b->ids.size(), b->total, want.size());
    }
}
// many variables, many symbols, many children
static N sym(const std::string& t) { N n; n.tag = "ci"; n.text = t; return n; }
static N var(const std::string& nm) { N n; n.tag = "mws:qvar"; if (!nm.empty()) n.attrs.push_back({"name", nm}); return n; }
static void wide(uint64_t seed) {
    drv::Rng r(seed);
    std::vector<N> ds;
    int ar = 2 + r.below(38), nsym = r.coin(50) ? 3 + r.below(10) : 300 + r.below(700);
    std::vector<int> cls;       // arguments of the same class are equal in documents made to match
    int classes = 1 + r.below(std::min(ar, 31));
    for (int i = 0; i < ar; i++) cls.push_back(i < classes ? i : r.below(classes));
    for (int d = 0; d < 6; d++) {
        N n; n.tag = "apply";
        for (int i = 0; i < ar; i++) n.kids.push_back(sym("s" + std::to_string(d == 0 ? cls[i] : d == 1 ? 7 : d < 4 ? (cls[i] * 31 + d) % nsym : r.below(nsym))));
        if (d == 3) n.kids[r.below(ar)] = sym("odd");
        ds.push_back(n);
    }
    for (int i = 0; i < nsym; i++) { ds.push_back(sym("s" + std::to_string(i))); if (r.coin(20)) { N n; n.tag = "plus"; n.kids.push_back(ds.back()); ds.push_back(n); } }
    Corpus c;
    std::string desc = drv::fmt("seed=%llu wide: %d arguments, %d symbols, %d variables", (unsigned long long)seed, ar, nsym, classes);
    drv::kase(desc, false);
    c.build(ds, r);
    N q; q.tag = "apply";
    for (int i = 0; i < ar; i++) q.kids.push_back(var("v" + std::to_string(cls[i])));
    ask(c, q, desc);
    for (int k = 0; k < 3; k++) { N q2 = q; for (int j = 0; j < 1 + k; j++) q2.kids[r.below(ar)] = r.coin(50) ? var("") : sym("s" + std::to_string(r.below(nsym))); ask(c, q2, desc); }
    for (int k = 0; k < 8; k++) ask(c, sym("s" + std::to_string(r.below(nsym))), desc);
    N p; p.tag = "plus"; p.kids.push_back(var("x"));
    ask(c, p, desc);
    ask(c, var("x"), desc);
    for (int i = 0; i < nsym; i++) {
        auto a = c.run(sym("s" + std::to_string(i)), true, true, true, 0, 10, 10);
        CHECK(a && !a->answers.empty(), "%s: symbol s%d is missed in the image", desc.c_str(), i);
    }
}
int main(int argc, char** argv) {
    drv::init(argc, argv);
    for (uint64_t i = 0; drv::more(); i++) { if (i % 25 == 3) wide(drv::seed * 1000003 + i); else round(drv::seed * 1000003 + i); }
    return drv::finish("random corpora of Content MathML (also empty, also with variables in documents) and queries generalised from them (repeated, anonymous, root variables): the search against brute-force unification, in memory and on the image; non-trivial: something matches");
}
