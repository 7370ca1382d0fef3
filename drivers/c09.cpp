// Number ranges in queries match exactly the numbers between their bounds.
#include "search.hpp"
static std::string number(drv::Rng& r) {
    switch (r.below(7)) {
    case 0: return std::to_string(r.below(12));
    case 1: return "-" + std::to_string(r.below(12));
    case 2: return drv::fmt("%s%u.%u", r.coin(30) ? "-" : "", r.below(5), r.below(10));
    case 3: return drv::fmt("%ue%d", 1 + r.below(9), r.range(-3, 3));
    case 4: return r.coin(50) ? "1e300" : "-1e300";
    case 5: return r.coin(50) ? "0.0001" : "-0.0001";
    default: return r.coin(50) ? "0" : "007";
    }
}
static N leaf(drv::Rng& r) {
    N n;
    int k = r.below(10);
    if (k < 7) { n.tag = "cn"; n.text = number(r); }
    else if (k == 7) { n.tag = "cn"; n.text = r.coin(50) ? "abc" : ""; }
    else if (k == 8) { n.tag = r.coin(50) ? "ci" : "cn2"; n.text = number(r); }
    else { n.tag = "cn"; n.text = number(r); N c; c.tag = "sep"; n.kids.push_back(c); }
    return n;
}
static N range(drv::Rng& r) {
    N v;
    v.tag = "mws:range";
    if (r.coin(65)) v.attrs.push_back({"low", r.coin(5) ? "x" : number(r)});
    if (r.coin(65)) v.attrs.push_back({"high", r.coin(5) ? "" : number(r)});
    return v;
}
static N tree(drv::Rng& r, int depth, int ops) {
    if (depth == 0 || r.coin(25)) return leaf(r);
    N n;
    n.tag = "op" + std::to_string(r.below(ops));
    for (int i = 1 + r.below(3); i--;) n.kids.push_back(tree(r, depth - 1, ops));
    return n;
}
static N query(drv::Rng& r, const N& n) {
    if (n.tag == "cn" && r.coin(60)) return range(r);
    if (r.coin(8)) return range(r);
    if (r.coin(12)) { N v; v.tag = "mws:qvar"; if (r.coin(70)) v.attrs.push_back({"name", "q" + std::to_string(r.below(2))}); return v; }
    N m = n;
    for (auto& k : m.kids) k = query(r, k);
    return m;
}
static void round(uint64_t seed) {
    drv::Rng r(seed);
    std::vector<N> ds;
    int n = r.below(10) + (r.coin(10) ? 30 : 0), ops = 1 + r.below(2), depth = 1 + r.below(2);
    for (int i = 0; i < n; i++) ds.push_back(tree(r, depth, ops));
    std::string desc = drv::fmt("seed=%llu docs:", (unsigned long long)seed);
    for (auto& d : ds) { desc += " " + show(d); if (desc.size() > 2000) break; }
    drv::kase(desc, false);
    Corpus c;
    c.build(ds, r);
    for (int k = 0; k < 25; k++) {
        N q = ds.empty() || r.coin(10) ? range(r) : query(r, anySub(r, ds[r.below(ds.size())]));
        auto want = c.find(q);
        std::vector<HitRef> wh;
        for (auto f : want) wh.insert(wh.end(), f->hits.begin(), f->hits.end());
        std::sort(wh.begin(), wh.end());
        drv::kase(desc + " query: " + show(q), !want.empty());
        for (int img = 0; img < 2; img++) {
            auto a = c.run(q, img, true, true, 0, 1000000, 1000000);
            if (!a) { CHECK(want.empty(), "a query that matches is refused"); continue; }
            auto got = hitsOf(*a);
            std::sort(got.begin(), got.end());
            for (auto& x : got) CHECK(std::binary_search(wh.begin(), wh.end(), x), "hit %s does not match the query", showHit(x).c_str());
            for (auto& x : wh) CHECK(std::binary_search(got.begin(), got.end(), x), "hit %s is missed", showHit(x).c_str());
            CHECK(got == wh && (size_t)a->total == wh.size(), "%zu results, total %d, %zu hits exist", got.size(), a->total, wh.size());
        }
    }
}
static void bounds() {
    drv::Rng r(drv::seed);
    for (int i = 0; i < 300; i++) {
        N v = range(r);
        drv::kase("bounds of " + show(v));
        auto b = make(v)->getRangeBounds();
        double lo = bound(v, "low", -DBL_MAX), hi = bound(v, "high", DBL_MAX);
        CHECK(b.first == lo && b.second == hi, "bounds are %g and %g instead of %g and %g", b.first, b.second, lo, hi);
    }
}
int main(int argc, char** argv) {
    drv::init(argc, argv);
    bounds();
    for (uint64_t i = 0; drv::more(); i++) round(drv::seed * 1000003 + i);
    return drv::finish("random corpora of numbers (negative, decimal, exponents, no numbers, numbers with children) in small terms and queries with one or more ranges (bounds missing, invalid, inverted) and variables; non-trivial: something matches");
}
