// Result windows are exact slices of one fixed result list; the total is capped.
#include "search.hpp"
static unsigned pick(drv::Rng& r, unsigned n) {
    switch (r.below(8)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return n;
    case 3: return n + 1;
    case 4: return n ? n - 1 : 0;
    case 5: { static const unsigned B[] = {0xffffffffu, 0x80000000u, 0x7fffffffu, 0xfffffff0u, 1u << 16}; return B[r.below(5)]; }
    default: return r.below(n + 3);
    }
}
static void round(uint64_t seed) {
    drv::Rng r(seed);
    Gen g{r};
    g.texts = 1 + r.below(3); g.pvar = g.panon = g.prange = 0; g.maxar = 1 + r.below(3);
    std::vector<N> ds;
    int n = r.below(12) + (r.coin(20) ? 40 : 0);
    for (int i = 0; i < n; i++) ds.push_back(!ds.empty() && r.coin(50) ? ds[r.below(ds.size())] : g.tree(r.below(3)));
    std::string desc = drv::fmt("seed=%llu docs:", (unsigned long long)seed);
    for (auto& d : ds) { desc += " " + show(d); if (desc.size() > 2000) break; }
    drv::kase(desc, false);
    Corpus c;
    c.build(ds, r);
    std::map<HitRef, uint32_t> idOf;
    for (auto& p : c.all) for (auto& h : p.second.hits) idOf[h] = p.second.id;
    for (int k = 0; k < 6; k++) {
        N q;
        if (ds.empty() || r.coin(30)) q.tag = "mws:qvar";
        else q = generalise(r, anySub(r, ds[r.below(ds.size())]), 60, 2, 0);
        auto want = c.find(q);
        std::vector<HitRef> wh;
        for (auto f : want) wh.insert(wh.end(), f->hits.begin(), f->hits.end());
        std::sort(wh.begin(), wh.end());
        for (int img = 0; img < 2; img++) {
            auto full = c.run(q, img, true, true, 0, 1000000, 1000000);
            if (!full) continue;
            auto L = hitsOf(*full);
            auto s = L;
            std::sort(s.begin(), s.end());
            drv::kase(desc + " query: " + show(q), false);
            CHECK(s == wh, "the full window has %zu hits, %zu exist", s.size(), wh.size());
            for (int i = 0; i < 25; i++) {
                unsigned off = pick(r, L.size()), size = pick(r, L.size()), tot = r.coin(40) ? 1000000 : pick(r, L.size());
                drv::kase(desc + " query: " + show(q) + drv::fmt(" offset %u size %u max total %u (%zu hits, %s)", off, size, tot, L.size(), img ? "image" : "memory"), L.size() > 1);
                auto a = c.run(q, img, true, true, off, size, tot);
                size_t t = std::min<size_t>(L.size(), tot), b = std::min<size_t>(off, t), e = std::min<size_t>((size_t)off + size, t);
                std::vector<HitRef> ex(L.begin() + b, L.begin() + std::max(b, e)), got = hitsOf(*a);
                CHECK((unsigned)a->total == (unsigned)t, "total %d, expected %zu", a->total, t);
                CHECK(got.size() == ex.size(), "%zu results returned, the window holds %zu", got.size(), ex.size());
                for (size_t j = 0; j < ex.size(); j++) CHECK(got[j] == ex[j], "result %zu of the window is %s, number %zu of all results is %s", j, showHit(got[j]).c_str(), b + j, showHit(ex[j]).c_str());
                std::set<uint32_t> ids, gi(a->ids.begin(), a->ids.end());
                for (auto& x : ex) ids.insert(idOf[x]);
                CHECK(gi == ids, "%zu formula ids for a window over %zu formulas", gi.size(), ids.size());
                auto z = c.run(q, img, true, false, off, size, tot);
                CHECK(hitsOf(*z) == ex && z->ids.empty(), "without ids the window differs");
                // windows over formulas
                auto f = c.run(q, img, false, true, off, size, tot);
                size_t ft = std::min<size_t>(want.size(), tot), fb = std::min<size_t>(off, ft), fe = std::min<size_t>((size_t)off + size, ft);
                CHECK((unsigned)f->total == (unsigned)ft && f->ids.size() == (fe > fb ? fe - fb : 0), "without hits: total %d of %zu, %zu ids in a window of %zu", f->total, ft, f->ids.size(), fe > fb ? fe - fb : 0);
                for (auto x : f->ids) { bool in = false; for (auto w : want) in |= w->id == x; CHECK(in, "id %u does not match the query", x); }
            }
            // pages tile the list
            unsigned page = 1 + r.below(4);
            std::vector<HitRef> cat;
            std::set<uint32_t> fi;
            for (unsigned o = 0; o < L.size() + page; o += page) {
                auto a = c.run(q, img, true, false, o, page, 1000000);
                auto gh = hitsOf(*a);
                cat.insert(cat.end(), gh.begin(), gh.end());
                auto f = c.run(q, img, false, true, o, page, 1000000);
                for (auto x : f->ids) CHECK(fi.insert(x).second, "formula %u is on two pages", x);
            }
            CHECK(cat == L, "pages of %u do not tile the result list (%zu of %zu)", page, cat.size(), L.size());
            CHECK(fi.size() == want.size(), "pages of %u formulas give %zu of %zu", page, fi.size(), want.size());
        }
    }
}
int main(int argc, char** argv) {
    drv::init(argc, argv);
    for (uint64_t i = 0; drv::more(); i++) round(drv::seed * 1000003 + i);
    return drv::finish("random corpora with repeated expressions, random queries; every window (offset, size, max total, next to the number of hits and next to 2^31 and 2^32) against slices of the full list, pages against the full list; non-trivial: more than one hit");
}
