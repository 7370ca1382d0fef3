// A corpus indexed by the real code, next to a brute-force account of what it contains and of what a query should find.
#ifndef VP_SEARCH_HPP
#define VP_SEARCH_HPP
#include <cmath>
#include <cfloat>
#include "cmml.hpp"
#include "mws/index/TmpIndex.hpp"
#include "mws/index/TmpIndexAccessor.hpp"
#include "mws/index/IndexAccessor.hpp"
#include "mws/index/IndexBuilder.hpp"
#include "mws/index/memsector.h"
#include "mws/dbc/MemCrawlDb.hpp"
#include "mws/dbc/MemFormulaDb.hpp"
#include "mws/dbc/DbQueryManager.hpp"
#include "mws/query/SearchContext.hpp"
struct Tok { std::string m; size_t ar; bool cn; std::string text; };
// an expression as the index sees it: preorder, variables numbered
inline void tokens(const N& n, std::vector<Tok>& o, std::map<std::string, int>& names, int& anon, int& rng) {
    if (n.var()) {
        if (n.name().empty()) o.push_back({"?a" + std::to_string(anon++), 0, false, ""});
        else o.push_back({"?" + std::to_string(names.insert({n.name(), (int)names.size()}).first->second), 0, false, ""});
        return;
    }
    if (n.range()) { o.push_back({"?r" + std::to_string(rng++), 0, false, ""}); return; }
    o.push_back({n.meaning(), n.kids.size(), n.tag == "cn", n.text});
    for (auto& k : n.kids) tokens(k, o, names, anon, rng);
}
inline std::vector<Tok> tokens(const N& n) { std::vector<Tok> o; std::map<std::string, int> m; int a = 0, r = 0; tokens(n, o, m, a, r); return o; }
inline std::string keyOf(const std::vector<Tok>& t, size_t a, size_t b) { std::string s; for (; a < b; a++) s += t[a].m + "\1" + std::to_string(t[a].ar) + "\2"; return s; }
inline size_t skip(const std::vector<Tok>& t, size_t at) { size_t open = 1; while (open) open += t[at++].ar - 1; return at; }
inline double bound(const N& n, const char* which, double dflt) {
    for (auto& a : n.attrs) if (a.first == which) { char* e; double v = strtod(a.second.c_str(), &e); return e == a.second.c_str() ? dflt : v; }
    return dflt;
}
inline bool matches(const N& q, const std::vector<Tok>& d, size_t& at, std::map<std::string, std::string>& sub) {
    if (at >= d.size()) return false;
    if (q.var()) {
        size_t e = skip(d, at);
        std::string k = keyOf(d, at, e);
        at = e;
        if (q.name().empty()) return true;
        auto it = sub.insert({q.name(), k});
        return it.first->second == k;
    }
    if (q.range()) {
        const Tok& t = d[at++];
        if (!t.cn || t.ar) return false;
        char* e;
        double v = strtod(t.text.c_str(), &e);
        if (e == t.text.c_str() || std::isnan(v) || std::isinf(v)) return false;
        return bound(q, "low", -DBL_MAX) <= v && v <= bound(q, "high", DBL_MAX);
    }
    const Tok& t = d[at];
    if (t.m != q.meaning() || t.ar != q.kids.size()) return false;
    at++;
    for (auto& k : q.kids) if (!matches(k, d, at, sub)) return false;
    return true;
}
struct HitRef { std::string uri, xpath, data; bool operator<(const HitRef& o) const { return std::tie(uri, xpath, data) < std::tie(o.uri, o.xpath, o.data); } bool operator==(const HitRef& o) const { return uri == o.uri && xpath == o.xpath && data == o.data; } };
inline std::string showHit(const HitRef& h) { return "(" + h.uri + "," + h.xpath + "," + h.data + ")"; }
struct Formula { std::vector<Tok> t; std::vector<HitRef> hits; uint32_t id; };
struct Corpus {
    mws::dbc::MemCrawlDb crawl;
    mws::dbc::MemFormulaDb fdb;
    mws::dbc::DbQueryManager dbq;
    mws::index::TmpIndex ix;
    mws::index::MeaningDictionary dict;
    std::map<std::string, Formula> all;
    std::vector<N> docs;
    memsector_handle_t mh;
    index_handle_t h;
    bool image = false;
    Corpus() : dbq(&crawl, &fdb) {}
    static void subs(const N& n, const std::string& xp, std::vector<std::pair<const N*, std::string>>& o) {
        o.push_back({&n, xp});
        for (size_t i = 0; i < n.kids.size(); i++) subs(n.kids[i], xp + "/*[" + std::to_string(i + 1) + "]", o);
    }
    void build(const std::vector<N>& ds, drv::Rng& r) {
        docs = ds;
        mws::index::IndexBuilder b(&fdb, &crawl, &ix, &dict);
        uint32_t cid = 0;
        std::string data;
        for (size_t i = 0; i < ds.size(); i++) {
            if (r.coin(40)) { data = "doc " + std::to_string(i); cid = b.indexCrawlData(data); }
            std::string uri = "u" + std::to_string(i);
            auto t = make(ds[i]);
            int n = b.indexContentMath(t.get(), uri, cid);
            std::vector<std::pair<const N*, std::string>> ss;
            subs(ds[i], "/*[1]", ss);
            std::set<std::string> seen;
            for (auto& p : ss) {
                auto tk = tokens(*p.first);
                std::string k = keyOf(tk, 0, tk.size());
                if (!seen.insert(k).second) continue;
                Formula& f = all[k];
                f.t = tk;
                f.hits.push_back({uri, p.second, cid ? data : ""});
            }
            CHECK(n == (int)seen.size(), "expression with %zu distinct subexpressions reports %d indexed", seen.size(), n);
        }
        for (auto& d : ds) {
            std::vector<std::pair<const N*, std::string>> ss;
            subs(d, "", ss);
            for (auto& p : ss) {
                auto tk = tokens(*p.first);
                mws::index::QueryEncoder q(&dict);
                std::vector<encoded_token_t> e;
                mws::index::ExpressionEncoder::Config c;
                CHECK(q.encode(c, make(*p.first).get(), &e, nullptr) == 0, "an indexed expression cannot be encoded as a query");
                all[keyOf(tk, 0, tk.size())].id = mws::index::TmpIndexAccessor::getFormulaId(ix.insertData(e));
            }
        }
        if (all.empty()) return;      // an image is only ever written of a non-empty index
        std::string file = drv::dir + "/image";
        memsector_writer_t w;
        CHECK(memsector_create(&w, file.c_str()) == 0 && ix.exportToMemsector(&w) == 0, "image file cannot be written");
        CHECK(memsector_load(&mh, file.c_str()) == 0, "the image just written does not load");
        h.ms = mh.ms;
        h.root = memsector_get_root(&mh);
        image = true;
        unlink(file.c_str());
    }
    ~Corpus() { if (image) memsector_unload(&mh); }
    std::vector<const Formula*> find(const N& q) const {
        std::vector<const Formula*> o;
        for (auto& p : all) {
            size_t at = 0;
            std::map<std::string, std::string> s;
            if (matches(q, p.second.t, at, s) && at == p.second.t.size()) o.push_back(&p.second);
        }
        return o;
    }
    // runs the real search; nullptr when the query names an unknown symbol
    std::unique_ptr<mws::MwsAnswset> run(const N& q, bool inImage, bool hits, bool ids, unsigned off, unsigned size, unsigned total) {
        mws::index::QueryEncoder qe(&dict);
        std::vector<encoded_token_t> e;
        mws::index::ExpressionInfo info;
        mws::index::ExpressionEncoder::Config c;
        if (inImage && !image) inImage = false;
        if (qe.encode(c, make(q).get(), &e, &info) != 0) return nullptr;
        mws::types::Query::Options o;
        o.includeHits = hits;
        o.includeMwsIds = ids;
        mws::query::SearchContext ctx(e, o, info.rangeBounds, &dict);
        std::unique_ptr<mws::MwsAnswset> a(inImage ? ctx.getResult<mws::index::IndexAccessor>(&h, &dbq, off, size, total)
                                                  : ctx.getResult<mws::index::TmpIndexAccessor>(&ix, &dbq, off, size, total));
        return a;
    }
};
inline std::vector<HitRef> hitsOf(const mws::MwsAnswset& a) { std::vector<HitRef> o; for (auto x : a.answers) o.push_back({x->uri, x->xpath, x->data}); return o; }
inline bool hasVarDoc(const N& n) { if (n.var() || n.range()) return true; for (auto& k : n.kids) if (hasVarDoc(k)) return true; return false; }
// replaces random subtrees by variables and ranges
inline N generalise(drv::Rng& r, const N& n, int p, int names, int prange, int depth = 0) {
    if (r.coin(p) && (depth || r.coin(20))) {
        N v;
        if (n.tag == "cn" && r.coin(prange)) {
            v.tag = "mws:range";
            if (r.coin(70)) v.attrs.push_back({"low", std::to_string((int)r.below(8) - 2)});
            if (r.coin(70)) v.attrs.push_back({"high", std::to_string((int)r.below(8) - 2)});
            return v;
        }
        v.tag = "mws:qvar";
        if (r.coin(80)) { std::string s = "q" + std::to_string(r.below(names)); if (r.coin(50)) v.attrs.push_back({"name", s}); else v.text = s; }
        return v;
    }
    N m = n;
    for (auto& k : m.kids) k = generalise(r, k, p, names, prange, depth + 1);
    return m;
}
inline const N& anySub(drv::Rng& r, const N& n) {
    const N* x = &n;
    while (!x->kids.empty() && r.coin(40)) x = &x->kids[r.below(x->kids.size())];
    return *x;
}
#endif
