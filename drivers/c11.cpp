// Stores of formula occurrences, in memory and on disk, against a list per formula.
#include "stores.hpp"
#include "mws/dbc/MemFormulaDb.hpp"
#include "mws/dbc/LevFormulaDb.hpp"
#include "mws/dbc/MemCrawlDb.hpp"
#include "mws/dbc/DbQueryManager.hpp"
using namespace mws;
using namespace mws::dbc;
using mws::types::FormulaPath;
struct Row {
    unsigned crawl; std::string id, path;
    bool operator==(const Row& o) const { return crawl == o.crawl && id == o.id && path == o.path; }
    bool operator<(const Row& o) const { return crawl != o.crawl ? crawl < o.crawl : id != o.id ? id < o.id : path < o.path; }
};
typedef std::vector<Row> Rows;
static Rows ask(FormulaDb& db, unsigned f, unsigned mn, unsigned sz, int& rc, int stopAfter = -1) {
    Rows out;
    rc = db.queryFormula(f, mn, sz, [&](const CrawlId& c, const FormulaPath& p) {
        CHECK((int)out.size() != stopAfter, "formula %u: another row after the callback said stop", f);
        out.push_back(Row{c, p.xmlId, p.xpath});
        return (int)out.size() == stopAfter ? 1 : 0;
    });
    return out;
}
static void same(FormulaDb& db, std::map<unsigned, Rows>& ref, unsigned f, bool ordered, drv::Rng& r, const char* what) {
    int rc;
    Rows all = ask(db, f, 0, 1000000, rc), want = ref.count(f) ? ref[f] : Rows();
    CHECK(rc == 0, "%s: asking for formula %u fails", what, f);
    CHECK(all.size() == want.size(), "%s: formula %u has %zu occurrences instead of %zu", what, f, all.size(), want.size());
    Rows a = all, b = want;
    if (!ordered) { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); }
    CHECK(a == b, "%s: formula %u has other occurrences than were added%s", what, f, ordered ? " or another order" : "");
    for (int k = 0; k < 6; k++) {
        unsigned mn = r.coin(10) ? r.next() : r.below(all.size() + 3), sz = r.coin(15) ? ~0u - r.below(3) : r.coin(5) ? r.next() : r.below(all.size() + 3);
        if (!ordered && mn > 5000) mn = 5000;
        Rows w = ask(db, f, mn, sz, rc), e;
        for (size_t i = mn; i < all.size() && i - mn < sz; i++) e.push_back(all[i]);
        CHECK(rc == 0 && w == e, "%s: formula %u, window from %u of %u: %zu rows (rc %d) instead of %zu, or other rows", what, f, mn, sz, w.size(), rc, e.size());
        if (e.size()) {
            int st = 1 + r.below(e.size());
            Rows p = ask(db, f, mn, sz, rc, st);
            e.resize(st);
            CHECK(rc != 0 && p == e, "%s: formula %u, window from %u of %u, stopped after %d rows: rc %d, %zu rows", what, f, mn, sz, st, rc, p.size());
        }
    }
}
static void round(uint64_t seed) {
    drv::Rng r(seed);
    std::map<unsigned, Rows> ref;
    std::vector<unsigned> ids;
    for (int i = 0; i < 6; i++) ids.push_back(i < 3 ? (const unsigned[]){1, 10, 11}[i] : r.coin(50) ? r.below(130) : r.next());
    int n = r.coin(20) ? 0 : 1 + r.below(r.coin(20) ? 150 : 25);
    std::string d = drv::dir + "/fdb", desc = drv::fmt("seed=%llu", (unsigned long long)seed);
    MemFormulaDb mem;
    rmTree(d);
    std::unique_ptr<LevFormulaDb> lev(new LevFormulaDb);
    drv::kase(desc + " create", false);
    { LevFormulaDb x; bool threw = false; try { x.open(d.c_str()); } catch (std::runtime_error&) { threw = true; } CHECK(threw, "opening a store that does not exist succeeds"); }
    lev->create_new(d.c_str(), false);
    for (int i = 0; i < n; i++) {
        unsigned f = ids[r.below(6)];
        Row w{r.coin(10) ? (unsigned)r.next() : r.below(12), word(r), word(r)};
        if (desc.size() < 600) desc += drv::fmt(" %u<-(%u,'%.10s','%.10s')", f, w.crawl, w.id.c_str(), w.path.c_str());
        drv::kase(desc, false);
        CHECK(mem.insertFormula(f, w.crawl, FormulaPath(w.id, w.path)) == 0, "adding to the memory store fails");
        CHECK(lev->insertFormula(f, w.crawl, FormulaPath(w.id, w.path)) == 0, "adding to the disk store fails");
        ref[f].push_back(w);
        if (r.coin(8)) {                       // close it and open it again
            desc += " reopen";
            lev.reset();
            lev.reset(new LevFormulaDb);
            lev->open(d.c_str());
            if (r.coin(30)) same(*lev, ref, f, false, r, "disk store, opened again");
        }
    }
    drv::kase(desc, n > 0);
    for (unsigned f : ids) {
        same(mem, ref, f, true, r, "memory store");
        same(*lev, ref, f, false, r, "disk store");
        if (!ref.count(f + 1)) same(mem, ref, f + 1, true, r, "memory store, absent formula"), same(*lev, ref, f + 1, false, r, "disk store, absent formula");
    }
    if (r.coin(30)) {
        LevFormulaDb x;
        bool threw = false;
        lev.reset();
        try { x.create_new(d.c_str(), false); } catch (std::runtime_error&) { threw = true; }
        CHECK(threw, "a store is created where there is one");
        LevFormulaDb y;
        y.create_new(d.c_str(), true);
        std::map<unsigned, Rows> none;
        for (unsigned f : ids) same(y, none, f, false, r, "disk store, created anew");
    }
    // rows with the data of their crawl
    MemCrawlDb cdb;
    std::map<unsigned, std::string> data;
    for (int i = 0; i < 12; i++) { std::string v = "page" + std::to_string(i); data[cdb.putData(v)] = v; }
    for (int with = 0; with < 2; with++) {
        DbQueryManager q(with ? &cdb : nullptr, &mem);
        for (unsigned f : ids) {
            bool known = true;
            for (auto& w : ref[f]) known = known && (!w.crawl || data.count(w.crawl));
            if (with && !known) continue;
            size_t i = 0, mn = r.below(3);
            int rc = q.query(f, mn, 7, [&](const FormulaPath& p, const CrawlData& c) {
                CHECK(mn + i < ref[f].size() && i < 7, "formula %u: more rows than asked for", f);
                Row& w = ref[f][mn + i++];
                CHECK(p.xmlId == w.id && p.xpath == w.path, "formula %u: other rows through the manager", f);
                CHECK(c == (with && w.crawl ? data[w.crawl] : ""), "formula %u: row %zu of crawl %u comes with the data '%s'", f, i - 1, w.crawl, c.c_str());
                return 0;
            });
            size_t left = ref[f].size() > mn ? ref[f].size() - mn : 0;
            CHECK(rc == 0 && i == std::min<size_t>(left, 7), "formula %u: %zu rows through the manager, rc %d", f, i, rc);
        }
    }
    lev.reset();
    rmTree(d);
}
int main(int argc, char** argv) {
    drv::init(argc, argv);
    uint64_t s = drv::seed * 1000003;
    do round(++s); while (drv::more());
    return drv::finish("random histories of additions (and reopenings) for formulas whose ids are prefixes of each other, then windows and stopping callbacks, against a list per formula");
}
