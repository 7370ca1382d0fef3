// Stores of crawl data, in memory and on disk, against a map.
#include "stores.hpp"
#include "mws/dbc/MemCrawlDb.hpp"
#include "mws/dbc/LevCrawlDb.hpp"
using namespace mws::dbc;
static void same(CrawlDb& db, std::map<unsigned, std::string>& ref, drv::Rng& r, const char* what) {
    for (auto& p : ref) {
        std::string v;
        try { v = db.getData(p.first); } catch (std::exception& e) { CHECK(0, "%s: the data stored under %u is gone (%s)", what, p.first, e.what()); }
        CHECK(v == p.second, "%s: the data of %u is '%.60s' (%zu bytes) instead of '%.60s' (%zu bytes)", what, p.first, v.c_str(), v.size(), p.second.c_str(), p.second.size());
    }
    for (int i = 0; i < 4; i++) {
        unsigned id = i == 0 ? 0 : i == 1 ? ref.size() + 1 : i == 2 ? (unsigned)-1 : r.next();
        if (ref.count(id)) continue;
        bool threw = false;
        try { db.getData(id); } catch (std::exception&) { threw = true; }
        CHECK(threw, "%s: there is data under %u, which was never given out", what, id);
    }
}
static void round(uint64_t seed) {
    drv::Rng r(seed);
    std::map<unsigned, std::string> ref, mref;
    std::string d = drv::dir + "/cdb", desc = drv::fmt("seed=%llu", (unsigned long long)seed);
    rmTree(d);
    MemCrawlDb mem;
    std::unique_ptr<LevCrawlDb> lev(new LevCrawlDb);
    drv::kase(desc + " create", false);
    { LevCrawlDb x; bool threw = false; try { x.open(d.c_str()); } catch (std::exception&) { threw = true; } CHECK(threw, "opening a store that does not exist succeeds"); }
    lev->create_new(d.c_str(), false);
    int n = r.coin(10) ? 0 : 1 + r.below(r.coin(20) ? 120 : 15);
    for (int i = 0; i < n; i++) {
        std::string v = word(r) + word(r);
        if (desc.size() < 600) desc += " '" + v.substr(0, 20) + "'";
        drv::kase(desc, false);
        unsigned a = mem.putData(v), b = lev->putData(v);
        CHECK(a != CRAWLID_NULL && !mref.count(a), "memory store: data is put under %u, which is null or in use", a);
        CHECK(b != CRAWLID_NULL && !ref.count(b), "disk store: data is put under %u, which is null or in use", b);
        mref[a] = v; ref[b] = v;
        if (r.coin(10)) {
            desc += " reopen";
            lev.reset();
            lev.reset(new LevCrawlDb);
            lev->open(d.c_str());
            if (r.coin(30)) same(*lev, ref, r, "disk store, opened again");
        }
    }
    drv::kase(desc, n > 0);
    same(mem, mref, r, "memory store");
    same(*lev, ref, r, "disk store");
    lev.reset();
    lev.reset(new LevCrawlDb);
    lev->open(d.c_str());
    same(*lev, ref, r, "disk store, opened again");
    if (r.coin(30)) {
        lev.reset();
        LevCrawlDb x, y;
        bool threw = false;
        try { x.create_new(d.c_str(), false); } catch (std::exception&) { threw = true; }
        CHECK(threw, "a store is created where there is one");
        y.create_new(d.c_str(), true);
        std::map<unsigned, std::string> none;
        same(y, none, r, "disk store, created anew");
    }
    lev.reset();
    rmTree(d);
}
int main(int argc, char** argv) {
    drv::init(argc, argv);
    uint64_t s = drv::seed * 1000003;
    do round(++s); while (drv::more());
    return drv::finish("random histories of stored data (any bytes) and reopenings, then every id that was given out and some that were not");
}
