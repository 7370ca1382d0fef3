// Stored records: what was encoded comes back, and a record that is too short is refused.
#include "drv.hpp"
#include <stdexcept>
#include "common/types/Parcelable.hpp"
#include "mws/types/FormulaPath.hpp"
using namespace common::types;
using mws::types::FormulaPath;
static std::string bytes(drv::Rng& r) {
    std::string s;
    int n = r.coin(15) ? 0 : r.coin(4) ? 250 + r.below(300) : r.coin(2) ? 65000 + r.below(2000) : r.below(20);
    for (int i = 0; i < n; i++) s += r.coin(20) ? '\0' : (char)r.below(256);
    return s;
}
struct Item { bool path; std::string a, b; };
static void read(const std::string& rec, const std::vector<Item>& items, bool& threw, size_t& got) {
    char* m = new char[rec.size() ? rec.size() : 1];          // exactly as many bytes as the record has: reading beyond is seen
    memcpy(m, rec.data(), rec.size());
    ParcelDecoder d(m, rec.size());
    threw = false;
    got = 0;
    try {
        for (auto& it : items) {
            if (it.path) {
                FormulaPath p("before", "before");
                d.decode(&p);
                CHECK(p.xmlId == it.a && p.xpath == it.b, "item %zu comes back as '%.40s','%.40s' instead of '%.40s','%.40s'", got, p.xmlId.c_str(), p.xpath.c_str(), it.a.c_str(), it.b.c_str());
            } else {
                std::string s = "before";
                d.decode(&s);
                CHECK(s == it.a, "item %zu (%zu bytes) comes back with %zu bytes or other bytes", got, it.a.size(), s.size());
            }
            got++;
        }
    } catch (std::runtime_error&) { threw = true; }
    delete[] m;
}
static void round(uint64_t seed) {
    drv::Rng r(seed);
    std::vector<Item> items;
    int n = r.below(6);
    std::string desc = drv::fmt("seed=%llu %d items:", (unsigned long long)seed, n);
    ParcelAllocator al;
    size_t want = 0;
    for (int i = 0; i < n; i++) {
        Item it{r.coin(40), bytes(r), ""};
        if (it.path) it.b = bytes(r);
        desc += it.path ? drv::fmt(" path(%zu,%zu)", it.a.size(), it.b.size()) : drv::fmt(" %zu", it.a.size());
        want += 8 + it.a.size() + (it.path ? 8 + it.b.size() : 0);
        items.push_back(it);
    }
    drv::kase(desc, n > 0);
    for (auto& it : items) { if (it.path) al.reserve(FormulaPath(it.a, it.b)); else al.reserve(it.a); }
    CHECK(al.getSize() == want, "%zu bytes are reserved instead of %zu", al.getSize(), want);
    ParcelEncoder e(al);
    for (auto& it : items) { if (it.path) e.encode(FormulaPath(it.a, it.b)); else e.encode(it.a); }
    CHECK(e.getSize() == want, "the record has %zu bytes instead of %zu", e.getSize(), want);
    std::string rec(e.getData(), e.getSize());
    bool threw;
    size_t got;
    read(rec, items, threw, got);
    CHECK(!threw, "a complete record is refused at item %zu", got);
    // cut off anywhere
    for (int k = 0; k < 40 && rec.size(); k++) {
        size_t len = rec.size() <= 40 ? k % rec.size() : r.below(rec.size());
        drv::kase(desc + drv::fmt(" cut at %zu of %zu", len, rec.size()));
        read(rec.substr(0, len), items, threw, got);
        CHECK(threw, "a record of %zu bytes is read as a whole one from its first %zu bytes", rec.size(), len);
    }
    // a size field that lies
    if (rec.size()) {
        for (int k = 0; k < 6; k++) {
            std::string bad = rec;
            size_t v = k == 0 ? ~0ull : k == 1 ? ~0ull - 7 : k == 2 ? 1ull << 63 : k == 3 ? rec.size() : k == 4 ? rec.size() - 7 : (1ull << 32);
            memcpy(&bad[0], &v, 8);
            drv::kase(desc + drv::fmt(" with %zu as the size of the first string", v));
            char* m = new char[bad.size()];
            memcpy(m, bad.data(), bad.size());
            ParcelDecoder d(m, bad.size());
            bool refused = false;
            std::string s;
            try { d.decode(&s); } catch (std::runtime_error&) { refused = true; }
            CHECK(refused, "a string of %zu bytes is read from a record of %zu bytes", v, bad.size());
            delete[] m;
        }
    }
}
int main(int argc, char** argv) {
    drv::init(argc, argv);
    uint64_t s = drv::seed * 1000003;
    do round(++s); while (drv::more());
    return drv::finish("random records of strings and paths (any bytes, also none and NUL), read back complete, cut off anywhere, and with lying size fields");
}
