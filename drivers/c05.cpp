// Dictionary of symbols: one-to-one ids, stable, and the same again after saving and loading.
#include "drv.hpp"
#include <fstream>
#include <sstream>
#include <map>
#include <set>
#include <sys/stat.h>
#include <sys/resource.h>
#include <signal.h>
#include "mws/index/MeaningDictionary.hpp"
using mws::index::MeaningDictionary;
static const uint32_t NONE = MeaningDictionary::KEY_NOT_FOUND;
static std::string anyKey(drv::Rng& r) {
    static const char* B[] = {"ci#", "cn#", "\n", "\r\n", " ", "\t", "a", "b", "\xc3\xa9", "\xff", "#", "0", "x1", "\\0", "\x1a", "mtext#"};
    std::string s;
    int n = 1 + r.below(4);
    while (n--) s += B[r.below(16)];
    if (r.coin(3)) s.append(r.below(20000), 'z');
    if (r.coin(5)) s.insert(r.below(s.size()), 1, (char)(1 + r.below(255)));
    return s;
}
static void same(MeaningDictionary& d, const std::map<std::string, uint32_t>& ref, const char* when) {
    std::set<uint32_t> used;
    auto t = d.getReverseLookupTable();
    for (auto& p : ref) {
        uint32_t id = d.get(p.first);
        CHECK(id == p.second, "%s: key '%.60s' has id %u instead of %u", when, p.first.c_str(), id, p.second);
        CHECK(id != NONE && used.insert(id).second, "%s: id %u belongs to two keys", when, id);
        CHECK(t.get(id) == p.first, "%s: id %u leads to '%.60s' instead of '%.60s'", when, id, t.get(id).c_str(), p.first.c_str());
    }
    bool threw = false;
    try { t.get(ref.size() + 1); } catch (std::exception&) { threw = true; }
    CHECK(threw, "%s: an id never given out has a key", when);
}
static void round(uint64_t seed) {
    drv::Rng r(seed);
    MeaningDictionary d;
    std::map<std::string, uint32_t> ref;
    int n = r.coin(10) ? 0 : 1 + r.below(r.coin(20) ? 3000 : 12);
    std::string desc = drv::fmt("seed=%llu %d keys:", (unsigned long long)seed, n);
    for (int i = 0; i < n; i++) {
        std::string k = !ref.empty() && r.coin(30) ? std::next(ref.begin(), r.below(ref.size()))->first : anyKey(r);
        if (desc.size() < 500) desc += " '" + k.substr(0, 20) + "'";
        bool had = ref.count(k);
        uint32_t before = d.get(k);
        CHECK(before == (had ? ref[k] : NONE), "get of '%.60s' gives %u before it is put", k.c_str(), before);
        uint32_t id = d.put(k);
        if (had) CHECK(id == ref[k], "a second put of '%.60s' gives %u instead of %u", k.c_str(), id, ref[k]);
        else { for (auto& p : ref) if (r.coin(20) || ref.size() < 40) CHECK(p.second != id, "'%.60s' gets id %u of '%.60s'", k.c_str(), id, p.first.c_str()); }
        ref[k] = id;
        CHECK(d.get(k) == id && id != NONE, "after put, '%.60s' has id %u", k.c_str(), d.get(k));
    }
    drv::kase(desc, n > 1);
    same(d, ref, "after the puts");
    for (int i = 0; i < 5; i++) { std::string k = anyKey(r) + "?"; if (!ref.count(k)) CHECK(d.get(k) == NONE && d.get(k) == NONE, "unknown key '%.60s' has an id", k.c_str()); }
    same(d, ref, "after lookups of unknown keys");
    std::string f = drv::dir + "/dict";
    { std::ofstream o(f.c_str(), std::ios::binary); CHECK(d.save(o) == 0, "saving to a file fails"); }
    same(d, ref, "after saving");
    MeaningDictionary e(f);
    same(e, ref, "after loading");
    std::string k = anyKey(r) + "!";
    if (!ref.count(k)) {
        CHECK(e.get(k) == NONE, "a loaded dictionary knows a key it was not given");
        uint32_t a = d.put(k), b = e.put(k);
        CHECK(a == b, "a new key gets id %u, after loading %u", a, b);
        ref[k] = a;
        same(e, ref, "after loading and another put");
    }
    // saved again from the loaded one: the same file
    std::stringstream s1, s2;
    d.save(s1); e.save(s2);
    CHECK(s1.str() == s2.str(), "saved again, the file differs");
    // a file system that takes only part of it
    size_t len = s1.str().size();
    if (len) {
        struct rlimit old, lim;
        getrlimit(RLIMIT_FSIZE, &old);
        lim = old; lim.rlim_cur = r.below(len);
        unlink(f.c_str());
        int rc;
        setrlimit(RLIMIT_FSIZE, &lim);
        { std::ofstream o(f.c_str(), std::ios::binary); rc = d.save(o); }
        setrlimit(RLIMIT_FSIZE, &old);
        drv::kase(desc + drv::fmt(" the file system takes %zu of %zu bytes", (size_t)lim.rlim_cur, len));
        CHECK(rc != 0, "saving %zu bytes where %zu fit reports success", len, (size_t)lim.rlim_cur);
        std::ofstream x((drv::dir + "/no/such/dir").c_str());
        CHECK(d.save(x) != 0, "saving to a stream that is not open reports success");
        std::ofstream y("/dev/full");
        y.exceptions(std::ios::badbit | std::ios::failbit);
        int r3 = d.save(y);
        y.exceptions(std::ios::goodbit);
        CHECK(r3 != 0, "saving to a full device (with exceptions) reports success");
    }
    unlink(f.c_str());
}
static void many(uint32_t n) {
    MeaningDictionary d;
    drv::kase(drv::fmt("%u symbols", n), true);
    for (uint32_t i = 0; i < n; i++) d.put("ci#" + std::to_string(i));
    for (uint32_t i = 0; i < n; i++) CHECK(d.get("ci#" + std::to_string(i)) == i + 1, "symbol %u of %u has id %u", i + 1, n, d.get("ci#" + std::to_string(i)));
    std::string f = drv::dir + "/many";
    { std::ofstream o(f.c_str(), std::ios::binary); CHECK(d.save(o) == 0, "saving fails"); }
    MeaningDictionary e(f);
    auto t = e.getReverseLookupTable();
    for (uint32_t i = 0; i < n; i++) CHECK(t.get(i + 1) == "ci#" + std::to_string(i), "after loading %u symbols, id %u leads to '%s'", n, i + 1, t.get(i + 1).c_str());
    CHECK(e.put("one more") == n + 1, "after loading %u symbols, a new one gets id %u", n, e.put("one more"));
    unlink(f.c_str());
}
int main(int argc, char** argv) {
    drv::init(argc, argv);
    signal(SIGXFSZ, SIG_IGN);
    const char* bad[] = {"/missing", "/adir"};
    mkdir((drv::dir + "/adir").c_str(), 0700);
    for (auto b : bad) {
        bool threw = false;
        drv::kase(std::string("loading ") + b);
        try { MeaningDictionary d(drv::dir + b); } catch (std::exception&) { threw = true; }
        CHECK(threw, "loading a dictionary from '%s' succeeds", b);
    }
    many(70000);
    for (uint64_t i = 0; drv::more(); i++) round(drv::seed * 1000003 + i);
    return drv::finish("random sequences of puts and gets with odd bytes and long keys against a reference map, saved, loaded, extended, and saved to failing streams; non-trivial: at least two puts");
}
