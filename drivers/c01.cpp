// In-memory formula index: every inserted expression leads to its own leaf, and only there.
#include "drv.hpp"
#include <vector>
#include <set>
#include <map>
#include <algorithm>
#include "mws/index/TmpIndex.hpp"
#include "mws/index/TmpIndexAccessor.hpp"
#include "mws/index/IndexIterator.hpp"
#include "exprs.hpp"
using namespace mws;
using namespace mws::index;
// moves the counter of formula ids ahead, as if that many expressions had been added before
struct Tester {
    template <class L> static auto jump(L*, uint32_t to, int) -> decltype((void)(L::nextId = to)) { if (L::nextId < to) L::nextId = to; }
    template <class L> static void jump(L*, uint32_t, long) {}
};
static TmpLeafNode* walk(TmpIndex* ix, const Expr& e) {
    const TmpIndexNode* n = TmpIndexAccessor::getRootNode(ix);
    for (auto& t : e) {
        n = TmpIndexAccessor::getChild(ix, n, t);
        if (!n) return nullptr;
    }
    return (TmpLeafNode*)n;
}
static void round(uint64_t seed, bool big) {
    drv::Rng r(seed);
    int ids = 1 + r.below(big ? 200 : 5), maxar = 1 + r.below(3), depth = r.below(4), style = r.below(3);
    int n = 1 + r.below(big ? 400 : 14);
    TmpIndex ix;
    std::map<std::vector<uint64_t>, TmpLeafNode*> ref;
    std::map<std::vector<uint64_t>, uint64_t> ids0;
    std::set<uint64_t> usedIds;
    std::vector<Expr> all;
    std::string desc = drv::fmt("seed=%llu exprs:", (unsigned long long)seed);
    for (int i = 0; i < n; i++) {
        Expr e;
        if (!all.empty() && r.coin(25)) e = all[r.below(all.size())];
        else if (r.coin(8)) chain(r, e, r.below(6) ? 2 + r.below(12) : 2 + r.below(300), 1 + r.below(2));
        else gen(r, e, depth, ids, maxar, style);
        all.push_back(e);
        if (desc.size() < 3000) desc += " [" + show(e) + "]";
    }
    uint32_t ahead = 0;
    static int jumps = 0;
    if (r.coin(15) && jumps < 31) { if (jumps < 7) jumps = 7; ahead = (uint32_t)((1ull << (1 + jumps++)) - 1 - r.below(3)); desc += drv::fmt(" after %u other expressions", ahead); }
    drv::kase(desc, n > 1);
    size_t at = 0;
    for (auto& e : all) {
        if (ahead && at++ == all.size() / 2) Tester::jump((TmpLeafNode*)nullptr, ahead, 0);
        auto k = key(e);
        TmpLeafNode* before = ref.count(k) ? ref[k] : nullptr;
        TmpLeafNode* w = walk(&ix, e);
        CHECK(w == before, "before insertion of [%s] lookup gives %p, expected %p", show(e).c_str(), (void*)w, (void*)before);
        TmpLeafNode* l = ix.insertData(e);
        CHECK(l != nullptr, "insertion of [%s] gave no leaf", show(e).c_str());
        if (before) CHECK(l == before, "re-insertion of [%s] gave another leaf", show(e).c_str());
        uint64_t id = TmpIndexAccessor::getFormulaId(l);
        if (!before) {
            for (auto& p : ref) CHECK(p.second != l, "[%s] got the leaf of another expression", show(e).c_str());
            CHECK(usedIds.insert(id).second, "[%s] got id %llu, already in use", show(e).c_str(), (unsigned long long)id);
            CHECK(id != 0, "[%s] got id 0", show(e).c_str());
            CHECK(TmpIndexAccessor::getHitsCount(l) == 0, "a new leaf does not start at 0 hits");
        } else {
            CHECK(id == ids0[k], "[%s] changed its id", show(e).c_str());
        }
        ref[k] = l;
        ids0[k] = id;
        if (!big || r.coin(3)) for (auto& f : all) {
            auto kf = key(f);
            TmpLeafNode* x = walk(&ix, f);
            TmpLeafNode* want = ref.count(kf) ? ref[kf] : nullptr;
            CHECK(x == want, "after insertion of [%s] lookup of [%s] gives %p, expected %p", show(e).c_str(), show(f).c_str(), (void*)x, (void*)want);
            if (x) CHECK(TmpIndexAccessor::getFormulaId(x) == ids0[kf], "id of [%s] changed", show(f).c_str());
        }
    }
    // absent expressions are not found
    for (int i = 0; i < 20; i++) {
        Expr e;
        gen(r, e, depth, ids + 2, maxar, style);
        auto k = key(e);
        TmpLeafNode* want = ref.count(k) ? ref[k] : nullptr;
        CHECK(walk(&ix, e) == want, "lookup of [%s] is wrong", show(e).c_str());
    }
    // enumeration visits every expression exactly once, spelled by its path
    IndexIterator<TmpIndexAccessor> it(&ix);
    std::set<std::vector<uint64_t>> seen;
    while (auto node = it.next()) {
        Expr e;
        for (auto& p : it.getPath()) e.push_back(TmpIndexAccessor::getToken(p));
        auto k = key(e);
        CHECK(ref.count(k), "enumeration yields [%s], never inserted", show(e).c_str());
        CHECK(ref[k] == node, "enumeration pairs [%s] with another leaf", show(e).c_str());
        CHECK(seen.insert(k).second, "enumeration yields [%s] twice", show(e).c_str());
    }
    CHECK(seen.size() == ref.size(), "enumeration yields %zu of %zu expressions", seen.size(), ref.size());
}
// nodes with very many children (beyond 16 bits), and many ids
static void wide(size_t n, bool deep) {
    std::vector<encoded_token_t> ts;
    for (size_t i = 0; i < n; i++) ts.push_back(encoded_token((uint32_t)(162 + i * 37 % 16000000), 0));
    std::sort(ts.begin(), ts.end(), [](const encoded_token_t& a, const encoded_token_t& b) { return memcmp(&a, &b, sizeof a) < 0; });
    TmpIndex ix;
    std::vector<TmpLeafNode*> ls;
    std::set<uint64_t> ids;
    drv::kase(drv::fmt("%zu different tokens %s", n, deep ? "after one prefix" : "at the root"), true);
    auto expr = [&](size_t i) { Expr e; if (deep) e.push_back(encoded_token(200, 1)); e.push_back(ts[i]); return e; };
    for (size_t i = 0; i < n; i++) {
        ls.push_back(ix.insertData(expr(i)));
        CHECK(ids.insert(TmpIndexAccessor::getFormulaId(ls.back())).second, "entry %zu of %zu gets id %llu again", i, n, (unsigned long long)TmpIndexAccessor::getFormulaId(ls.back()));
    }
    for (size_t i = 0; i < n; i++) {
        CHECK(walk(&ix, expr(i)) == ls[i], "entry %zu of %zu is not found", i, n);
        CHECK(ix.insertData(expr(i)) == ls[i], "entry %zu of %zu is added a second time", i, n);
    }
    IndexIterator<TmpIndexAccessor> it(&ix);
    size_t k = 0;
    while (it.next()) k++;
    CHECK(k == n, "enumeration visits %zu of %zu", k, n);
}
int main(int argc, char** argv) {
    drv::init(argc, argv);
    wide(70000, true);
    wide(40000, false);
    for (uint64_t i = 0; drv::more(); i++) round(drv::seed * 1000003 + i, i % 7 == 6);
    return drv::finish("random sequences of insertions (repeats, shared prefixes, ids across all 24 bits) against a reference map; non-trivial: at least two insertions");
}
