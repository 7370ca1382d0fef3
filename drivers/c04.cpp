// Encoding an expression is faithful: same tree up to renaming of variables <=> same code; decoding gives the tree back.
#include <sstream>
#include "drv.hpp"
#include "cmml.hpp"
#include "mws/index/ExpressionEncoder.hpp"
#include "mws/index/encoded_token.h"
using namespace mws;
using namespace mws::index;
struct Tester {
    template <class T> static auto jump(T& d, uint32_t v, int) -> decltype(d._nextId = v, bool()) { d._nextId = v; return true; }
    template <class T> static bool jump(T&, uint32_t, long) { return false; }
};
typedef std::vector<encoded_token_t> Enc;
static std::string str(const Enc& e) { std::string s; for (auto t : e) { s += drv::fmt("%u/%u ", (unsigned)t.id, (unsigned)t.arity); if (s.size() > 600) break; } return s; }
static void flat(const N& n, std::vector<const N*>& o) {
    o.push_back(&n);
    if (n.var() || n.range()) return;
    for (auto& k : n.kids) flat(k, o);
}
// what the encoding has to satisfy, from the tree alone
static bool tooMany(const std::vector<const N*>& f) {
    std::set<std::string> names;
    size_t anon = 0, rng = 0;
    for (auto n : f) {
        if (n->var() && n->name().empty()) anon++;
        else if (n->var()) names.insert(n->name());
        else if (n->range()) rng++;
        else if (n->kids.size() > 255) return true;
    }
    return names.size() > 31 || anon > 32 || rng > 32;
}
static void checkEnc(const N& n, const Enc& e, bool ren, MeaningDictionary& d, const ExpressionInfo* info) {
    std::vector<const N*> f;
    flat(n, f);
    CHECK(e.size() == f.size(), "%zu tokens are encoded as %zu: %s", f.size(), e.size(), str(e).c_str());
    std::map<std::string, uint32_t> name;
    std::map<uint32_t, std::string> back;
    std::set<uint32_t> anon;
    std::vector<std::string> order;
    for (size_t i = 0; i < f.size(); i++) {
        const N& x = *f[i];
        uint32_t id = e[i].id, ar = e[i].arity;
        if (x.var()) {
            CHECK(ar == 0, "variable at position %zu has arity %u: %s", i, ar, str(e).c_str());
            CHECK(encoded_token_is_var(e[i]) && id > 0, "variable at position %zu has code %u", i, id);
            if (x.name().empty()) {
                CHECK(encoded_token_is_anon_var(e[i]) && id <= ANON_HVAR_ID_MAX, "anonymous variable at position %zu has code %u", i, id);
                CHECK(anon.insert(id).second, "two anonymous variables share code %u", id);
            } else {
                CHECK(!encoded_token_is_anon_var(e[i]) && id <= HVAR_ID_MAX, "named variable at position %zu has code %u", i, id);
                auto it = name.insert({x.name(), id});
                CHECK(it.first->second == id, "variable %s has codes %u and %u", x.name().c_str(), it.first->second, id);
                order.push_back(x.name());
            }
        } else if (x.range()) {
            CHECK(ar == 0, "range at position %zu has arity %u", i, ar);
            CHECK(encoded_token_is_range(e[i]), "range at position %zu has code %u", i, id);
            CHECK(anon.insert(id).second, "two ranges share code %u", id);
            if (info) CHECK(info->rangeBounds.count(id), "no bounds recorded for range code %u", id);
        } else {
            CHECK(ar == x.kids.size(), "token at position %zu has %zu arguments and arity %u", i, x.kids.size(), ar);
            CHECK(!encoded_token_is_var(e[i]) && !encoded_token_is_range(e[i]) && id > CONSTANT_ID_MIN, "constant %s has code %u", x.meaning().c_str(), id);
            if (!ren || x.tag != "ci") CHECK(id == CONSTANT_ID_MIN + d.get(x.meaning()) && d.get(x.meaning()) != 0, "constant %s has code %u, its dictionary id is %u", x.meaning().c_str(), id, (unsigned)d.get(x.meaning()));
            auto b = back.insert({id, x.meaning()});
            CHECK(b.first->second == x.meaning(), "constants %s and %s share code %u", b.first->second.c_str(), x.meaning().c_str(), id);
        }
    }
    std::set<uint32_t> u;
    for (auto& p : name) CHECK(u.insert(p.second).second, "two variables share code %u", p.second);
    if (info) CHECK(info->qvarNames == order, "the variable occurrences are not listed in order");
}
static bool same(const Enc& a, const Enc& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) if (a[i].id != b[i].id || a[i].arity != b[i].arity) return false;
    return true;
}
static N rename(const N& n, int shift) {
    N m = n;
    if (m.var() && !m.name().empty()) { std::string s = "w" + std::to_string(shift) + m.name(); m.attrs = {{"name", s}}; m.text = ""; }
    for (auto& k : m.kids) k = rename(k, shift);
    return m;
}
static bool mutate(drv::Rng& r, N& n, int& at) {     // one structural change at the at-th encoded token
    if (at-- == 0) {
        if (n.var() || n.range()) { n = N(); n.tag = "cn"; n.text = "987"; return true; }
        int k = r.below(3);
        if (k == 0) { n.tag = "fresh" + std::to_string(r.below(1000)); return true; }
        if (k == 1) { N c; c.tag = "cn"; c.text = "55"; n.kids.insert(n.kids.begin() + r.below(n.kids.size() + 1), c); return true; }
        if (n.kids.empty()) { n.tag += "Z"; return true; }
        n.kids.pop_back();
        return true;
    }
    if (n.var() || n.range()) return false;
    for (auto& k : n.kids) if (mutate(r, k, at)) return true;
    return false;
}
static bool norange(const N& n) { if (n.range()) return false; for (auto& k : n.kids) if (!norange(k)) return false; return true; }
static void round(uint64_t seed) {
    drv::Rng r(seed);
    MeaningDictionary d;
    std::vector<N> trees;
    std::vector<Enc> encs;
    ExpressionEncoder::Config cfg;
    HarvestEncoder he(&d);
    Gen g{r};
    int style = r.below(5);
    if (style == 1) g.names = 29 + r.below(6), g.pvar = 60, g.maxar = 9;
    if (style == 2) g.panon = 40, g.maxar = 8;
    if (style == 3) g.prange = 40, g.maxar = 8;
    if (style == 4) g.pqkids = 40;
    for (int i = 0; i < 12; i++) {
        N n = g.tree(r.below(5));
        if (r.coin(4)) { n = N(); n.tag = "cerror"; for (int k = 250 + r.below(12); k--;) n.kids.push_back(g.leaf()); }
        if (r.coin(10) && !trees.empty()) n = trees[r.below(trees.size())];
        drv::kase(drv::fmt("seed=%llu expression %d: ", (unsigned long long)seed, i) + show(n), n.size() > 1);
        auto t = make(n);
        std::vector<const N*> f;
        flat(n, f);
        Enc e;
        ExpressionInfo info;
        std::ostringstream before;
        int rc = he.encode(cfg, t.get(), &e, &info);
        bool tm = tooMany(f);
        CHECK((rc != 0) == tm, tm ? "an expression with more variables, ranges or arguments than there are codes is accepted" : "the encoding of a representable expression fails");
        QueryEncoder qe(&d);
        Enc q;
        ExpressionInfo qi;
        if (rc == 0) {
            checkEnc(n, e, false, d, &info);
            CHECK(qe.encode(cfg, t.get(), &q, &qi) == 0, "the query encoding of an indexed expression fails");
            CHECK(same(q, e), "a query is not encoded as the indexed expression: %s / %s", str(q).c_str(), str(e).c_str());
            Enc e2;
            CHECK(he.encode(cfg, make(rename(n, i)).get(), &e2, nullptr) == 0 && same(e, e2), "renaming the variables changes the encoding: %s / %s", str(e).c_str(), str(e2).c_str());
            N m = n;
            int at = r.below(f.size());
            if (mutate(r, m, at)) {
                Enc e3;
                if (he.encode(cfg, make(m).get(), &e3, nullptr) == 0) CHECK(!same(e, e3), "different expressions have the same encoding: %s", show(m).c_str());
            }
            ExpressionDecoder dec(d);
            for (size_t k = 0; k < f.size(); k++)
                if (!f[k]->var() && !f[k]->range()) {
                    std::string s = dec.getMeaning(e[k].id);
                    CHECK(s == f[k]->meaning(), "%s decodes as %s", f[k]->meaning().c_str(), s.c_str());
                } else {
                    static std::map<uint32_t, std::string> seen;
                    std::string s = dec.getMeaning(e[k].id);
                    auto it = seen.insert({(uint32_t)e[k].id, s});
                    for (auto& p : seen) if (p.first != e[k].id) CHECK(p.second != s, "codes %u and %u both decode as %s", p.first, (unsigned)e[k].id, s.c_str());
                }
            trees.push_back(n);
            encs.push_back(e);
        }
        // a query naming a symbol no indexed expression has
        N u = n;
        int at = r.below(f.size());
        struct H { static bool set(N& x, int& at) { if (at-- == 0) { x = N(); x.tag = "csymbol"; x.text = "neverseen"; return true; } if (x.var() || x.range()) return false; for (auto& k : x.kids) if (set(k, at)) return true; return false; } };
        if (H::set(u, at)) {
            uint32_t n0 = 0;
            Enc e4;
            QueryEncoder q2(&d);
            CHECK(q2.encode(cfg, make(u).get(), &e4, nullptr) != 0, "a query with an unknown symbol is accepted: %s", show(u).c_str());
            CHECK(d.get("csymbol#neverseen") == 0, "a query adds a symbol to the dictionary");
            (void)n0;
        }
    }
    for (size_t i = 0; i < trees.size(); i++)      // codes given out earlier stay valid
        checkEnc(trees[i], encs[i], false, d, nullptr);
}
static N cn(const char* t, const char* x) { N n; n.tag = t; n.text = x; return n; }
static void ciRound(uint64_t seed) {
    drv::Rng r(seed);
    MeaningDictionary d;
    ExpressionEncoder::Config cfg;
    cfg.renameCi = true;
    int n = 2 + r.below(6), letters = 1 + r.below(5);
    N a, b;
    a.tag = b.tag = "apply";
    a.kids.push_back(cn("ci", "f"));
    b.kids.push_back(cn("ci", "f"));
    std::vector<int> perm(letters);
    for (int i = 0; i < letters; i++) perm[i] = i;
    for (int i = letters - 1; i > 0; i--) std::swap(perm[i], perm[r.below(i + 1)]);
    for (int i = 0; i < n; i++) {
        int c = r.below(letters);
        bool other = r.coin(25);
        a.kids.push_back(other ? cn("ci", "long") : cn("ci", std::string(1, 'a' + c).c_str()));
        b.kids.push_back(other ? cn("ci", "long") : cn("ci", std::string(1, 'p' + perm[c]).c_str()));
    }
    drv::kase(drv::fmt("seed=%llu identifiers renamed: ", (unsigned long long)seed) + show(a) + " and " + show(b));
    Enc ea, eb;
    HarvestEncoder ha(&d), hb(&d);
    CHECK(ha.encode(cfg, make(a).get(), &ea, nullptr) == 0 && hb.encode(cfg, make(b).get(), &eb, nullptr) == 0, "encoding with renaming fails");
    CHECK(same(ea, eb), "consistently renamed identifiers are encoded differently: %s / %s", str(ea).c_str(), str(eb).c_str());
    checkEnc(a, ea, true, d, nullptr);
    std::map<std::string, uint32_t> id;
    std::set<uint32_t> u;
    for (size_t i = 1; i < a.kids.size(); i++) {
        auto it = id.insert({a.kids[i].text, (uint32_t)ea[i + 1].id});
        CHECK(it.first->second == ea[i + 1].id, "identifier %s has two codes", a.kids[i].text.c_str());
    }
    for (auto& p : id) CHECK(u.insert(p.second).second, "two identifiers share a code");
}
static void limits() {
    for (uint32_t base : {ENC_TOK_MAX_ID - CONSTANT_ID_MIN - 3u, ENC_TOK_MAX_ID - 3u}) {
        MeaningDictionary d;
        if (!Tester::jump(d, base, 0)) return;
        HarvestEncoder he(&d);
        ExpressionEncoder::Config cfg;
        std::map<uint32_t, std::string> seen;
        for (int i = 0; i < 8; i++) {
            N n = cn("cn", std::to_string(1000 + i).c_str());
            drv::kase(drv::fmt("symbol %u of the dictionary", base + i));
            Enc e;
            if (he.encode(cfg, make(n).get(), &e, nullptr) != 0) continue;
            auto it = seen.insert({(uint32_t)e[0].id, n.text});
            CHECK(it.second && e[0].id >= CONSTANT_ID_MIN, "symbol %u gets code %u, which is not its own", base + i, (unsigned)e[0].id);
            CHECK(e[0].id == CONSTANT_ID_MIN + d.get(n.meaning()), "symbol %u gets code %u", base + i, (unsigned)e[0].id);
        }
    }
}
int main(int argc, char** argv) {
    drv::init(argc, argv);
    limits();
    for (uint64_t i = 0; drv::more(); i++) { round(drv::seed * 1000003 + i); ciRound(drv::seed * 7000003 + i); }
    return drv::finish("random Content MathML trees (named and anonymous variables, ranges, more of them than codes, up to 261 arguments, ci renaming, dictionaries close to 2^24 symbols): encode, decode, rename, mutate, query; non-trivial: more than one token");
}
