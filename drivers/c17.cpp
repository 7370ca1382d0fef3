// The two search services over the same harvests: HarvestQueryHandler, and IndexQueryHandler over the index that createCompressedIndex writes of them;
// against each other and against an account of all subexpressions.
#include "search.hpp"
#include "stores.hpp"
#include "mws/daemon/HarvestQueryHandler.hpp"
#include "mws/daemon/IndexQueryHandler.hpp"
#include "mws/index/IndexWriter.hpp"
using namespace mws;
using namespace mws::index;
using mws::daemon::HarvestQueryHandler;
using mws::daemon::IndexQueryHandler;
using mws::types::Query;
static std::string esc(const std::string& s) { std::string o; for (char c : s) o += c == '<' ? "&lt;" : c == '&' ? "&amp;" : c == '"' ? "&quot;" : std::string(1, c); return o; }
static std::string xml(const N& n) {
    std::string s = "<" + n.tag;
    for (auto& a : n.attrs) s += " " + a.first + "=\"" + esc(a.second) + "\"";
    s += ">" + esc(n.text);
    for (auto& k : n.kids) s += xml(k);
    return s + "</" + n.tag + ">";
}
static void wellFormed(N& n) { for (auto& c : n.tag) if (c == '#') c = '.'; for (auto& k : n.kids) wellFormed(k); }
static void put(const std::string& f, const std::string& x) { FILE* o = fopen(f.c_str(), "w"); fwrite(x.data(), 1, x.size(), o); fclose(o); }
typedef std::unique_ptr<MwsAnswset> Ans;
static Ans ask(daemon::QueryHandler& h, const N& q, const N* second, bool hits, bool ids, size_t off, size_t size, int total) {
    Query m;
    m.tokens.push_back(make(q).release());
    if (second) m.tokens.push_back(make(*second).release());
    m.options.includeHits = hits;
    m.options.includeMwsIds = ids;
    m.attrResultLimitMin = off;
    m.attrResultMaxSize = size;
    m.attrResultTotalReqNr = total;
    Ans a(static_cast<MwsAnswset*>(h.handleQuery(&m)));
    CHECK(a != nullptr, "no answer set");
    return a;
}
static std::vector<HitRef> hits(const MwsAnswset& a) {
    auto o = hitsOf(a);
    for (auto& h : o) if (!h.data.empty() && h.data.back() == '\n') h.data.pop_back();      // the parser ends crawl data with a line end
    return o;
}
static std::vector<HitRef> sorted(std::vector<HitRef> v) { std::sort(v.begin(), v.end()); return v; }
static void ask3(std::vector<std::pair<const char*, daemon::QueryHandler*>> hs, const N& q, const N* second, const std::vector<HitRef>* want, drv::Rng& r, const std::string& desc) {
    bool ids = r.coin(50);
    std::vector<HitRef> first;
    std::vector<Ans> whole;
    for (auto& h : hs) {
        whole.push_back(ask(*h.second, q, second, true, ids, 0, 100000, 100000));
        auto got = hits(*whole.back());
        CHECK(whole.back()->total == (int)got.size(), "%s: %zu hits of %s, total says %d", h.first, got.size(), show(q).c_str(), whole.back()->total);
        if (want && sorted(got) != sorted(*want)) {
            std::string a, b;
            for (auto& x : sorted(got)) a += showHit(x);
            for (auto& x : sorted(*want)) b += showHit(x);
            CHECK(false, "%s: %s: hits of %s are %.900s instead of %.900s", desc.c_str(), h.first, show(q).c_str(), a.c_str(), b.c_str());
        }
        if (whole.size() == 1) continue;
        CHECK(sorted(got) == sorted(hits(*whole[0])), "%s: %s and %s find different hits of %s (%zu, %zu)", desc.c_str(), hs[0].first, h.first, show(q).c_str(), whole[0]->answers.size(), got.size());
        auto num = [](const MwsAnswset& a) { std::string s; for (auto i : a.ids) s += " " + std::to_string(i); return s; };
        CHECK(whole.back()->ids.size() == whole[0]->ids.size(), "%s: the services name different numbers of formulae for %s:%s and%s", desc.c_str(), show(q).c_str(), num(*whole[0]).c_str(), num(*whole.back()).c_str());
        CHECK(whole.back()->qvarNames == whole[0]->qvarNames && whole.back()->qvarXpaths == whole[0]->qvarXpaths, "%s: the services name different variables for %s", desc.c_str(), show(q).c_str());
    }
    size_t n = whole[0]->answers.size(), off = r.below(n + 3), size = r.below(n + 3);
    int total = r.coin(30) ? r.below(n + 2) : 100000;
    bool inc = r.coin(85);
    for (size_t i = 0; i < hs.size(); i++) {
        auto all = hits(*whole[i]);
        auto a = ask(*hs[i].second, q, second, inc, ids, off, size, total);
        if (!inc) { CHECK(a->answers.empty(), "%s: hits although none were asked for", hs[i].first); continue; }
        if ((size_t)total < all.size()) all.resize(total);
        CHECK(a->total == (int)all.size(), "%s: total %d of %zu hits of %s, at most %d", hs[i].first, a->total, whole[i]->answers.size(), show(q).c_str(), total);
        std::vector<HitRef> win(all.begin() + std::min(off, all.size()), all.begin() + std::min(off + size, all.size()));
        auto got = hits(*a);
        CHECK(got == win, "%s: window %zu+%zu of %zu hits of %s holds other hits (%zu, not %zu)", hs[i].first, off, size, all.size(), show(q).c_str(), got.size(), win.size());
        CHECK(a->qvarNames == whole[i]->qvarNames && a->qvarXpaths == whole[i]->qvarXpaths, "%s: variables depend on the window", hs[i].first);
        CHECK(ids || a->ids.empty(), "%s: ids although none were asked for", hs[i].first);
    }
}
static void round(uint64_t seed) {
    drv::Rng r(seed);
    Gen g{r};
    HarvesterConfiguration cfg;
    cfg.encoding.renameCi = r.coin(25);
    cfg.shouldIgnoreData = r.coin(20);
    bool plain = !cfg.encoding.renameCi;
    if (!plain) g.pvar = g.panon = g.prange = 0;
    std::string in = drv::dir + "/harvests", out = drv::dir + "/index", desc = drv::fmt("seed=%llu%s%s:", (unsigned long long)seed, plain ? "" : " renamed", cfg.shouldIgnoreData ? " data ignored" : "");
    rmTree(in);
    rmTree(out);
    mkdir(in.c_str(), 0700);
    cfg.paths.push_back(in);
    std::vector<N> docs;
    std::map<std::string, Formula> all;
    int uri = 0;
    for (int f = 0, nf = 1 + r.below(3); f < nf; f++) {
        std::string x = "<?xml version=\"1.0\"?><mws:harvest xmlns:mws=\"http://search.mathweb.org/ns\">";
        std::map<std::string, std::string> have;
        for (int e = r.below(6) + (f == 0); e--;) {
            if (r.coin(30)) {
                std::string id = std::to_string(r.below(3)), v = "page" + std::to_string(r.next() % 100);
                x += "<mws:data mws:data_id=\"" + id + "\">" + v + "</mws:data>";
                have[id] = v;
            }
            std::string id, u = "u" + std::to_string(uri++);
            x += "<mws:expr url=\"" + u + "\"";
            if (r.coin(70)) { id = std::to_string(r.below(3)); x += " mws:data_id=\"" + id + "\""; }
            N n = g.tree(r.below(4));
            if (!docs.empty() && r.coin(30)) n = anySub(r, docs[r.below(docs.size())]);
            wellFormed(n);
            docs.push_back(n);
            x += ">" + xml(n) + "</mws:expr>";
            std::vector<std::pair<const N*, std::string>> ss;
            Corpus::subs(n, "/*[1]", ss);
            std::set<std::string> seen;
            for (auto& p : ss) {
                auto tk = tokens(*p.first);
                std::string k = keyOf(tk, 0, tk.size());
                if (!seen.insert(k).second) continue;
                all[k].t = tk;
                all[k].hits.push_back({u, p.second, !cfg.shouldIgnoreData && have.count(id) ? have[id] : ""});
            }
        }
        put(in + "/f" + std::to_string(f) + ".harvest", x + "</mws:harvest>");
        if (desc.size() < 5000) desc += " " + x.substr(std::min<size_t>(x.size(), 75), 900);
    }
    drv::kase(desc);
    IndexConfiguration ic;
    ic.harvester = cfg;
    ic.dataPath = out;
    ic.deleteOldData = false;
    CHECK(createCompressedIndex(ic) == 0, "the index cannot be created");
    HarvestQueryHandler h(cfg);
    IndexQueryHandler::Config qc;
    qc.encoding = cfg.encoding;
    std::unique_ptr<IndexQueryHandler> x(new IndexQueryHandler(out, qc));
    for (int i = 0; i < 30; i++) {
        if (i == 15) { x.reset(); x.reset(new IndexQueryHandler(out, qc)); }
        N q = generalise(r, anySub(r, docs[r.below(docs.size())]), r.below(40), 1 + r.below(4), plain ? 50 : 0);
        if (r.coin(10)) q = g.tree(2);
        if (r.coin(4)) { q.tag = "unheard-of"; }
        if (r.coin(4)) { N w; w.tag = "apply"; for (int k = 0; k < 20 + (int)r.below(20); k++) { N v; v.tag = "mws:qvar"; v.text = "w" + std::to_string(k); w.kids.push_back(v); } q = w; }
        std::vector<HitRef> want;
        std::set<std::string> vars;
        std::function<void(const N&)> count = [&](const N& n) { if (n.var()) vars.insert(n.name()); for (auto& k : n.kids) count(k); };
        count(q);
        bool known = vars.size() <= 31;
        if (known)
            for (auto& p : all) {
                size_t at = 0;
                std::map<std::string, std::string> s;
                if (matches(q, p.second.t, at, s) && at == p.second.t.size()) want.insert(want.end(), p.second.hits.begin(), p.second.hits.end());
            }
        N other = g.tree(1);
        ask3({{"the service over harvests", &h}, {"the service over the index", x.get()}}, q, r.coin(10) ? &other : nullptr, plain && known ? &want : nullptr, r, desc);
    }
    x.reset();
    rmTree(in);
    rmTree(out);
}
int main(int argc, char** argv) {
    drv::init(argc, argv);
    for (uint64_t i = 0; drv::more(); i++) round(drv::seed * 1000003 + i);
    return drv::finish("random harvests (with crawl data, repeated subexpressions, renamed identifiers) and queries (generalised from them, unknown symbols, too many variables, several expressions) on the service over the harvests and on the one over the index written of them, closed and opened again");
}
