// Indexing harvests: files in directories through loadHarvests, single expressions through indexContentMath; against an account of all subexpressions.
#include "search.hpp"
#include "stores.hpp"
#include "mws/index/IndexIterator.hpp"
using namespace mws;
using namespace mws::dbc;
using namespace mws::index;
using mws::types::FormulaPath;
typedef mws::types::FormulaId Fid;
struct Store : FormulaDb {          // refuses some of the additions
    MemFormulaDb db;
    std::function<bool()> refuse;
    uint64_t accepted = 0;
    int insertFormula(const Fid& f, const CrawlId& c, const FormulaPath& p) {
        if (refuse && refuse()) return -1;
        accepted++;
        return db.insertFormula(f, c, p);
    }
    int queryFormula(const Fid& f, unsigned a, unsigned b, QueryCallback cb) { return db.queryFormula(f, a, b, cb); }
};
struct Occ { std::string uri, xpath, data; bool operator<(const Occ& o) const { return std::tie(uri, xpath, data) < std::tie(o.uri, o.xpath, o.data); } bool operator==(const Occ& o) const { return uri == o.uri && xpath == o.xpath && data == o.data; } };
struct Ref {
    std::map<std::string, std::vector<Occ>> occ;     // by encoded expression
    std::map<std::string, N> node;
    std::map<std::string, size_t> distinct;
    static bool wide(const N& n) { if (n.kids.size() > 255 && !n.var() && !n.range()) return true; for (auto& k : n.kids) if (wide(k)) return true; return false; }
    int add(const N& n, const std::string& uri, const std::string& data) {
        std::vector<std::pair<const N*, std::string>> ss;
        Corpus::subs(n, "/*[1]", ss);
        std::set<std::string> seen;
        for (auto& p : ss) {
            if (wide(*p.first)) continue;             // no code for so many arguments
            auto tk = tokens(*p.first);
            std::string k = keyOf(tk, 0, tk.size());
            if (!seen.insert(k).second) continue;
            occ[k].push_back({uri, p.second, data});
            node[k] = *p.first;
        }
        return seen.size();
    }
};
static void check(Ref& ref, TmpIndex& ix, MeaningDictionary& dict, FormulaDb& fdb, CrawlDb* cdb, bool exact, bool lineEnd, const std::string& what) {
    size_t leaves = 0, sols = 0;
    IndexIterator<TmpIndexAccessor> it(&ix);
    while (auto l = (const TmpLeafNode*)it.next()) { leaves++; sols += l->getNumSolutions(); }
    CHECK(leaves == ref.occ.size(), "%s: %zu expressions in the index instead of %zu", what.c_str(), leaves, ref.occ.size());
    std::set<Fid> ids;
    size_t total = 0;
    for (auto& p : ref.occ) {
        QueryEncoder q(&dict);
        std::vector<encoded_token_t> e;
        ExpressionEncoder::Config c;
        N& nd = ref.node[p.first];
        CHECK(q.encode(c, make(nd).get(), &e, nullptr) == 0, "%s: the symbols of %s are unknown", what.c_str(), show(nd).c_str());
        TmpLeafNode* l = ix.insertData(e);
        Fid id = TmpIndexAccessor::getFormulaId(l);
        CHECK(ids.insert(id).second, "%s: %s shares its id with another expression", what.c_str(), show(nd).c_str());
        std::vector<Occ> got, want = p.second;
        DbQueryManager m(cdb, &fdb);
        m.query(id, 0, 1 << 30, [&](const FormulaPath& fp, const CrawlData& cd) {
            std::string d = cd;
            if (lineEnd && !d.empty() && d.back() == '\n') d.pop_back();      // the parser ends crawl data with a line end
            got.push_back({fp.xmlId, fp.xpath, d});
            return 0;
        });
        std::sort(got.begin(), got.end());
        std::sort(want.begin(), want.end());
        CHECK(l->getNumSolutions() == got.size(), "%s: %s counts %u hits with %zu occurrences stored", what.c_str(), show(nd).c_str(), (unsigned)l->getNumSolutions(), got.size());
        if (exact) {
            if (got != want) {
                std::string a, b;
                for (auto& o : got) a += "(" + o.uri + "," + o.xpath + "," + o.data + ")";
                for (auto& o : want) b += "(" + o.uri + "," + o.xpath + "," + o.data + ")";
                CHECK(false, "%s: occurrences of %s are %.700s instead of %.700s", what.c_str(), show(nd).c_str(), a.c_str(), b.c_str());
            }
        } else
            CHECK(std::includes(want.begin(), want.end(), got.begin(), got.end()), "%s: %s has an occurrence that does not exist", what.c_str(), show(nd).c_str());
        total += got.size();
    }
    CHECK(total == sols, "%s: %zu occurrences, %zu counted", what.c_str(), total, sols);
}
static std::string xml(const N& n, drv::Rng& r) {
    static const char* P[] = {"", "m:"};
    std::string t = n.var() || n.range() ? n.tag : P[r.below(2)] + n.tag, s = "<" + t;
    for (auto& a : n.attrs) s += " " + a.first + "=\"" + a.second + "\"";
    s += ">" + std::string(r.coin(20) ? "\n " : "") + n.text;
    for (auto& k : n.kids) s += xml(k, r);
    return s + "</" + t + ">";
}
static N expr(drv::Rng& r, Gen& g) {
    N n = g.tree(r.below(4));
    if (r.coin(3)) { N w; w.tag = "apply"; N l = g.leaf(); for (int i = 250 + r.below(12); i--;) w.kids.push_back(l); w.kids[3] = n; N top; top.tag = "interval"; top.kids = {w, g.leaf()}; return r.coin(50) ? top : w; }
    if (!n.kids.empty() && r.coin(30)) n.kids.push_back(n.kids[r.below(n.kids.size())]);
    return n;
}
static void wellFormed(N& n) { for (auto& c : n.tag) if (c == '#') c = '.'; for (auto& k : n.kids) wellFormed(k); }
static void direct(uint64_t seed) {
    drv::Rng r(seed);
    Gen g{r};
    Ref ref;
    Store st;
    MemCrawlDb cdb;
    TmpIndex ix;
    MeaningDictionary dict;
    bool faulty = r.coin(40), crawl = r.coin(80);
    int pf = 5 + r.below(40);
    if (faulty) st.refuse = [&] { return r.coin(pf); };
    IndexBuilder b(&st, crawl ? &cdb : nullptr, &ix, &dict);
    std::string desc = drv::fmt("seed=%llu%s", (unsigned long long)seed, faulty ? " (some additions refused)" : ""), data;
    CrawlId cid = CRAWLID_NULL;
    for (int i = 0, n = 1 + r.below(8); i < n; i++) {
        if (r.coin(30)) { data = word(r); cid = b.indexCrawlData(data); desc += " data;"; CHECK(crawl == (cid != CRAWLID_NULL), "crawl data gets id %u", cid); }
        N e = expr(r, g);
        desc += " " + show(e);
        drv::kase(desc);
        uint64_t before = st.accepted;
        int want = ref.add(e, "u" + std::to_string(i), cid ? data : ""), got = b.indexContentMath(make(e).get(), "u" + std::to_string(i), cid);
        CHECK((uint64_t)got == st.accepted - before, "%d subexpressions reported, %d stored", got, (int)(st.accepted - before));
        if (!faulty) CHECK(got == want, "%d subexpressions reported, there are %d", got, want);
    }
    check(ref, ix, dict, st, crawl ? &cdb : nullptr, !faulty, false, "direct");
}
static void files(uint64_t seed) {
    drv::Rng r(seed);
    Gen g{r};
    Ref ref;
    MemFormulaDb fdb;
    MemCrawlDb cdb;
    TmpIndex ix;
    MeaningDictionary dict;
    std::string d = drv::dir + "/harvests", desc = drv::fmt("harvest files, seed=%llu", (unsigned long long)seed);
    rmTree(d);
    HarvesterConfiguration cfg;
    cfg.recursive = r.coin(60);
    cfg.shouldIgnoreData = r.coin(30);
    static const char* EXT[] = {"harvest", ".xml", "t", ""};
    std::string ext = EXT[r.below(4)];
    if (r.coin(40)) ext = cfg.fileExtension;
    cfg.fileExtension = ext;
    desc += drv::fmt(" ext=%s recursive=%d ignore data=%d", ext.c_str(), cfg.recursive, cfg.shouldIgnoreData);
    uint64_t expected = 0;
    int uri = 0;
    mkdir(d.c_str(), 0700);
    if (r.coin(20)) cfg.paths.push_back(d + "/missing");
    for (int p = 0, np = 1 + r.below(2); p < np; p++) {
        std::string top = d + "/p" + std::to_string(p);
        cfg.paths.push_back(top);
        std::vector<std::string> dirs{top};
        for (int i = r.below(4); i--;) dirs.push_back(dirs[r.below(dirs.size())] + (r.coin(15) ? "/.hid" : "/s") + std::to_string(i));
        for (auto& dd : dirs) mkdir(dd.c_str(), 0700);
        for (auto& dd : dirs)
            for (int f = 0, nf = r.below(3); f < nf; f++) {
                static const char* E[] = {".harvest", ".xml", ".harvest.txt", ".HARVEST"};
                std::string name = (r.coin(10) ? ".f" : "f") + std::to_string(f) + E[r.coin(60) ? 0 : r.below(4)];
                bool hidden = (dd + "/" + name).find("/.", d.size()) != std::string::npos;
                bool loaded = name.size() >= ext.size() && name.compare(name.size() - ext.size(), ext.size(), ext) == 0 && !hidden && (dd == top || cfg.recursive);
                std::string x = "<?xml version=\"1.0\"?><mws:harvest xmlns:mws=\"http://search.mathweb.org/ns\" xmlns:m=\"http://www.w3.org/1998/Math/MathML\">";
                std::map<std::string, std::string> have;
                for (int e = r.below(4); e--;) {
                    if (r.coin(30)) {
                        std::string id = std::to_string(r.below(4)), v = "page" + std::to_string(r.next() % 100);
                        x += "<mws:data mws:data_id=\"" + id + "\">" + v + "</mws:data>";
                        have[id] = v;
                    }
                    std::string id, u;
                    x += "\n<mws:expr";
                    if (r.coin(80)) { u = "u" + std::to_string(uri++); x += " url=\"" + u + "\""; }
                    if (r.coin(60)) { id = std::to_string(r.below(4)); x += " mws:data_id=\"" + id + "\""; }
                    x += ">";
                    for (int k = r.coin(80) ? 1 : r.below(3); k--;) {
                        N n = expr(r, g);
                        wellFormed(n);
                        x += xml(n, r);
                        if (loaded) expected += ref.add(n, u, !cfg.shouldIgnoreData && have.count(id) ? have[id] : "");
                    }
                    x += "</mws:expr>";
                }
                x += "</mws:harvest>";
                FILE* o = fopen((dd + "/" + name).c_str(), "w");
                fwrite(x.data(), 1, x.size(), o);
                fclose(o);
                if (desc.size() < 4000) desc += " " + (dd + "/" + name).substr(d.size()) + ": " + x.substr(0, 500);
            }
    }
    drv::kase(desc, expected > 0);
    IndexBuilder b(&fdb, &cdb, &ix, &dict);
    uint64_t got = loadHarvests(&b, cfg);
    rmTree(d);
    CHECK(got == expected, "%llu expressions loaded instead of %llu", (unsigned long long)got, (unsigned long long)expected);
    check(ref, ix, dict, fdb, &cdb, true, true, "harvest files");
}
int main(int argc, char** argv) {
    drv::init(argc, argv);
    uint64_t s = drv::seed * 1000003;
    int i = 0;
    do { ++s; if (i++ % 3 == 2) files(s); else direct(s); } while (drv::more());
    return drv::finish("random expressions (repeated and nested subexpressions, too many arguments, refused additions) and trees of harvest files, against an account of all subexpressions");
}
