// Harvest documents through processHarvestFromFd, against an independent account of what they hold: expressions, data and their ids,
// elements to be skipped, documents that end early or are malformed, recoverable errors, processors that refuse.
#include "xmldoc.hpp"
#include <fcntl.h>
#include "mws/xmlparser/processMwsHarvest.hpp"
using namespace mws::parser;
using mws::dbc::CrawlId;
// the inside of a data element -> what is to be kept of it
static string inside(Doc& d, int depth) {
    string o;
    for (int n = R->below(4); n >= 0; n--) {
        if (R->coin(60)) {
            string t, s = text(t);
            if (blank(t)) continue;
            put(d, s);
            o += textEsc(t);
        }
        if (errors && R->coin(3)) { put(d, "&undefined;"); d.anyError = true; }
        if (depth > 0 && R->coin(50)) {
            string t = tag();
            AV av = someAttrs();
            string a;
            for (auto& p : av) a += " " + p.first + "=\"" + attrEsc(p.second) + "\"";
            put(d, "<" + t + attrs(av));
            if (R->coin(20)) { put(d, "/>"); o += "<" + t + a + "/>"; continue; }
            put(d, ">");
            d.opens.push_back(d.s.size());
            string in = inside(d, depth - 1);
            put(d, "</" + t + ">");
            o += in.empty() ? "<" + t + a + "/>" : "<" + t + a + ">" + in + "</" + t + ">";
        }
    }
    return o;
}
static Doc document() {
    Doc d;
    put(d, R->coin(50) ? "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n" : "");
    if (errors) put(d, "<!DOCTYPE x SYSTEM \"nowhere.dtd\">\n");
    bool ok = !R->coin(4);
    string top = ok ? "mws:harvest" : pick({"harvest", "mws:harvests", "mws:expr", "mws:query"});
    put(d, "<" + top + " xmlns:mws=\"http://m\" xmlns:m=\"http://n\" xmlns:mm=\"http://o\"" + (R->coin(20) ? " other=\"1\"" : "") + ">");
    d.opens.push_back(d.s.size());
    for (int n = R->below(9); n > 0; n--) {
        string x;
        if (R->coin(30)) put(d, text(x));
        if (errors && R->coin(3)) { put(d, "&undefined;"); d.anyError = true; }
        int w = R->below(10);
        string did = pick({"1", "2", "x", "4711", ""});
        if (!ok && R->coin(50)) { skipped(d, 2, tag()); continue; }
        if (w < 5) {
            string uri = strip(word(false)).substr(0, 12);
            while (!uri.empty() && (unsigned char)uri.back() >= 0x80) uri.pop_back();
            AV av;
            bool u = R->coin(80), di = R->coin(60);
            if (u) av.push_back({"url", uri});
            if (di) av.push_back({"mws:data_id", did});
            if (R->coin(15)) av.push_back({pick({"id", "uri", "data_id"}), "7"});
            if (R->coin(30)) std::reverse(av.begin(), av.end());
            if (R->coin(8)) { put(d, "<mws:expr" + attrs(av) + "/>"); continue; }
            put(d, "<mws:expr" + attrs(av) + ">");
            d.opens.push_back(d.s.size());
            for (int r = R->coin(70) ? 1 : R->below(4); r > 0; r--) {
                string y;
                if (R->coin(20)) put(d, text(y));
                bool bad = false;
                string t = tree(d, R->below(5), "/*[1]", bad);
                d.anyError = d.anyError || bad;
                if (ok) d.ev.push_back({0, t, u ? uri : "", "", d.s.size(), bad, di ? did : ""});
            }
            put(d, "</mws:expr>");
        } else if (w < 8) {
            AV av;
            bool di = R->coin(90);
            if (di) av.push_back({"mws:data_id", did});
            if (R->coin(15)) av.push_back({pick({"url", "id"}), "7"});
            if (!di || did == "") { put(d, "<mws:data" + attrs(av) + ">"); d.opens.push_back(d.s.size()); inside(d, 2); put(d, "</mws:data>"); continue; }
            if (R->coin(8)) { put(d, "<mws:data" + attrs(av) + "/>"); if (ok) d.ev.push_back({1, "", "", "\n", d.s.size(), false, did}); continue; }
            put(d, "<mws:data" + attrs(av) + ">");
            d.opens.push_back(d.s.size());
            string in = inside(d, R->below(4));
            put(d, "</mws:data>");
            if (ok) d.ev.push_back({1, "", "", in + "\n", d.s.size(), false, did});
        } else
            skipped(d, 2, pick({"expr", "mws:exprs", "x", "m:data", "mws:harvest"}));
    }
    put(d, "</" + top + ">");
    if (R->coin(30)) put(d, "\n<!-- end -->\n");
    return d;
}
struct Proc : HarvestProcessor {
    std::vector<string> log;
    std::vector<int> rets;           // answers, in order of the calls
    std::vector<CrawlId> ids;
    size_t e = 0, c = 0;
    int processExpression(const CmmlToken* t, const string& uri, const CrawlId& id) {
        log.push_back("expression " + show(t) + " url=" + uri + " data=" + std::to_string(id));
        return rets[e++ % rets.size()];
    }
    CrawlId processData(const string& s) {
        log.push_back("data " + s);
        return ids[c++ % ids.size()];
    }
};
int main(int argc, char** argv) {
    drv::init(argc, argv);
    if (!freopen("/dev/null", "w", stderr)) return 3;
    string f = drv::dir + "/h.xml";
    for (int n = 0; drv::more(); n++) {
        drv::Rng rng(drv::seed * 1000003 + n);
        R = &rng;
        errors = rng.coin(15);
        Doc d = document();
        size_t limit = d.s.size();
        bool whole = true;
        int how = rng.below(100);
        if (!errors && how < 25) {                       // ends early
            size_t close = d.s.rfind("</");
            limit = rng.below(close + 1);
            d.s.resize(limit);
            whole = false;
        } else if (!errors && how < 40 && !d.opens.empty()) {       // malformed from some element on
            limit = d.opens[rng.below(d.opens.size())];
            d.s.insert(limit, pick({"</nosuch>", "<a b=c>", "&nosuch;", "<<", "<x><y></x>"}));
            whole = false;
        }
        bool data = rng.coin(75);
        Proc p;
        for (int i = rng.range(1, 5); i > 0; i--) p.rets.push_back(rng.coin(20) ? -1 : (int)rng.below(7));
        for (int i = rng.range(1, 5); i > 0; i--) p.ids.push_back(rng.coin(20) ? 0 : 1 + rng.below(1000));
        drv::kase("process data: " + std::to_string(data) + "\n" + d.s, !d.ev.empty());
        std::vector<string> want;
        std::map<string, CrawlId> ids;
        size_t e = 0, c = 0;
        uint64_t count = 0;
        for (auto& v : d.ev) {
            if (v.end > limit || v.bad) continue;
            if (v.kind == 0) {
                auto it = ids.find(v.did);
                want.push_back("expression " + v.tree + " url=" + v.uri + " data=" + std::to_string(it == ids.end() || v.did.empty() ? 0 : it->second));
                int r = p.rets[e++ % p.rets.size()];
                if (r != -1) count += r;
            } else if (data) {
                want.push_back("data " + v.data);
                CrawlId id = p.ids[c++ % p.ids.size()];
                if (id) ids[v.did] = id;
            }
        }
        int fd = open(f.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
        CHECK(fd >= 0 && write(fd, d.s.data(), d.s.size()) == (ssize_t)d.s.size() && lseek(fd, 0, SEEK_SET) == 0, "cannot write the document");
        HarvestResult r = processHarvestFromFd(fd, &p, data);
        close(fd);
        for (size_t i = 0; i < std::max(want.size(), p.log.size()); i++) {
            CHECK(i < p.log.size(), "call %zu is missing: %.1500s", i, want[i].c_str());
            CHECK(i < want.size(), "call %zu should not be: %.1500s", i, p.log[i].c_str());
            if (p.log[i] != want[i]) {
                size_t k = 0;
                while (k < want[i].size() && k < p.log[i].size() && want[i][k] == p.log[i][k]) k++;
                k = k > 60 ? k - 60 : 0;
                CHECK(false, "call %zu differs: %s...%.500s instead of ...%.500s", i, p.log[i].substr(0, 30).c_str(), p.log[i].c_str() + k, want[i].c_str() + k);
            }
        }
        CHECK(r.numExpressions == count, "%llu expressions counted instead of %llu", (unsigned long long)r.numExpressions, (unsigned long long)count);
        CHECK((r.status == 0) == whole, "status %d for a %s document", r.status, whole ? "complete" : "broken");
    }
    return drv::finish("harvest documents with at least one expression or data element inside mws:harvest");
}
