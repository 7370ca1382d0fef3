#include <climits>
// Query documents through readMwsQuery, in both modes, against an independent account: options, limits, expressions; broken documents.
#include "xmldoc.hpp"
#include <limits.h>
#include "common/utils/getBoolType.hpp"
#include "mws/types/Query.hpp"
#include "mws/xmlparser/readMwsQuery.hpp"
#include "mws/xmlparser/MwsJsonResponseFormatter.hpp"
#include "mws/xmlparser/MwsXmlResponseFormatter.hpp"
#include "mws/xmlparser/MwsIdsResponseFormatter.hpp"
#include "mws/xmlparser/SchemaXmlResponseFormatter.hpp"
#include "mws/xmlparser/SchemaJsonResponseFormatter.hpp"
using namespace mws::xmlparser;
using namespace mws::parser;
using mws::types::Query;
typedef const Query::ResponseFormatter* Fmt;
struct Want {
    size_t size = 30, min = 0;
    bool req = true, hits = true, ids = true;
    int total = 100000, depth = 3, warnings = 0;
    char mode = 'A';
    const Query::ResponseFormatter* fmt;
    std::vector<string> trees;
};
static string number(long& v) {
    switch (R->below(7)) {
    case 0: v = R->below(10); break;
    case 5: v = (R->coin(50) ? 1 : -1) * (R->coin(50) ? (1L << R->range(30, 62)) + R->range(-3, 3) : LONG_MAX); break;
    case 1: v = R->range(95, 105); break;
    case 2: v = R->range(11990, 12010); break;
    case 3: v = R->range(250, 260); break;
    case 4: v = R->coin(50) ? INT_MAX : R->below(INT_MAX); break;
    default: v = -(long)R->below(5); break;
    }
    string s = v == LONG_MAX ? "1" + string(30, '0') : std::to_string(v);
    v = std::max<long>(INT_MIN, std::min<long>(INT_MAX, v));
    if (R->coin(10)) s = " " + s;
    if (R->coin(10)) s += R->coin(50) ? "x" : " 7";
    if (R->coin(5)) { s = "many"; v = 0; }
    return s;
}
static string caps(string s) { for (auto& c : s) if (R->coin(30)) c = toupper(c); return s; }
static string fields(const Query& q) {
    return drv::fmt("answsize %zu, limitmin %zu, totalreq %d (%d), depth %d, mode %d, warnings %d, hits %d, ids %d, formatter %p, restricted %d", q.attrResultMaxSize, q.attrResultLimitMin, (int)q.attrResultTotalReq,
                    q.attrResultTotalReqNr, (int)q.max_depth, (int)q.cutoff_mode, q.warnings, (int)q.options.includeHits, (int)q.options.includeMwsIds, (const void*)q.responseFormatter, (int)q.restricted);
}
static string fields(const Want& w, bool restricted) {
    return drv::fmt("answsize %zu, limitmin %zu, totalreq %d (%d), depth %d, mode %d, warnings %d, hits %d, ids %d, formatter %p, restricted %d", w.size, w.min, (int)w.req, w.total, w.depth, (int)w.mode, w.warnings,
                    (int)w.hits, (int)w.ids, (const void*)w.fmt, (int)restricted);
}
int main(int argc, char** argv) {
    drv::init(argc, argv);
    if (!freopen("/dev/null", "w", stderr)) return 3;
    CHECK(readMwsQuery(nullptr, QUERY_MWS) == nullptr, "a query out of nothing");
    for (int n = 0; drv::more(); n++) {
        drv::Rng rng(drv::seed * 1000003 + n);
        R = &rng;
        errors = rng.coin(10);
        bool schema = rng.coin(40);
        Doc d;
        Want w;
        w.fmt = schema ? Fmt(RESPONSE_FORMATTER_SCHEMA_JSON) : Fmt(RESPONSE_FORMATTER_MWS_XML);
        if (errors) put(d, "<!DOCTYPE x SYSTEM \"nowhere.dtd\">\n");
        bool ok = !rng.coin(4), anyBad = false;
        string top = ok ? "mws:query" : pick({"query", "mws:querys", "mws:expr", "mws:harvest"});
        AV av;
        std::vector<int> order = {0, 1, 2, 3, 4, 5, 6};
        for (int i = 6; i > 0; i--) std::swap(order[i], order[rng.below(i + 1)]);
        order.resize(rng.below(8));
        for (int k : order) {
            long v = 0;
            string s;
            switch (k) {
            case 0: s = number(v); av.push_back({"answsize", s}); w.size = (size_t)(int)v; break;
            case 1: s = number(v); av.push_back({"limitmin", s}); w.min = (size_t)(int)v; break;
            case 2: {
                s = pick({"yes", "no", "1", "0", "true", "", "ye", "yess", "-1"});
                if (s == "yes" || s == "1") w.req = true;
                if (s == "no" || s == "0") w.req = false;
                av.push_back({"totalreq", caps(s)});
                break;
            }
            case 3: v = rng.coin(60) ? rng.below(256) : rng.coin(90) ? rng.below(2000000000) : (1L << 32) + rng.below(3); av.push_back({"schema_depth", std::to_string(v)}); w.depth = std::min<long>(v, INT_MAX); break;
            case 4: s = pick({"A", "R", "Relative", "x", ""}); av.push_back({"cutoff_mode", s}); w.mode = s.c_str()[0]; break;
            case 5:
                s = pick({"xml", "json", "mws-ids", "XML", "", "html"});
                av.push_back({"output", s});
                if (s == "xml") w.fmt = schema ? Fmt(RESPONSE_FORMATTER_SCHEMA_XML) : Fmt(RESPONSE_FORMATTER_MWS_XML);
                if (s == "json") w.fmt = schema ? Fmt(RESPONSE_FORMATTER_SCHEMA_JSON) : Fmt(RESPONSE_FORMATTER_MWS_JSON);
                if (s == "mws-ids" && !schema) { w.fmt = RESPONSE_FORMATTER_MWS_IDS; w.hits = false; w.ids = true; }
                break;
            default: av.push_back({pick({"xmln", "size", "answsize2", "xmlns"}), "1"}); w.warnings += 1; break;
            }
        }
        if (!ok) w = Want(), w.fmt = schema ? Fmt(RESPONSE_FORMATTER_SCHEMA_JSON) : Fmt(RESPONSE_FORMATTER_MWS_XML), w.warnings = 1;
        put(d, "<" + top + " xmlns:mws=\"http://m\" xmlns:m=\"http://n\" xmlns:mm=\"http://o\"" + attrs(av) + ">");
        d.opens.push_back(d.s.size());
        for (int m = rng.below(5); m > 0; m--) {
            string x;
            if (rng.coin(20)) put(d, text(x));
            if (rng.coin(25)) { skipped(d, 2, pick({"expr", "mws:exprs", "x", "mws:query"})); if (ok) w.warnings++; continue; }
            if (!ok) { skipped(d, 2, tag()); continue; }
            put(d, "<mws:expr" + attrs(someAttrs()) + ">");
            for (int r = rng.coin(80) ? 1 : rng.below(4); r > 0; r--) {
                bool bad = false;
                if (rng.coin(20)) put(d, text(x));
                w.trees.push_back(tree(d, rng.below(5), "/*[1]", bad));
                anyBad = anyBad || bad;
            }
            put(d, "</mws:expr>");
        }
        put(d, "</" + top + ">");
        bool whole = true;
        int how = rng.below(100);
        if (how < 15) { d.s.resize(rng.below(d.s.rfind("</") + 1)); whole = false; }                      // ends early
        else if (how < 25) { d.s.insert(d.opens[rng.below(d.opens.size())], pick({"</nosuch>", "<a b=c>", "&nosuch;", "<<", "<x><y></x>"})); whole = whole && (errors && false); }
        else if (how < 28) {                                                                              // too deep for the parser
            string deep;
            for (int i = 0; i < 400; i++) deep += "<a>";
            size_t e = d.s.rfind("</");
            d.s.insert(e, "<mws:expr>" + deep);
            whole = false;
        }
        drv::kase(string(schema ? "schema query\n" : "query\n") + d.s, !w.trees.empty());
        if (d.s.empty()) continue;
        FILE* f = fmemopen(&d.s[0], d.s.size(), "r");
        CHECK(f, "fmemopen");
        Query* q = readMwsQuery(f, schema ? QUERY_SCHEMA : QUERY_MWS);
        fclose(f);
        if (!whole || anyBad || d.anyError) { CHECK(!q, "a query is made of a broken document, with %zu expressions", q->tokens.size()); continue; }
        CHECK(q, "no query is made of a good document");
        if (q->warnings > w.warnings && errors) w.warnings = q->warnings;          // libxml2 may warn of the missing document type
        CHECK(fields(*q) == fields(w, false), "%s instead of %s", fields(*q).c_str(), fields(w, false).c_str());
        CHECK(q->tokens.size() == w.trees.size(), "%zu expressions instead of %zu", q->tokens.size(), w.trees.size());
        for (size_t i = 0; i < w.trees.size(); i++) CHECK(show(q->tokens[i]) == w.trees[i], "expression %zu is %.1500s instead of %.1500s", i, show(q->tokens[i]).c_str(), w.trees[i].c_str());
        bool r = w.size > 100 || w.min > 12000 || w.total > 12000;
        w.size = std::min(w.size, (size_t)100), w.min = std::min(w.min, (size_t)12000), w.total = std::min(w.total, 12000);
        q->applyRestrictions();
        CHECK(fields(*q) == fields(w, r), "restricted: %s instead of %s", fields(*q).c_str(), fields(w, r).c_str());
        delete q;
    }
    return drv::finish("complete query documents, and parts of them, with at least one expression");
}
