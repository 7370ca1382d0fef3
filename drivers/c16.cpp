// The HTTP service: the real daemon on a loopback port, asked over real connections with bodies in pieces of all sizes.
#include <arpa/inet.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/socket.h>
#include <poll.h>
#include <stdexcept>
#include <thread>
#include <mutex>
#include <atomic>
#include <memory>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#include "drv.hpp"
#include "common/utils/compiler_defs.h"
#include "mws/types/Query.hpp"
#include "mws/daemon/Daemon.hpp"
#include "mws/daemon/SchemaQueryHandler.hpp"
#include "mws/xmlparser/xmlparser.hpp"
using std::string;
using mws::types::Query;
// ---- a handler that shows what it was asked, and a formatter that writes a document of any length
struct Shown : mws::GenericAnswer { string doc; int fail = 0; };
struct Echo : Query::ResponseFormatter {
    const char* ct;
    Echo(const char* c) : ct(c) {}
    const char* getContentType() const { return ct; }
    int writeData(const mws::GenericAnswer* a, FILE* o) const {
        auto s = static_cast<const Shown*>(a);
        if (s->fail == 1) { fwrite(s->doc.data(), 1, s->doc.size() / 2, o); return -1; }
        if (s->fail == 2) throw std::runtime_error("no answer can be written");
        fwrite(s->doc.data(), 1, s->doc.size(), o);
        return s->doc.size();
    }
};
static Echo echoes[] = {{"text/plain"}, {"application/xml"}, {"application/x-echo; charset=utf-8"}};
static string tree(const mws::types::CmmlToken* t) {
    string s = "(" + t->getTag();
    if (!t->getAttribute("id").empty()) s += " id=" + t->getAttribute("id");
    s += "|" + t->getTextContent();
    for (auto k : t->getChildNodes()) s += tree(k);
    return s + ")";
}
static string docOf(const Query* q) {          // a document that tells the query, and may hold any byte
    string s = drv::fmt("%zu from %zu:", q->attrResultMaxSize, q->attrResultLimitMin);
    for (auto t : q->tokens) s += tree(t);
    size_t n = q->max_depth;
    for (size_t i = 0; i < n; i++) s += (char)(i * 7 + (i >> 8));
    return s;
}
struct Handler : mws::daemon::QueryHandler {
    mws::GenericAnswer* handleQuery(Query* q) {
        char m = q->cutoff_mode;
        if (m == 'N') return nullptr;
        if (m == 'T') throw std::runtime_error("no answer");
        auto a = new Shown;
        a->doc = m == 'E' ? "" : docOf(q);
        a->fail = m == 'F' ? 1 : m == 'W' ? 2 : 0;
        q->responseFormatter = &echoes[q->attrResultLimitMin % 3];
        return a;
    }
};
// ---- the client
struct Resp { int status = 0; std::multimap<string, string> head; string body; bool complete = false; string raw; };
static int freePort() {
    int s = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a;
    memset(&a, 0, sizeof a);
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    bind(s, (sockaddr*)&a, sizeof a);
    socklen_t l = sizeof a;
    getsockname(s, (sockaddr*)&a, &l);
    close(s);
    return ntohs(a.sin_port);
}
static int port;
static int conn() {
    for (int k = 0; k < 200; k++) {
        int s = socket(AF_INET, SOCK_STREAM, 0);
        sockaddr_in a;
        memset(&a, 0, sizeof a);
        a.sin_family = AF_INET;
        a.sin_port = htons(port);
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        int one = 1;
        setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
        timeval tv = {20, 0};
        setsockopt(s, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
        setsockopt(s, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv);
        if (::connect(s, (sockaddr*)&a, sizeof a) == 0) return s;
        close(s);
        usleep(10000);
    }
    return -1;
}
static bool sendAll(int s, const string& d) {
    size_t at = 0;
    while (at < d.size()) {
        ssize_t n = send(s, d.data() + at, d.size() - at, MSG_NOSIGNAL);
        if (n <= 0) return false;
        at += n;
    }
    return true;
}
static string lower(string s) { for (auto& c : s) c = tolower(c); return s; }
// reads one response from a connection; buf keeps what is left over
static Resp readResp(int s, string& buf, bool isHead) {
    Resp r;
    size_t h;
    auto fill = [&]() { char b[65536]; ssize_t n = recv(s, b, sizeof b, 0); if (n <= 0) return false; buf.append(b, n); return true; };
    for (;;) {
        while ((h = buf.find("\r\n\r\n")) == string::npos) if (!fill()) { r.raw = buf; return r; }
        r = Resp();
        r.status = atoi(buf.c_str() + 9);
        size_t p = buf.find("\r\n") + 2;
        while (p < h) {
            size_t e = buf.find("\r\n", p), c = buf.find(':', p);
            string v = buf.substr(c + 1, e - c - 1);
            while (!v.empty() && v[0] == ' ') v.erase(0, 1);
            r.head.insert({lower(buf.substr(p, c - p)), v});
            p = e + 2;
        }
        if (r.status != 100) break;
        buf.erase(0, h + 4);
    }
    buf.erase(0, h + 4);
    if (isHead) { r.complete = true; return r; }
    auto it = r.head.find("content-length");
    if (it == r.head.end()) {
        while (fill()) {}
        r.body.swap(buf);
        r.complete = true;
        return r;
    }
    size_t n = strtoull(it->second.c_str(), 0, 10);
    while (buf.size() < n) if (!fill()) { r.body = buf; return r; }
    r.body = buf.substr(0, n);
    buf.erase(0, n);
    r.complete = true;
    return r;
}
static string head(const Resp& r, const char* k) { auto i = r.head.find(k); return i == r.head.end() ? "(none)" : i->second; }
// ---- requests and what the service must answer to them
struct Req { string method, url, body, want, wantType; int status; bool hasBody, expect100; string allow; char mode; };
static string number(drv::Rng& r) { return std::to_string(r.below(100)); }
static string query(drv::Rng& r, Req& q, size_t bulk) {
    // the expected document is told from the same description, not from the parser
    size_t size = r.below(1000), min = r.below(1000), depth = r.coin(60) ? r.below(300) : r.below(200000);
    char mode = "ANTFWE"[r.coin(70) ? 0 : r.below(6)];
    string s = "<?xml version=\"1.0\"?>\n<mws:query xmlns:mws=\"http://search.mathweb.org/ns\" xmlns:m=\"http://www.w3.org/1998/Math/MathML\"";
    s += drv::fmt(" answsize=\"%zu\" limitmin=\"%zu\" schema_depth=\"%zu\" cutoff_mode=\"%c\">", size, min, depth, mode);
    q.want = drv::fmt("%zu from %zu:", size, min);
    int ne = r.coin(10) ? 0 : 1 + r.below(2);
    for (int e = 0; e < ne; e++) {
        s += "<mws:expr>";
        string t;
        std::function<string(int)> el = [&](int d) {
            static const char* T[] = {"m:apply", "m:ci", "m:cn", "m:plus"};
            string tag = T[d ? r.below(4) : 1 + r.below(3)], text, att;
            for (size_t i = r.below(8); i--;) text += 'a' + r.below(26);
            s += "<" + tag;
            if (r.coin(30)) { att = " id=k" + number(r); s += " id=\"" + att.substr(4) + "\""; }
            s += ">";
            s += text;
            string o = "(" + tag.substr(2) + att + "|" + text;
            for (int i = d ? r.below(3) : 0; i--;) o += el(d - 1);
            s += "</" + tag + ">";
            return o + ")";
        };
        if (e == 0 && bulk) {
            s += "<m:apply>";
            t = "(apply|";
            while (s.size() < bulk) t += el(2);
            s += "</m:apply>";
            t += ")";
        } else t = el(3);
        q.want += t;
        s += "</mws:expr>";
    }
    for (size_t i = 0; i < depth; i++) q.want += (char)(i * 7 + (i >> 8));
    if (r.coin(30)) { s += "<!-- "; for (size_t i = r.below(3000); i--;) s += " x\n"[r.below(3)]; s += " -->"; }
    s += "</mws:query>";
    q.status = 200;
    q.mode = mode;
    q.wantType = echoes[min % 3].ct;
    if (mode == 'E') q.want = "";
    if (ne == 0) q.status = 400;
    else if (mode != 'A' && mode != 'E') q.status = 500;
    return s;
}
static const string INFO = "<?xml version=\"1.0\"?>\n<mws:info xmlns:mws=\"http://search.mathweb.org/ns\">";
static Req request(drv::Rng& r, bool schema) {
    Req q;
    q.mode = 'A';
    q.url = r.coin(60) ? "/" : r.coin(50) ? "/search" : "//";
    q.hasBody = q.expect100 = false;
    q.status = 0;
    int k = r.below(20);
    if (k >= 5) {
        q.method = "POST";
        q.hasBody = true;
        int w = r.below(20);
        if (w == 0) q.body = "";
        else q.body = query(r, q, w < 10 ? 0 : w < 16 ? r.below(5000) : w < 19 ? r.below(100000) : r.below(1500000));
        if (w == 0) q.status = 400;
        if (w && r.coin(12)) {                  // a damaged document
            q.status = 400;
            if (r.coin(50)) q.body.resize(r.below(q.body.size()));
            else q.body[q.body.rfind("</mws:query")] = '(';
        }
        if (w && q.status != 400 && r.coin(6)) { string u = "\xFF\xFE"; for (char c : q.body) { u += c; u += '\0'; } q.body = u; }      // UTF-16: zero bytes in the body
        q.expect100 = r.coin(5);
        if (schema && q.status != 400) { q.status = 200; q.mode = 's'; }
    } else {
        static const char* M[] = {"GET", "HEAD", "PUT", "DELETE", "OPTIONS"};
        q.method = M[r.below(5)];
        bool root = q.url == "/";
        q.allow = root ? "GET, POST, OPTIONS" : "POST, OPTIONS";
        if (q.method == "GET" && root) { q.status = 200; q.want = INFO + "MathWebSearch Daemon listening</mws:info>"; q.allow = ""; }
        else if (q.method == "OPTIONS") q.status = 200;
        else { q.status = 405; q.want = INFO + "Method not allowed</mws:info>"; }
        if (q.method == "PUT" && r.coin(50)) { q.hasBody = true; q.body = string(r.below(2000), 'x'); }
    }
    if (q.status == 400) q.want = INFO + "Bad query request</mws:info>", q.wantType = "text/xml";
    if (q.status == 500) q.want = INFO + "Server error</mws:info>", q.wantType = "text/xml";
    if (q.status == 405 || (q.method == "GET")) q.wantType = "text/xml";
    if (q.method == "HEAD") q.want = "";
    return q;
}
static string show(const Req& q) { return q.method + " " + q.url + drv::fmt(" body of %zu bytes: ", q.body.size()) + q.body.substr(0, 700); }
static string wrong(const Req& q, const Resp& p, bool schema) {
    if (!p.complete) return drv::fmt("no complete response (status %d, %zu bytes, raw %s)", p.status, p.body.size(), p.raw.substr(0, 200).c_str());
    if (p.status != q.status) return drv::fmt("status %d instead of %d", p.status, q.status);
    if (schema && q.mode == 's') return p.body.find("\"total\"") == string::npos && p.body.find("schemata") == string::npos ? "not a schema response: " + p.body.substr(0, 300) : "";
    if (p.body != q.want) {
        size_t d = 0;
        while (d < p.body.size() && d < q.want.size() && p.body[d] == q.want[d]) d++;
        return drv::fmt("body of %zu bytes instead of %zu, different from byte %zu: ", p.body.size(), q.want.size(), d) + p.body.substr(d > 40 ? d - 40 : 0, 160) + " instead of " + q.want.substr(d > 40 ? d - 40 : 0, 160);
    }
    if (!q.wantType.empty() && head(p, "content-type") != q.wantType) return "content type " + head(p, "content-type") + " instead of " + q.wantType;
    if (q.method == "OPTIONS" && head(p, "access-control-allow-methods") != q.allow) return "methods " + head(p, "access-control-allow-methods") + " instead of " + q.allow;
    if (q.status == 405 && head(p, "allow") != q.allow) return "methods allowed: " + head(p, "allow") + " instead of " + q.allow;
    if (p.head.count("content-length") > 1) return "two lengths";
    return "";
}
// sends a request in pieces; the body with its length, or chunked
static bool sendReq(int s, drv::Rng& r, const Req& q, size_t upto = (size_t)-1) {
    string h = q.method + " " + q.url + " HTTP/1.1\r\nHost: localhost\r\n", b;
    bool chunked = q.hasBody && r.coin(30);
    if (q.hasBody) h += chunked ? "Transfer-Encoding: chunked\r\n" : "Content-Length: " + std::to_string(q.body.size()) + "\r\n";
    if (q.hasBody && r.coin(50)) h += "Content-Type: text/xml\r\n";
    h += "\r\n";
    std::vector<string> out;
    size_t at = 0;
    if (r.coin(30)) { size_t c = r.below(h.size()); out.push_back(h.substr(0, c)); h = h.substr(c); }
    if (r.coin(50)) { out.push_back(h); h = ""; }
    size_t piece = r.coin(40) ? 1 + r.below(50) : r.coin(60) ? 1 + r.below(5000) : 1 + r.below(400000);
    if (q.body.size() / piece > 300) piece = q.body.size() / 300 + 1;
    while (at < q.body.size()) {
        size_t n = std::min(q.body.size() - at, 1 + (size_t)r.below(piece));
        out.push_back(h + (chunked ? drv::fmt("%zx\r\n", n) + q.body.substr(at, n) + "\r\n" : q.body.substr(at, n)));
        h = "";
        at += n;
    }
    if (chunked) out.push_back(h + "0\r\n\r\n"), h = "";
    if (!h.empty()) out.push_back(h);
    size_t sent = 0;
    for (auto& o : out) {
        if (sent >= upto) return true;
        if (!sendAll(s, o.substr(0, upto == (size_t)-1 ? string::npos : upto - sent))) return false;
        sent += o.size();
        if (r.coin(8)) usleep(r.below(600));
    }
    return true;
}
static void one(drv::Rng& r, bool schema) {
    int s = conn();
    CHECK(s >= 0, "the daemon does not accept connections");
    string buf;
    for (int k = r.coin(60) ? 1 : 1 + r.below(5); k--;) {
        Req q = request(r, schema);
        drv::kase((schema ? "schema service: " : "") + show(q), q.status == 200 && q.hasBody);
        sendReq(s, r, q);                 // a refused request may be answered before all of it was sent
        Resp p = readResp(s, buf, q.method == "HEAD");
        string w = wrong(q, p, schema);
        CHECK(w.empty(), "%s", w.c_str());
        if (head(p, "connection") == "close" || q.status == 405 || q.method == "OPTIONS" || q.method == "GET") break;
    }
    close(s);
}
static void together(drv::Rng& r) {        // several clients at once, each gets the answers to its own requests
    std::mutex m;
    string bad;
    std::vector<std::thread> th;
    int n = 2 + r.below(8);
    drv::kase(drv::fmt("%d clients at once, seed=%llu", n, (unsigned long long)r.s));
    for (int i = 0; i < n; i++) {
        uint64_t sd = r.next();
        th.emplace_back([&, sd] {
            drv::Rng q(sd);
            for (int k = 0; k < 4; k++) {
                int s = conn();
                if (s < 0) { std::lock_guard<std::mutex> l(m); bad = "no connection"; return; }
                Req rq = request(q, false);
                string buf;
                sendReq(s, q, rq);
                Resp p = readResp(s, buf, rq.method == "HEAD");
                close(s);
                string w = wrong(rq, p, false);
                if (!w.empty()) { std::lock_guard<std::mutex> l(m); bad = w + " for " + show(rq); return; }
            }
        });
    }
    for (auto& t : th) t.join();
    CHECK(bad.empty(), "%s", bad.c_str());
}
static size_t settled(size_t goal) {      // bytes in use once the daemon has finished what it does
    size_t best = (size_t)-1;
    int same = 0;
    for (int i = 0; i < 1000 && best > goal; i++) {
        size_t now = __sanitizer_get_current_allocated_bytes();
        same = now == best ? same + 1 : 0;
        best = std::min(best, now);
        if (goal == 0 && same >= 10) break;
        usleep(4000);
    }
    return best;
}
static void leaks(drv::Rng& r, bool abort) {
    const int n = 60;
    const size_t each = 30000;
    for (int i = 0; i < 5; i++) { Req q = request(r, false); int s = conn(); string b; sendReq(s, r, q); readResp(s, b, q.method == "HEAD"); close(s); }
    drv::kase(drv::fmt("%d requests of %zu bytes%s, seed=%llu", n, each, abort ? ", each abandoned before its end" : "", (unsigned long long)r.s));
    size_t before = settled(0);
    for (int i = 0; i < n; i++) {
        Req q;
        q.method = "POST";
        q.url = "/";
        q.hasBody = true;
        q.body = query(r, q, each);
        int s = conn();
        CHECK(s >= 0, "the daemon does not accept connections");
        sendReq(s, r, q, abort ? 600 + each - r.below(each / 2) : (size_t)-1);
        string b;
        if (!abort) readResp(s, b, false);
        else usleep(2000);
        close(s);
    }
    size_t after = settled(before + n * each / 10);
    CHECK(after < before + n * each / 4, "%zu bytes more in use after %d requests of %zu bytes are over%s", after - before, n, each, abort ? " (each abandoned by its client)" : "");
}
static void refused() {
    drv::kase("a daemon without a handler");
    bool threw = false;
    try { mws::daemon::Daemon d(nullptr, mws::daemon::Daemon::Config()); } catch (std::exception&) { threw = true; }
    CHECK(threw, "a daemon without a handler starts");
}
int main(int argc, char** argv) {
    drv::init(argc, argv);
    drv::caseLimit = 100;
    if (!freopen("/dev/null", "w", stderr)) return 3;
    mws::parser::initxmlparser();
    refused();
    uint64_t sd = drv::seed * 1000003;
    for (int round = 0; round == 0 || drv::more(); round++) {
        bool schema = round % 4 == 3;
        mws::daemon::Daemon::Config c;
        std::unique_ptr<mws::daemon::Daemon> d;
        for (int k = 0; k < 20 && !d; k++) {
            c.port = port = freePort();
            try { d.reset(new mws::daemon::Daemon(schema ? (mws::daemon::QueryHandler*)new mws::daemon::SchemaQueryHandler() : new Handler(), c)); } catch (std::exception&) { if (k == 19) throw; }
        }
        double t0 = drv::elapsed();
        if (!schema) { drv::Rng r(++sd); leaks(r, round % 2 == 0); }
        int i = 0;
        while (drv::elapsed() - t0 < (schema ? 0.7 : 2.5)) {
            drv::Rng r(++sd);
            if (!schema && i++ % 60 == 30) together(r);
            else one(r, schema);
        }
    }
    return drv::finish("requests over loopback connections (bodies in pieces and chunks, repeated, damaged, abandoned, concurrent), against a description of each request");
}
