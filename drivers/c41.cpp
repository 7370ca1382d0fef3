// Writing an index is stopped at any of its effects (the process ends, or the call fails), over no, an older, or a broken older index; what is in the
// directory afterwards is either refused or answers as the complete new index (or as the older one, untouched).
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <dlfcn.h>
#include <errno.h>
#include <stdarg.h>
#include <sys/uio.h>
#include "search.hpp"
#include "stores.hpp"
#include "mws/daemon/IndexQueryHandler.hpp"
#include "mws/index/IndexWriter.hpp"
using namespace mws;
using namespace mws::index;
using mws::daemon::IndexQueryHandler;
using mws::types::Query;
enum { STOP, STOP_FLUSHED, STOP_HALF, REFUSE, MODES };
struct Ctl { long count, at; int mode; char what[32]; };
static Ctl* C;
static bool live;
template <typename F> static F real(F, const char* n) { return (F)dlsym(RTLD_NEXT, n); }
// 0: go on, 1: fail, 2: do half of it and stop
static int effect(const char* what) {
    if (!live || !C) return 0;
    long k = __sync_fetch_and_add(&C->count, 1);
    if (k != C->at) return 0;
    strncpy(C->what, what, sizeof C->what - 1);
    if (C->mode == STOP_FLUSHED) { live = false; fflush(nullptr); }
    if (C->mode == STOP || C->mode == STOP_FLUSHED) _exit(77);
    return C->mode == STOP_HALF ? 2 : 1;
}
// a formula that the databases refuse to store is skipped by design: their writes are only stopped
static bool database(int fd) {
    char l[64], p[4096];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, p, sizeof p - 1);
    return n > 0 && (p[n] = 0, strstr(p, ".db/") != nullptr);
}
#define FAILED (errno = ENOSPC, -1)
extern "C" {
ssize_t write(int fd, const void* b, size_t n) {
    static auto f = real(&::write, "write");
    int e = fd > 2 ? effect("write") : 0;
    if (e == 1 && database(fd)) _exit(77);
    if (e == 1) return FAILED;
    if (e == 2) { (void)!f(fd, b, n / 2); _exit(77); }
    return f(fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int n) {
    static auto f = real(&::writev, "writev");
    int e = fd > 2 ? effect("writev") : 0;
    if (e == 1 && database(fd)) _exit(77);
    if (e == 1) return FAILED;
    if (e == 2) { (void)!f(fd, v, n / 2); _exit(77); }
    return f(fd, v, n);
}
size_t fwrite(const void* b, size_t s, size_t n, FILE* o) {
    static auto f = real(&::fwrite, "fwrite");
    int e = o != stdout && o != stderr ? effect("fwrite") : 0;
    if (e == 1) { o->_flags |= 0x20; (void)FAILED; return 0; }    // as the C library does: the error is noted in the stream
    if (e == 2) { live = false; f(b, 1, s * n / 2, o); fflush(o); _exit(77); }
    return f(b, s, n, o);
}
int fclose(FILE* o) {
    static auto f = real(&::fclose, "fclose");
    int e = effect("fclose");
    if (e == 1) { f(o); return FAILED; }
    if (e == 2) { f(o); _exit(77); }
    return f(o);
}
int fseek(FILE* o, long off, int w) {
    static auto f = real(&::fseek, "fseek");
    int e = effect("fseek");
    if (e == 1) return FAILED;
    if (e == 2) { f(o, off, w); _exit(77); }
    return f(o, off, w);
}
FILE* fopen(const char* p, const char* m) {
    static auto f = real(&::fopen, "fopen");
    int e = m[0] != 'r' ? effect("fopen") : 0;
    if (e == 1) { (void)FAILED; return nullptr; }
    if (e == 2) { f(p, m); _exit(77); }
    return f(p, m);
}
FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
int unlink(const char* p) {
    static auto f = real(&::unlink, "unlink");
    int e = effect("unlink");
    if (e == 1) { errno = EACCES; return -1; }
    if (e == 2) { f(p); _exit(77); }
    return f(p);
}
int rename(const char* a, const char* b) {
    static auto f = real(&::rename, "rename");
    int e = effect("rename");
    if (e == 1) return FAILED;
    if (e == 2) { f(a, b); _exit(77); }
    return f(a, b);
}
int mkdir(const char* p, mode_t m) {
    static auto f = real(&::mkdir, "mkdir");
    int e = effect("mkdir");
    if (e == 1) return FAILED;
    if (e == 2) { f(p, m); _exit(77); }
    return f(p, m);
}
int rmdir(const char* p) {
    static auto f = real(&::rmdir, "rmdir");
    int e = effect("rmdir");
    if (e == 1) { errno = EACCES; return -1; }
    if (e == 2) { f(p); _exit(77); }
    return f(p);
}
}
static std::string esc(const std::string& s) { std::string o; for (char c : s) o += c == '<' ? "&lt;" : c == '&' ? "&amp;" : c == '"' ? "&quot;" : std::string(1, c); return o; }
static std::string xml(const N& n) {
    std::string s = "<" + n.tag;
    for (auto& a : n.attrs) s += " " + a.first + "=\"" + esc(a.second) + "\"";
    s += ">" + esc(n.text);
    for (auto& k : n.kids) s += xml(k);
    return s + "</" + n.tag + ">";
}
static void wellFormed(N& n) { for (auto& c : n.tag) if (c == '#') c = '.'; for (auto& k : n.kids) wellFormed(k); }
static void put(const std::string& f, const std::string& x) { FILE* o = fopen(f.c_str(), "w"); fwrite(x.data(), 1, x.size(), o); fclose(o); }
// what a loaded index says to some queries; "" if it is refused
static std::string answers(const std::string& dir, const std::vector<N>& qs) {
    std::string s;
    try {
        IndexQueryHandler h(dir, IndexQueryHandler::Config());
        s = "index";
        for (auto& q : qs) {
            Query m;
            m.tokens.push_back(make(q).release());
            m.options.includeHits = true;
            m.attrResultLimitMin = 0;
            m.attrResultMaxSize = 100000;
            m.attrResultTotalReqNr = 100000;
            std::unique_ptr<MwsAnswset> a(static_cast<MwsAnswset*>(h.handleQuery(&m)));
            auto v = hitsOf(*a);
            std::sort(v.begin(), v.end());
            s += drv::fmt("; %zu hits:", v.size());
            for (auto& x : v) s += showHit(x);
        }
    } catch (const std::exception&) {
        return "";
    }
    return s;
}
static std::vector<N> harvest(drv::Rng& r, const std::string& dir, const char* tag, int n) {
    Gen g{r};
    std::vector<N> docs;
    g.pvar = g.panon = g.prange = 0;
    rmTree(dir);
    mkdir(dir.c_str(), 0700);
    std::string x = "<?xml version=\"1.0\"?><mws:harvest xmlns:mws=\"http://search.mathweb.org/ns\">";
    x += std::string("<mws:data mws:data_id=\"d\">") + tag + "</mws:data>";
    while (n--) {
        N e = g.tree(1 + r.below(3));
        wellFormed(e);
        x += "<mws:expr url=\"" + std::string(tag) + std::to_string(n) + "\"" + (r.coin(60) ? " mws:data_id=\"d\"" : "") + ">" + xml(e) + "</mws:expr>";
        docs.push_back(e);
    }
    put(dir + "/a.harvest", x + "</mws:harvest>");
    return docs;
}
static IndexConfiguration conf(const std::string& in, const std::string& out, bool del) {
    IndexConfiguration ic;
    ic.harvester.paths.push_back(in);
    ic.dataPath = out;
    ic.deleteOldData = del;
    return ic;
}
static void copyTree(const std::string& from, const std::string& to) {
    rmTree(to);
    std::string c = "cp -a " + from + " " + to;
    CHECK(system(c.c_str()) == 0, "cannot copy");
}
// 0: it reports success, 1: failure, 2: it was stopped
static int run(const IndexConfiguration& ic, long at, int mode) {
    C->count = 0;
    C->at = at;
    C->mode = mode;
    C->what[0] = 0;
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
        int n = open("/dev/null", O_WRONLY);
        dup2(n, 1);
        dup2(n, 2);
        live = true;
        int rc = 1;
        try { rc = createCompressedIndex(ic); } catch (...) { rc = 1; }
        live = false;
        _exit(rc == 0 ? 0 : 1);
    }
    int st = 0;
    CHECK(waitpid(p, &st, 0) == p, "waitpid");
    if (!WIFEXITED(st)) return 2;
    return WEXITSTATUS(st) == 77 ? 2 : WEXITSTATUS(st);
}
static void round(uint64_t seed) {
    drv::Rng r(seed);
    std::string inA = drv::dir + "/old", inB = drv::dir + "/new", A = drv::dir + "/index.old", B = drv::dir + "/index.new", out = drv::dir + "/index", empty = drv::dir + "/none";
    auto da = harvest(r, inA, "old", 1 + r.below(5)), db = harvest(r, inB, "new", 1 + r.below(r.coin(20) ? 60 : 6));
    std::vector<N> qs;
    N any;
    any.tag = "mws:qvar";
    any.text = "x";
    qs.push_back(any);
    for (auto* d : {&da, &db})
        for (auto& n : *d) if (qs.size() < 8) qs.push_back(n);
    rmTree(A); rmTree(B);
    drv::kase(drv::fmt("seed=%llu undisturbed", (unsigned long long)seed));
    // each by a process of its own, as mws-index does: formulae are numbered from 1 in each
    CHECK(run(conf(inA, A, false), -1, STOP) == 0 && run(conf(inB, B, false), -1, STOP) == 0, "an index cannot be written");
    std::string sa = answers(A, qs), sb = answers(B, qs);
    CHECK(sa != "" && sb != "" && sa != sb, "the indexes written are refused, or answer alike");
    rmTree(empty);
    mkdir(empty.c_str(), 0700);
    for (int before = 0; before < 6; before++)
        for (int del = 0; del < 2; del++) {
            if (!drv::more()) return;
            static const char* parts[] = {"crawl.db", "formula.db", "meanings.dat", "index.memsector"};
            int gone = before < 2 ? 0 : before == 2 ? 8 : before == 3 ? 9 + r.below(7) : 1 + r.below(15);
            std::string was = before == 0 ? "no directory" : before == 1 ? "an older index" : "an older index without";
            for (int i = 0; i < 4; i++) if (gone >> i & 1) was += std::string(" ") + parts[i];
            auto prepare = [&] {
                rmTree(out);
                if (before == 0) return;
                copyTree(A, out);
                for (int i = 0; i < 4; i++) {
                    if (!(gone >> i & 1)) continue;
                    std::string p = out + "/" + parts[i];
                    rmTree(p);
                    unlink(p.c_str());
                }
            };
            std::string ctx = drv::fmt("seed=%llu over %s%s", (unsigned long long)seed, was.c_str(), del ? ", which is to be deleted" : "");
            auto look = [&](int rc, const std::string& how) {
                std::string s = answers(out, qs);
                CHECK(s == "" || s == sb || (before == 1 && s == sa), "%s: %s leaves an index that is neither the complete new one nor the older one: %.600s instead of %.600s", ctx.c_str(), how.c_str(), s.c_str(), sb.c_str());
                CHECK(rc != 0 || s == sb, "%s: %s reports success, but the index is %s", ctx.c_str(), how.c_str(), s == "" ? "refused" : "the older one");
                if (before == 1 && !del) CHECK(s == sa && rc != 0, "%s: %s does not keep the older index", ctx.c_str(), how.c_str());
            };
            prepare();
            drv::kase(ctx + " undisturbed");
            int rc = run(conf(inB, out, del), -1, STOP);
            long n = C->count;
            look(rc, "an undisturbed run");
            CHECK(rc == 0 || (before && !del), "%s: an undisturbed run fails", ctx.c_str());
            if (r.coin(30)) {
                prepare();
                int e = run(conf(empty, out, del), -1, STOP);
                CHECK(e != 0, "%s: success without any expression", ctx.c_str());
                look(e, "a run without harvests");
            }
            std::vector<long> ks;
            for (long k = 0; k < n; k++) ks.push_back(k);
            for (size_t i = 0; i < ks.size(); i++) std::swap(ks[i], ks[i + r.below(ks.size() - i)]);
            size_t few = drv::thorough ? ks.size() : std::min<size_t>(ks.size(), 14);
            // the last effects are always among them
            for (size_t i = 0; i < few && drv::more(); i++) {
                long k = i < few / 3 ? n - 1 - (long)r.below(std::min<long>(n, 8)) : ks[i];
                int mode = r.below(MODES);
                prepare();
                drv::kase(drv::fmt("%s, effect %ld of %ld, mode %d", ctx.c_str(), k, n, mode));
                rc = run(conf(inB, out, del), k, mode);
                static const char* how[] = {"stopping before", "stopping, with what is buffered written, before", "stopping in the middle of", "failing of"};
                look(rc, drv::fmt("%s effect %ld of %ld (%s)", how[mode], k + 1, n, C->what));
                if (r.coin(25)) {
                    rc = run(conf(inB, out, true), -1, STOP);
                    CHECK(rc == 0 && answers(out, qs) == sb, "%s: after %s effect %ld (%s), indexing anew over what is left fails", ctx.c_str(), how[mode], k + 1, C->what);
                }
            }
        }
}
int main(int argc, char** argv) {
    drv::init(argc, argv);
    C = (Ctl*)mmap(nullptr, sizeof(Ctl), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (uint64_t i = 0; drv::more(); i++) round(drv::seed * 1000003 + i);
    return drv::finish("indexing runs stopped before, after or in the middle of one of their writes, or with one of them failing, over no index, an older one, or one of whose parts is missing, with and without deleting it");
}
