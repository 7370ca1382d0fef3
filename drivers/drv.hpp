// Shared scaffolding of the concrete drivers: case bookkeeping, random source, reporting.
#ifndef VP_DRV_HPP
#define VP_DRV_HPP
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cstdint>
#include <ctime>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <functional>
#include <algorithm>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>

namespace drv {
static const size_t NOTE = 1 << 20;
static char* noteBuf = nullptr;      // mmapped: survives a crash of the driver
static uint64_t seed = 1;
static double budget = 10;
static std::string dir = ".";        // scratch directory owned by this run
static bool thorough = false;
static uint64_t evals = 0;
static std::set<uint64_t> distinctSet;
static std::vector<std::string> samples;
static timespec t0;
static int caseLimit = 60;

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 77) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint32_t below(uint32_t n) { return n ? next() % n : 0; }
    int range(int a, int b) { return a + (int)below(b - a + 1); }
    bool coin(int pct) { return (int)below(100) < pct; }
};

inline double elapsed() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (t.tv_sec - t0.tv_sec) + 1e-9 * (t.tv_nsec - t0.tv_nsec);
}
inline bool more() { return elapsed() < budget; }

inline void putNote(const std::string& s) {
    size_t n = std::min(s.size(), NOTE - 1);
    memcpy(noteBuf, s.data(), n);
    noteBuf[n] = 0;
}
inline uint64_t fnv(const std::string& s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h;
}
// Announces the case about to run. `nontrivial` says whether it counts as one.
inline void kase(const std::string& desc, bool nontrivial = true) {
    evals++;
    putNote(desc);
    if (nontrivial) {
        if (distinctSet.size() < 2000000) distinctSet.insert(fnv(desc));
        if (samples.size() < 3 || (samples.size() < 6 && evals % 1000 == 0))
            samples.push_back(desc.substr(0, 400));
    }
    alarm(caseLimit);
}
inline std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        char b[8];
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}
static bool known(const std::string& key);
static void fail(const char* fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
static void fail(const char* fmt, ...) {
    va_list ap;
    char b[8192];
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    fflush(stdout);
    printf("\nFAIL %s\n", b);
    fflush(stdout);
    _exit(1);
}
// Reports a failing case under a stable key; cases listed as known findings are only counted.
static std::set<std::string> knownKeys, knownSeen;
static bool known(const std::string& key) {
    if (!knownKeys.count(key)) return false;
    if (knownSeen.insert(key).second) printf("KNOWN %s\n", key.c_str());
    return true;
}
static void onAlarm(int) {
    static const char m[] = "\nFAIL the case did not finish within its time limit\n";
    ssize_t r = write(1, m, sizeof m - 1);
    (void)r;
    _exit(1);
}
inline void init(int argc, char** argv) {
    clock_gettime(CLOCK_MONOTONIC, &t0);
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--seed") seed = strtoull(argv[++i], 0, 10);
        else if (a == "--budget") budget = atof(argv[++i]);
        else if (a == "--dir") dir = argv[++i];
        else if (a == "--thorough") thorough = true;
        else if (a == "--known") knownKeys.insert(argv[++i]);
    }
    int fd = open((dir + "/case.txt").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (fd < 0 || ftruncate(fd, NOTE) != 0) { perror("case.txt"); _exit(3); }
    noteBuf = (char*)mmap(0, NOTE, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    signal(SIGALRM, onAlarm);
    signal(SIGPIPE, SIG_IGN);
}
inline int finish(const char* rule) {
    alarm(0);
    std::string o = "STATS {\"evaluations\": " + std::to_string(evals) +
                    ", \"distinct_nontrivial\": " + std::to_string(distinctSet.size()) +
                    ", \"rule\": " + jstr(rule) + ", \"samples\": [";
    for (size_t i = 0; i < samples.size(); i++) o += (i ? ", " : "") + jstr(samples[i]);
    printf("\n%s]}\n", o.c_str());
    fflush(stdout);
    return 0;
}
inline std::string fmt(const char* f, ...) {
    va_list ap;
    char b[4096];
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}
}  // namespace drv
#define CHECK(c, ...) do { if (!(c)) drv::fail(__VA_ARGS__); } while (0)
#endif
