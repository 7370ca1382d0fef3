// A damaged or incomplete index image is never accepted; a failed write is always reported.
#include "drv.hpp"
#include <sys/resource.h>
#include "mws/index/TmpIndex.hpp"
#include "mws/index/IndexAccessor.hpp"
#include "mws/index/IndexWriter.hpp"
#include "mws/index/IndexLoader.hpp"
#include "mws/index/memsector.h"
#include "crc32/crc32/crc32.h"
#include "exprs.hpp"
#include "build-gen/config.h"
using namespace mws;
using namespace mws::index;
static std::string slurp(const std::string& p) {
    std::string s;
    FILE* f = fopen(p.c_str(), "rb");
    if (!f) return s;
    char b[65536];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
    fclose(f);
    return s;
}
static void spit(const std::string& p, const std::string& d) {
    FILE* f = fopen(p.c_str(), "wb");
    fwrite(d.data(), 1, d.size(), f);
    fclose(f);
}
static std::string F;
static uint32_t refcrc(const std::string& d, size_t from) {
    uint32_t c = ~0u;
    for (size_t i = from; i < d.size(); i++) {
        c ^= (unsigned char)d[i];
        for (int k = 0; k < 8; k++) c = (c & 1) ? (c >> 1) ^ 0xEDB88320u : c >> 1;
    }
    return ~c;
}
static bool accepted(const std::string& d) {
    spit(F, d);
    memsector_handle_t h;
    memset(&h, 0, sizeof h);
    bool ok = memsector_load(&h, F.c_str()) == 0;
    if (ok) {
        CHECK((const char*)memsector_get_root(&h) >= h.mmap_handle.start_addr + sizeof(memsector_header_t) && (const char*)memsector_get_root(&h) < h.mmap_handle.start_addr + d.size(), "the root of an accepted image is outside it");
        memsector_unload(&h);
    }
    return ok;
}
static void put32(std::string& d, size_t at, uint32_t v) { memcpy(&d[at], &v, 4); }
static void put64(std::string& d, size_t at, uint64_t v) { memcpy(&d[at], &v, 8); }
static void round(uint64_t seed, bool wide) {
    drv::Rng r(seed);
    TmpIndex ix;
    int n = 1 + r.below(wide ? 400 : 8);
    for (int i = 0; i < n; i++) {
        Expr e;
        gen(r, e, r.below(4), 1 + r.below(wide ? 200 : 4), 1 + r.below(3), r.below(3));
        ix.insertData(e);
    }
    std::string file = drv::dir + "/good";
    memsector_writer_t w;
    CHECK(memsector_create(&w, file.c_str()) == 0, "image file cannot be created");
    int rc = ix.exportToMemsector(&w);
    std::string g = slurp(file);
    drv::kase(drv::fmt("seed=%llu image of %zu bytes, untouched", (unsigned long long)seed, g.size()), n > 1);
    CHECK(rc == 0, "a complete write is reported as failed");
    CHECK(accepted(g), "an intact image is rejected");
    const size_t H = sizeof(memsector_header_t);
    memsector_header_t hd;
    memcpy(&hd, g.data(), H);
    CHECK(g.size() == H + hd.index_size, "the file has %zu bytes, header and data have %zu", g.size(), (size_t)(H + hd.index_size));
    CHECK(hd.checksum == refcrc(g, H), "the stored checksum is not the CRC-32 of the data");
    for (int k = 0; k < 40; k++) {
        size_t len = k == 0 ? g.size() - 1 : k == 1 ? H : k == 2 ? H - 1 : k == 3 ? H + 1 : k == 4 ? 1 : r.below(g.size());
        if (len == 0) continue;
        std::string d = g.substr(0, len);
        drv::kase(drv::fmt("seed=%llu image of %zu bytes cut to %zu", (unsigned long long)seed, g.size(), len));
        CHECK(!accepted(d), "an image of %zu bytes cut to %zu is accepted", g.size(), len);
    }
    drv::kase("empty file");
    CHECK(!accepted(""), "an empty file is accepted");
    for (int k = 0; k < 60; k++) {
        std::string d = g;
        size_t at = H + (k == 0 ? 0 : k == 1 ? g.size() - H - 1 : r.below(g.size() - H));
        unsigned char x = k % 3 ? 1u << r.below(8) : 1 + r.below(255);
        d[at] ^= x;
        drv::kase(drv::fmt("seed=%llu image of %zu bytes, byte %zu xor %u", (unsigned long long)seed, g.size(), at, x));
        CHECK(!accepted(d), "an image with data byte %zu of %zu changed is accepted", at, g.size());
    }
    // bytes swapped, zeroed block, burst
    for (int k = 0; k < 20 && g.size() - H > 8; k++) {
        std::string d = g;
        size_t at = H + r.below(g.size() - H - 4), len = 1 + r.below(4);
        for (size_t i = 0; i < len; i++) d[at + i] = k % 2 ? 0 : r.below(256);
        if (d == g) continue;
        drv::kase(drv::fmt("seed=%llu image of %zu bytes, burst at %zu", (unsigned long long)seed, g.size(), at));
        CHECK(!accepted(d), "an image with data bytes %zu.. of %zu changed is accepted", at, g.size());
    }
    // header fields
    for (int k = 0; k < 40; k++) {
        std::string d = g;
        uint64_t v = 0;
        const char* what = "";
        switch (k % 8) {
        case 0: what = "magic"; v = hd.magic ^ (1u << r.below(32)); put32(d, 0, v); break;
        case 1: what = "version"; v = k < 8 ? 0 : k < 16 ? 2 : hd.version ^ (1u << r.below(32)); put32(d, 4, v); break;
        case 2: what = "size (larger)"; v = hd.index_size + 1 + (k < 8 ? 0 : k < 16 ? (1ull << 32) : r.next() % (1ull << (8 + r.below(54)))); put64(d, 8, v); break;
        case 3: what = "size (wraps)"; v = (k < 12 ? ~0ull : 0ull - 1 - r.below(1 << 20)); put64(d, 8, v); break;
        case 4: what = "checksum"; v = hd.checksum ^ (1u << r.below(32)); put32(d, 16, v); break;
        case 5: what = "root (after the end)"; v = (H + hd.index_size) / 4 + (k < 8 ? 0 : r.next() % (1ull << (1 + r.below(60)))); put64(d, 20, v); break;
        case 6: what = "root (in the header)"; v = r.below(H / 4); put64(d, 20, v); break;
        default: what = "root (wraps)"; v = (1ull << 62) + hd.root_off + (k < 10 ? 0 : (1ull << 63)); put64(d, 20, v); break;
        }
        drv::kase(drv::fmt("seed=%llu image of %zu bytes, header %s set to %llu", (unsigned long long)seed, g.size(), what, (unsigned long long)v));
        CHECK(!accepted(d), "an image whose header %s is %llu is accepted", what, (unsigned long long)v);
    }
    // a shorter declared size leaves data outside the checksum
    { std::string d = g; put64(d, 8, hd.index_size - 4); drv::kase(drv::fmt("seed=%llu declared size 4 short", (unsigned long long)seed)); CHECK(!accepted(d), "an image with a declared size 4 bytes short is accepted"); }
    // the disk is full after k bytes
    struct rlimit old, lim;
    getrlimit(RLIMIT_FSIZE, &old);
    for (int k = 0; k < 12; k++) {
        size_t cap = k == 0 ? 0 : k == 1 ? g.size() - 1 : k == 2 ? H : r.below(g.size());
        drv::kase(drv::fmt("seed=%llu image of %zu bytes, the file system takes only %zu", (unsigned long long)seed, g.size(), cap));
        lim = old;
        lim.rlim_cur = cap;
        unlink(file.c_str());
        setrlimit(RLIMIT_FSIZE, &lim);
        int ok = 0;
        if (memsector_create(&w, file.c_str()) == 0) ok = ix.exportToMemsector(&w) == 0;
        setrlimit(RLIMIT_FSIZE, &old);
        CHECK(!ok, "writing %zu bytes where only %zu fit is reported as success", g.size(), cap);
    }
    unlink(file.c_str());
}
// images whose records are of any size (wide nodes have 12-byte entries)
static void records(uint64_t seed) {
    drv::Rng r(seed);
    std::string file = drv::dir + "/good";
    memsector_writer_t w;
    CHECK(memsector_create(&w, file.c_str()) == 0, "image file cannot be created");
    memsector_long_off_t leaf = memsector_write_leaf(&w, 1, 1), at = leaf;
    int n = 1 + r.below(6);
    for (int i = 0; i < n; i++) {
        uint32_t kids = 1 + r.below(4);
        inode_long_t in;
        in.type = LONG_INTERNAL_NODE;
        in.size = kids;
        at = memsector_get_current_offset(&w);
        memsector_write(&w, &in, sizeof in);
        for (uint32_t k = 0; k < kids; k++) {
            encoded_token_dict_entry_long_t e;
            e.token = encoded_token(200 + k, 0);
            e.off = r.coin(50) ? r.next() : at - leaf;
            memsector_write(&w, &e, sizeof e);
        }
        if (r.coin(30)) { std::string b(4 * (1 + r.below(300)), 'x'); for (auto& ch : b) ch = r.below(256); memsector_write(&w, &b[0], b.size()); }
    }
    drv::kase(drv::fmt("seed=%llu image of %d wide nodes", (unsigned long long)seed, n), true);
    CHECK(memsector_save(&w, at) == 0, "a complete write is reported as failed");
    std::string g = slurp(file);
    const size_t H = sizeof(memsector_header_t);
    CHECK(accepted(g), "an intact image is rejected");
    for (size_t i = 0; i < g.size() - H; i++) {
        size_t b = g.size() - 1 - i;
        if (i > 16 && r.below(g.size()) > 40) continue;
        std::string d = g;
        d[b] ^= 1u << r.below(8);
        drv::kase(drv::fmt("seed=%llu image of %zu bytes in wide nodes, byte %zu changed", (unsigned long long)seed, g.size(), b));
        CHECK(!accepted(d), "an image with data byte %zu of %zu changed is accepted", b, g.size());
    }
    unlink(file.c_str());
}
static void indexer() {   // the indexing run as a whole
    std::string base = drv::dir + "/ix", hv = drv::dir + "/hv";
    mkdir(hv.c_str(), 0700);
    spit(hv + "/a.harvest", "<?xml version=\"1.0\"?>\n<mws:harvest xmlns:mws=\"http://search.mathweb.org/ns\" xmlns:m=\"http://www.w3.org/1998/Math/MathML\">"
         "<mws:data mws:data_id=\"1\"><id>d</id></mws:data><mws:expr url=\"u\" mws:data_id=\"1\"><m:apply><m:plus/><m:ci>x</m:ci><m:cn>1</m:cn></m:apply></mws:expr></mws:harvest>\n");
    const char* blocked[] = {"", INDEX_MEMSECTOR_FILE, MEANING_DICTIONARY_FILE};
    for (int k = 0; k < 3; k++) {
        std::string d = base + std::to_string(k);
        drv::kase(drv::fmt("indexing run, '%s' cannot be written", blocked[k]));
        mkdir(d.c_str(), 0700);
        if (k) mkdir((d + "/" + blocked[k]).c_str(), 0700);
        IndexConfiguration c;
        c.dataPath = d;
        c.harvester.paths.push_back(hv);
        c.harvester.fileExtension = "harvest";
        int rc = createCompressedIndex(c);
        if (k) CHECK(rc != 0, "an indexing run that could not write %s reports success", blocked[k]);
        else {
            CHECK(rc == 0, "a normal indexing run fails");
            IndexLoader l(d, LoadingOptions());
            std::string img = slurp(d + "/" + INDEX_MEMSECTOR_FILE);
            for (int t = 0; t < 3; t++) {
                std::string x = img;
                if (t == 0) x.resize(img.size() - 4);
                else if (t == 1) x[img.size() - 1] ^= 1;
                else x[0] ^= 1;
                spit(d + "/" + INDEX_MEMSECTOR_FILE, x);
                bool threw = false;
                try { IndexLoader l2(d, LoadingOptions()); } catch (std::exception&) { threw = true; }
                CHECK(threw, "an index directory with a damaged image opens");
            }
        }
    }
}
int main(int argc, char** argv) {
    drv::init(argc, argv);
    signal(SIGXFSZ, SIG_IGN);
    F = drv::dir + "/img";
    indexer();
    for (uint64_t i = 0; drv::more(); i++) { if (i % 4 == 2) records(drv::seed * 1000003 + i); else round(drv::seed * 1000003 + i, i % 5 == 4); }
    return drv::finish("images written from random indexes, then cut, altered (data bits, bursts, header fields) or written to a full file system; non-trivial: every damaged variant");
}
