// The exported image answers every lookup and traversal like the in-memory index it was written from.
#include "drv.hpp"
#include "mws/index/TmpIndex.hpp"
#include "mws/index/TmpIndexAccessor.hpp"
#include "mws/index/IndexAccessor.hpp"
#include "mws/index/IndexIterator.hpp"
#include "mws/index/memsector.h"
#include "exprs.hpp"
struct Tester {
    static void hits(mws::index::TmpLeafNode* l, unsigned n) { l->solutions = n; }
};
using namespace mws;
using namespace mws::index;
typedef TmpIndexAccessor TA;
typedef IndexAccessor IA;

static drv::Rng* R;
static void cmp(TmpIndex* ix, const index_handle_t* h, const TmpIndexNode* a, const inode_t* b, int open, std::string path, std::vector<encoded_token_t>& pool) {
    if (open == 0) {
        CHECK(b->type == LEAF_NODE, "after [%s] the image has no leaf", path.c_str());
        CHECK(TA::getFormulaId(a) == IA::getFormulaId(b), "id at [%s]: %llu in the image, %llu in memory", path.c_str(), (unsigned long long)IA::getFormulaId(b), (unsigned long long)TA::getFormulaId(a));
        CHECK(TA::getHitsCount(a) == IA::getHitsCount(b), "hits at [%s]: %llu in the image, %llu in memory", path.c_str(), (unsigned long long)IA::getHitsCount(b), (unsigned long long)TA::getHitsCount(a));
        return;
    }
    CHECK(b->type == INTERNAL_NODE || b->type == LONG_INTERNAL_NODE, "after [%s] the image has no inner node", path.c_str());
    std::map<uint64_t, std::pair<encoded_token_t, const TmpIndexNode*>> ref;
    auto ita = TA::getChildrenIterator(a);
    while (ita.isValid()) {
        ref[key1(TA::getToken(ita))] = {TA::getToken(ita), TA::getNode(ix, ita)};
        ita.next();
    }
    auto itb = IA::getChildrenIterator(b);
    size_t n = 0;
    std::set<uint64_t> seen;
    while (itb.isValid()) {
        encoded_token_t t = IA::getToken(itb);
        CHECK(ref.count(key1(t)), "image has child %u/%u after [%s], memory has not", (unsigned)t.id, (unsigned)t.arity, path.c_str());
        CHECK(seen.insert(key1(t)).second, "image lists a child twice after [%s]", path.c_str());
        CHECK(IA::getArity(itb) == t.arity, "arity of a listed child after [%s]", path.c_str());
        CHECK(IA::getChild(h, b, t) == IA::getNode(h, itb), "lookup and listing disagree on %u/%u after [%s]", (unsigned)t.id, (unsigned)t.arity, path.c_str());
        itb.next();
        n++;
    }
    CHECK(n == ref.size(), "image lists %zu of %zu children after [%s]", n, ref.size(), path.c_str());
    for (auto& t : pool) {
        bool has = ref.count(key1(t));
        CHECK((IA::getChild(h, b, t) != nullptr) == has, "image %s child %u/%u after [%s]", has ? "loses" : "invents", (unsigned)t.id, (unsigned)t.arity, path.c_str());
    }
    for (auto& p : ref) {
        encoded_token_t t = p.second.first;
        const inode_t* c = IA::getChild(h, b, t);
        CHECK(c != nullptr, "image loses child %u/%u after [%s]", (unsigned)t.id, (unsigned)t.arity, path.c_str());
        std::string np = path;
        if (np.size() < 600) np += show(Expr(1, t));
        cmp(ix, h, p.second.second, c, open + (int)t.arity - 1, np, pool);
    }
}
static void round(uint64_t seed, bool big) {
    drv::Rng r(seed);
    R = &r;
    int ids = 1 + r.below(big ? 300 : 5), maxar = 1 + r.below(3), depth = r.below(4), style = r.below(3);
    int n = 1 + r.below(big ? 500 : 14);
    TmpIndex ix;
    std::vector<Expr> all;
    std::string desc = drv::fmt("seed=%llu exprs:", (unsigned long long)seed);
    std::map<std::vector<uint64_t>, TmpLeafNode*> leaves;
    std::vector<encoded_token_t> pool;
    for (int i = 0; i < n; i++) {
        Expr e;
        if (r.coin(8)) chain(r, e, 2 + r.below(40), 1 + r.below(3));
        else gen(r, e, depth, ids, maxar, style);
        all.push_back(e);
        if (desc.size() < 3000) desc += " [" + show(e) + "]";
        if (pool.size() < 40) for (auto& t : e) { pool.push_back(t); pool.push_back(tk(t.id, t.arity + 1)); pool.push_back(tk(t.id + 1, t.arity)); if (pool.size() > 40) break; }
    }
    drv::kase(desc, n > 1);
    for (auto& e : all) {
        TmpLeafNode* l = ix.insertData(e);
        leaves[key(e)] = l;
    }
    for (auto& p : leaves) Tester::hits(p.second, r.coin(10) ? (1u << r.below(30)) : 1 + r.below(50));
    std::string file = drv::dir + "/image";
    memsector_writer_t w;
    CHECK(memsector_create(&w, file.c_str()) == 0, "image file cannot be created");
    ix.exportToMemsector(&w);
    CHECK(w.ms.index_size == ix.computeMemsectorSize(), "predicted image size %llu, written %llu", (unsigned long long)ix.computeMemsectorSize(), (unsigned long long)w.ms.index_size);
    memsector_handle_t mh;
    CHECK(memsector_load(&mh, file.c_str()) == 0, "the image just written does not load");
    index_handle_t h;
    h.ms = mh.ms;
    h.root = memsector_get_root(&mh);
    const inode_t* root = IA::getRootNode(&h);
    cmp(&ix, &h, TA::getRootNode(&ix), root, 1, "", pool);
    // whole-image enumeration
    IndexIterator<IA> it(&h);
    std::set<std::vector<uint64_t>> seen;
    while (auto node = it.next()) {
        Expr e;
        for (auto& p : it.getPath()) e.push_back(IA::getToken(p));
        auto k = key(e);
        CHECK(leaves.count(k), "enumerating the image yields [%s], never inserted", show(e).c_str());
        CHECK(IA::getFormulaId(node) == TA::getFormulaId(leaves[k]), "enumerating the image pairs [%s] with another id", show(e).c_str());
        CHECK(seen.insert(k).second, "enumerating the image yields [%s] twice", show(e).c_str());
    }
    CHECK(seen.size() == leaves.size(), "enumerating the image yields %zu of %zu expressions", seen.size(), leaves.size());
    memsector_unload(&mh);
    unlink(file.c_str());
}
// A node whose children lie 2^32 allocation units apart (sparse file: nothing in between).
static void farApart(uint64_t gap) {
    drv::kase(drv::fmt("node whose children lie %llu bytes apart", (unsigned long long)gap));
    std::string file = drv::dir + "/far";
    memsector_writer_t w;
    CHECK(memsector_create(&w, file.c_str()) == 0, "image file cannot be created");
    memsector_long_off_t a = memsector_write_leaf(&w, 7, 70);
    if (fseeko(w.file, w.offset + gap, SEEK_SET) != 0) return;
    w.offset += gap;
    memsector_long_off_t b = memsector_write_leaf(&w, 8, 80);
    memsector_long_off_t cur = memsector_write_inode_begin(&w, 2, a);
    memsector_write_inode_encoded_token_entry(&w, tk(200, 0), cur - a);
    memsector_write_inode_encoded_token_entry(&w, tk(201, 0), cur - b);
    memsector_write_inode_end(&w);
    uint64_t size = w.offset;
    if (memsector_save(&w, cur) != 0) { unlink(file.c_str()); return; }
    int fd = open(file.c_str(), O_RDONLY);
    struct stat st;
    fstat(fd, &st);
    if ((uint64_t)st.st_size != size) { close(fd); unlink(file.c_str()); return; }  // this file system has no room
    void* m = mmap(0, size, PROT_READ, MAP_SHARED | MAP_NORESERVE, fd, 0);
    close(fd);
    if (m == MAP_FAILED) { unlink(file.c_str()); return; }
    index_handle_t h;
    memsector_handle_t mh;
    mh.ms = h.ms = (memsector_header_t*)m;
    h.root = memsector_get_root(&mh);
    const inode_t* root = IA::getRootNode(&h);
    CHECK((const char*)root >= (const char*)m && (const char*)root < (const char*)m + size, "the root of a large image is outside it");
    const inode_t* ca = IA::getChild(&h, root, tk(200, 0));
    const inode_t* cb = IA::getChild(&h, root, tk(201, 0));
    CHECK(ca && cb, "a child of a large image is lost");
    CHECK((const char*)ca >= (const char*)m && (const char*)ca < (const char*)m + size, "a far child is outside the image");
    CHECK(ca->type == LEAF_NODE && IA::getFormulaId(ca) == 70 && IA::getHitsCount(ca) == 7, "the far child is not the leaf written");
    CHECK(cb->type == LEAF_NODE && IA::getFormulaId(cb) == 80 && IA::getHitsCount(cb) == 8, "the near child is not the leaf written");
    CHECK(IA::getChild(&h, root, tk(202, 0)) == nullptr && IA::getChild(&h, root, tk(200, 1)) == nullptr, "a large image invents a child");
    munmap(m, size);
    unlink(file.c_str());
}
int main(int argc, char** argv) {
    drv::init(argc, argv);
    uint64_t gaps[] = {1ull << 20, 1ull << 31, (1ull << 32), (1ull << 34) - 64, (1ull << 34) - 16, (1ull << 34) - 8, 1ull << 34, (1ull << 34) + 8, (1ull << 35) + 64};
    for (uint64_t g : gaps) farApart(g);
    for (uint64_t i = 0; drv::more(); i++) round(drv::seed * 1000003 + i, i % 9 == 8);
    return drv::finish("random tries exported, loaded and compared node by node (children, absent children, ids, hits, enumeration), plus nodes with far children; non-trivial: at least two expressions");
}
