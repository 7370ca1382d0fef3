#ifndef VP_STORES_HPP
#define VP_STORES_HPP
#include "drv.hpp"
#include <memory>
#include <stdexcept>
#include <ftw.h>
inline int rmOne(const char* p, const struct stat*, int, struct FTW*) { return remove(p); }
inline void rmTree(const std::string& p) {
    if (p.compare(0, drv::dir.size() + 1, drv::dir + "/") == 0 && p.find("..") == std::string::npos) nftw(p.c_str(), rmOne, 16, FTW_DEPTH | FTW_PHYS);
}
inline std::string word(drv::Rng& r) {
    static const char* B[] = {"", "a", "/", "#", "!", "\xff", "0", "*[1]", "id", "\n", "\xc3\xa9", "1!2"};
    std::string s;
    for (int n = r.below(4); n > 0; n--) s += B[r.below(12)];
    if (r.coin(10)) s += '\0';
    if (r.coin(3)) s.append(r.below(3000), 'x');
    return s;
}
#endif
