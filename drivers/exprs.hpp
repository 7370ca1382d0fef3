// Random encoded expressions shared by the index drivers.
#ifndef VP_EXPRS_HPP
#define VP_EXPRS_HPP
#include "drv.hpp"
#include "mws/index/encoded_token.h"
typedef std::vector<encoded_token_t> Expr;
inline std::vector<uint64_t> key(const Expr& e) {
    std::vector<uint64_t> k;
    for (auto& t : e) k.push_back(((uint64_t)t.arity << 32) | t.id);
    return k;
}
inline uint64_t key1(encoded_token_t t) { return ((uint64_t)t.arity << 32) | t.id; }
inline encoded_token_t tk(uint32_t id, uint32_t ar) {
    encoded_token_t t;
    memset(&t, 0, sizeof t);
    t.id = id;
    t.arity = ar;
    return t;
}
inline std::string show(const Expr& e) {
    std::string s;
    for (auto& t : e) s += drv::fmt("%u/%u ", (unsigned)t.id, (unsigned)t.arity);
    return s;
}
// style 0: few constants; 1: ids next to powers of two; 2: any 24-bit id
inline void gen(drv::Rng& r, Expr& e, int depth, int ids, int maxar, int style) {
    uint32_t ar = depth <= 0 ? 0 : r.below(maxar + 1);
    if (depth > 0 && r.coin(1)) ar = 20 + r.below(40);
    uint32_t id = style == 0 ? 161 + r.below(ids) : style == 1 ? (1u << r.below(24)) + r.below(3) : 1 + r.below((1 << 24) - 1);
    if (ar == 0 && r.coin(10)) id = 1 + r.below(32);
    e.push_back(tk(id, ar));
    for (uint32_t i = 0; i < ar; i++) gen(r, e, depth - 1 - (ar > 15 ? 9 : 0), ids, maxar, style);
}
// a chain f(f(...f(x))) of the given length
inline void chain(drv::Rng& r, Expr& e, int len, int ids) {
    for (int i = 0; i + 1 < len; i++) e.push_back(tk(161 + r.below(ids), 1));
    e.push_back(tk(161 + r.below(ids), 0));
}
#endif
