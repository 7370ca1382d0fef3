"""Searching (SearchContext.cpp, IndexIterator.hpp)."""
import z3
from sx import *
TU = '''
#include "mws/query/SearchContext.cpp"
'''
HEAP = ["inode_s", "ExpressionDecoder", "IdDictionary"]
QVAR, RANGE, CONST = 0, 1, 2


def wf_expr(X, S):
    """What the constructor establishes and the search relies on."""
    so = X.so
    q, i, j = z3.Int("wq"), z3.Int("wi"), z3.Int("wj")
    ex, bt, sp = S.fld("expr"), S.fld("backtrackPoints"), S.fld("mSpecialCount")
    xs = so.vec_arr(ex).range()
    A = lambda nme: [xs.accessor(0, p) for p in range(xs.constructor(0).arity()) if nme in xs.accessor(0, p).name()][0]
    T, R = A("type"), A("arity")
    x = lambda p: z3.Select(so.vec_arr(ex), p)
    b = lambda p: z3.Select(so.vec_arr(bt), p)
    n = so.vec_len(ex)
    return {"fewer than 2^31 tokens": z3.And(n >= 0, n < (1 << 31) - 1, sp >= 0, sp <= n, so.vec_len(bt) == sp),
            "kinds of tokens": z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), z3.And(T(x(q)) >= 0, T(x(q)) <= 2)), patterns=[x(q)]),
            "special tokens belong to a choice point, first met at or before": z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n, T(x(q)) != CONST), z3.And(
                0 <= R(x(q)), R(x(q)) < sp, b(R(x(q))) <= q + 1)), patterns=[x(q)]),
            "first positions": z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < sp), z3.And(1 <= b(i), b(i) <= n, T(x(b(i) - 1)) != CONST, R(x(b(i) - 1)) == i)), patterns=[b(i)]),
            "first positions ascend": z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < sp), b(i) < b(j)), patterns=[z3.MultiPattern(b(i), b(j))])}


def contracts(X):
    so, lib = X.so, X.lib
    I_ = z3.IntSort()
    TOK = Ty("rec", "encoded_token_s")
    tok = so.of(TOK)
    tf = {n: i for i, (n, ty, w) in enumerate(so.rec_fields(TOK))}
    AR = lambda e: tok.accessor(0, tf["arity"])(e)
    IDF = lambda e: tok.accessor(0, tf["id"])(e)
    k, i, j = z3.Int("sk"), z3.Int("si"), z3.Int("sj")

    # ------------------------------------------------------------------ the query as a sequence
    isvar = lambda e: IDF(e) <= 128
    isanon = lambda e: z3.Or(z3.And(33 <= IDF(e), IDF(e) <= 64), z3.And(97 <= IDF(e), IDF(e) <= 128))
    isrange = lambda e: z3.And(129 <= IDF(e), IDF(e) <= 160)

    def expr_spec(S, n, sp):
        """expr[0..n) stands for encodedFormula[0..n), sp special positions so far (backtrackPoints)."""
        f = S.rd(S.raw("encodedFormula")) if isinstance(S.raw("encodedFormula"), Place) else S["encodedFormula"]
        e = lambda q: z3.Select(S.arr(f), q)
        ex, bt = S.fld("expr"), S.fld("backtrackPoints")
        nt = Ty("rec", "mws::query::SearchContext::_NodeTriple")
        xs = so.vec_arr(ex).range()
        acc = {xs.accessor(0, q).name(): xs.accessor(0, q) for q in range(xs.constructor(0).arity())}
        A = lambda nme: [v for kk, v in acc.items() if nme in kk][0]
        T, M, R = A("type"), A("meaningId"), A("arity")
        x = lambda q: z3.Select(S.arr(ex), q)
        b = lambda q: z3.Select(S.arr(bt), q)
        inr = z3.And(0 <= k, k < n)
        new = lambda q: z3.And(0 <= R(x(q)), R(x(q)) < sp, b(R(x(q))) == q + 1)          # first occurrence
        o = {}
        pat = [x(k), e(k)]
        o["one entry per token"] = S.len(ex) == n
        o["kinds"] = z3.ForAll([k], z3.Implies(inr, T(x(k)) == z3.If(isvar(e(k)), QVAR, z3.If(isrange(e(k)), RANGE, CONST))), patterns=pat)
        o["constants keep id and arity"] = z3.ForAll([k], z3.Implies(z3.And(inr, T(x(k)) == CONST), z3.And(M(x(k)) == IDF(e(k)), R(x(k)) == AR(e(k)))), patterns=pat)
        o["variables and ranges keep their id"] = z3.ForAll([k], z3.Implies(z3.And(inr, T(x(k)) != CONST), M(x(k)) == IDF(e(k))), patterns=pat)
        o["anonymous variables and ranges are choice points of their own"] = z3.ForAll([k], z3.Implies(z3.And(inr, z3.Or(T(x(k)) == RANGE, z3.And(T(x(k)) == QVAR, isanon(e(k))))), new(k)), patterns=pat)
        o["a named variable belongs to the choice point of its first occurrence"] = z3.ForAll([k], z3.Implies(z3.And(inr, T(x(k)) == QVAR, z3.Not(isanon(e(k)))), z3.And(
            0 <= R(x(k)), R(x(k)) < sp, b(R(x(k))) >= 1, b(R(x(k))) <= k + 1, T(x(b(R(x(k))) - 1)) == QVAR, IDF(e(b(R(x(k))) - 1)) == IDF(e(k)))), patterns=pat)
        o["equal names share a choice point"] = z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n, T(x(i)) == QVAR, T(x(j)) == QVAR, z3.Not(isanon(e(i))), IDF(e(i)) == IDF(e(j))), R(x(i)) == R(x(j))),
                                                          patterns=[z3.MultiPattern(x(i), x(j))])
        o["choice points are numbered in order of their first position"] = z3.And(S.len(bt) == sp, sp >= 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < sp), z3.And(
            b(i) >= 1, b(i) <= n, T(x(b(i) - 1)) != CONST, R(x(b(i) - 1)) == i)), patterns=[b(i)]),
            z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < sp), b(i) < b(j)), patterns=[z3.MultiPattern(b(i), b(j))]))
        return o

    def ctor_inv(S):
        n = S.k
        o = expr_spec(S, n, S["specialCount"])
        q = S.rd(S.pl("indexedQvars"))
        f = S["encodedFormula"]
        e = lambda p: z3.Select(S.arr(f), p)
        m = z3.Int("qm")
        ex, bt = S.fld("expr"), S.fld("backtrackPoints")
        b = lambda p: z3.Select(S.arr(bt), p)
        o["position"] = z3.And(S["tokenCount"] == n, n >= 0, n <= S.len(f), S["specialCount"] <= n)
        o["known names"] = z3.ForAll([m], z3.Implies(z3.Select(so.map_dom(q), m), z3.And(
            0 <= z3.Select(so.map_val(q), m), z3.Select(so.map_val(q), m) < S["specialCount"], IDF(e(b(z3.Select(so.map_val(q), m)) - 1)) == m, z3.Not(isanon(e(b(z3.Select(so.map_val(q), m)) - 1))), isvar(e(b(z3.Select(so.map_val(q), m)) - 1)))),
            patterns=[z3.Select(so.map_dom(q), m)])
        o["every name so far is known"] = z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n, isvar(e(k)), z3.Not(isanon(e(k)))), z3.And(z3.Select(so.map_dom(q), IDF(e(k))), )), patterns=[e(k), z3.Select(S.arr(ex), k)])
        xs = so.vec_arr(ex).range()
        R = [xs.accessor(0, p) for p in range(xs.constructor(0).arity()) if "arity" in xs.accessor(0, p).name()][0]
        o["names map to their choice point"] = z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n, isvar(e(k)), z3.Not(isanon(e(k)))), R(z3.Select(S.arr(ex), k)) == z3.Select(so.map_val(q), IDF(e(k)))), patterns=[e(k), z3.Select(S.arr(ex), k)])
        return o

    def ctor_post(S):
        n = S.len(S.pre["encodedFormula"])
        return dict(expr_spec(S, n, S.fld("mSpecialCount")), **wf_expr(X, S))
    ctor = Contract("SearchContext::SearchContext", pre=lambda S: {"fewer than 2^31 tokens": S.len(S["encodedFormula"]) < (1 << 31) - 1}, post=ctor_post, loops=[Loop(inv=ctor_inv)],
                    mods=lambda S: [S.this], sig="RangeBounds")
    dec = Contract("ExpressionDecoder::ExpressionDecoder", trusted=True, verify=False, sig="MeaningDictionary")
    return [ctor, dec]
