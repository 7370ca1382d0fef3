"""Ordered child map of an index node (VectorMap) and the in-memory trie."""
import z3
from sx import *

TU = '''
#include "mws/index/TmpIndex.cpp"
'''
HEAP = ["TmpIndexNode", "TmpLeafNode"]
TOK = Ty("rec", "encoded_token_s")


class VM:
    """Logical vocabulary over a VectorMap value: data array, length, key order."""

    def __init__(self, X):
        self.X = X
        self.so = X.so
        vmty = X.u.tt.parse("mws::types::VectorMap<encoded_token_s, mws::index::TmpIndexNode *>")
        self.ty = vmty
        self.sort = X.so.of(vmty)
        self.pairty = Ty("std", "pair", (TOK, X.u.tt.parse("mws::index::TmpIndexNode *")))
        self.pair = X.so.of(self.pairty)
        self.tok = X.so.of(TOK)
        self.ord = X.lib.memord(TOK)

    def data(self, vm):
        if isinstance(vm, StructV):
            return vm.f["_data"]
        return self.sort.accessor(0, 0)(vm)

    def key(self, d, i):
        return self.pair.accessor(0, 0)(z3.Select(self.so.vec_arr(d), i))

    def val(self, d, i):
        return self.pair.accessor(0, 1)(z3.Select(self.so.vec_arr(d), i))

    def len(self, d):
        return self.so.vec_len(d)

    def z(self, t):
        return self.so.to_z3(t, TOK) if isinstance(t, StructV) else t

    def sorted(self, d):
        return self.srt(self.so.vec_arr(d), self.so.vec_len(d))

    def sorted_theory(self):
        """srt(a,n): the first n keys of a are strictly increasing (definition, with Skolem witnesses)."""
        X, so = self.X, self.so
        A = so.of(Ty("std", "vector", (self.pairty,))).accessor(0, 0).range()
        self.srt = z3.Function("srt", A, z3.IntSort(), z3.BoolSort())
        w1, w2 = [z3.Function(x, A, z3.IntSort(), z3.IntSort()) for x in ("srt_w1", "srt_w2")]
        a, n, i, j = z3.Const("sr_a", A), z3.Int("sr_n"), z3.Int("sr_i"), z3.Int("sr_j")
        key = lambda x: self.pair.accessor(0, 0)(z3.Select(a, x))
        X.axioms += [
            z3.ForAll([a, n, i, j], z3.Implies(z3.And(self.srt(a, n), 0 <= i, i < j, j < n), self.ord(key(i)) < self.ord(key(j))),
                      patterns=[z3.MultiPattern(self.srt(a, n), z3.Select(a, i), z3.Select(a, j))]),
            z3.ForAll([a, n], z3.Implies(z3.Not(self.srt(a, n)), z3.And(
                0 <= w1(a, n), w1(a, n) < w2(a, n), w2(a, n) < n, z3.Not(self.ord(key(w1(a, n))) < self.ord(key(w2(a, n)))))),
                patterns=[self.srt(a, n)])]

    def inv(self, vm):
        d = self.data(vm)
        return z3.And(self.sorted(d), self.len(d) >= 0, self.len(d) < (1 << 31) - 1)

    def index(self, d, k, r):
        """r is the position of key k in d, or len(d) when absent."""
        i = z3.Int("ki")
        return z3.And(r >= 0, r <= self.len(d),
                      z3.Implies(r < self.len(d), self.key(d, r) == k),
                      z3.Implies(r == self.len(d), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.len(d)), self.key(d, i) != k),
                                                          patterns=[self.key(d, i)])))

    def lookup_theory(self):
        """get(a,n,k): value under key k among the first n pairs of a (0 when absent)."""
        X, so = self.X, self.so
        A = so.of(Ty("std", "vector", (self.pairty,))).accessor(0, 0).range()
        self.posf = z3.Function("vmpos", A, z3.IntSort(), self.tok, z3.IntSort())
        arr, n, i, v = z3.Const("ax_a", A), z3.Int("ax_n"), z3.Int("ax_i"), z3.Int("ax_v")
        k, kk = z3.Const("ax_k", self.tok), z3.Const("ax_kk", self.tok)
        p = self.posf(arr, n, k)
        key = lambda a, j: self.pair.accessor(0, 0)(z3.Select(a, j))
        # definition of the choice function "a position holding key k, or -1"
        X.axioms += [
            z3.ForAll([arr, n, k], z3.And(p >= -1, z3.Implies(p >= 0, z3.And(p < n, key(arr, p) == k))), patterns=[p]),
            z3.ForAll([arr, n, k, i], z3.Implies(z3.And(0 <= i, i < n, key(arr, i) == k), p >= 0),
                      patterns=[z3.MultiPattern(p, z3.Select(arr, i))])]
        # lemma: overwriting the value at a position changes the lookup of that key only
        st = z3.Store(arr, i, self.pair.constructor(0)(kk, v))
        d = so.of(Ty("std", "vector", (self.pairty,))).constructor(0)(arr, n)
        X.lemma("lookup after overwriting one value", z3.ForAll([arr, n, i, kk, v, k], z3.Implies(
            z3.And(self.sorted(d), 0 <= i, i < n, kk == key(arr, i)),
            self.getan(st, n, k) == z3.If(k == kk, v, self.getan(arr, n, k))), patterns=[self.posf(st, n, k)]))

    def getan(self, a, n, k):
        p = self.posf(a, n, k)
        return z3.If(p >= 0, self.pair.accessor(0, 1)(z3.Select(a, p)), 0)

    def get(self, d, k):
        return self.getan(self.so.vec_arr(d), self.so.vec_len(d), k)

    def has(self, d, k):
        i = z3.Int("hi")
        return z3.Exists([i], z3.And(0 <= i, i < self.len(d), self.key(d, i) == k))


def contracts(X):
    vm = VM(X)
    vm.sorted_theory()
    vm.lookup_theory()

    def lookup_same(d0, d1):
        kk = z3.Const("xk", vm.tok)
        return z3.ForAll([kk], vm.get(d1, kk) == vm.get(d0, kk),
                         patterns=[vm.posf(X.so.vec_arr(d1), vm.len(d1), kk), vm.posf(X.so.vec_arr(d0), vm.len(d0), kk)])

    def this_data(S):
        return S.fld("_data")

    def find_pre(S):
        return {"children are strictly ordered by key": vm.inv(S.rd(S.this))}

    def fi_post(S):
        d = S.pre.fld("_data")
        k = vm.z(S.pre["key"])
        return {"result is the position of the key, or the size when absent": vm.index(d, k, S.ret)}

    def fi_inv(S):
        d = S.fld("_data")
        k = vm.z(S["key"])
        l, r, n = S["left"], S["right"], vm.len(d)
        i = z3.Int("bi")
        return {"bounds": z3.And(0 <= l, l <= r + 1, r < n),
                "everything left of the window is smaller": z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < l), vm.ord(vm.key(d, i)) < vm.ord(k)), patterns=[vm.key(d, i)]),
                "everything right of the window is larger": z3.ForAll([i], z3.Implies(z3.And(r < i, i < n), vm.ord(vm.key(d, i)) > vm.ord(k)), patterns=[vm.key(d, i)])}
    find_index = Contract("mws::types::VectorMap::_find_index", pre=find_pre, post=fi_post,
                          loops=[Loop(inv=fi_inv, dec=lambda S: S["right"] - S["left"] + 1)])

    def find_ret(S):
        from vals import IterV
        i = fresh("findpos", z3.IntSort())
        return IterV(S.X_place_data(), i) if False else None

    def find_post(S):
        d = S.pre.fld("_data")
        return {"find returns the element with that key, or end()": vm.index(d, vm.z(S.pre["key"]), S.ret.idx)}
    find = Contract("mws::types::VectorMap::find", pre=find_pre, post=find_post,
                    retplace=lambda S: IterV(S.fp(S.this, "_data"), fresh("findpos", z3.IntSort())))

    def ins_post(S):
        d0, d1 = S.pre.fld("_data"), S.fld("_data")
        kv = S.pre["keyValue"]
        k, v = vm.z(kv.f["first"]), kv.f["second"]
        it, isnew = S.ret.f["first"].idx, S.ret.f["second"]
        i = z3.Int("pi")
        n0, n1 = vm.len(d0), vm.len(d1)
        had = z3.Not(isnew)
        return {
            "invariant is preserved": vm.sorted(d1),
            "an existing key leaves the map as it was": z3.Implies(had, z3.And(d1 == d0, it >= 0, it < n0, vm.key(d0, it) == k)),
            "a new key is reported new only when it was absent": z3.Implies(isnew, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n0), vm.key(d0, i) != k), patterns=[vm.key(d0, i)])),
            "no pair is lost": z3.Implies(isnew, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n0),
                z3.Select(X.so.vec_arr(d0), i) == z3.Select(X.so.vec_arr(d1), z3.If(i < it, i, i + 1))), patterns=[z3.Select(X.so.vec_arr(d0), i)])),
            "a new key is placed with its value and all others keep theirs": z3.Implies(isnew, z3.And(
                n1 == n0 + 1, it >= 0, it < n1, vm.key(d1, it) == k, vm.val(d1, it) == v,
                z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n1, i != it),
                                          z3.Select(X.so.vec_arr(d1), i) == z3.Select(X.so.vec_arr(d0), z3.If(i < it, i, i - 1))),
                          patterns=[z3.Select(X.so.vec_arr(d1), i)])))}

    def ins_inv(S):
        d0, d = S.pre.fld("_data"), S.fld("_data")
        i = S["i"]
        n = vm.len(d0)
        kv = S.pre["keyValue"]
        k, v = vm.z(kv.f["first"]), kv.f["second"]
        j = z3.Int("sj")
        A, A0 = X.so.vec_arr(d), X.so.vec_arr(d0)
        return {"size": z3.And(0 <= i, i <= n, vm.len(d) == n + 1),
                "the new element sits at the cursor": z3.And(vm.key(d, i) == k, vm.val(d, i) == v),
                "old elements keep their order": z3.ForAll([j], z3.Implies(z3.And(0 <= j, j <= n, j != i),
                    z3.Select(A, j) == z3.Select(A0, z3.If(j < i, j, j - 1))), patterns=[z3.Select(A, j)]),
                "elements after the cursor are larger": z3.ForAll([j], z3.Implies(z3.And(i < j, j <= n), vm.ord(k) < vm.ord(vm.key(d, j))), patterns=[vm.key(d, j)])}
    insert = Contract("mws::types::VectorMap::insert", pre=find_pre, post=ins_post,
                      mods=lambda S: [S.fp(S.this, "_data")],
                      loops=[Loop(inv=ins_inv, dec=lambda S: S["i"])],
                      retplace=lambda S: StructV(Ty("std", "pair", (Ty("std", "_iter"), Ty("bool"))),
                                                 {"first": IterV(S.fp(S.this, "_data"), fresh("inspos", z3.IntSort())),
                                                  "second": fresh("isnew", z3.BoolSort())}))

    def ix_post(S):
        d0, d1 = S.pre.fld("_data"), S.fld("_data")
        k = vm.z(S.pre["key"])
        it = S.ret.sels[-2][1]
        i = z3.Int("xi")
        n0, n1 = vm.len(d0), vm.len(d1)
        same = z3.And(d1 == d0, it < n0)
        new = z3.And(n1 == n0 + 1, vm.val(d1, it) == 0,
                     z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n0), vm.key(d0, i) != k), patterns=[vm.key(d0, i)]),
                     z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n1, i != it),
                               z3.Select(X.so.vec_arr(d1), i) == z3.Select(X.so.vec_arr(d0), z3.If(i < it, i, i - 1))),
                               patterns=[z3.Select(X.so.vec_arr(d1), i)]))
        return {"every lookup gives what it gave before": lookup_same(d0, d1),
                "the designated value is what lookup gives": vm.get(d1, k) == vm.val(d1, it),
                "designates the entry of that key": z3.And(it >= 0, it < n1, vm.key(d1, it) == k),
                "order is preserved": vm.sorted(d1),
                "adds at most that key, with a null value": z3.Or(same, new)}

    def ix_ret(S):
        i = fresh("ixpos", z3.IntSort())
        return S.fp(S.this, "_data").i(i, vm.pairty).f("second", vm.pairty.args[1])
    index = Contract("mws::types::VectorMap::operator[]", pre=find_pre, post=ix_post,
                     mods=lambda S: [S.fp(S.this, "_data")], retplace=ix_ret)
    X.vm = vm
    return [find_index, find, insert, index]
