"""IdDictionary.hpp: contracts shared by the encoder (C04) and the dictionary property (C05)."""
import z3
from types import SimpleNamespace
from sx import *
LIM = 1 << 31


def make(X):
    so, lib = X.so, X.lib
    STR = lib.strlit("x").sort()

    class D:
        def __init__(self, m, n):
            self.dom, self.val, self.next = so.map_dom(m), so.map_val(m), n

        def has(self, k):
            return z3.Select(self.dom, k)

        def id(self, k):
            return z3.Select(self.val, k)

    def dict_at(S, p):
        return D(S.rd(p, "_map"), S.rd(p, "_nextId"))

    def dinv(X, st, d):
        k, l = z3.Const("dk", STR), z3.Const("dl", STR)
        i = z3.Int("di")
        return {"ids run from 1 to the next free one": z3.And(d.next >= 1, z3.ForAll([k], z3.Implies(d.has(k), z3.And(d.id(k) >= 1, d.id(k) < d.next)), patterns=[d.has(k)])),
                "different keys have different ids": z3.ForAll([k, l], z3.Implies(z3.And(d.has(k), d.has(l), d.id(k) == d.id(l)), k == l), patterns=[z3.MultiPattern(d.has(k), d.has(l))]),
                "every id given out belongs to a key": z3.ForAll([i], z3.Implies(z3.And(i >= 1, i < d.next), z3.Exists([k], z3.And(d.has(k), d.id(k) == i)))),
                "as many keys as ids given out": lib.card(st, d.dom) == d.next - 1}

    def extends(d0, d1):
        k = z3.Const("xk", STR)
        return z3.And(d1.next >= d0.next, z3.ForAll([k], z3.Implies(d0.has(k), z3.And(d1.has(k), d1.id(k) == d0.id(k))), patterns=[d0.has(k), d1.has(k)]))

    this = lambda S: dict_at(S, S.this)
    put = Contract("IdDictionary::put",
                   pre=lambda S: dict(dinv(X, S.st, this(S)), **{"fewer than 2^31 keys": this(S).next < LIM}),
                   post=lambda S: dict(dinv(X, S.st, this(S)), **{
                       "the key now has the returned id": z3.And(this(S).has(S.pre.z("key")), this(S).id(S.pre.z("key")) == S.ret),
                       "ids of other keys never change": extends(this(S.pre), this(S)),
                       "only a new key takes a new id": z3.If(this(S.pre).has(S.pre.z("key")), z3.And(this(S).next == this(S.pre).next, S.ret == this(S.pre).id(S.pre.z("key"))),
                                                              z3.And(this(S).next == this(S.pre).next + 1, S.ret == this(S.pre).next)),
                       "no other key appears": z3.ForAll([z3.Const("ok", STR)], z3.Implies(this(S).has(z3.Const("ok", STR)), z3.Or(this(S.pre).has(z3.Const("ok", STR)), z3.Const("ok", STR) == S.pre.z("key"))), patterns=[this(S).has(z3.Const("ok", STR))])}),
                   mods=lambda S: [S.fp(S.this, "_map"), S.fp(S.this, "_nextId")])
    get = Contract("IdDictionary::get", pre=lambda S: dinv(X, S.st, this(S)),
                   post=lambda S: {"the id of the key, 0 when it has none": S.ret == z3.If(this(S.pre).has(S.pre.z("key")), this(S.pre).id(S.pre.z("key")), 0)})

    def rl_keys(S, v):
        return v.f["_keys"] if isinstance(v, StructV) else v

    def rl_post(S):
        k = z3.Const("rk", STR)
        d = this(S.pre)
        keys = S.X.read(S.st, S.ret.f("_keys", None)) if isinstance(S.ret, Place) else rl_keys(S, S.ret)
        return {"one entry per key": S.len(keys) == d.next - 1,
                "reading the table at a key's id gives the key": z3.ForAll([k], z3.Implies(d.has(k), z3.Select(S.arr(keys), d.id(k) - 1) == k), patterns=[d.has(k)])}

    def rl_inv(S):
        d = this(S.pre)
        keys = S.rd(S.pl("table"), "_keys")
        mkey, mpos, n = lib.map_enum(S.st, d.dom)
        k = z3.Const("rk", STR)
        return {"size": z3.And(S.len(keys) == d.next - 1, 0 <= S.k, S.k <= n),
                "filled so far": z3.ForAll([k], z3.Implies(z3.And(d.has(k), mpos(d.dom, k) < S.k), z3.Select(S.arr(keys), d.id(k) - 1) == k), patterns=[d.has(k)])}
    table = Contract("IdDictionary::getReverseLookupTable", pre=lambda S: dict(dinv(X, S.st, this(S)), **{"fewer than 2^31 keys": this(S).next < LIM}),
                     post=rl_post, loops=[Loop(inv=rl_inv)])
    return SimpleNamespace(D=D, dict_at=dict_at, dinv=dinv, extends=extends, this=this, put=put, get=get, table=table, rl_keys=rl_keys)
