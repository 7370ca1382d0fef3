"""Depth-first enumeration of the terms below a node (IndexIterator.hpp over IndexAccessor.hpp)."""
import z3
from sx import *

TU = '''
#include "mws/query/SearchContext.cpp"
'''
HEAP = ["inode_s", "inode_long_s"]
IA = lambda r: any("mws::index::IndexAccessor" in str(t) for t in (r.get("_targs") or []))


class ITrie:
    """The image as an abstract trie: NCH children of a node, token and node of each, PEND = expressions still open at a node."""

    def __init__(self, X):
        so = X.so
        I_ = z3.IntSort()
        self.so, self.X = so, X
        self.tokty = Ty("rec", "encoded_token_s")
        self.tok = so.of(self.tokty)
        f = {n: i for i, (n, ty, w) in enumerate(so.rec_fields(self.tokty))}
        self.ar = lambda e: self.tok.accessor(0, f["arity"])(e)
        self.idf = lambda e: self.tok.accessor(0, f["id"])(e)
        self.nch = z3.Function("NCH", I_, I_)
        self.ctok = z3.Function("CTOK", I_, I_, self.tok)
        self.cnode = z3.Function("CNODE", I_, I_, I_)
        self.pend = z3.Function("PEND", I_, I_)
        self.ht = z3.Function("HT", I_, I_)
        self.child = z3.Function("CHILD", I_, self.tok, I_)
        n, i = z3.Ints("tn ti")
        t = z3.Const("tt", self.tok)
        inr = z3.And(0 <= i, i < self.nch(n), n > 0)
        c = self.cnode(n, i)
        self.facts = [
            z3.ForAll([n], z3.And(self.nch(n) >= 0, self.nch(n) < (1 << 31) - 1, self.pend(n) >= 0, self.pend(n) < (1 << 30), self.ht(n) >= 0), patterns=[self.nch(n)]),
            z3.ForAll([n, i], z3.Implies(inr, z3.And(c > 0, self.pend(c) == self.pend(n) - 1 + self.ar(self.ctok(n, i)), self.ar(self.ctok(n, i)) >= 0, self.ar(self.ctok(n, i)) < 256,
                                                     self.pend(c) >= self.pend(n) - 1, self.ht(c) < self.ht(n), z3.Implies(self.pend(c) > 0, self.nch(c) >= 1),
                                                     self.child(n, self.ctok(n, i)) == c)), patterns=[c, self.ctok(n, i)]),
            z3.ForAll([n, t], z3.Implies(z3.And(n > 0, self.child(n, t) != 0), self.child(n, t) > 0), patterns=[self.child(n, t)]),
        ]


def accessor(X, T):
    """IndexAccessor's functions read the image; their contracts name what is read."""
    def it(S, nm="it"):
        p = S.deref(nm)
        return S.rd(p, "_current", "_node"), S.rd(p, "_current", "_index")

    def inside(S):
        nd, ix = it(S)
        return {"the iterator is inside its node": z3.And(0 <= ix, ix < T.nch(nd), nd > 0)}
    I_ = z3.IntSort()
    RELADDR = z3.Function("RELADDR", I_, I_, I_)
    X.flex_len = lambda X, st, pl: X.read(st, Place(pl.root, pl.sels[:-1], None).f("size", I(64, False)))
    so = X.so

    def fields(S, n, cls):
        d = z3.Select(S.heap(cls, "data"), n)
        ety = [t for nme, t, w in so.rec_fields(Ty("rec", cls)) if nme == "data"][0].to
        es = so.of(ety)
        return d, (lambda i: es.accessor(0, 0)(z3.Select(d, i))), (lambda i: es.accessor(0, 1)(z3.Select(d, i)))

    def image(S):
        """What NCH, CTOK, CNODE and CHILD stand for (definition of the abstraction)."""
        n, i, q = z3.Ints("an ai aq")
        t = z3.Const("at", T.tok)
        wide = z3.Select(S.heap("inode_s", "type"), n) == 2
        ds, ks, os_ = fields(S, n, "inode_s")
        dl, kl, ol = fields(S, n, "inode_long_s")
        order = X.lib.memord(T.tokty)
        S.st.assume(z3.ForAll([n], z3.Implies(n > 0, z3.And(T.nch(n) == z3.Select(S.heap("inode_s", "size"), n), z3.Or(wide, z3.Select(S.heap("inode_s", "type"), n) == 1),
                                                            z3.Select(S.heap("inode_long_s", "size"), n) == T.nch(n))), patterns=[T.nch(n)]))
        S.st.assume(z3.ForAll([n, i], z3.Implies(z3.And(n > 0, 0 <= i, i < T.nch(n)), z3.And(
            T.ctok(n, i) == z3.If(wide, kl(i), ks(i)), z3.If(wide, ol(i), os_(i)) != 0,
            T.cnode(n, i) == RELADDR(n, z3.If(wide, ol(i), os_(i))))), patterns=[T.ctok(n, i), T.cnode(n, i), z3.Select(ds, i), z3.Select(dl, i)]))
        S.st.assume(z3.ForAll([n, i, q], z3.Implies(z3.And(n > 0, 0 <= i, i < q, q < T.nch(n)), order(T.ctok(n, i)) < order(T.ctok(n, q))),
                              patterns=[z3.MultiPattern(T.ctok(n, i), T.ctok(n, q)), z3.MultiPattern(z3.Select(ds, i), z3.Select(ds, q)), z3.MultiPattern(z3.Select(dl, i), z3.Select(dl, q))]))
        S.st.assume(z3.ForAll([n, t], z3.Implies(z3.And(n > 0, T.child(n, t) != 0), z3.Exists([i], z3.And(0 <= i, i < T.nch(n), T.ctok(n, i) == t))), patterns=[T.child(n, t)]))
    rel = Contract("memsector_relOff2addr", trusted=True, verify=False, model=lambda X, st, this, args, fr, n: [(st, RELADDR(X.so.to_z3(X.rv(st, args[0]), Ty("ptr", to=I(8, True))) if not z3.is_expr(X.rv(st, args[0])) else X.rv(st, args[0]), X.rv(st, args[1])))])
    tr = dict(setup=image)
    def children(S):
        r = S.ret
        g = lambda *p: rec_get(S.X, r, p)
        return {"from the first child": z3.And(g("_current", "_node") == S["node"], g("_current", "_index") == 0),
                "to behind the last": z3.And(g("_end", "_node") == S["node"], g("_end", "_index") == T.nch(S["node"]))}
    import image as img
    look = [c for c in img.contracts(X) if c.fn in ("inode_get_child", "inode_long_get_child")]
    for c in look:
        c.verify = False       # proved in C02
    return look + [rel,
        Contract("IndexAccessor::getChildrenIterator", pre=lambda S: {"a node": S["node"] > 0}, post=children, **tr),
        Contract("IndexAccessor::getToken", pre=inside, post=lambda S: {"token of the child": X.so.to_z3(S.ret, T.tokty) == T.ctok(*it(S.pre))}, **tr),
        Contract("IndexAccessor::getArity", pre=inside, post=lambda S: {"its arity": S.ret == T.ar(T.ctok(*it(S.pre)))}, **tr),
        Contract("IndexAccessor::getNode", pre=inside, post=lambda S: {"the child": S.ret == T.cnode(*it(S.pre))}, **tr),
        Contract("IndexAccessor::getChild", pre=lambda S: {"a node": S["node"] > 0}, post=lambda S: {"the child under the token": S.ret == T.child(S.pre["node"], S.pre.z("token"))}, **tr),
    ]


class Sub:
    """View of a member object as if it were *this."""

    def __init__(self, S, *base):
        self.S, self.base = S, base

    def fld(self, *p):
        return self.S.fld(*self.base, *p)

    @property
    def pre(self):
        return Sub(self.S.pre, *self.base)

    def __getattr__(self, n):
        return getattr(self.S, n)

    def __getitem__(self, n):
        return self.S[n]


def rec_get(X, v, path):
    from vals import StructV
    for p in path:
        if isinstance(v, StructV):
            v = v.f[p]
        else:
            s = v.sort()
            c = s.constructor(0)
            v = [s.accessor(0, q)(v) for q in range(c.arity()) if s.accessor(0, q).name().endswith(p)][0]
    return v


def contracts(X, T=None):
    T = T or ITrie(X)
    X.axioms += T.facts
    so = X.so
    j = z3.Int("j")

    def P(S):
        """the path: (length, node(j), index(j), end node, end index)"""
        v = S.fld("_backtrackIterators")
        a = S.arr(v)
        g = lambda *p: (lambda q: rec_get(X, z3.Select(a, q), p))
        return S.len(v), g("_current", "_node"), g("_current", "_index"), g("_end", "_node"), g("_end", "_index"), a

    def chain(S, root, arity=None):
        """the path is a chain of children from root, arity = expressions still open behind it"""
        m, nd, ix, en, ei, a = P(S)
        step = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), z3.And(
            nd(j) > 0, 0 <= ix(j), ix(j) < T.nch(nd(j)), en(j) == nd(j), ei(j) == T.nch(nd(j)))), patterns=[z3.Select(a, j)])
        link = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j + 1 < m), nd(j + 1) == T.cnode(nd(j), ix(j))), patterns=[z3.Select(a, j)])
        opened = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), T.pend(nd(j)) >= T.pend(root)), patterns=[z3.Select(a, j)])
        last = T.cnode(nd(m - 1), ix(m - 1))
        o = {"steps": step, "links": link, "every proper prefix is incomplete": opened,
             "starts at the root": z3.Implies(m > 0, nd(0) == root),
             "length": z3.And(m >= 0)}
        if arity is not None:
            o["open expressions"] = arity == z3.If(m == 0, 1, T.pend(last) - T.pend(root) + 1)
        return o, last

    def good(S):
        root = S.fld("_root")
        o, last = chain(S, root, S.fld("_arity"))
        m = P(S)[0]
        o["the root is a node with an open expression"] = z3.And(root > 0, T.pend(root) > 0)
        return o

    def nxt_pre(S):
        o = good(S)
        o["at rest: no path, or a complete term"] = z3.Implies(P(S)[0] > 0, S.fld("_arity") == 0)
        return o

    def nxt_post(S):
        o = {}
        m, nd, ix, en, ei, a = P(S)
        m0, nd0, ix0, en0, ei0, a0 = P(S.pre)
        root = S.pre.fld("_root")
        d = S.g("d")
        last = z3.If(m > 0, T.cnode(nd(m - 1), ix(m - 1)), 0)
        ok = S.ret != 0
        for kk, v in chain(S, root, S.fld("_arity"))[0].items():
            o[kk] = v
        o["root kept"] = S.fld("_root") == root
        o["a returned node ends a complete term and is the end of the path"] = z3.Implies(ok, z3.And(m > 0, S.ret == last, S.fld("_arity") == 0))
        o["first call: the first term"] = z3.Implies(z3.And(ok, m0 == 0), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), ix(j) == 0), patterns=[z3.Select(a, j)]))
        o["then the immediate successor: one step further at one place"] = z3.Implies(z3.And(ok, m0 > 0), z3.And(0 <= d, d < m0, d < m, nd(d) == nd0(d), ix(d) == ix0(d) + 1))
        o["same before that place"] = z3.Implies(z3.And(ok, m0 > 0), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < d), z3.Select(a, j) == z3.Select(a0, j)), patterns=[z3.Select(a, j)]))
        o["nothing left to visit after it in the old path"] = z3.Implies(z3.And(ok, m0 > 0), z3.ForAll([j], z3.Implies(z3.And(d < j, j < m0), ix0(j) == T.nch(nd0(j)) - 1), patterns=[z3.Select(a0, j)]))
        o["first children after it in the new path"] = z3.Implies(z3.And(ok, m0 > 0), z3.ForAll([j], z3.Implies(z3.And(d < j, j < m), ix(j) == 0), patterns=[z3.Select(a, j)]))
        o["null only when there is no term left"] = z3.Implies(S.ret == 0, z3.And(m == 0, z3.Or(
            z3.And(m0 == 0, T.nch(root) == 0), z3.And(m0 > 0, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m0), ix0(j) == T.nch(nd0(j)) - 1), patterns=[z3.Select(a0, j)])))))
        return o

    def setup(S):
        S.st.ghost["d"] = z3.IntVal(-1)

    def pop_inv(S):
        m, nd, ix, en, ei, a = P(S)
        m0, nd0, ix0, en0, ei0, a0 = P(S.pre)
        o = good(S)
        o["a prefix of the old path"] = z3.And(0 < m, m <= m0, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), z3.Select(a, j) == z3.Select(a0, j)), patterns=[z3.Select(a, j)]))
        o["root kept"] = S.fld("_root") == S.pre.fld("_root")
        o["removed: last children"] = z3.ForAll([j], z3.Implies(z3.And(m <= j, j < m0), ix0(j) == T.nch(nd0(j)) - 1), patterns=[z3.Select(a0, j)])
        return o

    def pop_exit(S):
        S.st.ghost["d"] = P(S)[0] - 1
        S.st.wrote(("ghost", "d"))

    def push_inv(S):
        m, nd, ix, en, ei, a = P(S)
        m0, nd0, ix0, en0, ei0, a0 = P(S.pre)
        d = S.g("d")
        o = good(S)
        L = S.loop_entry()
        ml, ndl, ixl, _, _, al = P(L)
        o["grows from where it started"] = z3.And(m >= ml, ml > 0, d == L.g("d"), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ml), z3.Select(a, j) == z3.Select(al, j)), patterns=[z3.Select(a, j)]))
        o["first children from there"] = z3.ForAll([j], z3.Implies(z3.And(ml <= j, j < m), ix(j) == 0), patterns=[z3.Select(a, j)])
        o["root kept"] = S.fld("_root") == S.pre.fld("_root")
        o["still open"] = S.fld("_arity") >= 0
        return o

    mods = lambda S: [S.fp(S.this, "_backtrackIterators"), S.fp(S.this, "_arity")]
    nxt = Contract("IndexIterator::next", rec=IA, setup=setup, pre=nxt_pre, post=nxt_post, mods=lambda S: mods(S) + [("ghost", "d")],
                   loops=[Loop(inv=pop_inv, dec=lambda S: P(S)[0], exitghost=pop_exit),
                          Loop(inv=push_inv, dec=lambda S: T.ht(T.cnode(P(S)[1](P(S)[0] - 1), P(S)[2](P(S)[0] - 1))))])
    X.itr = dict(P=P, chain=chain, good=good, pre=nxt_pre, post=nxt_post, setup=setup)
    return accessor(X, T) + [nxt]
