"""Exported index image: node lookup and node writing (index.h, TmpIndex.cpp, IndexAccessor.hpp)."""
import z3
from sx import *
from vals import PtrP, StructV, VOID

TU = '''
#include "mws/index/IndexAccessor.hpp"
#include "mws/index/TmpIndex.cpp"
'''
HEAP = ["TmpIndexNode", "TmpLeafNode"]
TOK = Ty("rec", "encoded_token_s")
SIZES = {"inode_s": 8, "inode_long_s": 8, "encoded_token_dict_entry_s": 8, "encoded_token_dict_entry_long_s": 12, "leaf_s": 8}
INT, LONG, LEAF = 1, 2, 3


def contracts(X):
    so = X.so
    order = X.lib.memord(TOK)
    tok = so.of(TOK)
    X.flex_len = lambda X, st, pl: X.read(st, Place(pl.root, pl.sels[:-1], None).f("size", I(64, False)))

    def child(fn):
        def parts(S):
            n = S.deref("inode")
            d = S.X.read(S.st, S.fp(n, "data"))
            sz = S.X.read(S.st, S.fp(n, "size"))
            ety = [t for nme, t, w in so.rec_fields(n.ty) if nme == "data"][0].to
            es = so.of(ety)
            return (lambda i: es.accessor(0, 0)(z3.Select(d, i))), (lambda i: es.accessor(0, 1)(z3.Select(d, i))), sz, d

        def pre(S):
            key, off, n, d = parts(S)
            i, j = z3.Ints("pi pj")
            return {"entries are strictly ordered by token": z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), order(key(i)) < order(key(j))),
                                                                       patterns=[z3.MultiPattern(z3.Select(d, i), z3.Select(d, j))]),
                    "no entry has the null offset": z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), off(i) != 0), patterns=[z3.Select(d, i)]),
                    "fewer than 2^31 entries": z3.And(n >= 0, n < (1 << 31) - 1)}

        def inv(S):
            key, off, n, d = parts(S)
            t = S.z("token")
            l, r = S["left"], S["right"]
            i = z3.Int("ii")
            return {"window": z3.And(0 <= l, l <= r + 1, r < n),
                    "left of the window is smaller": z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < l), order(key(i)) < order(t)), patterns=[z3.Select(d, i)]),
                    "right of the window is larger": z3.ForAll([i], z3.Implies(z3.And(r < i, i < n), order(key(i)) > order(t)), patterns=[z3.Select(d, i)])}

        def post(S):
            key, off, n, d = parts(S.pre)
            t = S.pre.z("token")
            i = z3.Int("qi")
            return {"null exactly when no entry has the token": z3.Implies(S.ret == 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), key(i) != t), patterns=[z3.Select(d, i)])),
                    "otherwise the offset of the entry with the token": z3.Implies(S.ret != 0, z3.Exists([i], z3.And(0 <= i, i < n, key(i) == t, off(i) == S.ret)))}
        return Contract(fn, pre=pre, post=post, loops=[Loop(inv=inv, dec=lambda S: S["right"] - S["left"] + 1)])

    # ---- writing: the ghost log of records appended to the image
    W = z3.Datatype("WRec")
    W.declare("wnode", ("nkind", z3.IntSort()), ("nsize", z3.IntSort()))
    W.declare("wentry", ("ewide", z3.BoolSort()), ("etok", tok), ("eoff", z3.IntSort()))
    W.declare("wleaf", ("lhits", z3.IntSort()), ("lid", z3.IntSort()), ("lkind", z3.IntSort()))
    W = W.create()
    LOG = z3.ArraySort(z3.IntSort(), W)

    def setup(S):
        S.st.ghost["log"] = z3.Const("log0", LOG)
        S.st.ghost["logn"] = z3.Int("logn0")

    def write_model(X, st, this, args, fr, n):
        m, data, size = args
        m, data, size = X.rv(st, m), X.rv(st, data), X.rv(st, size)
        if not isinstance(data, PtrP) or not data.place.ty or data.place.ty.name not in SIZES:
            raise Unsupported("memsector_write of something else than one index record")
        ty = data.place.ty
        v = X.read(st, data.place)
        X.check(st, size == SIZES[ty.name], "a whole record is written", n)
        g = lambda k: so.to_z3(v.f[k], [t for nme, t, w in so.rec_fields(ty) if nme == k][0])
        if ty.name in ("inode_s", "inode_long_s"):
            rec = W.wnode(g("type"), g("size"))
            X.check(st, g("type") == (INT if ty.name == "inode_s" else LONG), "node kind matches its layout", n)
        elif ty.name == "leaf_s":
            rec = W.wleaf(g("num_hits"), g("formula_id"), g("type"))
        else:
            rec = W.wentry(z3.BoolVal(ty.name.endswith("long_s")), g("token"), g("off"))
        st.ghost["log"] = z3.Store(st.ghost["log"], st.ghost["logn"], rec)
        st.ghost["logn"] = st.ghost["logn"] + 1
        st.wrote(("ghost", "log"))
        st.wrote(("ghost", "logn"))
        w = X.deref(st, m, Ty("ptr", to=Ty("rec", "memsector_writer_s")))
        offp = View(X, st, fr).fp(w, "offset")
        X.write(st, offp, X.read(st, offp) + SIZES[ty.name])
        return [(st, VOID)]
    write = Contract("memsector_write", model=write_model, trusted=True, verify=False, title="memsector_write (appends one record, advances the offset by its size)")

    def mw(S, nm="mswr"):
        return S.deref(nm)

    def f(S, nm, *path):
        return S.X.read(S.st, S.fp(mw(S, nm), *path))
    BIG = 1 << 62

    def wmods(nm, *fields):
        return lambda S: [S.fp(mw(S, nm), "offset")] + [S.fp(mw(S, nm), "inode", x) for x in fields] + [("ghost", "log"), ("ghost", "logn")]

    def idle(S, nm):
        return {"no node is being written": z3.And(f(S, nm, "inode", "entries_delivered") == 0, f(S, nm, "inode", "entries_promised") == 0),
                "offset is aligned": z3.And(f(S, nm, "offset") % 4 == 0, f(S, nm, "offset") >= 0, f(S, nm, "offset") < BIG)}

    def logsame(S, n):
        """records before position n are unchanged"""
        j = z3.Int("lj")
        a0, a1 = S.pre.g("log"), S.g("log")
        return z3.ForAll([j], z3.Implies(j < n, z3.Select(a1, j) == z3.Select(a0, j)), patterns=[z3.Select(a1, j)])

    def begin_post(S):
        n0 = S.pre.g("logn")
        cur = f(S.pre, "msw", "offset") / 4
        wide = cur - S.pre["furthermost_child_off"] >= (1 << 32)
        return {"returns the position of the node in allocation units": S.ret == cur,
                "wide offsets are used exactly when a child is 2^32 units or more away": f(S, "msw", "inode", "has_long_offsets") == wide,
                "one node record of that kind and size": z3.And(S.g("logn") == n0 + 1, z3.Select(S.g("log"), n0) == W.wnode(z3.If(wide, LONG, INT), S.pre["num_children"])),
                "offset advances by the record": f(S, "msw", "offset") == f(S.pre, "msw", "offset") + 8,
                "entries promised": z3.And(f(S, "msw", "inode", "entries_promised") == S.pre["num_children"], f(S, "msw", "inode", "entries_delivered") == 0),
                "earlier records are unchanged": logsame(S, n0)}
    begin = Contract("memsector_write_inode_begin", setup=setup, post=begin_post, mods=wmods("msw", "entries_promised", "entries_delivered", "has_long_offsets"),
                     pre=lambda S: dict(idle(S, "msw"), **{"children lie before the node": S["furthermost_child_off"] <= f(S, "msw", "offset") / 4}))

    def entry_pre(S):
        return {"an entry is still owed": z3.And(f(S, "msw", "inode", "entries_delivered") < f(S, "msw", "inode", "entries_promised")),
                "the child is another node": S["off"] != 0,
                "the offset fits the node's entries": z3.Implies(z3.Not(f(S, "msw", "inode", "has_long_offsets")), S["off"] < (1 << 32)),
                "offset in range": z3.And(f(S, "msw", "offset") >= 0, f(S, "msw", "offset") < BIG + (1 << 40))}

    def entry_post(S):
        n0 = S.pre.g("logn")
        wide = f(S.pre, "msw", "inode", "has_long_offsets")
        return {"one entry with that token and that very offset": z3.And(S.g("logn") == n0 + 1, z3.Select(S.g("log"), n0) == W.wentry(wide, S.pre.z("encoded_token"), S.pre["off"])),
                "offset advances by the record": f(S, "msw", "offset") == f(S.pre, "msw", "offset") + z3.If(wide, 12, 8),
                "one entry delivered": f(S, "msw", "inode", "entries_delivered") == f(S.pre, "msw", "inode", "entries_delivered") + 1,
                "earlier records are unchanged": logsame(S, n0)}
    entry = Contract("memsector_write_inode_encoded_token_entry", setup=setup, pre=entry_pre, post=entry_post, mods=wmods("msw", "entries_delivered"))

    end = Contract("memsector_write_inode_end",
                   pre=lambda S: {"every promised entry was delivered": z3.And(f(S, "msw", "inode", "entries_delivered") == f(S, "msw", "inode", "entries_promised"),
                                                                               f(S, "msw", "inode", "entries_delivered") > 0)},
                   mods=lambda S: [S.fp(mw(S, "msw"), "inode", "entries_delivered"), S.fp(mw(S, "msw"), "inode", "entries_promised")],
                   post=lambda S: {"no node is being written": z3.And(f(S, "msw", "inode", "entries_delivered") == 0, f(S, "msw", "inode", "entries_promised") == 0)})

    leaf = Contract("memsector_write_leaf", setup=setup,
                    pre=lambda S: dict(idle(S, "mswr"), **{"hits fit 30 bits": S["num_hits"] < (1 << 30)}),
                    mods=wmods("mswr"),
                    post=lambda S: {"returns the position of the leaf in allocation units": S.ret == f(S.pre, "mswr", "offset") / 4,
                                    "one leaf record with the id and the hits": z3.And(S.g("logn") == S.pre.g("logn") + 1,
                                        z3.Select(S.g("log"), S.pre.g("logn")) == W.wleaf(S.pre["num_hits"], S.pre["formula_id"], LEAF)),
                                    "offset advances by the record": f(S, "mswr", "offset") == f(S.pre, "mswr", "offset") + 8,
                                    "earlier records are unchanged": logsame(S, S.pre.g("logn"))})

    # ---- a node and all its children
    import vectormap
    vm = vectormap.VM(X)

    def kids_of(S):
        d = vm.data(S.X.read(S.st, S.fp(S.deref("node"), "children")))
        return d, vm.len(d)

    def offs(S):
        v = S.z("offsets")
        return so.vec_arr(v), so.vec_len(v)

    def wc_pre(S):
        d, n = kids_of(S)
        o, on = offs(S)
        i = z3.Int("oi")
        cur = f(S, "mswr", "offset") / 4
        return dict(idle(S, "mswr"), **{
            "node is an object": S["node"] > 0,
            "one position per child": z3.And(n == on, n > 0, n < (1 << 31)),
            "children were written before, the first child first": z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(
                z3.Select(o, i) >= z3.Select(o, 0), z3.Select(o, i) < cur, z3.Select(o, i) >= 0)), patterns=[z3.Select(o, i)])})

    def wc_entries(S, upto):
        d, n = kids_of(S.pre)
        o, on = offs(S.pre)
        n0 = S.pre.g("logn")
        cur = f(S.pre, "mswr", "offset") / 4
        wide = cur - z3.Select(o, 0) >= (1 << 32)
        i = z3.Int("wi")
        L = S.g("log")
        return wide, cur, n0, z3.ForAll([i], z3.Implies(z3.And(n0 + 1 <= i, i < n0 + 1 + upto), z3.Select(L, i) == W.wentry(
            wide, vm.key(d, i - n0 - 1), cur - z3.Select(o, i - n0 - 1))), patterns=[z3.Select(L, i)])

    def wc_inv(S):
        k = S.k
        d, n = kids_of(S.pre)
        wide, cur, n0, ent = wc_entries(S, k)
        return {"cursor": z3.And(0 <= k, k <= n, S["i"] == k),
                "node record": z3.Select(S.g("log"), n0) == W.wnode(z3.If(wide, LONG, INT), n),
                "records so far": z3.And(S.g("logn") == n0 + 1 + k, ent),
                "earlier records are unchanged": logsame(S, n0),
                "position": S["currOffset"] == cur,
                "writer": z3.And(f(S, "mswr", "inode", "has_long_offsets") == wide, f(S, "mswr", "inode", "entries_delivered") == k,
                                 f(S, "mswr", "inode", "entries_promised") == n,
                                 f(S, "mswr", "offset") == f(S.pre, "mswr", "offset") + 8 + k * z3.If(wide, 12, 8))}

    def wc_post(S):
        d, n = kids_of(S.pre)
        wide, cur, n0, ent = wc_entries(S, n)
        return {"returns the position of the node": S.ret == cur,
                "one node record, then one entry per child in child order, each leading back to that child": z3.And(
                    S.g("logn") == n0 + 1 + n, z3.Select(S.g("log"), n0) == W.wnode(z3.If(wide, LONG, INT), n), ent),
                "earlier records are unchanged": logsame(S, n0),
                "the writer is ready for the next node": z3.And(*idle(S, "mswr").values()) if False else z3.And(
                    f(S, "mswr", "inode", "entries_delivered") == 0, f(S, "mswr", "inode", "entries_promised") == 0)}
    wc = Contract("mws::index::TmpIndex::_writeChildrenOffsets", setup=setup, pre=wc_pre, post=wc_post,
                  mods=wmods("mswr", "entries_promised", "entries_delivered", "has_long_offsets"),
                  loops=[Loop(inv=wc_inv, ghost=("log", "logn"))])
    return [child("inode_get_child"), child("inode_long_get_child"), write, begin, entry, end, leaf, wc]
