"""XML answers of schema queries (SchemaXmlResponseFormatter.cpp)."""
import z3
from sx import *
from cast import I, Ty
import xmlw
import rxml
TU = '''
#include "mws/types/CmmlToken.cpp"
#include "mws/xmlparser/SchemaXmlResponseFormatter.cpp"
'''
HEAP = ["CmmlToken", "SchemaAnswset", "GenericAnswer", "_xmlTextWriter", "_xmlOutputBuffer", "_IO_FILE", "FILE"]
LIM = 1 << 31


def contracts(X):
    so, lib = X.so, X.lib
    I_, sel = z3.IntSort(), z3.Select
    W = xmlw.Xml(X)
    STR = W.S_
    ANS = z3.Int("ans!p")
    B = lambda S, f: sel(S.heap("SchemaAnswset", f), ANS)
    T = lambda S, f: S.heap("CmmlToken", f)
    vlen, varr = so.vec_len, so.vec_arr
    arr = lambda v, k: sel(varr(v), k)
    et = Ty("rec", "ExprSchema")
    names = [n for n, t, w in so.rec_fields(et)]
    f_ = lambda v, n: so.acc(v.sort(), names.index(n), v)
    params = {"ans": lambda X_, st, fr, ty: (st.assume(ANS > 0), ANS)[1], "output": lambda X_, st, fr, ty: z3.Int("output!f")}
    k, l, r = z3.Int("ak"), z3.Const("al", W.L), z3.Int("ar")
    tree, kidsf, schf = z3.Function("x_tree", W.L, I_, W.L), z3.Function("x_kids", W.L, I_, I_, W.L), z3.Function("x_schemata", W.L, I_, W.L)
    tos = lib.fn("to_string", I_, STR)
    EMP = lambda: lib.strlit("")

    def defs(S):
        st = S.st
        ch, tag, tx = T(S, "_childNodes"), T(S, "_tag"), T(S, "_textContent")
        st.assume(z3.ForAll([l, r], tree(l, r) == W.end_(kidsf(W.text_(W.start(l, sel(tag, r), W.none, W.nov), sel(tx, r)), r, vlen(sel(ch, r)))), patterns=[tree(l, r)]))
        st.assume(z3.ForAll([l, r], kidsf(l, r, 0) == l, patterns=[kidsf(l, r, 0)]))
        st.assume(z3.ForAll([l, r, k], z3.Implies(k >= 0, kidsf(l, r, k + 1) == tree(kidsf(l, r, k), arr(sel(ch, r), k))), patterns=[z3.MultiPattern(kidsf(l, r, k), arr(sel(ch, r), k))]))

    def setup(S):
        W.setup(S)
        defs(S)
        v = B(S, "schemata")
        st = S.st
        st.assume(z3.ForAll([l], schf(l, 0) == l, patterns=[schf(l, 0)]))
        one = lambda lg, s: W.end_(W.end_(tree(W.elem(W.elem(lg, "mws:schema", coverage=tos(f_(s, "coverage"))), "math"), f_(s, "root"))))
        st.assume(z3.ForAll([l, k], z3.Implies(k >= 0, schf(l, k + 1) == one(schf(l, k), arr(v, k))), patterns=[z3.MultiPattern(schf(l, k), arr(v, k))]))

    def nodes(S):
        ch = T(S, "_childNodes")
        return z3.ForAll([r, k], z3.Implies(z3.And(r > 0, 0 <= k, k < vlen(sel(ch, r))), arr(sel(ch, r), k) > 0), patterns=[arr(sel(ch, r), k)])
    lens = lambda S: z3.ForAll([r], vlen(sel(T(S, "_childNodes"), r)) >= 0, patterns=[sel(T(S, "_childNodes"), r)])

    def pre(S):
        v = B(S, "schemata")
        e = arr(v, k)
        return {"fewer than 2^31 schemata": z3.And(vlen(v) >= 0, vlen(v) < LIM), "of a root each": z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < vlen(v)), f_(e, "root") > 0), patterns=[e]), "children are there": nodes(S), "lists": lens(S)}

    def post(S):
        root = W.elem(W.nolog, "mws:schemata", xmlns__mws=lib.strlit("http://www.mathweb.org/mws/ns"), size=tos(vlen(B(S, "schemata"))), total=tos(B(S, "total")))
        return W.done(S, W.end_(schf(root, vlen(B(S, "schemata")))))
    same = lambda S: z3.And([S.st.ghost[g] == S.loop_entry().st.ghost[g] for g in ("xdepth", "xroot")])
    lp = Loop(inv=lambda S: {"position": z3.And(0 <= S.k, S.k <= vlen(B(S, "schemata"))), "inside the root": z3.And(same(S), S.st.ghost["xdepth"] > 0), "the schemata so far": W.flog(S.st) == schf(W.flog(S.loop_entry().st), S.k), "no error": S.z("ret") >= 0}, ghost=W.GH)
    wd = Contract("SchemaXmlResponseFormatter::writeData", setup=setup, params=params, pre=pre, post=post, mods=W.mods, loops=[lp])

    # ---- one tree
    def psetup(S):
        g = S.st.ghost
        W.setup(S)
        g.update(xlog=z3.Const("xlog0", W.L), xpend=z3.Bool("xpend0"), xdom=z3.Const("xdom0", W.none.sort()), xval=z3.Const("xval0", W.nov.sort()), xdepth=z3.Int("xdepth0"), xroot=z3.BoolVal(True), xbuf=z3.IntVal(2), xwr=z3.IntVal(1), xstarted=z3.BoolVal(True))
        defs(S)
    g_ = lambda S, n: S.st.ghost[n]
    ppre = lambda S: {"a node": S["root"] > 0, "inside an element": z3.And(g_(S, "xdepth") > 0, g_(S, "xroot"), g_(S, "xstarted"), z3.Not(g_(S, "xended")), g_(S, "xwr") == 1, S["wrt"] == W.WR), "children are there": nodes(S), "lists": lens(S)}
    ppost = lambda S: {"the tree is written": W.flog(S.st) == tree(W.flog(S.pre.st), S["root"]), "inside the same element": z3.And(g_(S, "xdepth") == g_(S.pre, "xdepth"), g_(S, "xroot")), "without error": S.ret >= 0}
    pl = Loop(inv=lambda S: {"position": z3.And(0 <= S.k, S.k <= vlen(sel(T(S, "_childNodes"), S["root"]))), "inside the element": z3.And(same(S), g_(S, "xdepth") > 0, g_(S, "xroot")), "no error": S.z("ret") >= 0,
                             "the children so far": W.flog(S.st) == kidsf(W.flog(S.loop_entry().st), S["root"], S.k)}, ghost=W.GH)
    pt = Contract("SchemaXmlResponseFormatter::printCmmlToken", setup=psetup, pre=ppre, post=ppost, mods=lambda S: [("ghost", x) for x in W.GH], loops=[pl])
    return [wd, pt] + rxml.callback(X, W)
