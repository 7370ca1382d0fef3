"""Building expression trees (CmmlToken.cpp): the node under construction gets exactly what the document says."""
import z3
from sx import *
from cast import I, Ty
T = "CmmlToken"


def make(X):
    so, lib = X.so, X.lib
    I_ = z3.IntSort()
    STR = lib.strlit("x").sort()
    sel, sto = z3.Select, z3.Store
    H = lambda S, f: S.heap(T, f)
    ref = lambda S: S.this.root[2]
    MT = Ty("std", "map", [Ty("std", "string"), Ty("std", "string")])
    VT = Ty("std", "list", [Ty("ptr", to=Ty("rec", T))])
    class o:
        pass
    # text of an element: its characters without white space
    kept = z3.Function("kept", STR, STR, I_, STR)
    b, s, i = z3.Const("tb", STR), z3.Const("ts", STR), z3.Int("ti")
    schar = lib.fn("schar", I_, STR)
    space = lambda c: z3.Or(c == 32, z3.And(c >= 9, c <= 13))
    X.axioms += [z3.ForAll([b, s], kept(b, s, 0) == b, patterns=[kept(b, s, 0)]),
                 z3.ForAll([b, s, i], z3.Implies(i >= 0, kept(b, s, i + 1) == z3.If(space(lib.sat(s, i)), kept(b, s, i), lib.sconcat(kept(b, s, i), schar(lib.sat(s, i))))), patterns=[z3.MultiPattern(kept(b, s, i), lib.sat(s, i))])]
    mlit = lib.strlit("m:")
    local = lambda n: z3.If(z3.And(lib.slen(n) >= 2, lib.ssub(n, z3.IntVal(0), z3.IntVal(2)) == mlit), lib.ssub(n, z3.IntVal(2), lib.slen(n) - 2), n)
    F = ["_tag", "_attributes", "_textContent", "_childNodes", "_parentNode", "_xpath"]
    nokids = lambda S: X.default_val(VT)
    noattrs = lambda S: X.default_val(MT)
    tostr = lib.fn("to_string", I_, STR)
    cat = lib.sconcat
    kidpath = lambda p, n: cat(cat(cat(p, lib.strlit("/*[")), tostr(n)), lib.strlit("]"))
    ty = Ty("rec", T)
    fld = lambda S, f, t: Place(S.this.root, (("f", f, t),), t)
    FT = {"_tag": Ty("std", "string"), "_attributes": MT, "_textContent": Ty("std", "string"), "_childNodes": VT, "_parentNode": Ty("ptr", to=ty), "_xpath": Ty("std", "string")}

    def created(S, P, r, parent, xpath):
        """everything about a new node r; nothing else changes (the list of children of its parent excepted)"""
        e = {"a new node": z3.And(r > 0, z3.Not(sel(P.alloc, r)), S.alloc == sto(P.alloc, r, z3.BoolVal(True))),
             "without tag, text and attributes": z3.And(H(S, "_tag") == sto(H(P, "_tag"), r, lib.strlit("")), H(S, "_textContent") == sto(H(P, "_textContent"), r, lib.strlit("")),
                                                        so.map_dom(sel(H(S, "_attributes"), r)) == z3.K(STR, z3.BoolVal(False))),
             "other attributes are as before": H(S, "_attributes") == sto(H(P, "_attributes"), r, sel(H(S, "_attributes"), r)),
             "its parent": H(S, "_parentNode") == sto(H(P, "_parentNode"), r, parent),
             "its position": H(S, "_xpath") == sto(H(P, "_xpath"), r, xpath)}
        kids0 = sel(H(S, "_childNodes"), r)
        e["no children"] = so.vec_len(kids0) == 0
        return e
    hm = [("heap", T, f) for f in F]

    def root_post(S):
        e = created(S, S.pre, S.ret, z3.IntVal(0), lib.strlit("/*[1]"))
        e["children of others are as before"] = H(S, "_childNodes") == sto(H(S.pre, "_childNodes"), S.ret, sel(H(S, "_childNodes"), S.ret))
        return e

    def child_post(S):
        P, r, t = S.pre, S.ret, ref(S)
        old, new = sel(H(P, "_childNodes"), t), sel(H(S, "_childNodes"), t)
        e = created(S, P, r, t, kidpath(sel(H(P, "_xpath"), t), so.vec_len(old) + 1))
        e["it is the last child"] = z3.And(so.vec_len(new) == so.vec_len(old) + 1, so.vec_arr(new) == sto(so.vec_arr(old), so.vec_len(old), r))
        e["children of others are as before"] = H(S, "_childNodes") == sto(sto(H(P, "_childNodes"), r, sel(H(S, "_childNodes"), r)), t, new)
        return e

    def attrs(S, r):
        v = sel(H(S, "_attributes"), r)
        return so.map_dom(v), so.map_val(v)

    def attr_post(S):
        (d0, v0), (d1, v1) = attrs(S.pre, ref(S)), attrs(S, ref(S))
        a, v = S.deref("anAttribute"), S.deref("aValue")
        a, v = (X.read(S.st, a) if isinstance(a, Place) else a), (X.read(S.st, v) if isinstance(v, Place) else v)
        return {"the attribute is there": d1 == sto(d0, a, z3.BoolVal(True)), "with its value, the first one given": v1 == z3.If(sel(d0, a), v0, sto(v0, a, v))}
    sv = lambda S, n: (lambda v: X.read(S.st, v) if isinstance(v, Place) else v.s if isinstance(v, CStr) else v)(S[n])
    cs = [Contract("CmmlToken::newRoot", mods=lambda S: hm + [("alloc",)], post=root_post),
          Contract("CmmlToken::newChildNode", pre=lambda S: {"a node": sel(S.alloc, ref(S))}, mods=lambda S: hm + [("alloc",)], post=child_post),
          Contract("CmmlToken::setTag", mods=lambda S: [fld(S, "_tag", FT["_tag"])], post=lambda S: {"the name without the prefix m:": sel(H(S, "_tag"), ref(S)) == local(sv(S, "aTag"))}),
          Contract("CmmlToken::addAttribute", mods=lambda S: [fld(S, "_attributes", MT)], post=attr_post),
          Contract("CmmlToken::appendTextContent", nparams=2, pre=lambda S: {"that many characters": z3.And(S["nBytes"] >= 0, S["nBytes"] <= lib.slen(S["aTextContent"].s))}, mods=lambda S: [fld(S, "_textContent", FT["_textContent"])],
                   post=lambda S: {"all characters but white space are added": sel(H(S, "_textContent"), ref(S)) == kept(sel(H(S.pre, "_textContent"), ref(S)), S.pre["aTextContent"].s, S.pre["nBytes"])},
                   loops=[Loop(inv=lambda S: {"position": z3.And(0 <= S["i"], S["i"] <= S["nBytes"]),
                                              "other texts are as before": H(S, "_textContent") == sto(H(S.pre, "_textContent"), ref(S), sel(H(S, "_textContent"), ref(S))),
                                              "the characters so far": sel(H(S, "_textContent"), ref(S)) == kept(sel(H(S.pre, "_textContent"), ref(S)), S["aTextContent"].s, S["i"])})]),
          Contract("CmmlToken::isRoot", post=lambda S: {"without parent": S.ret == (sel(H(S, "_parentNode"), ref(S)) == 0)}),
          Contract("CmmlToken::getParentNode", post=lambda S: {"the parent": S.ret == sel(H(S, "_parentNode"), ref(S))})]
    o.cs, o.kept, o.local, o.F, o.FT, o.attrs, o.kidpath, o.created = cs, kept, local, F, FT, attrs, kidpath, created
    return o
