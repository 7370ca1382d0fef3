"""Schemata (SchemaQueryHandler.cpp): the references of the subexpressions that a schema leaves open."""
import z3
from sx import *
from cast import I, Ty
TU = '''
#include "mws/types/CmmlToken.cpp"
#include "mws/daemon/SchemaQueryHandler.cpp"
'''
HEAP = ["CmmlToken", "SchemaAnswset", "GenericAnswer", "Query"]
LIM = 1 << 31


def contracts(X):
    so, lib = X.so, X.lib
    I_, sel = z3.IntSort(), z3.Select
    lit = lib.strlit
    STR = lit("x").sort()
    H = lambda S, f: S.heap("CmmlToken", f)
    vlen, varr = so.vec_len, so.vec_arr
    VT = Ty("std", "vector", (Ty("std", "string"),))
    VS = so.of(VT)
    sub, subk = z3.Function("open_refs", I_, I_, VS, VS), z3.Function("open_refs_from", I_, I_, I_, VS, VS)
    push = lambda o, x: VS.constructor(0)(z3.Store(varr(o), vlen(o), x), vlen(o) + 1)
    e, s, k, o = z3.Int("se"), z3.Int("ss"), z3.Int("sk"), z3.Const("so", VS)

    def defs(S):
        ch, tag, at = H(S, "_childNodes"), H(S, "_tag"), H(S, "_attributes")
        n = lambda x: vlen(sel(ch, x))
        kid = lambda x, k: sel(varr(sel(ch, x)), k)
        has, ref = (lambda x: sel(so.map_dom(sel(at, x)), lit("xref"))), (lambda x: sel(so.map_val(sel(at, x)), lit("xref")))
        leaf = z3.Or(z3.Not(has(e)), ref(e) == lit(""))
        first = z3.If(sel(tag, e) == lit("apply"), 1, 0)
        st = S.st
        st.assume(z3.ForAll([e, s, o], sub(e, s, o) == z3.If(z3.Or(e == 0, s == 0), o, z3.If(sel(tag, s) == lit("mws:qvar"), z3.If(leaf, o, push(o, ref(e))),
                                                            z3.If(z3.Or(n(e) != n(s), sel(tag, e) != sel(tag, s), n(e) == 0), o, subk(e, s, first, o)))), patterns=[sub(e, s, o)]))
        st.assume(z3.ForAll([e, s, k, o], z3.Implies(k >= n(e), subk(e, s, k, o) == o), patterns=[subk(e, s, k, o)]))
        st.assume(z3.ForAll([e, s, k, o], z3.Implies(z3.And(0 <= k, k < n(e)), subk(e, s, k, o) == subk(e, s, k + 1, sub(kid(e, k), kid(s, k), o))), patterns=[z3.MultiPattern(subk(e, s, k, o), kid(e, k))]))
    lens = lambda S: z3.ForAll([e], vlen(sel(H(S, "_childNodes"), e)) >= 0, patterns=[sel(H(S, "_childNodes"), e)])
    out = lambda S: (lambda v: X.read(S.st, v) if isinstance(v, Place) else v)(S.deref("subst"))

    def post(S):
        return {"the references of what is left open, in order": out(S) == sub(S.pre["exprRoot"], S.pre["schemaRoot"], out(S.pre))}
    def inv(S):
        it, jt = S["expr_it"], S["schema_it"]
        return {"position": z3.And(it.idx >= 0, jt.idx == it.idx, it.idx <= vlen(sel(H(S, "_childNodes"), S.pre["exprRoot"]))),
                "what is still to come": subk(S.pre["exprRoot"], S.pre["schemaRoot"], it.idx, out(S)) == sub(S.pre["exprRoot"], S.pre["schemaRoot"], out(S.pre))}
    gs = Contract("SchemaQueryHandler::getSubstitutions", setup=defs, pre=lambda S: {"lists": lens(S), "a place for the references": z3.BoolVal(True)}, post=post, mods=lambda S: [S.deref("subst")],
                  loops=[Loop(inv=inv)])
    return [gs]
