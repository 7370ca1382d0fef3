"""JSON answers of schema queries (SchemaJsonResponseFormatter.cpp)."""
import z3
from sx import *
from cast import I, Ty
import jsonc
TU = '''
#include "mws/xmlparser/SchemaJsonResponseFormatter.cpp"
'''
HEAP = ["CmmlToken", "SchemaAnswset", "GenericAnswer", "json_object", "_IO_FILE", "FILE"]
LIM = 1 << 31


def contracts(X):
    so, lib = X.so, X.lib
    I_, sel = z3.IntSort(), z3.Select
    JC = jsonc.Json(X)
    STR = JC.S_
    ANS = z3.Int("ans!p")
    vlen, varr = so.vec_len, so.vec_arr
    arr = lambda v, k: sel(varr(v), k)
    params = {"ans": lambda X_, st, fr, ty: (st.assume(ANS > 0), ANS)[1], "output": lambda X_, st, fr, ty: z3.Int("output!f")}
    k = z3.Int("ak")
    loop = JC.loop
    written = JC.written

    # ---- schemata
    B = lambda S, f: sel(S.heap("SchemaAnswset", f), ANS)
    shown = z3.Function("shown", I_, I_, STR)
    et = Ty("rec", "ExprSchema")
    names = [n for n, t, w in so.rec_fields(et)]
    f_ = lambda v, n: so.acc(v.sort(), names.index(n), v)
    # (this contract of toString is discharged in shown.py)
    T = lambda S, f: S.heap("CmmlToken", f)
    ht, r = z3.Function("height", I_, I_), z3.Int("er")
    nodes = lambda S: z3.ForAll([r, k], z3.Implies(z3.And(r > 0, 0 <= k, k < vlen(sel(T(S, "_childNodes"), r))), z3.And(arr(sel(T(S, "_childNodes"), r), k) > 0, ht(arr(sel(T(S, "_childNodes"), r), k)) >= 0, ht(arr(sel(T(S, "_childNodes"), r), k)) < ht(r))), patterns=[arr(sel(T(S, "_childNodes"), r), k)])
    lens = lambda S: z3.ForAll([r], vlen(sel(T(S, "_childNodes"), r)) >= 0, patterns=[sel(T(S, "_childNodes"), r)])
    trees = lambda S: {"children are there": nodes(S), "lists": lens(S)}
    ok = lambda S, x, ind: z3.And(x > 0, ind >= 0, ht(x) >= 0, ind + 2 * ht(x) < 1 << 31)
    ts = Contract("CmmlToken::toString", verify=False, pre=lambda S: dict(trees(S), **{"a node": ok(S, S.this.root[2], S["indent"])}), post=lambda S: {"the text of the node": S.ret == shown(S.this.root[2], S["indent"])})

    def sch_pre(S):
        v = B(S, "schemata")
        e = arr(v, k)
        return {"fewer than 2^31 schemata": z3.And(vlen(v) >= 0, vlen(v) < LIM), "of a root each, and fewer than 2^31 formulae": z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < vlen(v)), z3.And(ok(S, f_(e, "root"), 0), f_(e, "coverage") >= 0, f_(e, "coverage") < LIM, vlen(f_(e, "formulae")) >= 0, vlen(f_(e, "subst")) >= 0)), patterns=[e]), **trees(S)}

    def schema(S, J):
        v = B(S, "schemata")

        fo, su = lambda e: J.get(e, "formulae"), lambda e: J.get(e, "subst")
        x = lambda i: arr(v, i)
        return {"members": lambda e, i: z3.And(J.isobj(e, "cmmlSchema", "coverage", "formulae", "subst"), J.isstr(J.get(e, "cmmlSchema"), shown(f_(x(i), "root"), 0)), J.isint(J.get(e, "coverage"), f_(x(i), "coverage"))),
                "formulae": lambda e, i: JC.every(J, fo(e), vlen(f_(x(i), "formulae")), lambda w, j: J.isint(w, arr(f_(x(i), "formulae"), j))),
                "subst": lambda e, i: JC.every(J, su(e), vlen(f_(x(i), "subst")), lambda w, j: J.isstr(w, arr(f_(x(i), "subst"), j)))}

    def cur(S):
        x = S.deref("exprSch")
        return so.to_z3(X.read(S.st, x) if isinstance(x, Place) else x, et)

    def elems(name, want):
        def pred(S, J):
            x = cur(S)
            return lambda v, i: want(J)(v, arr(f_(x, name), i))
        return pred

    def sch_post(S):
        J = JC.at(S, "p_")
        d = S.st.ghost["p_doc"]
        e = written(S)
        e.update({"an object with these members": J.isobj(d, "total", "size", "schemata"), "total": J.isint(J.get(d, "total"), B(S, "total")), "size": J.isint(J.get(d, "size"), vlen(B(S, "schemata"))),
                  })
        for lab, f in schema(S, J).items():
            e["every schema: " + lab] = JC.every(J, J.get(d, "schemata"), vlen(B(S, "schemata")), f)
        return e
    sj = Contract("SchemaJsonResponseFormatter::writeData", setup=JC.setup, params=params, pre=sch_pre, post=sch_post, mods=JC.mods,
                  loops=[loop("schemata", schema, lambda S: vlen(B(S, "schemata"))), loop("formulae", elems("formulae", lambda J: J.isint), lambda S: vlen(f_(cur(S), "formulae"))), loop("subst", elems("subst", lambda J: J.isstr), lambda S: vlen(f_(cur(S), "subst")))])
    new = lambda S, f: sel(S.heap("SchemaAnswset", f), S.this.root[2])
    ctor = Contract("SchemaAnswset::SchemaAnswset", nparams=0, mods=lambda S: [S.fp(S.this, f) for f in ("schemata", "total")], post=lambda S: {"nothing found": z3.And(new(S, "total") == 0, vlen(new(S, "schemata")) == 0)})
    return [ts, sj, ctor]
