"""JSON answers (MwsJsonResponseFormatter.cpp, MwsIdsResponseFormatter.cpp): the document printed says what the answer set holds."""
import z3
from sx import *
from cast import I, Ty
import jsonc
TU = '''
#include "mws/xmlparser/MwsJsonResponseFormatter.cpp"
#include "mws/xmlparser/MwsIdsResponseFormatter.cpp"
'''
HEAP = ["CmmlToken", "MwsAnswset", "GenericAnswer", "Answer", "json_object", "_IO_FILE", "FILE"]
LIM = 1 << 31


def contracts(X):
    so, lib = X.so, X.lib
    I_, sel = z3.IntSort(), z3.Select
    JC = jsonc.Json(X)
    STR = JC.S_
    ANS = z3.Int("ans!p")
    A = lambda S, f: sel(S.heap("MwsAnswset", f), ANS)
    vlen, varr = so.vec_len, so.vec_arr
    arr = lambda v, k: sel(varr(v), k)
    of = lambda S, f, r: sel(S.heap("Answer", f), r)
    params = {"ans": lambda X_, st, fr, ty: (st.assume(ANS > 0), ANS)[1], "output": lambda X_, st, fr, ty: z3.Int("output!f")}
    k = z3.Int("ak")
    wrap = lambda v: z3.If(z3.And(v >= -(1 << 31), v < 1 << 31), v, (v + (1 << 31)) % (1 << 32) - (1 << 31))

    def mws_pre(S):
        a = A(S, "answers")
        return {"as many paths as names of variables": z3.And(vlen(A(S, "qvarNames")) == vlen(A(S, "qvarXpaths")), vlen(A(S, "qvarNames")) < LIM, vlen(A(S, "qvarNames")) >= 0),
                "answers are there": z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < vlen(a)), arr(a, k) > 0), patterns=[arr(a, k)]), "fewer than 2^31 answers": z3.And(vlen(a) >= 0, vlen(a) < LIM)}
    written = JC.written
    qvar = lambda S, J: lambda e, i: z3.And(J.isobj(e, "name", "xpath"), J.isstr(J.get(e, "name"), arr(A(S, "qvarNames"), i)), J.isstr(J.get(e, "xpath"), arr(A(S, "qvarXpaths"), i)))

    def hit(S, J):
        def p(e, i):
            a = arr(A(S, "answers"), i)
            ids = J.get(e, "math_ids")
            m = J.el(ids, 0)
            return z3.And(J.isobj(e, "math_ids", "xhtml"), J.isstr(J.get(e, "xhtml"), of(S, "data", a)), J.isarr(ids), J.len(ids) == 1, J.isobj(m, "url", "xpath"),
                          J.isstr(J.get(m, "url"), of(S, "uri", a)), J.isstr(J.get(m, "xpath"), of(S, "xpath", a)))
        return p

    loop = JC.loop
    nq, na = lambda S: vlen(A(S, "qvarNames")), lambda S: vlen(A(S, "answers"))

    def mws_post(S):
        J = JC.at(S, "p_")
        d = S.st.ghost["p_doc"]
        e = written(S)
        q, h = J.get(d, "qvars"), J.get(d, "hits")
        e.update({"an object with these members": J.isobj(d, "total", "time", "qvars", "hits"), "total": J.isint(J.get(d, "total"), A(S, "total")), "time": J.isint(J.get(d, "time"), wrap(A(S, "time"))),
                  "every query variable": JC.every(J, q, vlen(A(S, "qvarNames")), qvar(S, J)), "every answer": JC.every(J, h, vlen(A(S, "answers")), hit(S, J))})
        return e
    mj = Contract("MwsJsonResponseFormatter::writeData", setup=JC.setup, params=params, pre=mws_pre, post=mws_post, mods=JC.mods, loops=[loop("qvars", qvar, nq), loop("hits", hit, na)])

    def ids_post(S):
        J = JC.at(S, "p_")
        d = S.st.ghost["p_doc"]
        e = written(S)
        dom = A(S, "ids")
        n = lib.card(S.st, dom)
        key = lib.map_enum(S.st, dom)[0]
        e.update({"an object with these members": J.isobj(d, "total", "size", "qvars", "ids"), "total": J.isint(J.get(d, "total"), A(S, "total")), "size": z3.Implies(n < LIM, J.isint(J.get(d, "size"), n)),
                  "every query variable": JC.every(J, J.get(d, "qvars"), vlen(A(S, "qvarNames")), qvar(S, J)),
                  "every id, in order": JC.every(J, J.get(d, "ids"), n, lambda v, i: J.isint(v, key(dom, i)))})
        return e

    def idp(S, J):
        dom = A(S, "ids")
        key = lib.map_enum(S.st, dom)[0]
        return lambda v, i: J.isint(v, key(dom, i))
    ij = Contract("MwsIdsResponseFormatter::writeData", setup=JC.setup, params=params, pre=mws_pre, post=ids_post, mods=JC.mods, loops=[loop("json_qvars", qvar, nq), loop("json_ids", idp, lambda S: lib.card(S.st, A(S, "ids")))])

    # answer sets as they are made: what the handlers answer when a query can match nothing
    ref = lambda S: S.this.root[2]
    new = lambda S, f: sel(S.heap("MwsAnswset", f), ref(S))
    ctor = Contract("MwsAnswset::MwsAnswset", nparams=0, mods=lambda S: [S.fp(S.this, f) for f in ("answers", "total", "qvarNames", "qvarXpaths", "ids", "time")],
                    post=lambda S: {"nothing found": z3.And(new(S, "total") == 0, new(S, "time") == 0), "no answers, variables or ids": z3.And([vlen(new(S, f)) == 0 for f in ("answers", "qvarNames", "qvarXpaths")] + [new(S, "ids") == z3.K(I_, z3.BoolVal(False))])})
    return [mj, ij, ctor]
