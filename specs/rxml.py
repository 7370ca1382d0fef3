"""XML answers (MwsXmlResponseFormatter.cpp): the document written says what the answer set holds."""
import z3
from sx import *
from cast import I, Ty
import xmlw
TU = '''
#include "mws/xmlparser/MwsXmlResponseFormatter.cpp"
'''
HEAP = ["MwsAnswset", "GenericAnswer", "Answer", "_xmlTextWriter", "_xmlOutputBuffer", "_IO_FILE", "FILE"]
LIM = 1 << 31


def contracts(X):
    so, lib = X.so, X.lib
    I_, sel = z3.IntSort(), z3.Select
    W = xmlw.Xml(X)
    STR = W.S_
    ANS = z3.Int("ans!p")
    A = lambda S, f: sel(S.heap("MwsAnswset", f), ANS)
    vlen, varr = so.vec_len, so.vec_arr
    arr = lambda v, k: sel(varr(v), k)
    of = lambda S, f, r: sel(S.heap("Answer", f), r)
    params = {"ans": lambda X_, st, fr, ty: (st.assume(ANS > 0), ANS)[1], "output": lambda X_, st, fr, ty: z3.Int("output!f")}
    k, l, x, r = z3.Int("ak"), z3.Const("al", W.L), z3.Const("ax", STR), z3.Int("ar")
    subs, answ = z3.Function("x_subs", W.L, STR, I_, W.L), z3.Function("x_answers", W.L, I_, W.L)
    tos = lib.fn("to_string", I_, STR)

    def setup(S):
        W.setup(S)
        N, P, V = A(S, "qvarNames"), A(S, "qvarXpaths"), A(S, "answers")
        pair = lambda lg, q, p: W.end_(W.elem(lg, "mws:substpair", qvar=q, xpath=p))
        st = S.st
        st.assume(z3.ForAll([l, x], subs(l, x, 0) == l, patterns=[subs(l, x, 0)]))
        st.assume(z3.ForAll([l, x, k], z3.Implies(k >= 0, subs(l, x, k + 1) == pair(subs(l, x, k), arr(N, k), lib.sconcat(x, arr(P, k)))), patterns=[z3.MultiPattern(subs(l, x, k), arr(P, k))]))
        st.assume(z3.ForAll([l], answ(l, 0) == l, patterns=[answ(l, 0)]))

        def one(lg, a):
            s = subs(W.elem(lg, "mws:answ", uri=of(S, "uri", a), xpath=of(S, "xpath", a)), of(S, "xpath", a), vlen(N))
            return W.end_(W.end_(W.text_(W.elem(s, "data"), of(S, "data", a))))
        st.assume(z3.ForAll([l, k], z3.Implies(k >= 0, answ(l, k + 1) == one(answ(l, k), arr(V, k))), patterns=[z3.MultiPattern(answ(l, k), arr(V, k))]))

    def pre(S):
        a = A(S, "answers")
        return {"as many paths as names of variables": z3.And(vlen(A(S, "qvarNames")) == vlen(A(S, "qvarXpaths")), vlen(A(S, "qvarNames")) < LIM, vlen(A(S, "qvarNames")) >= 0),
                "answers are there": z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < vlen(a)), arr(a, k) > 0), patterns=[arr(a, k)]), "fewer than 2^31 answers": z3.And(vlen(a) < LIM, vlen(a) >= 0)}

    def post(S):
        root = W.elem(W.nolog, "mws:answset", xmlns__mws=lib.strlit("http://www.mathweb.org/mws/ns"), size=tos(vlen(A(S, "answers"))), total=tos(A(S, "total")))
        return W.done(S, W.end_(answ(root, vlen(A(S, "answers")))))
    same = lambda S: z3.And([S.st.ghost[g] == S.loop_entry().st.ghost[g] for g in ("xdepth", "xroot")])
    outer = Loop(inv=lambda S: {"position": z3.And(0 <= S.k, S.k <= vlen(A(S, "answers"))), "inside the root": z3.And(same(S), S.st.ghost["xdepth"] > 0), "the answers so far": W.flog(S.st) == answ(W.flog(S.loop_entry().st), S.k), "no error": S.z("ret") >= 0}, ghost=W.GH)

    def inner_inv(S):
        a = S.z("answer") if not isinstance(S["answer"], Place) else X.read(S.st, S["answer"])
        return {"position": z3.And(0 <= S.k, S.k <= vlen(A(S, "qvarNames"))), "inside the answer": z3.And(same(S), S.st.ghost["xdepth"] > 0),
                "the variables so far": W.flog(S.st) == subs(W.flog(S.loop_entry().st), of(S, "xpath", a), S.k), "no error": S.z("ret") >= 0}
    inner = Loop(inv=inner_inv, ghost=W.GH)
    wd = Contract("MwsXmlResponseFormatter::writeData", setup=setup, params=params, pre=pre, post=post, mods=W.mods, loops=[outer, inner])
    return [wd] + callback(X, W)


def callback(X, W):
    """the bytes the XML writer hands out go to the stream, and are counted"""
    CT = z3.Int("ctxt!p")

    def ctx(X_, st, fr, ty):
        rt = Ty("rec", "LocalContext")
        p = X.temp(st, X.fresh_val(rt, "ctxt", st), rt)
        names = {n: t for n, t, w in X.so.rec_fields(rt)}
        X.write(st, p.f("file", names["file"]), z3.Int("ctxt_file!"))
        st.assume(X.read(st, p.f("total_bytes_written", names["total_bytes_written"])) == z3.Int("total0!"))
        st.assume(z3.And(z3.Int("total0!") >= 0, z3.Int("total0!") < 1 << 31))
        W.place = p.f("total_bytes_written", names["total_bytes_written"])
        W.whole = p
        return PtrP(p)

    def data(X_, st, fr, ty):
        return CStr(z3.Const("data!s", W.S_))

    def size(X_, st, fr, ty):
        v = z3.Int("data_size!v")
        st.assume(z3.And(v >= 0, v < 1 << 31))
        return v
    return [Contract(W.callback, setup=lambda S: S.st.ghost.update(fw=z3.IntVal(0)), params={"_ctxt": ctx, "data": data, "data_size": size}, mods=lambda S: [W.place, ("ghost", "fw")],
                     post=lambda S: {"what was written is returned": S.ret == S.st.ghost["fw"], "and counted": X.read(S.st, W.place) == z3.Int("total0!") + S.ret})]
