"""Expression encoding (ExpressionEncoder.cpp, IdDictionary.hpp, CmmlToken.cpp)."""
import z3
from sx import *
import dicts
TU = '''
#include "mws/types/CmmlToken.cpp"
#include "mws/index/ExpressionEncoder.cpp"
'''
HEAP = ["CmmlToken"]
LIM = 1 << 31
VAR, RANGE, CONST = 0, 1, 2


def contracts(X):
    so, lib = X.so, X.lib
    I_ = z3.IntSort()
    lit = lib.strlit
    STR = lit("x").sort()

    # ------------------------------------------------------------------ the dictionary
    dc = dicts.make(X)
    D, dict_at, dinv, extends, put, get, table = dc.D, dc.dict_at, dc.dinv, dc.extends, dc.put, dc.get, dc.table
    this = dc.this

    # ------------------------------------------------------------------ tokens
    meaning = z3.Function("meaning", STR, STR, STR)
    t, x = z3.Const("mt", STR), z3.Const("mx", STR)
    H = lambda S, r, f: z3.Select(S.heap("CmmlToken", f), r)
    tag = lambda S, r: H(S, r, "_tag")
    text = lambda S, r: H(S, r, "_textContent")
    nkids = lambda S, r: so.vec_len(H(S, r, "_childNodes"))
    kid = lambda S, r, i: z3.Select(so.vec_arr(H(S, r, "_childNodes")), i)
    mean = lambda S, r: meaning(tag(S, r), text(S, r))

    def kind(S, r):
        return z3.If(tag(S, r) == lit("mws:qvar"), VAR, z3.If(tag(S, r) == lit("mws:range"), RANGE, CONST))

    def vname(S, r):
        a = H(S, r, "_attributes")
        return z3.If(z3.Select(so.map_dom(a), lit("name")), z3.Select(so.map_val(a), lit("name")), text(S, r))
    ref = lambda S: S.this.root[2]

    def gm_setup(S):
        a, b = tag(S, ref(S)), text(S, ref(S))
        S.st.assume(meaning(a, b) == z3.If(a == lit("mtext"), lit("mtext#"), lib.sconcat(lib.sconcat(a, lit("#"), S.st), b, S.st)))   # definition of `meaning`
    is_ = lambda k: (lambda S: {"a token of its kind": kind(S, ref(S)) == k})
    gmean = Contract("CmmlToken::getMeaning", pre=is_(CONST), setup=gm_setup, post=lambda S: {"tag and text name the symbol; the text of mtext does not matter": S.ret == mean(S.pre, ref(S.pre))})
    gname = Contract("CmmlToken::getVarName", pre=is_(VAR), post=lambda S: {"name attribute, else the text": (S.ret if not isinstance(S.ret, Place) else S.X.read(S.st, S.ret)) == vname(S.pre, ref(S.pre))})
    gtype = Contract("CmmlToken::getType", post=lambda S: {"by tag": S.ret == kind(S.pre, ref(S.pre))})
    xpath = Contract("CmmlToken::getXpathRelative", trusted=True, verify=False)
    bounds = Contract("CmmlToken::getRangeBounds", trusted=True, verify=False)

    # ------------------------------------------------------------------ constants
    def dico(S):
        r = S.fld("_meaningDictionary")
        g = lambda f: z3.Select(S.heap("IdDictionary", f), r)
        return D(g("_map"), g("_nextId"))
    dmods = lambda S: [("heap", "IdDictionary", "_map"), ("heap", "IdDictionary", "_nextId")]

    def enc_pre(S):
        return dict(dinv(X, S.st, dico(S)), **{"there is a dictionary": S.fld("_meaningDictionary") > 0, "fewer than 2^31 keys": dico(S).next < LIM})

    def enc_post(S, upper=True):
        m = S.pre.z("meaning")
        o = dict(dinv(X, S.st, dico(S)))
        o["known meanings keep their ids"] = extends(dico(S.pre), dico(S))
        o["the code of a constant is its dictionary id, above all variables and ranges"] = z3.Or(
            S.ret == 0, z3.And(dico(S).has(m), S.ret == 161 + dico(S).id(m)))
        o["the dictionary stays"] = S.fld("_meaningDictionary") == S.pre.fld("_meaningDictionary")
        if upper:
            o["fewer than 2^31 keys"] = dico(S).next < LIM
        return o
    iface = Contract("ExpressionEncoder::_getConstantEncoding", pre=enc_pre, post=enc_post, mods=dmods, trusted=True, verify=False)

    def harv_post(S):
        o = enc_post(S, False)
        o["a harvest gives every meaning a code"] = S.ret != 0
        return o

    def query_post(S):
        o = enc_post(S, False)
        m = S.pre.z("meaning")
        o["a query never adds meanings"] = dico(S).next == dico(S.pre).next
        o["unknown meanings give 0"] = (S.ret == 0) == z3.Not(dico(S.pre).has(m))
        return o
    harv = Contract("HarvestEncoder::_getConstantEncoding", pre=enc_pre, post=harv_post, mods=dmods)
    query = Contract("QueryEncoder::_getConstantEncoding", pre=enc_pre, post=query_post, mods=dmods)
    offs = []
    for nm, v in (("_getAnonVarOffset", 33), ("_getNamedVarOffset", 1), ("_getRangeOffset", 129)):
        offs.append(Contract("ExpressionEncoder::" + nm, post=lambda S, v=v: {"first code of its kind": S.ret == v}, trusted=True, verify=False))
        for c in ("HarvestEncoder", "QueryEncoder"):
            offs.append(Contract(c + "::" + nm, post=lambda S, v=v: {"first code of its kind": S.ret == v}))

    ci = Contract("ExpressionEncoder::_getCiMeaning", pre=lambda S: dict(enc_pre(S), **{"a constant": z3.And(S["token"] > 0, kind(S, S["token"]) == CONST),
                                                                                                 "its parent, if any, has children": z3.Or(H(S, S["token"], "_parentNode") == 0, nkids(S, H(S, S["token"], "_parentNode")) > 0)}),
                  post=lambda S: {k: v for k, v in dict(dinv(X, S.st, dico(S)), **{
                      "known meanings keep their ids": extends(dico(S.pre), dico(S)), "the dictionary stays": S.fld("_meaningDictionary") == S.pre.fld("_meaningDictionary"),
                      "a constant code": z3.Or(S.ret == 0, S.ret > 161), "fewer than 2^31 keys": dico(S).next < LIM}).items()},
                  mods=lambda S: dmods(S) + [S.fp(S.this, "_ciTranslations"), S.fp(S.this, "_ciTranslationCounter")])

    # ------------------------------------------------------------------ encode
    TOK = Ty("rec", "encoded_token_s")
    tok = so.of(TOK)
    tf = {n: i for i, (n, ty, w) in enumerate(so.rec_fields(TOK))}
    AR = lambda e: tok.accessor(0, tf["arity"])(e)
    IDF = lambda e: tok.accessor(0, tf["id"])(e)
    A1 = z3.ArraySort(I_, I_)

    def setup(S):
        S.st.ghost["src"] = z3.Const("src0", A1)                               # token encoded at position k
        S.st.ghost["stk"] = z3.Const("stk0", z3.ArraySort(I_, A1))             # pending tokens when position k was reached
        S.st.ghost["stl"] = z3.Const("stl0", A1)

    def out(S):
        v = S.deref("encodedFormula")
        v = S.X.read(S.st, v) if isinstance(v, Place) else v
        return S.arr(v), S.len(v)

    def stack(S):
        v = S["dfs_stack"]
        return S.arr(v), S.len(v)

    def body(S):
        st = S.st
        a, n = out(S)
        sa, sl = stack(S)
        g = st.ghost
        g["src"], g["stk"], g["stl"] = z3.Store(g["src"], n, z3.Select(sa, sl - 1)), z3.Store(g["stk"], n, sa), z3.Store(g["stl"], n, sl)
        for k in ("src", "stk", "stl"):
            st.wrote(("ghost", k))

    k, i, j = z3.Int("ek"), z3.Int("ei"), z3.Int("ej")

    def arity(S, r):
        return z3.If(kind(S, r) == CONST, nkids(S, r), 0)

    def wellformed(S):
        r = z3.Int("wr")
        return {"children are nodes": z3.ForAll([r, i], z3.Implies(z3.And(r > 0, 0 <= i, i < nkids(S, r)), kid(S, r, i) > 0), patterns=[kid(S, r, i)]),
                "parents have children": z3.ForAll([r], z3.Implies(r > 0, z3.And(H(S, r, "_parentNode") >= 0, z3.Or(H(S, r, "_parentNode") == 0, nkids(S, H(S, r, "_parentNode")) > 0))), patterns=[H(S, r, "_parentNode")]),
                "fewer than 2^32 children": z3.ForAll([r], z3.Implies(r > 0, nkids(S, r) < (1 << 32)), patterns=[H(S, r, "_childNodes")])}

    def spec(S, n, a, cursa, cursl, d, done):
        """What holds of the first n encoded positions, the pending tokens being (cursa, cursl)."""
        src, stk, stl = S.g("src"), S.g("stk"), S.g("stl")
        s = lambda q: z3.Select(src, q)
        e = lambda q: z3.Select(a, q)
        P = S.pre
        nl = lambda q: z3.If(q + 1 == n, cursl, z3.Select(stl, q + 1))
        na = lambda q, y: z3.If(q + 1 == n, z3.Select(cursa, y), z3.Select(z3.Select(stk, q + 1), y))
        inr = z3.And(0 <= k, k < n)
        o = {}
        pat = [e(k), s(k)]
        o["every encoded token is the next pending one"] = z3.ForAll([k], z3.Implies(inr, z3.And(s(k) > 0, z3.Select(stl, k) >= 1, s(k) == z3.Select(z3.Select(stk, k), z3.Select(stl, k) - 1))), patterns=pat)
        o["arity is the number of arguments; variables and ranges have none"] = z3.ForAll([k], z3.Implies(inr, AR(e(k)) == arity(P, s(k))), patterns=pat)
        o["its arguments, first one on top, replace it among the pending tokens"] = z3.ForAll([k], z3.Implies(inr, nl(k) == z3.Select(stl, k) - 1 + arity(P, s(k))), patterns=pat)
        o["pending tokens below stay"] = z3.ForAll([k, i], z3.Implies(z3.And(inr, 0 <= i, i < z3.Select(stl, k) - 1), na(k, i) == z3.Select(z3.Select(stk, k), i)),
                                                   patterns=[z3.Select(z3.Select(stk, k), i)])
        o["arguments come in order"] = z3.ForAll([k, i], z3.Implies(z3.And(inr, 0 <= i, i < arity(P, s(k))), na(k, nl(k) - 1 - i) == kid(P, s(k), i)),
                                                 patterns=[z3.MultiPattern(e(k), kid(P, s(k), i))])
        K = lambda q: kind(P, s(q))
        named = lambda q: vname(P, s(q)) != lit("")
        o["codes of named variables"] = z3.ForAll([k], z3.Implies(z3.And(inr, K(k) == VAR, named(k)), z3.And(IDF(e(k)) >= 1, IDF(e(k)) <= 32)), patterns=pat)
        o["codes of anonymous variables"] = z3.ForAll([k], z3.Implies(z3.And(inr, K(k) == VAR, z3.Not(named(k))), z3.And(IDF(e(k)) >= 33, IDF(e(k)) <= 64)), patterns=pat)
        o["codes of ranges"] = z3.ForAll([k], z3.Implies(z3.And(inr, K(k) == RANGE), z3.And(IDF(e(k)) >= 129, IDF(e(k)) <= 160)), patterns=pat)
        two = z3.And(0 <= i, i < j, j < n)
        p2 = [z3.MultiPattern(e(i), e(j))]
        o["named variables have equal codes exactly when they have equal names"] = z3.ForAll([i, j], z3.Implies(z3.And(two, K(i) == VAR, K(j) == VAR, named(i), named(j)),
                                                                                            (IDF(e(i)) == IDF(e(j))) == (vname(P, s(i)) == vname(P, s(j)))), patterns=p2)
        o["no two anonymous variables share a code"] = z3.ForAll([i, j], z3.Implies(z3.And(two, K(i) == VAR, K(j) == VAR, z3.Not(named(i)), z3.Not(named(j))), IDF(e(i)) < IDF(e(j))), patterns=p2)
        o["no two ranges share a code"] = z3.ForAll([i, j], z3.Implies(z3.And(two, K(i) == RANGE, K(j) == RANGE), IDF(e(i)) < IDF(e(j))), patterns=p2)
        ren = P.X.read(P.st, P.fp(P.deref("config"), "renameCi")) if isinstance(P.deref("config"), Place) else None
        plain = z3.Or(z3.Not(ren), tag(P, s(k)) != lit("ci"))
        o["the code of a constant is that of its meaning"] = z3.ForAll([k], z3.Implies(z3.And(inr, K(k) == CONST, plain), z3.Or(
            z3.And(IDF(e(k)) == 0, z3.Not(done)), z3.And(d.has(mean(P, s(k))), IDF(e(k)) == 161 + d.id(mean(P, s(k)))))), patterns=pat)
        o["codes of constants are above all others"] = z3.ForAll([k], z3.Implies(z3.And(inr, K(k) == CONST), z3.Or(z3.And(IDF(e(k)) == 0, z3.Not(done)), IDF(e(k)) > 161)), patterns=pat)
        return o

    def inv(S):
        a, n = out(S)
        sa, sl = stack(S)
        nv = dict_at(S, S.pl("namedVarDictionary"))
        src = S.g("src")
        s = lambda q: z3.Select(src, q)
        e = lambda q: z3.Select(a, q)
        P = S.pre
        inr = z3.And(0 <= k, k < n)
        o = spec(S, n, a, sa, sl, dico(S), S["rv"] == 0)
        o["pending tokens are nodes"] = z3.And(sl >= 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < sl), z3.Select(sa, i) > 0), patterns=[z3.Select(sa, i)]))
        o["first token"] = z3.If(n == 0, z3.And(sl == 1, z3.Select(sa, 0) == P["expression"]), z3.And(z3.Select(S.g("stl"), 0) == 1, s(0) == P["expression"]))
        o["verdict"] = z3.Or(S["rv"] == 0, S["rv"] == -1)
        o["counts"] = z3.And(n >= 0, S["anonVarId"] >= 0, S["anonVarId"] <= 32, S["anonRangeId"] >= 0, S["anonRangeId"] <= 32, nv.next < 64)
        o["anonymous so far"] = z3.ForAll([k], z3.Implies(z3.And(inr, kind(P, s(k)) == VAR, vname(P, s(k)) == lit("")), IDF(e(k)) < 33 + S["anonVarId"]), patterns=[e(k)])
        o["ranges so far"] = z3.ForAll([k], z3.Implies(z3.And(inr, kind(P, s(k)) == RANGE), IDF(e(k)) < 129 + S["anonRangeId"]), patterns=[e(k)])
        o["names so far"] = z3.ForAll([k], z3.Implies(z3.And(inr, kind(P, s(k)) == VAR, vname(P, s(k)) != lit("")),
                                                      z3.And(nv.has(vname(P, s(k))), IDF(e(k)) == 1 + nv.id(vname(P, s(k))))), patterns=[e(k)])
        for kk, v in dinv(X, S.st, nv).items():
            o["names: " + kk] = v
        o["all names have codes"] = nv.next <= 32
        for kk, v in dinv(X, S.st, dico(S)).items():
            o["dictionary: " + kk] = v
        o["dictionary grows only"] = extends(dico(P), dico(S))
        o["few keys"] = dico(S).next < LIM
        o["same dictionary"] = S.fld("_meaningDictionary") == P.fld("_meaningDictionary")
        return o

    def inner(S):
        L = S.loop_entry()
        a0, l0 = stack(L)
        a1, l1 = stack(S)
        tkn = S["token"]
        m = nkids(S.pre, tkn)
        idx = S.k
        return {"position": z3.And(0 <= idx, idx <= m, l1 == l0 + m - idx, tkn > 0),
                "below": z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < l0), z3.Select(a1, i) == z3.Select(a0, i)), patterns=[z3.Select(a1, i), z3.Select(a0, i)]),
                "pushed": z3.ForAll([i], z3.Implies(z3.And(idx <= i, i < m), z3.Select(a1, l0 + m - 1 - i) == kid(S.pre, tkn, i)), patterns=[kid(S.pre, tkn, i)]),
                "pushed (by position)": z3.ForAll([i], z3.Implies(z3.And(l0 <= i, i < l1), z3.Select(a1, i) == kid(S.pre, tkn, l0 + m - 1 - i)), patterns=[z3.Select(a1, i)])}

    def pre(S):
        o = dict(enc_pre(S))
        o.update(wellformed(S))
        o["an expression"] = S["expression"] > 0
        return o

    def post(S):
        a, n = out(S)
        sa, sl = stack(S)
        o = {kk: z3.Implies(S.ret == 0, v) for kk, v in spec(S, n, a, sa, sl, dico(S), z3.BoolVal(True)).items()}
        o["nothing is left pending"] = z3.Implies(S.ret == 0, sl == 0)
        o["starts with the expression itself"] = z3.Implies(S.ret == 0, z3.And(n >= 1, z3.Select(S.g("src"), 0) == S.pre["expression"], z3.Select(S.g("stl"), 0) == 1))
        for kk, v in dinv(X, S.st, dico(S)).items():
            o["dictionary: " + kk] = v
        o["known meanings keep their ids"] = extends(dico(S.pre), dico(S))
        return o

    def mods(S):
        return dmods(S) + [S.deref("encodedFormula"), S.fp(S.this, "_ciTranslations"), S.fp(S.this, "_ciTranslationCounter")] + [("ghost", g) for g in ("src", "stk", "stl")] + \
            [S.fp(S.deref("expressionInfo"), f) for f in ("qvarNames", "qvarXpaths", "rangeBounds")]
    enc = Contract("ExpressionEncoder::encode", setup=setup, pre=pre, post=post, mods=mods,
                   loops=[Loop(inv=inv, bodyghost=body, ghost=("src", "stk", "stl"), core=("pending tokens are nodes",)), Loop(inv=inner)])
    return [put, get, table, gmean, gname, gtype, xpath, bounds, iface, harv, query, ci, enc] + offs
