"""Reading query documents (readMwsQuery.cpp, Query.hpp, CmmlToken.cpp): options, limits and expressions are those of the document."""
import z3
from sx import *
from cast import I, Ty
import tokens
import harvest
TU = '''
#include "mws/types/CmmlToken.cpp"
#include "mws/xmlparser/readMwsQuery.cpp"
'''
U = "MwsQuery_SaxUserData"
HEAP = ["CmmlToken", "MwsQuery_SaxUserData", "Query", "ResponseFormatter", "_IO_FILE", "FILE"]
DEFAULT, QUERY, EXPR, UNKNOWN = range(4)
LIM = 1 << 30
MAXSIZE, MAXOFF, MAXTOTAL = 100, 12000, 12000


def contracts(X):
    t = tokens.make(X)
    A = harvest.Attrs(X)
    so, lib = X.so, X.lib
    I_, STR = A.I_, A.STR
    AS, AI = z3.ArraySort(I_, STR), z3.ArraySort(I_, I_)
    sel, sto = z3.Select, z3.Store
    lit = lib.strlit
    G = lambda S, n: S.st.ghost[n]
    UD = z3.Int("user_data!p")
    F = lambda S, f: sel(S.heap(U, f), UD)
    TH = lambda S, f: S.heap("CmmlToken", f)
    fields = dict((n, ty) for n, ty, w in so.rec_fields(Ty("rec", U)))
    qty = [c for c in X.u.records if c.split("::")[-1] == "Query"] if hasattr(X.u, "records") else []
    QT = fields["result"].to
    qf = dict((n, ty) for n, ty, w in so.rec_fields(QT))
    Q = QT.name
    Qv = lambda S, f: sel(S.heap(Q, f), F(S, "result"))
    names = dict(size="answsize", min="limitmin", req="totalreq", depth="schema_depth", mode="cutoff_mode", out="output")

    # ---- what is used: numbers, booleans, formatters
    num = z3.Function("strtol10", STR, I_)
    boolof = z3.Function("bool_type", STR, I_)
    wrap = lambda v, b, s: z3.If(z3.And(v >= (-(1 << (b - 1)) if s else 0), v < (1 << (b - 1 if s else b))), v, (v + (1 << (b - 1))) % (1 << b) - (1 << (b - 1)) if s else v % (1 << b))

    clamp = lambda v: z3.If(v > (1 << 31) - 1, (1 << 31) - 1, z3.If(v < -(1 << 31), -(1 << 31), v))      # the nearest int

    def m_strtol(X_, st, this, args, fr, n):
        s = lib.str_of(st, args[0])
        base = X.rv(st, args[2])
        X.check(st, base == 10, "numbers are decimal", n)
        st.assume(z3.And(num(s) >= -(1 << 63), num(s) < (1 << 63)))
        return [(st, num(s))]
    X.models["strtol"] = m_strtol
    X.models["__builtin_va_start"] = X.models["__builtin_va_end"] = lambda X_, st, this, args, fr, n: [(st, VOID)]

    def anyint(X_, st, this, args, fr, n):
        r = fresh("r", I_)
        st.assume(z3.And(r >= -1, r < LIM))
        return [(st, r)]
    X.models["vfprintf"] = anyint

    def m_bool(X_, st, this, args, fr, n):
        s = lib.str_of(st, args[0])
        st.assume(z3.And(boolof(s) >= 0, boolof(s) <= 2))
        return [(st, boolof(s))]
    gb = Contract("getBoolType", trusted=True, verify=False, model=m_bool)

    # ---- options as the table of attributes gives them, one attribute after the other
    a, o = z3.Const("qa", AS), z3.Int("qo")

    def fold(name, sort, init, step):
        f = z3.Function(name, AS, sort, I_, sort)
        d = z3.Const(name + "_d", sort)
        nm, v = sel(a, o), sel(a, o + 1)
        X.axioms.append(z3.ForAll([a, d], f(a, d, 0) == d, patterns=[f(a, d, 0)]))
        X.axioms.append(z3.ForAll([a, d, o], z3.Implies(o >= 0, f(a, d, o + 2) == step(nm, v, f(a, d, o))), patterns=[z3.MultiPattern(f(a, d, o), sel(a, o))]))
        return f
    ns = z3.Function("is_namespace", STR, z3.BoolSort())
    is_ = lambda s, k: s == lit(names[k])
    schema = z3.Bool("schema_mode")
    fmt = {}
    g = lambda S, n: S.glob(n)
    FM = ["RESPONSE_FORMATTER_MWS_XML", "RESPONSE_FORMATTER_MWS_JSON", "RESPONSE_FORMATTER_MWS_IDS", "RESPONSE_FORMATTER_SCHEMA_XML", "RESPONSE_FORMATTER_SCHEMA_JSON"]
    fm = {n: z3.Int("fm_" + n) for n in FM}
    xmlns = lib.ssub(sel(a, o), z3.IntVal(0), z3.IntVal(6))
    nsn = lambda s: z3.And(lib.slen(s) >= 6, lib.ssub(s, z3.IntVal(0), z3.IntVal(6)) == lit("xmlns:"))
    fsize = fold("f_size", I_, None, lambda n, v, p: z3.If(is_(n, "size"), wrap(clamp(num(v)), 64, False), p))
    fmin = fold("f_min", I_, None, lambda n, v, p: z3.If(is_(n, "min"), wrap(clamp(num(v)), 64, False), p))
    freq = fold("f_req", z3.BoolSort(), None, lambda n, v, p: z3.If(z3.And(is_(n, "req"), boolof(v) != 0), boolof(v) == 1, p))
    fdepth = fold("f_depth", I_, None, lambda n, v, p: z3.If(is_(n, "depth"), wrap(clamp(num(v)), 32, False), p))
    fmode = fold("f_mode", I_, None, lambda n, v, p: z3.If(is_(n, "mode"), z3.If(lib.slen(v) == 0, 0, lib.sat(v, 0)), p))
    out = lambda n, v, w: z3.And(is_(n, "out"), v == lit(w))
    ids = lambda n, v: z3.And(out(n, v, "mws-ids"), z3.Not(schema))
    ffmt = fold("f_fmt", I_, None, lambda n, v, p: z3.If(out(n, v, "xml"), z3.If(schema, fm[FM[3]], fm[FM[0]]), z3.If(out(n, v, "json"), z3.If(schema, fm[FM[4]], fm[FM[1]]), z3.If(ids(n, v), fm[FM[2]], p))))
    fhits = fold("f_hits", z3.BoolSort(), None, lambda n, v, p: z3.And(p, z3.Not(ids(n, v))))
    fids = fold("f_ids", z3.BoolSort(), None, lambda n, v, p: z3.Or(p, ids(n, v)))
    fwarn = fold("f_warn", I_, None, lambda n, v, p: p + z3.If(z3.Or(nsn(n), *[is_(n, k) for k in names]), 0, 1))
    OPT = {"attrResultMaxSize": fsize, "attrResultLimitMin": fmin, "attrResultTotalReq": freq, "max_depth": fdepth, "cutoff_mode": fmode, "responseFormatter": ffmt, "warnings": fwarn}

    def options(S):
        v = Qv(S, "options")
        hits = S.rd(Place(("H", Q, F(S, "result")), (("f", "options", qf["options"]),), qf["options"]), "includeHits")
        mids = S.rd(Place(("H", Q, F(S, "result")), (("f", "options", qf["options"]),), qf["options"]), "includeMwsIds")
        return hits, mids

    def globs(S):
        return z3.And([g(S, n) == fm[n] for n in FM] + [fm[n] > 0 for n in FM])

    def setup(S):
        g = S.st.ghost
        g["D"], g["lev"], g["k"] = z3.Int("D0"), z3.Const("lev0", AI), z3.Int("k0")
    params = {"user_data": lambda X_, st, fr, ty: (st.assume(UD > 0), UD)[1], "attrs": harvest.table(X)}
    l = z3.Int("hl")

    def good(S, D, k, lev):
        """the state of the reader with D open elements, k of them inside the current expression"""
        s_, ct, rt, ud, pv = F(S, "state"), F(S, "currentToken"), F(S, "currentTokenRoot"), F(S, "unknownDepth"), F(S, "prevState")
        par = lambda r: sel(TH(S, "_parentNode"), r)
        ok = z3.Not(F(S, "errorDetected"))
        return {"a known state": z3.And(0 <= s_, s_ <= UNKNOWN, D >= 0, D < LIM, k >= 0, k < LIM),
                "outside the query": z3.Implies(z3.And(ok, s_ == DEFAULT), D == 0), "in the query": z3.Implies(z3.And(ok, s_ == QUERY), D == 1),
                "skipping": z3.Implies(s_ == UNKNOWN, z3.And(0 <= pv, pv <= QUERY, ud >= 1, ud <= D, z3.Implies(ok, D == pv + ud))),
                "in expressions": z3.Implies(z3.And(ok, s_ == EXPR), D == 2 + k),
                "inside an expression": z3.If(ct == 0, z3.And(k == 0, rt == 0), z3.And(s_ == EXPR, k >= 1, ct == sel(lev, k - 1), rt == sel(lev, 0), par(rt) == 0)),
                "the open elements are nested": z3.Implies(ct != 0, z3.ForAll([l], z3.Implies(z3.And(0 <= l, l < k), z3.And(sel(lev, l) > 0, sel(S.alloc, sel(lev, l)), z3.Implies(l >= 1, par(sel(lev, l)) == sel(lev, l - 1)))), patterns=[sel(lev, l)])),
                "a query": z3.And(F(S, "result") > 0, Qv(S, "warnings") >= 0, Qv(S, "warnings") < LIM),
                "the mode asked for": (F(S, "qMode") == 1) == schema, "the formatters": globs(S)}
    FS = ["state", "unknownDepth", "prevState", "currentToken", "currentTokenRoot", "result", "qMode", "errorDetected"]
    QS = [f for f in qf if f not in ("tokens", "options")]
    same = lambda S, *but: z3.And([F(S, f) == F(S.pre, f) for f in FS if f not in but])
    tk = lambda S: (so.vec_arr(Qv(S, "tokens")), so.vec_len(Qv(S, "tokens")))

    def qsame(S, *but):
        P = S.pre
        (h0, m0), (h1, m1) = options(P), options(S)
        c = [Qv(S, f) == Qv(P, f) for f in QS if f not in but] + ([h0 == h1, m0 == m1] if "options" not in but else [])
        if "tokens" not in but:
            c.append(z3.And(tk(S)[0] == tk(P)[0], tk(S)[1] == tk(P)[1]))
        return z3.And(c)
    isname = lambda S, v: S.pre["name"].s == lit(v)
    sk = lambda S: z3.And(F(S, "state") == UNKNOWN, F(S, "unknownDepth") == 1, F(S, "prevState") == F(S.pre, "state"), Qv(S, "warnings") == Qv(S.pre, "warnings") + 1, qsame(S, "warnings"))

    def start_pre(S):
        e = good(S, G(S, "D"), G(S, "k"), G(S, "lev"))
        e["one more element"] = z3.And(G(S, "D") + 1 < LIM, G(S, "k") + 1 < LIM, Qv(S, "warnings") + A.n(S) + 1 < LIM)
        return e

    def start_post(S):
        P = S.pre
        p, arr, n = F(P, "state"), A.arr(P), A.n(P)
        ct0, ct1 = F(P, "currentToken"), F(S, "currentToken")
        ex = p == EXPR
        lv = z3.If(ex, sto(G(P, "lev"), G(P, "k"), ct1), G(P, "lev"))
        e = good(S, G(P, "D") + 1, G(P, "k") + z3.If(ex, 1, 0), lv)
        K = lambda f, r: sel(TH(S, f), r)
        md, mv = so.map_dom(K("_attributes", ct1)), so.map_val(K("_attributes", ct1))
        q = z3.Const("aq", STR)
        (h0, m0), (h1, m1) = options(P), options(S)
        enter = z3.And(p == DEFAULT, isname(S, "mws:query"))
        e["mws:query is entered"] = z3.Implies(enter, z3.And(F(S, "state") == QUERY, same(S, "state"), tk(S)[0] == tk(P)[0], tk(S)[1] == tk(P)[1]))
        lab = {"attrResultMaxSize": "answsize is the number of answers", "attrResultLimitMin": "limitmin is the first one", "attrResultTotalReq": "totalreq is yes or no", "max_depth": "schema_depth is the depth",
               "cutoff_mode": "cutoff_mode is its first character", "responseFormatter": "output is the formatter of that name, for this kind of query", "warnings": "unknown attributes are warned of"}
        for f, fn in OPT.items():
            e[lab[f]] = z3.Implies(enter, Qv(S, f) == fn(arr, Qv(P, f), n))
        e["only ids are returned exactly if asked for"] = z3.Implies(enter, z3.And(h1 == fhits(arr, h0, n), m1 == fids(arr, m0, n)))
        e["nothing else of the query changes"] = z3.Implies(enter, z3.And([Qv(S, f) == Qv(P, f) for f in QS if f not in OPT]))
        e["anything else outside it is skipped"] = z3.Implies(z3.And(p == DEFAULT, z3.Not(isname(S, "mws:query"))), z3.And(sk(S), same(S, "state", "unknownDepth", "prevState")))
        e["mws:expr is entered"] = z3.Implies(z3.And(p == QUERY, isname(S, "mws:expr")), z3.And(F(S, "state") == EXPR, same(S, "state"), qsame(S)))
        e["any other element of the query is skipped"] = z3.Implies(z3.And(p == QUERY, z3.Not(isname(S, "mws:expr"))), z3.And(sk(S), same(S, "state", "unknownDepth", "prevState")))
        e["skipped elements stay skipped"] = z3.Implies(p == UNKNOWN, z3.And(F(S, "unknownDepth") == F(P, "unknownDepth") + 1, same(S, "unknownDepth"), qsame(S)))
        e.update({
            "an element of an expression is a new node": z3.Implies(ex, z3.And(z3.Not(sel(P.alloc, ct1)), S.alloc == sto(P.alloc, ct1, z3.BoolVal(True)), same(S, "currentToken", "currentTokenRoot"), qsame(S))),
            "with the name of the element": z3.Implies(ex, TH(S, "_tag") == sto(TH(P, "_tag"), ct1, t.local(P["name"].s))),
            "with its attributes": z3.Implies(ex, md == A.dom(arr, A.none, n)),
            "with their values": z3.Implies(ex, z3.ForAll([q], z3.Implies(sel(md, q), sel(mv, q) == sel(A.val(arr, n), q)), patterns=[sel(mv, q)])),
            "no attribute of another node changes": z3.Implies(ex, TH(S, "_attributes") == sto(TH(P, "_attributes"), ct1, K("_attributes", ct1))),
            "no text yet": z3.Implies(ex, TH(S, "_textContent") == sto(TH(P, "_textContent"), ct1, lit(""))),
            "its parent is the element around it": z3.Implies(ex, TH(S, "_parentNode") == sto(TH(P, "_parentNode"), ct1, ct0)),
            "and it is the last child of its parent": z3.Implies(z3.And(ex, ct0 != 0), z3.And(so.vec_len(K("_childNodes", ct0)) == so.vec_len(sel(TH(P, "_childNodes"), ct0)) + 1,
                                                                                       so.vec_arr(K("_childNodes", ct0)) == sto(so.vec_arr(sel(TH(P, "_childNodes"), ct0)), so.vec_len(sel(TH(P, "_childNodes"), ct0)), ct1))),
            "without children, and no other node gets any": z3.Implies(ex, z3.And(so.vec_len(K("_childNodes", ct1)) == 0, TH(S, "_childNodes") == z3.If(ct0 != 0, sto(sto(TH(P, "_childNodes"), ct1, K("_childNodes", ct1)), ct0, K("_childNodes", ct0)), sto(TH(P, "_childNodes"), ct1, K("_childNodes", ct1))))),
            "elsewhere no node changes": z3.Implies(z3.Not(ex), z3.And([TH(S, f) == TH(P, f) for f in t.F] + [S.alloc == P.alloc]))})
        return e

    def opt_inv(S):
        e = A.inv(S)
        L, arr, pos = S.loop_entry(), A.arr(S), A.pos(S)
        R = F(S, "result")
        (h0, m0), (h1, m1) = options(L), options(S)
        for f, fn in OPT.items():
            e["%s so far" % f] = Qv(S, f) == fn(arr, Qv(L, f), pos)
            e["%s of other queries" % f] = S.heap(Q, f) == sto(L.heap(Q, f), R, Qv(S, f))
        e["ids only, so far"] = z3.And(h1 == fhits(arr, h0, pos), m1 == fids(arr, m0, pos))
        e["options of other queries"] = S.heap(Q, "options") == sto(L.heap(Q, "options"), R, sel(S.heap(Q, "options"), R))
        e["warnings are few"] = z3.And(Qv(S, "warnings") >= Qv(L, "warnings"), Qv(S, "warnings") <= Qv(L, "warnings") + pos)
        return e

    def node_inv(S):
        e = A.inv(S)
        L = S.loop_entry()
        ct = F(S, "currentToken")
        v = sel(TH(S, "_attributes"), ct)
        arr, q = A.arr(S), z3.Const("nq", STR)
        e["the attributes so far"] = so.map_dom(v) == A.dom(arr, A.none, A.pos(S))
        e["their values so far"] = z3.ForAll([q], z3.Implies(sel(so.map_dom(v), q), sel(so.map_val(v), q) == sel(A.val(arr, A.pos(S)), q)), patterns=[sel(so.map_val(v), q)])
        e["those of other nodes"] = TH(S, "_attributes") == sto(TH(L, "_attributes"), ct, v)
        e["a current node"] = ct > 0
        return e
    place = lambda S, f: Place(("H", U, UD), (("f", f, fields[f]),), fields[f])
    qplace = lambda S, f: Place(("H", Q, F(S, "result")), (("f", f, qf[f]),), qf[f])
    mods = lambda S: [place(S, f) for f in FS if f not in ("qMode",)] + [qplace(S, f) for f in qf] + [("heap", "CmmlToken", f) for f in t.F] + [("alloc",)]
    dec = lambda S: z3.Int("attrs!n") - A.pos(S)
    start = Contract("my_startElement", nparams=3, setup=setup, params=params, pre=start_pre, post=start_post, mods=mods, loops=[Loop(inv=opt_inv, dec=dec), Loop(inv=node_inv, dec=dec)])

    def end_pre(S):
        e = good(S, G(S, "D"), G(S, "k"), G(S, "lev"))
        e["an element is open"] = G(S, "D") >= 1
        return e

    def end_post(S):
        P = S.pre
        p, ct, k = F(P, "state"), F(P, "currentToken"), G(P, "k")
        inx = z3.And(p == EXPR, ct != 0)
        root = z3.And(inx, k == 1)
        e = good(S, G(P, "D") - 1, k - z3.If(inx, 1, 0), G(P, "lev"))
        (a0, n0), (a1, n1) = tk(P), tk(S)
        ok = z3.Not(F(P, "errorDetected"))
        e.update({"the query is left": z3.Implies(p == QUERY, z3.And(F(S, "state") == DEFAULT, same(S, "state"), qsame(S))),
                  "the expression element is left": z3.Implies(z3.And(p == EXPR, ct == 0), z3.And(F(S, "state") == QUERY, same(S, "state"), qsame(S))),
                  "inside an expression its parent is next": z3.Implies(z3.And(inx, z3.Not(root)), z3.And(F(S, "currentToken") == sel(G(P, "lev"), k - 2), same(S, "currentToken"), qsame(S))),
                  "a complete expression is the next one of the query": z3.Implies(root, z3.And(n1 == n0 + 1, a1 == sto(a0, n0, F(P, "currentTokenRoot")), qsame(S, "tokens"), F(S, "currentToken") == 0, same(S, "currentToken", "currentTokenRoot"))),
                  "outside the query nothing happens": z3.Implies(p == DEFAULT, z3.And(same(S), qsame(S))),
                  "skipping ends with the skipped element": z3.Implies(p == UNKNOWN, z3.And(F(S, "unknownDepth") == F(P, "unknownDepth") - 1, F(S, "state") == z3.If(F(P, "unknownDepth") == 1, F(P, "prevState"), UNKNOWN), same(S, "unknownDepth", "state"), qsame(S))),
                  "no node changes": z3.And([TH(S, f) == TH(P, f) for f in t.F] + [S.alloc == P.alloc])})
        return e
    end = Contract("my_endElement", nparams=2, setup=setup, params=params, pre=end_pre, post=end_post, mods=mods)

    def ch_pre(S):
        e = good(S, G(S, "D"), G(S, "k"), G(S, "lev"))
        e["that many characters"] = z3.And(S["len"] >= 0, S["len"] <= lib.slen(S["ch"].s))
        return e

    def ch_post(S):
        P = S.pre
        p, ct = F(P, "state"), F(P, "currentToken")
        e = good(S, G(P, "D"), G(P, "k"), G(P, "lev"))
        e.update({"text of an expression goes to the open element": TH(S, "_textContent") == z3.If(z3.And(p == EXPR, ct != 0), sto(TH(P, "_textContent"), ct, t.kept(sel(TH(P, "_textContent"), ct), P["ch"].s, P["len"])), TH(P, "_textContent")),
                  "nothing else changes": z3.And(same(S), qsame(S), S.alloc == P.alloc, *[TH(S, f) == TH(P, f) for f in t.F if f != "_textContent"])})
        return e
    chars = Contract("my_characters", nparams=3, setup=setup, params=params, pre=ch_pre, post=ch_post, mods=mods)

    def err_post(S):
        P = S.pre
        e = good(S, G(P, "D"), z3.IntVal(0), G(P, "lev"))
        e.update({"the error is noted": F(S, "errorDetected"), "the expression is given up": F(S, "currentToken") == 0, "the rest is as before": z3.And(same(S, "errorDetected", "currentToken", "currentTokenRoot"), qsame(S))})
        return e
    err = Contract("my_error", setup=setup, params=params, pre=lambda S: good(S, G(S, "D"), G(S, "k"), G(S, "lev")), post=err_post, mods=mods)
    warn = Contract("my_warning", setup=setup, params=params, pre=lambda S: good(S, G(S, "D"), G(S, "k"), G(S, "lev")), mods=mods,
                    post=lambda S: {"one warning more": z3.And(Qv(S, "warnings") == Qv(S.pre, "warnings") + 1, qsame(S, "warnings"), same(S))})
    enddoc = Contract("my_endDocument", setup=setup, params=params, pre=lambda S: {"a live query or none": z3.Or(F(S, "result") == 0, sel(S.alloc, F(S, "result")))},
                      mods=lambda S: [place(S, "result"), ("alloc",)],
                      post=lambda S: {"no query after an error": F(S, "result") == z3.If(F(S.pre, "errorDetected"), 0, F(S.pre, "result"))})

    # ---- defaults and restrictions
    tf = lambda S, f: S.fld(f)
    restr = Contract("Query::applyRestrictions", mods=lambda S: [S.fp(S.this, f) for f in ("attrResultMaxSize", "attrResultLimitMin", "attrResultTotalReqNr", "restricted")],
                     post=lambda S: dict({"%s is at most %d" % (f, m): tf(S, f) == z3.If(tf(S.pre, f) > m, m, tf(S.pre, f)) for f, m in (("attrResultMaxSize", MAXSIZE), ("attrResultLimitMin", MAXOFF), ("attrResultTotalReqNr", MAXTOTAL))},
                                         **{"restrictions are noted": tf(S, "restricted") == z3.Or(tf(S.pre, "restricted"), tf(S.pre, "attrResultMaxSize") > MAXSIZE, tf(S.pre, "attrResultLimitMin") > MAXOFF, tf(S.pre, "attrResultTotalReqNr") > MAXTOTAL)}))
    qctor = Contract("Query::Query", nparams=0, mods=lambda S: [S.fp(S.this, f) for f in qf],
                     post=lambda S: {"30 answers from the first one on, no depth but 3": z3.And(tf(S, "attrResultMaxSize") == 30, tf(S, "attrResultLimitMin") == 0, tf(S, "attrResultTotalReq"), tf(S, "attrResultTotalReqNr") == 100000, tf(S, "max_depth") == 3),
                                     "cutoff by depth": tf(S, "cutoff_mode") == 65, "no warnings, no expressions": z3.And(tf(S, "warnings") == 0, z3.Not(tf(S, "restricted")), so.vec_len(tf(S, "tokens")) == 0)})
    return t.cs + [gb, qctor, restr, start, end, chars, err, warn, enddoc]
