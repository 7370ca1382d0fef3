"""The in-memory stores of formula occurrences and crawl records, and the query manager (MemFormulaDb, MemCrawlDb, DbQueryManager)."""
import z3
from sx import *
from cast import I
TU = '''
#include "mws/dbc/MemFormulaDb.cpp"
#include "mws/dbc/MemCrawlDb.cpp"
#include "mws/dbc/DbQueryManager.cpp"
'''
HEAP = ["CrawlDb", "FormulaDb"]
LIM = 1 << 32


def start(X, S):
    """ghost record of the rows handed to the callback"""
    I_ = z3.IntSort()
    STR = X.lib.strlit("x").sort()
    g = S.st.ghost
    g["crawl"], g["xml"], g["xp"] = z3.Const("crawl0", z3.ArraySort(I_, I_)), z3.Const("xml0", z3.ArraySort(I_, STR)), z3.Const("xp0", z3.ArraySort(I_, STR))
    g["rows"], g["stopped"] = z3.IntVal(0), z3.BoolVal(False)


GH = ["crawl", "xml", "xp", "rows", "stopped"]


def row_call(X, st, args, fr, rty):
    """the callback: notes the row it is given, and may ask to stop"""
    g = st.ghost
    p = X.rv(st, args[1])
    if not isinstance(p, StructV):
        p = X.read(st, args[1])
    i = g["rows"]
    X.check(st, z3.Not(g["stopped"]), "no row is handed out after the callback asked to stop")
    g["crawl"], g["xml"], g["xp"] = z3.Store(g["crawl"], i, X.rv(st, args[0])), z3.Store(g["xml"], i, p.f["xmlId"]), z3.Store(g["xp"], i, p.f["xpath"])
    g["rows"] = i + 1
    r = fresh("answer", z3.IntSort())
    g["stopped"] = r != 0
    for q in GH:
        st.wrote(("ghost", q))
    return [(st, r)]


def contracts(X):
    so, lib = X.so, X.lib
    I_ = z3.IntSort()
    i = z3.Int("ri")
    X.opaque["queryCallback"] = row_call

    class Rows:
        """the occurrences of one formula, in the order they were added"""
        def __init__(self, S, fid):
            m = S.fld("mData")
            self.v = z3.Select(so.map_val(m), fid)
            self.n = z3.If(z3.Select(so.map_dom(m), fid), S.len(self.v), 0)
            self.arr = S.arr(self.v)

        def at(self, k):
            e = z3.Select(self.arr, k)
            acc = lambda s, nm, v: [s.accessor(0, q) for q in range(s.constructor(0).arity()) if s.accessor(0, q).name().endswith(nm)][0](v)
            path = acc(e.sort(), "formulaPath", e)
            return acc(e.sort(), "crawlId", e), acc(path.sort(), "xmlId", path), acc(path.sort(), "xpath", path)

    def wf(S):
        f = z3.Int("wf")
        m = S.fld("mData")
        return {"fewer than 2^32 occurrences of a formula": z3.ForAll([f], z3.Implies(z3.Select(so.map_dom(m), f), z3.And(S.len(z3.Select(so.map_val(m), f)) >= 0, S.len(z3.Select(so.map_val(m), f)) < LIM)), patterns=[z3.Select(so.map_dom(m), f)])}

    def ins_post(S):
        fid, f = S.pre["formulaId"], z3.Int("of")
        a, b = Rows(S.pre, fid), Rows(S, fid)
        c, x, p = b.at(a.n)
        path = S.pre.z("formulaPath")
        acc = lambda nm: [path.sort().accessor(0, q) for q in range(path.sort().constructor(0).arity()) if path.sort().accessor(0, q).name().endswith(nm)][0](path)
        m0, m1 = S.pre.fld("mData"), S.fld("mData")
        return {"success": S.ret == 0,
                "the new occurrence comes last": z3.And(b.n == a.n + 1, c == S.pre["crawlId"], x == acc("xmlId"), p == acc("xpath")),
                "earlier ones stay in their places": z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < a.n), z3.Select(b.arr, i) == z3.Select(a.arr, i)), patterns=[z3.Select(b.arr, i)]),
                "other formulas are not touched": z3.ForAll([f], z3.Implies(f != fid, z3.And(z3.Select(so.map_dom(m1), f) == z3.Select(so.map_dom(m0), f), z3.Select(so.map_val(m1), f) == z3.Select(so.map_val(m0), f))), patterns=[z3.Select(so.map_dom(m1), f)])}
    empty = lambda S: {}
    insert = Contract("MemFormulaDb::insertFormula", pre=wf, mods=lambda S: [S.fp(S.this, "mData")], post=ins_post)

    def handed(S, rows, frm, upto):
        g = S.st.ghost
        c, x, p = rows.at(frm + i)
        return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < upto), z3.And(z3.Select(g["crawl"], i) == c, z3.Select(g["xml"], i) == x, z3.Select(g["xp"], i) == p)), patterns=[z3.Select(g["crawl"], i), z3.Select(g["xml"], i), z3.Select(g["xp"], i)])

    def window(S0, rows):
        left = z3.If(rows.n > S0["limitMin"], rows.n - S0["limitMin"], 0)
        return z3.If(left < S0["limitSize"], left, S0["limitSize"])

    def q_post(S):
        rows, g = Rows(S.pre, S.pre["formulaId"]), S.st.ghost
        w = window(S.pre, rows)
        return {"success or failure": z3.Or(S.ret == 0, S.ret == -1),
                "success: exactly the occurrences of the window": z3.Implies(S.ret == 0, z3.And(g["rows"] == w, z3.Not(g["stopped"]))),
                "failure only if the callback asked to stop": z3.Implies(S.ret != 0, z3.And(g["stopped"], g["rows"] >= 1, g["rows"] <= w)),
                "in their order, from limitMin on": handed(S, rows, S.pre["limitMin"], g["rows"])}

    def q_inv(S):
        rows, g = Rows(S.pre, S.pre["formulaId"]), S.st.ghost
        loc, it = S["formulaInfos"], S["it"]
        return {"a copy of the occurrences": z3.And(S.len(loc) == rows.n, S.arr(loc) == rows.arr, S.pre["limitMin"] <= rows.n),
                "position": z3.And(it.idx == S.pre["limitMin"] + g["rows"], g["rows"] >= 0, g["rows"] <= window(S.pre, rows), S["i"] == g["rows"], z3.Not(g["stopped"])),
                "in their order, from limitMin on": handed(S, rows, S.pre["limitMin"], g["rows"])}
    query = Contract("MemFormulaDb::queryFormula", setup=lambda S: start(X, S), pre=wf, post=q_post, mods=lambda S: [("ghost", q) for q in GH],
                     loops=[Loop(inv=q_inv, ghost=GH)])

    # ---- crawl records
    class Recs:
        def __init__(self, S):
            m = S.fld("mData")
            self.dom, self.val, self.last = so.map_dom(m), so.map_val(m), S.fld("mNextCrawlId")

    def cinv(S):
        r, k = Recs(S), z3.Int("ck")
        return {"ids run from 1 to the last one given out": z3.And(r.last >= 0, z3.ForAll([k], z3.Select(r.dom, k) == z3.And(k >= 1, k <= r.last), patterns=[z3.Select(r.dom, k)]))}

    def put_post(S):
        a, b, k = Recs(S.pre), Recs(S), z3.Int("pk")
        return dict(cinv(S), **{"a new id, the next one": z3.And(S.ret == a.last + 1, S.ret != 0),
                                "the record is found under it": z3.And(z3.Select(b.dom, S.ret), z3.Select(b.val, S.ret) == S.pre.z("crawlData")),
                                "earlier records stay": z3.ForAll([k], z3.Implies(z3.Select(a.dom, k), z3.And(z3.Select(b.dom, k), z3.Select(b.val, k) == z3.Select(a.val, k))), patterns=[z3.Select(b.dom, k)])})
    put = Contract("MemCrawlDb::putData", pre=lambda S: dict(cinv(S), **{"fewer than 2^32 records": Recs(S).last < LIM - 1}), post=put_post, mods=lambda S: [S.fp(S.this, "mData"), S.fp(S.this, "mNextCrawlId")])
    got = Contract("MemCrawlDb::getData", pre=cinv, post=lambda S: {"the record put under this id": z3.And(z3.Select(Recs(S.pre).dom, S.pre["crawlId"]), S.ret == z3.Select(Recs(S.pre).val, S.pre["crawlId"]))},
                   throws=lambda S: {"only for an id that was never given out": z3.Or(S["crawlId"] < 1, S["crawlId"] > Recs(S).last)})
    ctor = Contract("MemCrawlDb::MemCrawlDb", nparams=0, mods=lambda S: [S.fp(S.this, "mData"), S.fp(S.this, "mNextCrawlId")], post=cinv)

    # ---- the query manager: each row of the formula store becomes one answer, with the crawl record of its id
    STR = lib.strlit("x").sort()
    RECORD = z3.Function("RECORD", I_, STR)
    AN = ["ax", "ap", "ad", "an", "ar"]

    def ans_call(X_, st, args, fr, rty):
        g = st.ghost
        p = X.rv(st, args[0])
        g["ax"], g["ap"], g["ad"], g["an"], g["ar"] = p.f["xmlId"], p.f["xpath"], X.lib.str_of(st, args[1]), g["an"] + 1, fresh("answer", I_)
        for q in AN:
            st.wrote(("ghost", q))
        return [(st, g["ar"])]
    X.opaque["dbAnswerCallback"] = ans_call
    getdata = Contract("CrawlDb::getData", trusted=True, verify=False, post=lambda S: {"the record of the id": S.ret == RECORD(S.pre["crawlId"])},
                       throws=lambda S: {"there is no such record": z3.BoolVal(True)})

    def store_query(X_, st, this, args, fr, n):
        """contract of FormulaDb::queryFormula: every occurrence of the window is handed to the callback once, in order, until it asks to stop. Checked here for an arbitrary one of them."""
        fid, lo, size = [X.rv(st, a) for a in args[:3]]
        S0 = View(X, X.root_frame.entry, X.root_frame)
        X.check(st, z3.And(fid == S0["formulaId"], lo == S0["limitMin"], size == S0["limitSize"]), "the store is asked for the same formula and window", n)
        X.check(st, z3.Not(st.ghost["asked"]), "the store is asked once", n)
        st.ghost["asked"] = z3.BoolVal(True)
        out = []
        none = st.copy()
        out.append((none, fresh("rc", I_)))
        cid, x, p = fresh("crawl", I_), fresh("xml", STR), fresh("xp", STR)
        st.assume(z3.And(cid >= 0, cid < LIM))
        f = X.rv(st, args[3])
        path = X.temp(st, StructV(Ty("rec", "FormulaPath", ()), {"xmlId": x, "xpath": p}), pathty)
        X.write(st, path, StructV(pathty, {"xmlId": x, "xpath": p}))
        before = st.ghost["an"]
        for s2, r in X.call_value(f, [X.temp(st, cid, I(32, False)), path], st, fr, n):
            g = s2.ghost
            r = X.rv(s2, r)
            db = X.read(s2, S0.fp(S0.this, "mCrawlDb"))
            X.check(s2, z3.And(g["an"] == before + 1, g["ax"] == x, g["ap"] == p), "each occurrence gives one answer with its place", n)
            X.check(s2, g["ad"] == z3.If(z3.And(cid != 0, db != 0), RECORD(cid), lib.strlit("")), "and with the crawl record of its id, empty if there is none", n)
            X.check(s2, (r != 0) == (g["ar"] != 0), "and goes on exactly if the answer callback says so", n)
            out.append((s2, fresh("rc", I_)))
        st.ghost["rc"] = z3.IntVal(0)
        for s2, r in out:
            s2.ghost["rc"] = r
            s2.wrote(("ghost", "rc")), s2.wrote(("ghost", "asked"))
        return out
    storeq = Contract("FormulaDb::queryFormula", trusted=True, verify=False, model=store_query)

    def m_setup(S):
        g = S.st.ghost
        g["ax"], g["ap"], g["ad"], g["an"], g["ar"], g["asked"], g["rc"] = lib.strlit(""), lib.strlit(""), lib.strlit(""), z3.IntVal(0), z3.IntVal(0), z3.BoolVal(False), z3.IntVal(0)
    pathty = Ty("rec", "FormulaPath", [])
    manager = Contract("DbQueryManager::query", setup=m_setup, mods="any", pre=lambda S: {"there is a formula store": S.fld("mFormulaDb") > 0},
                       throws=lambda S: {"only if a crawl record is missing": z3.BoolVal(True)},
                       post=lambda S: {"the store was asked": S.g("asked"), "its result is passed on": S.ret == S.g("rc")})
    return [insert, query, put, got, ctor, getdata, storeq, manager]
