"""Result windows and totals (SearchContext.cpp: getResult)."""
import z3
from sx import *
import itr
import search
from itr import IA, TU
HEAP = ["inode_s", "inode_long_s", "ExpressionDecoder", "BacktrackCtxt", "QvarCtxt", "RangeCtxt", "MwsAnswset", "index_handle_s", "DbQueryManager"]


def contracts(X):
    so, lib = X.so, X.lib
    I_ = z3.IntSort()
    HITS, FID = z3.Function("HITS", I_, I_), z3.Function("FID", I_, I_)
    k, n = z3.Int("wk"), z3.Int("wn")
    X.axioms += [z3.ForAll([n], z3.And(HITS(n) >= 0, HITS(n) < (1 << 30), FID(n) >= 0, FID(n) < (1 << 32)), patterns=[HITS(n)])]
    X.heap_spec = {c: X.u.tt.parse("mws::query::%s<mws::index::IndexAccessor>" % c) for c in ("BacktrackCtxt", "QvarCtxt", "RangeCtxt")}
    tr = dict(trusted=True, verify=False)
    node = lambda S: {"null or a node": S.ret >= 0}
    sv = Contract("BacktrackCtxt::solve", post=node, mods=lambda S: [S.fp(S.this, "isSolved")], **tr)
    nx = Contract("BacktrackCtxt::nextSol", post=node, mods=lambda S: [S.fp(S.this, "isSolved")], **tr)
    acc = [Contract("IndexAccessor::getRootNode", post=node, **tr), Contract("IndexAccessor::getChild", post=node, **tr), Contract("IndexAccessor::getToken", **tr),
           Contract("IndexAccessor::getHitsCount", post=lambda S: {"hits of the leaf": S.ret == HITS(S.pre["node"])}, **tr),
           Contract("IndexAccessor::getFormulaId", post=lambda S: {"id of the leaf": S.ret == FID(S.pre["node"])}, **tr),
           Contract("IndexIterator::getPath", rec=IA, **tr),
           Contract("QvarCtxt::QvarCtxt", **tr), Contract("RangeCtxt::RangeCtxt", **tr), Contract("BacktrackCtxt::BacktrackCtxt", **tr)]

    # ghost: the solutions met (their leaves), the hits before each, and what was asked of the store for each
    A = z3.ArraySort(I_, I_)
    GH = ["leaf", "before", "qoff", "qmax", "asked", "nsol", "cum", "src"]

    def setup(S):
        g = S.st.ghost
        for q in ("leaf", "before", "qoff", "qmax", "src"):
            g[q] = z3.Const(q + "0", A)
        g["asked"] = z3.K(I_, z3.BoolVal(False))
        g["nsol"] = g["cum"] = z3.IntVal(0)

    opt = lambda S, nme: S.fld("options", nme)
    hits = lambda S, leaf: z3.If(opt(S, "includeHits"), HITS(leaf), 1)
    wsize = lambda S: z3.If(S["maxTotal"] <= S["offset"], 0, z3.If(S["size"] < S["maxTotal"] - S["offset"], S["size"], S["maxTotal"] - S["offset"]))

    def meets(S0, leaf, b):
        """hits b .. b+hits-1 meet the window [offset, offset+size)"""
        off, e = S0["offset"], S0["offset"] + wsize(S0)
        return z3.And(b < e, off < b + hits(S0, leaf), wsize(S0) > 0)

    def body_begin(S):
        g = S.st.ghost
        done = S["currentToken"] >= S.len(S.fld("expr"))
        i, leaf = g["nsol"], S["currentNode"]
        up = lambda a, v: z3.If(done, v, a)
        S0 = S.pre
        g["leaf"] = up(g["leaf"], z3.Store(g["leaf"], i, leaf))
        g["before"] = up(g["before"], z3.Store(g["before"], i, g["cum"]))
        g["src"] = up(g["src"], z3.If(meets(S0, leaf, g["cum"]), z3.Store(g["src"], FID(leaf), i), g["src"]))
        g["nsol"] = up(i, i + 1)
        g["cum"] = up(g["cum"], g["cum"] + hits(S0, leaf))
        for q in ("leaf", "before", "nsol", "cum", "src"):
            S.st.wrote(("ghost", q))

    def query_model(X, st, this, args, fr, node):
        fid, off, mx = [X.rv(st, a) for a in args[:3]]
        g = st.ghost
        i = g["nsol"] - 1
        X.check(st, z3.Not(z3.Select(g["asked"], i)), "the store is asked once per formula", node)
        X.check(st, fid == FID(z3.Select(g["leaf"], i)), "the store is asked for the formula just found", node)
        g["qoff"], g["qmax"] = z3.Store(g["qoff"], i, off), z3.Store(g["qmax"], i, mx)
        g["asked"] = z3.Store(g["asked"], i, z3.BoolVal(True))
        for q in ("qoff", "qmax", "asked"):
            st.wrote(("ghost", q))
        return [(st, fresh("rows", I_))]
    query = Contract("DbQueryManager::query", model=query_model, **tr)

    def main_inv(S):
        S0 = S.pre
        g = S.st.ghost
        ns, cum = g["nsol"], g["cum"]
        sel = lambda q, i: z3.Select(g[q], i)
        inr = z3.And(0 <= k, k < ns)
        b, lf = sel("before", k), sel("leaf", k)
        off, e = S0["offset"], S0["offset"] + wsize(S0)
        o = {}
        o["counted: all hits so far, at most maxTotal"] = z3.And(S["found"] == z3.If(cum < S0["maxTotal"], cum, S0["maxTotal"]), cum >= 0, ns >= 0)
        o["one after the other, until maxTotal is reached"] = z3.ForAll([k], z3.Implies(inr, z3.And(b >= 0, b < S0["maxTotal"], b + hits(S0, lf) == z3.If(k + 1 == ns, cum, sel("before", k + 1)))), patterns=[b])
        o["the store is asked exactly for the formulas that meet the window"] = z3.ForAll([k], z3.And(
            z3.Implies(inr, sel("asked", k) == z3.And(opt(S0, "includeHits"), meets(S0, lf, b))), z3.Implies(z3.Not(inr), z3.Not(sel("asked", k)))), patterns=[sel("asked", k)])
        o["and for exactly the rows inside the window"] = z3.ForAll([k], z3.Implies(z3.And(inr, sel("asked", k)), z3.And(
            sel("qoff", k) == z3.If(off > b, off - b, 0), sel("qmax", k) == e - z3.If(off > b, off, b))), patterns=[sel("qoff", k)])
        r = S["result"]
        ids = z3.Select(S.heap("MwsAnswset", "ids"), r)
        f = z3.Int("wf")
        o["formula ids: those that meet the window"] = z3.Implies(opt(S0, "includeMwsIds"), z3.ForAll([k], z3.Implies(z3.And(inr, meets(S0, lf, b)), z3.Select(ids, FID(lf))), patterns=[lf]))
        src = z3.Select(g["src"], f)
        o["and no others"] = z3.ForAll([f], z3.Implies(z3.Select(ids, f), z3.And(
            opt(S0, "includeMwsIds"), 0 <= src, src < ns, FID(sel("leaf", src)) == f, meets(S0, sel("leaf", src), sel("before", src)))), patterns=[z3.Select(ids, f)])
        return o

    def inv(S):
        o = main_inv(S)
        S0 = S.pre
        o["window inside maxTotal"] = z3.And(S["size"] == wsize(S0), S["offset"] == S0["offset"], S["maxTotal"] == S0["maxTotal"])
        o["result is an object of its own"] = z3.And(S["result"] > 0, z3.Not(z3.Select(S.pre.alloc, S["result"])), z3.Select(S.alloc, S["result"]))
        o["the query stays as it is"] = z3.And(S.len(S.fld("expr")) == S.len(S0.fld("expr")))
        o["every choice point has its state"] = table(S, S.fld("mSpecialCount"))
        o["no search error"] = z3.And(S["currentNode"] >= 0, S["currentToken"] >= 0)
        o["last solved choice point exists"] = z3.And(S["lastSolved"] >= -1, S["lastSolved"] < S.fld("mSpecialCount"))
        return o

    def post(S):
        r = S.ret
        S0 = S.pre
        o = main_inv_post(S)
        o["the total is the number of hits, at most maxTotal"] = z3.Select(S.heap("MwsAnswset", "total"), r) == z3.If(S.g("cum") < S0["maxTotal"], S.g("cum"), S0["maxTotal"])
        return o

    def main_inv_post(S):
        class R:
            st, pre = S.st, S.pre
            heap = staticmethod(S.heap)

            def __getitem__(self, q):
                return S.ret if q == "result" else S[q]
        o = main_inv(R())
        del o["counted: all hits so far, at most maxTotal"]
        return o

    def table(S, upto):
        t = S["bkTable"]
        return z3.And(S.len(t) == S.fld("mSpecialCount"), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < upto), z3.Select(S.arr(t), k) > 0), patterns=[z3.Select(S.arr(t), k)]))

    def ranges(S):
        ex = S.fld("expr")
        xs = so.vec_arr(ex).range()
        F = lambda nme: [xs.accessor(0, p) for p in range(xs.constructor(0).arity()) if nme in xs.accessor(0, p).name()][0]
        x = lambda q: z3.Select(S.arr(ex), q)
        return {"every range has bounds": z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < S.len(ex), F("type")(x(k)) == 1), z3.Select(so.map_dom(S.fld("rangeBounds")), F("meaningId")(x(k)))), patterns=[x(k)])}

    def setup_inv(S):
        ex = S.fld("expr")
        xs = so.vec_arr(ex).range()
        F = lambda nme: [xs.accessor(0, p) for p in range(xs.constructor(0).arity()) if nme in xs.accessor(0, p).name()][0]
        x = lambda q: z3.Select(S.arr(ex), q)
        n = S.k
        bt, p = S.fld("backtrackPoints"), S["bkTablePos"]
        return {"the next choice point lies ahead": z3.Implies(p < S.fld("mSpecialCount"), z3.Select(S.arr(bt), p) - 1 >= n),
                "choice points set up in order": z3.And(0 <= n, n <= S.len(ex), 0 <= S["bkTablePos"], S["bkTablePos"] <= S.fld("mSpecialCount"), table(S, S["bkTablePos"])),
                "all met so far are set up": z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n, F("type")(x(k)) != 2), F("arity")(x(k)) < S["bkTablePos"]), patterns=[x(k)])}

    def path_len(S):
        nm = [q for q in S.fr.names if q.startswith("__range")][-1]
        return S.len(S[nm])

    get = Contract("SearchContext::getResult", sig="typename IndexAccessor", setup=setup, post=post,
                   pre=lambda S: {"totals that fit an int": S["maxTotal"] < (1 << 31), "windows that fit 32 bits": z3.And(S["offset"] < (1 << 32), S["size"] < (1 << 32)),
                                  "a store to ask": S["dbQueryManager"] > 0,
                                  **search.wf_expr(X, S), **ranges(S)},
                   loops=[Loop(inv=setup_inv), Loop(inv=inv, bodyghost=body_begin, ghost=GH), 
                          Loop(inv=lambda S: {"a node": z3.And(S["currentNode"] >= 0, S.k >= 0, S.k <= path_len(S))}),
                          Loop(inv=lambda S: {"last solved choice point exists": z3.And(S["lastSolved"] >= -1, S["lastSolved"] < S.fld("mSpecialCount"))})],
                   mods="any")
    return acc + [sv, nx, query, get]
