"""Indexing of harvested expressions (IndexBuilder.cpp, CmmlToken::foreachSubexpression): every subexpression is visited once, in order of
the document; each expression is counted exactly as often as an occurrence of it is stored."""
import z3
from sx import *
from cast import I, Ty
TU = '''
#include "mws/types/CmmlToken.cpp"
#include "mws/index/IndexBuilder.cpp"
'''
HEAP = ["FILE", "_IO_FILE", "IndexBuilder", "CmmlToken", "TmpLeafNode", "TmpIndex", "FormulaDb", "CrawlDb", "IdDictionary"]
LIM = 1 << 30


def contracts(X):
    so, lib = X.so, X.lib
    I_ = z3.IntSort()
    STR = lib.strlit("x").sort()
    A1, AS = z3.ArraySort(I_, I_), z3.ArraySort(I_, STR)
    H = lambda S, c, r, f: z3.Select(S.heap(c, f), r)
    nkids = lambda S, r: so.vec_len(H(S, "CmmlToken", r, "_childNodes"))
    kid = lambda S, r, i: z3.Select(so.vec_arr(H(S, "CmmlToken", r, "_childNodes")), i)
    ref = lambda S: S.this.root[2]
    k, i, j, q, r = z3.Int("ik"), z3.Int("ii"), z3.Int("ij"), z3.Int("iq"), z3.Int("ir")
    G = lambda S, n: S.st.ghost[n]
    sel = z3.Select

    def put_g(st, **kw):
        for n, v in kw.items():
            st.ghost[n] = v
            st.wrote(("ghost", n))

    # ------------------------------------------------------------------ the walk over all subexpressions
    WG = ["src", "stk", "stl", "nv"]

    def walk_setup(S):
        g = S.st.ghost
        g["src"], g["stk"], g["stl"], g["nv"] = z3.Const("src0", A1), z3.Const("stk0", z3.ArraySort(I_, A1)), z3.Const("stl0", A1), z3.IntVal(0)
        g["turn"] = z3.IntVal(-1)

    def visit(X_, st, args, fr, rty):
        g = st.ghost
        put_g(st, src=z3.Store(g["src"], g["nv"], X.rv(st, args[0])), nv=g["nv"] + 1)
        return [(st, VOID)]
    X.opaque["callback"] = visit

    def stack(S):
        v = S["subtermStack"]
        return S.arr(v), S.len(v)

    def body(S):
        sa, sl = stack(S)
        g = S.st.ghost
        put_g(S.st, stk=z3.Store(g["stk"], g["nv"], sa), stl=z3.Store(g["stl"], g["nv"], sl))

    def order(S, n, cursa, cursl):
        """the first n visits, with (cursa, cursl) still pending: depth first, arguments in order"""
        src, stk, stl, P = G(S, "src"), G(S, "stk"), G(S, "stl"), S.pre
        s = lambda x: sel(src, x)
        nl = lambda x: z3.If(x + 1 == n, cursl, sel(stl, x + 1))
        na = lambda x, y: z3.If(x + 1 == n, sel(cursa, y), sel(sel(stk, x + 1), y))
        inr = z3.And(0 <= k, k < n)
        return {"every visited subexpression is the next pending one": z3.ForAll([k], z3.Implies(inr, z3.And(s(k) > 0, sel(stl, k) >= 1, s(k) == sel(sel(stk, k), sel(stl, k) - 1))), patterns=[s(k)]),
                "its arguments replace it": z3.ForAll([k], z3.Implies(inr, nl(k) == sel(stl, k) - 1 + nkids(P, s(k))), patterns=[s(k)]),
                "what is below stays pending": z3.ForAll([k, i], z3.Implies(z3.And(inr, 0 <= i, i < sel(stl, k) - 1, s(k) > 0), na(k, i) == sel(sel(stk, k), i)), patterns=[sel(sel(stk, k), i)]),
                "arguments come in order": z3.ForAll([k, i], z3.Implies(z3.And(inr, 0 <= i, i < nkids(P, s(k))), na(k, nl(k) - 1 - i) == kid(P, s(k), i)), patterns=[z3.MultiPattern(s(k), kid(P, s(k), i))])}

    def nodes(S):
        return {"a number of children": z3.ForAll([r], nkids(S, r) >= 0, patterns=[H(S, "CmmlToken", r, "_childNodes")]), "children are nodes": z3.ForAll([r, i], z3.Implies(z3.And(r > 0, 0 <= i, i < nkids(S, r)), kid(S, r, i) > 0), patterns=[kid(S, r, i)])}

    def walk_inv(S):
        sa, sl = stack(S)
        n = G(S, "nv")
        o = order(S, n, sa, sl)
        o["pending ones are nodes"] = z3.And(sl >= 0, n >= 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < sl), sel(sa, i) > 0), patterns=[sel(sa, i)]))
        o["starts with the expression itself"] = z3.If(n == 0, z3.And(sl == 1, sel(sa, 0) == ref(S)), z3.And(sel(G(S, "stl"), 0) == 1, sel(G(S, "src"), 0) == ref(S)))
        return o

    def push_inv(S):
        L = S.loop_entry()
        a0, l0 = stack(L)
        a1, l1 = stack(S)
        t = S["currentSubterm"]
        m, idx = nkids(S.pre, t), S["rIt"].idx
        n = l1 - l0
        return {"position": z3.And(0 <= n, n <= m, t > 0, (idx == m - n) if not S["rIt"].rev else (idx == m - n)),
                "below": z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < l0), sel(a1, i) == sel(a0, i)), patterns=[sel(a1, i), sel(a0, i)]),
                "pushed": z3.ForAll([i], z3.Implies(z3.And(m - n <= i, i < m), sel(a1, l0 + m - 1 - i) == kid(S.pre, t, i)), patterns=[kid(S.pre, t, i)]),
                "pushed (by position)": z3.ForAll([i], z3.Implies(z3.And(l0 <= i, i < l1), sel(a1, i) == kid(S.pre, t, l0 + m - 1 - i)), patterns=[sel(a1, i)]),
                "nothing visited meanwhile": z3.And(G(S, "nv") == G(L, "nv"), G(S, "src") == G(L, "src"))}

    def walk_post(S):
        n = G(S, "nv")
        o = order(S, n, z3.K(I_, z3.IntVal(0)), z3.IntVal(0))
        o["starts with the expression itself"] = z3.And(n >= 1, sel(G(S, "stl"), 0) == 1, sel(G(S, "src"), 0) == ref(S))
        return o

    # what the callers use: visit number x goes to sub_at(root, x), sub_n(root) visits in all
    sub_n, sub_at = z3.Function("sub_n", I_, I_), z3.Function("sub_at", I_, I_, I_)

    def walk_model(X_, st, this, args, fr, n):
        root = this.root[2] if isinstance(this, Place) else X.rv(st, this)
        clo = X.rv(st, args[0])
        st.assume(z3.And(sub_n(root) >= 1, sub_n(root) < LIM, sub_at(root, 0) == root))
        X.check(st, st.ghost["nvis"] == 0, "the expression is walked once", n)

        def step(s):
            g = s.ghost
            t = sub_at(root, g["nvis"])
            s.assume(t > 0)
            put_g(s, cur=g["nvis"], ok=z3.BoolVal(False))
            o = X.call_value(clo, [t], s, fr, n)
            for e, _ in o:
                put_g(e, nvis=e.ghost["nvis"] + 1)
            return o
        put_g(st, root=root)
        h = X.iterate(st, fr, Loop(inv=count_inv, ghost=["nvis", "cur", "ok", "lf", "rid", "rcr", "rxml", "rxp", "rtok", "rowof", "rows", "failed"]),
                      lambda s: s.ghost["nvis"] < sub_n(root), step, "walk over the subexpressions")
        return [(h, VOID)]
    walk = Contract("CmmlToken::foreachSubexpression", setup=walk_setup, pre=nodes, post=walk_post, mods=lambda S: [("ghost", n) for n in WG], model=walk_model,
                    loops=[Loop(inv=walk_inv, bodyghost=body, ghost=WG, core=("pending ones are nodes",)), Loop(inv=push_inv)])

    # ------------------------------------------------------------------ indexing
    owner = z3.Function("leaf_with_id", I_, I_)
    sol = lambda S, l: H(S, "TmpLeafNode", l, "solutions")
    lid = lambda S, l: H(S, "TmpLeafNode", l, "id")
    xpath = lambda S, t: H(S, "CmmlToken", t, "_xpath")

    def idx_setup(S):
        g = S.st.ghost
        g["nvis"], g["cur"], g["root"], g["rows"] = z3.IntVal(0), z3.IntVal(-1), z3.IntVal(0), z3.IntVal(0)
        g["ok"], g["failed"] = z3.BoolVal(False), z3.BoolVal(False)
        g["lf"], g["rowof"] = z3.K(I_, z3.IntVal(0)), z3.K(I_, z3.IntVal(-1))
        g["rid"], g["rcr"], g["rtok"], g["rxml"], g["rxp"] = (z3.Const("r0" + n, s_) for n, s_ in (("id", A1), ("cr", A1), ("tok", A1), ("xml", AS), ("xp", AS)))

    def enc_model(X_, st, this, args, fr, n):
        g = st.ghost
        t = X.rv(st, args[1])
        X.check(st, t == sub_at(g["root"], g["cur"]), "the subexpression that is visited is encoded", n)
        p = X.rv(st, args[2])
        p = p.place if isinstance(p, PtrP) else p
        X.check(st, so.vec_len(X.read(st, p)) == 0, "precondition of encode: an empty vector", n, kind="pre")
        v = X.fresh_val(p.ty, "code", st)
        X.write(st, p, v)
        rc = fresh("encoded", I_)
        st.assume(z3.Or(rc == 0, rc == -1))
        st.ghost["code"] = X.read(st, p)
        st.wrote(("ghost", "ok"))
        st.ghost["ok"] = rc == 0
        return [(st, rc)]

    def ins_model(X_, st, this, args, fr, n):
        g = st.ghost
        v = X.rv(st, args[0])
        v = X.read(st, v) if isinstance(v, Place) else v
        X.check(st, g["ok"], "only what could be encoded is inserted", n)
        X.check(st, v == g["code"], "the encoding of the visited subexpression is inserted", n)
        l = fresh("leaf", I_)
        S = View(X, st, fr)
        st.assume(z3.And(l > 0, owner(lid(S, l)) == l, sol(S, l) >= 0, sol(S, l) < LIM))
        put_g(st, lf=z3.Store(g["lf"], g["cur"], l))
        return [(st, l)]

    def row_model(X_, st, this, args, fr, n):
        g = st.ghost
        p = X.rv(st, args[2])
        p = X.read(st, p) if isinstance(p, Place) else p
        rc = fresh("stored", I_)
        a, b = st.copy(), st
        a.assume(rc == 0)
        g = a.ghost
        m = g["rows"]
        fid = X.rv(a, args[0])
        put_g(a, rid=z3.Store(g["rid"], m, fid), rcr=z3.Store(g["rcr"], m, X.rv(a, args[1])), rtok=z3.Store(g["rtok"], m, g["cur"]), rxml=z3.Store(g["rxml"], m, p.f["xmlId"]),
              rxp=z3.Store(g["rxp"], m, p.f["xpath"]), rowof=z3.Store(g["rowof"], fid, m), rows=m + 1)
        b.assume(rc != 0)
        put_g(b, failed=z3.BoolVal(True))
        return [(a, rc), (b, rc)]

    def rows_ok(S, upto):
        """what the stored rows are, after the first upto visits"""
        g = S.st.ghost
        root = g["root"]
        has = lambda fid: sel(g["rowof"], fid) >= 0
        n = g["rows"]
        P = S.pre
        tokid = lambda x: lid(S, sel(g["lf"], x))
        inr = z3.And(0 <= i, i < n)
        return {"rows of this expression": z3.And(n >= 0, n <= upto, z3.ForAll([i], z3.Implies(inr, z3.And(sel(g["rcr"], i) == P["crawlId"], sel(g["rxml"], i) == P.z("xmlId"))), patterns=[sel(g["rcr"], i), sel(g["rxml"], i)])),
                "each row stands for a visited subexpression, with its path": z3.ForAll([i], z3.Implies(inr, z3.And(sel(g["rtok"], i) >= 0, sel(g["rtok"], i) < upto, sel(g["lf"], sel(g["rtok"], i)) > 0, sel(g["rid"], i) == tokid(sel(g["rtok"], i)),
                                                                                                                 sel(g["rxp"], i) == xpath(P, sub_at(root, sel(g["rtok"], i))))), patterns=[sel(g["rtok"], i), sel(g["rid"], i), sel(g["rxp"], i)]),
                "the first one with this encoding": z3.ForAll([i, j], z3.Implies(z3.And(inr, 0 <= j, j < sel(g["rtok"], i)), z3.Or(sel(g["lf"], j) == 0, tokid(j) != sel(g["rid"], i))), patterns=[z3.MultiPattern(sel(g["rtok"], i), sel(g["lf"], j))]),
                "one row per distinct expression": z3.And(z3.ForAll([i], z3.Implies(inr, sel(g["rowof"], sel(g["rid"], i)) == i), patterns=[sel(g["rid"], i)]),
                                                          z3.ForAll([q], z3.Implies(has(q), z3.And(sel(g["rowof"], q) < n, sel(g["rid"], sel(g["rowof"], q)) == q)), patterns=[sel(g["rowof"], q)])),
                "every subexpression that could be encoded has a row, unless storing failed": z3.Or(g["failed"], z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < upto, sel(g["lf"], j) != 0), has(tokid(j))), patterns=[sel(g["lf"], j)])),
                "an expression is counted once more exactly if a row was stored for it": z3.ForAll([r], sol(S, r) == sol(P, r) + z3.If(z3.And(r > 0, owner(lid(S, r)) == r, has(lid(S, r))), 1, 0), patterns=[sol(S, r)]),
                "the expressions keep their ids": S.heap("TmpLeafNode", "id") == P.heap("TmpLeafNode", "id"),
                "visited ones have leaves or none": z3.ForAll([j], z3.And(sel(g["lf"], j) >= 0, z3.Implies(z3.Or(j < 0, j >= upto), sel(g["lf"], j) == 0), z3.Implies(sel(g["lf"], j) > 0, owner(tokid(j)) == sel(g["lf"], j))), patterns=[sel(g["lf"], j)])}

    def count_inv(S):
        g = S.st.ghost
        o = rows_ok(S, g["nvis"])
        u = S["uniqueFormulaIds"]
        o["visits"] = z3.And(g["nvis"] >= 0, g["nvis"] <= sub_n(g["root"]), S["numSubExpressions"] == g["rows"], g["root"] == S["cmmlToken"])
        o["ids met so far"] = z3.ForAll([q], z3.And(z3.Implies(sel(g["rowof"], q) >= 0, setmem(u, q)), z3.Implies(z3.And(setmem(u, q), z3.Not(g["failed"])), sel(g["rowof"], q) >= 0)), patterns=[setmem(u, q), sel(g["rowof"], q)])
        o["subexpressions met before are among them"] = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < g["nvis"], sel(g["lf"], j) != 0), setmem(u, lid(S, sel(g["lf"], j)))), patterns=[sel(g["lf"], j)])
        return o

    setmem = lambda u, x: sel(u, x)

    def idx_post(S):
        g = S.st.ghost
        o = rows_ok(S, sub_n(S.pre["cmmlToken"]))
        o["all subexpressions were visited"] = z3.And(g["nvis"] == sub_n(S.pre["cmmlToken"]), g["root"] == S.pre["cmmlToken"])
        o["returns the number of occurrences"] = S.ret == g["rows"]
        return o
    index = Contract("IndexBuilder::indexContentMath", setup=idx_setup,
                     pre=lambda S: {"an expression, an index and a store": z3.And(S["cmmlToken"] > 0, S.fld("m_index") > 0, S.fld("m_formulaDb") > 0)},
                     post=idx_post, mods=lambda S: [("heap", "TmpLeafNode", "solutions"), ("alloc",)] + [("ghost", n) for n in ("nvis", "cur", "root", "ok", "lf", "rid", "rcr", "rxml", "rxp", "rtok", "rowof", "rows", "failed")])
    tr = dict(trusted=True, verify=False)
    cs = [Contract("HarvestEncoder::HarvestEncoder", model=lambda X_, st, this, args, fr, n: [(st, VOID)], **tr),
          Contract("ExpressionEncoder::encode", model=enc_model, **tr), Contract("TmpIndex::insertData", model=ins_model, **tr), Contract("FormulaDb::insertFormula", model=row_model, **tr)]

    # ------------------------------------------------------------------ crawl data
    def data_model(X_, st, this, args, fr, n):
        v = X.rv(st, args[0])
        v = X.read(st, v) if isinstance(v, Place) else v
        rc = fresh("crawl", I_)
        st.assume(z3.And(rc >= 0, rc < (1 << 32)))
        put_g(st, put=v, puts=st.ghost["puts"] + 1, putid=rc)
        return [(st, rc)]

    def d_setup(S):
        g = S.st.ghost
        g["put"], g["puts"], g["putid"] = lib.strlit(""), z3.IntVal(0), z3.IntVal(0)
    cs += [Contract("CrawlDb::putData", model=data_model, **tr),
           Contract("IndexBuilder::indexCrawlData", setup=d_setup, mods=lambda S: [("ghost", n) for n in ("put", "puts", "putid")],
                    post=lambda S: {"with a store, the data is put there once": z3.Implies(S.fld("m_crawlDb") != 0, z3.And(G(S, "puts") == 1, G(S, "put") == S.pre.z("crawlData"), S.ret == G(S, "putid"))),
                                    "without one, there is no id": z3.Implies(S.fld("m_crawlDb") == 0, z3.And(G(S, "puts") == 0, S.ret == 0))})]
    # ------------------------------------------------------------------ directories of harvests
    LG = ["total", "opened", "fd", "nload", "ncall"]

    def l_setup(S):
        g = S.st.ghost
        g["total"], g["opened"], g["fd"], g["nload"], g["path"], g["ncall"] = z3.IntVal(0), z3.BoolVal(False), z3.IntVal(-1), z3.IntVal(0), lib.strlit(""), z3.IntVal(0)
    suffix = z3.Function("has_suffix", STR, STR, z3.BoolSort())
    strv = lambda st, v: v.s if isinstance(v, CStr) else (X.read(st, v) if isinstance(v, Place) else v)

    def dir_model(X_, st, this, args, fr, n):
        f = X.rv(st, args[1])
        X.check(st, strv(st, X.rv(st, args[0])) == View(X, st, fr).z("dirPath"), "the configured directory is walked", n)
        cfg = View(X, st, fr).deref("config")
        ext = X.read(st, cfg.f("fileExtension", Ty("std", "string")))
        more_ = fresh("another_file", z3.ArraySort(I_, z3.BoolSort()))
        put_g(st, ncall=z3.IntVal(0))

        def step(s):
            path, pre = fresh("path", STR), fresh("prefix", STR)
            put_g(s, opened=z3.BoolVal(False), nload=z3.IntVal(0))
            s.ghost["path"] = path
            t1, t2 = X.temp(s, path, Ty("std", "string")), X.temp(s, pre, Ty("std", "string"))
            o = X.call_value(f, [t1, t2], s, fr, n)
            for e, v in o:
                g = e.ghost
                X.check(e, g["fd"] == -1, "every file is closed again", n)
                X.check(e, z3.If(z3.And(suffix(path, ext), g["opened"]), g["nload"] == 1, g["nload"] == 0), "a file with the configured extension is loaded once, and no other", n)
                X.check(e, z3.Implies(z3.Or(z3.Not(suffix(path, ext)), g["opened"]), X.rv(e, v) == 0), "the walk goes on after a file that could be read, and after one with another extension", n)
                put_g(e, ncall=g["ncall"] + 1)
            return o
        h = X.iterate(st, fr, Loop(inv=lambda S: {"all loaded expressions are counted": z3.And(S["numExpressions"] == G(S, "total"), G(S, "total") >= 0, G(S, "fd") == -1)}, ghost=["path"] + LG), lambda s: sel(more_, s.ghost["ncall"]), step, "walk over the files")
        rc = fresh("walked", I_)
        h.assume(z3.Or(rc == 0, rc == -1))
        return [(h, rc)]

    def open_model(X_, st, this, args, fr, n):
        X.check(st, strv(st, X.rv(st, args[0])) == st.ghost["path"], "the file that was found is opened", n)
        X.check(st, st.ghost["fd"] == -1, "one file at a time", n)
        r_ = fresh("fd", I_)
        st.assume(r_ >= -1)
        put_g(st, fd=r_, opened=r_ >= 0)
        return [(st, r_)]

    def close_model(X_, st, this, args, fr, n):
        X.check(st, z3.And(X.rv(st, args[0]) == st.ghost["fd"], st.ghost["fd"] >= 0), "the open file is closed", n)
        put_g(st, fd=z3.IntVal(-1))
        return [(st, z3.IntVal(0))]

    def load_model(X_, st, this, args, fr, n):
        g = st.ghost
        X.check(st, z3.And(X.rv(st, args[1]) == g["fd"], g["fd"] >= 0), "the open file is read", n)
        cfg = View(X, st, fr).deref("config")
        X.check(st, X.rv(st, args[0]) == View(X, st, fr)["indexBuilder"], "into the index", n)
        X.check(st, X.rv(st, args[2]) == z3.Not(X.read(st, cfg.f("shouldIgnoreData", Ty("bool")))), "with crawl data exactly if it is not to be ignored", n)
        v = X.fresh_val(X.u.ty(n), "loaded", st)
        st.assume(z3.And(v.f["numExpressions"] >= 0, v.f["numExpressions"] + g["total"] < (1 << 64)))
        put_g(st, total=g["total"] + v.f["numExpressions"], nload=g["nload"] + 1)
        return [(st, v)]

    def suffix_model(X_, st, this, args, fr, n):
        return [(st, suffix(strv(st, X.rv(st, args[0])), strv(st, X.rv(st, args[1]))))]
    def anyint(lo):
        def f(X_, st, this, args, fr, n):
            r_ = fresh("r", I_)
            st.assume(r_ >= lo)
            return [(st, r_)]
        return f
    for nm in ("fopen", "fclose", "fprintf", "perror"):
        X.models[nm] = anyint(0)
    X.models["open"], X.models["close"] = open_model, close_model
    cs += [Contract("foreachEntryInDirectory", model=dir_model, **tr), Contract("loadHarvestFromFd", model=load_model, **tr), Contract("hasSuffix", model=suffix_model, **tr),
           Contract("logIndexStatistics", model=lambda X_, st, this, args, fr, n: [(st, VOID)], **tr),
           Contract("loadHarvests", setup=l_setup, pre=lambda S: {"an index": S["indexBuilder"] > 0}, mods=lambda S: [("ghost", n) for n in LG + ["path"]],
                    post=lambda S: {"all loaded expressions are counted": S.ret == G(S, "total"), "all files are closed": G(S, "fd") == -1},
                    loops=[Loop(inv=lambda S: {"position": z3.And(S.k >= 0, S.k <= so.vec_len(X.read(S.st, S.deref("config").f("paths", Ty("std", "vector", [Ty("std", "string")]))))), "all loaded expressions are counted": z3.And(S["numExpressions"] == G(S, "total"), G(S, "total") >= 0, G(S, "fd") == -1)}, ghost=LG + ["path"])])]
    return [walk, index] + cs
