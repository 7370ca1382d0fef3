"""The two search services (HarvestQueryHandler.cpp, IndexQueryHandler.cpp): one query, encoded with the dictionary and the options of the
index, searched for in this index and its stores, once, with the window of the query."""
import z3
import vals
vals.set_string_mode("seq")
from sx import *
from cast import I, Ty
TU = '''
#include "mws/daemon/HarvestQueryHandler.cpp"
#include "mws/daemon/IndexQueryHandler.cpp"
#include "mws/index/IndexLoader.cpp"
#include "mws/index/IndexBuilder.cpp"
'''
HEAP = ["Query", "MwsAnswset", "CmmlToken", "inode_s", "inode_long_s", "DbQueryManager", "TmpIndex", "memsector_header_s", "LevFormulaDb", "LevCrawlDb", "FormulaDb", "CrawlDb"]
LOG = ["enc_n", "enc_dict", "enc_cfg", "enc_tok", "enc_rc", "code", "names", "xpaths", "bounds", "cx_n", "cx_code", "cx_opts", "cx_bounds", "cx_dict", "rs_n", "rs_index", "rs_db", "rs_off", "rs_size", "rs_max", "rs_ret", "rs_root", "rs_ms", "db_crawl", "db_formula", "lib"]


def contracts(X):
    so, lib = X.so, X.lib
    I_, B_ = z3.IntSort(), z3.BoolSort()
    str_ = Ty("std", "string")
    tr = dict(trusted=True, verify=False)
    G = lambda S, q: S.st.ghost[q]
    sel = z3.Select

    def put_g(st, **kw):
        for q, v in kw.items():
            st.ghost[q] = v
            st.wrote(("ghost", q))

    def setup(S):
        for q in LOG:
            S.st.ghost[q] = None
        for q in ("enc_n", "cx_n", "rs_n"):
            S.st.ghost[q] = z3.IntVal(0)
        for q in ("enc_rc", "rs_ret"):
            S.st.ghost[q] = z3.Int("g_" + q)

    def name_of(X_, st, v):
        """a canonical name of what a pointer points to"""
        if isinstance(v, PtrP):
            v = v.place
        if isinstance(v, Place):
            return "%s" % (v,)
        return v
    pl = lambda v: v.place if isinstance(v, PtrP) else v
    val = lambda st, v: X.read(st, v) if isinstance(v, Place) else (X.read(st, v.place) if isinstance(v, PtrP) else v)

    def qe_model(X_, st, this, args, fr, n):
        put_g(st, enc_dict=name_of(X_, st, X.rv(st, args[0])))
        return [(st, VOID)]

    def enc_model(X_, st, this, args, fr, n):
        g = st.ghost
        cfg = val(st, X.rv(st, args[0]))
        p, q = pl(X.rv(st, args[2])), pl(X.rv(st, args[3]))
        X.check(st, so.vec_len(X.read(st, p)) == 0, "precondition of encode: an empty vector", n, kind="pre")
        v = X.fresh_val(p.ty, "code", st)
        X.write(st, p, v)
        info = X.fresh_val(q.ty, "info", st)
        X.write(st, q, info)
        rc = fresh("encoded", I_)
        st.assume(z3.Or(rc == 0, rc == -1))
        put_g(st, enc_n=g["enc_n"] + 1, enc_cfg=cfg.f["renameCi"], enc_tok=X.rv(st, args[1]), enc_rc=rc, code=X.read(st, p), names=info.f["qvarNames"], xpaths=info.f["qvarXpaths"], bounds=info.f["rangeBounds"])
        return [(st, rc)]

    def cx_model(X_, st, this, args, fr, n):
        g = st.ghost
        v = [val(st, X.rv(st, a)) for a in args[:3]]
        put_g(st, cx_n=g["cx_n"] + 1, cx_code=v[0], cx_opts=v[1], cx_bounds=v[2], cx_dict=name_of(X_, st, X.rv(st, args[3])))
        return [(st, VOID)]

    def db_model(X_, st, this, args, fr, n):
        put_g(st, db_crawl=name_of(X_, st, X.rv(st, args[0])), db_formula=name_of(X_, st, X.rv(st, args[1])))
        return [(st, VOID)]

    def rs_model(X_, st, this, args, fr, n):
        g = st.ghost
        a = [X.rv(st, q) for q in args]
        r = fresh("result", I_)
        st.assume(z3.And(r > 0, z3.Not(sel(st.alloc, r))))
        st.alloc = z3.Store(st.alloc, r, z3.BoolVal(True))
        st.wrote(("alloc",))
        put_g(st, rs_n=g["rs_n"] + 1, rs_index=name_of(X_, st, a[0]), rs_db=name_of(X_, st, a[1]), rs_off=a[2], rs_size=a[3], rs_max=a[4], rs_ret=r)
        return [(st, r)]
    cs = [Contract("QueryEncoder::QueryEncoder", model=qe_model, **tr), Contract("ExpressionEncoder::encode", model=enc_model, **tr), Contract("SearchContext::SearchContext", model=cx_model, **tr),
          Contract("SearchContext::getResult", model=rs_model, **tr), Contract("DbQueryManager::DbQueryManager", model=db_model, **tr)]
    cs[3].rec = None
    same = lambda a, b: z3.BoolVal(a is not None and str(a) == str(b))

    def eq(a, b):
        return so.to_z3(a, a.ty) == so.to_z3(b, b.ty) if isinstance(a, StructV) else a == b

    def common(S, q, dic, cfg, index, db):
        P = S.pre
        tok = sel(so.vec_arr(sel(P.heap("Query", "tokens"), S[q])), 0)
        h = lambda f: sel(P.heap("Query", f), S[q])
        a = lambda f: sel(S.heap("MwsAnswset", f), S.ret)
        ok = G(S, "enc_rc") == 0
        e = {"the first expression of the query is encoded, once": z3.And(G(S, "enc_n") == 1, G(S, "enc_tok") == tok), "with the symbols of the index": same(G(S, "enc_dict"), dic), "with the options of the index": G(S, "enc_cfg") == cfg,
             "names of the variables are those of this query": a("qvarNames") == G(S, "names"), "so are their positions": a("qvarXpaths") == G(S, "xpaths"), "an answer": z3.And(S.ret > 0, z3.Not(sel(P.alloc, S.ret)), sel(S.alloc, S.ret)),
             "nothing is searched for what cannot be encoded": z3.Implies(z3.Not(ok), z3.And(G(S, "rs_n") == 0, a("total") == 0, so.vec_len(a("answers")) == 0)),
             "the answer set of an unencodable query holds no ids": z3.Implies(z3.Not(ok), z3.ForAll([z3.Int("f")], z3.Not(sel(a("ids"), z3.Int("f"))))) if True else None}
        if G(S, "cx_code") is not None:
            i = z3.Int("i")
            e.update({"an encoded query is searched for, once": z3.Implies(ok, z3.And(G(S, "cx_n") == 1, G(S, "rs_n") == 1)), "with its encoding": z3.Implies(ok, G(S, "cx_code") == G(S, "code")),
                      "its options": z3.Implies(ok, z3.And([eq(G(S, "cx_opts").f[f], X.read(S.st, Place(("H", "Query", S[q]), (), Ty("rec", "Query", [])).f("options", G(S, "cx_opts").ty)).f[f]) for f in ("includeHits", "includeMwsIds")])),
                      "its bounds": z3.Implies(ok, eq(G(S, "cx_bounds"), G(S, "bounds"))), "and the symbols of the index": z3.Implies(ok, same(G(S, "cx_dict"), dic)),
                      "in the index": z3.Implies(ok, same(G(S, "rs_index"), index)), "with its stores": z3.Implies(ok, db(S)),
                      "for the window of the query": z3.Implies(ok, z3.And(G(S, "rs_off") == h("attrResultLimitMin") % (1 << 32), G(S, "rs_size") == h("attrResultMaxSize") % (1 << 32), G(S, "rs_max") == h("attrResultTotalReqNr") % (1 << 32))),
                      "what was found is the answer": z3.Implies(ok, S.ret == G(S, "rs_ret"))})
        else:
            e["an encoded query is searched for"] = z3.Not(ok)
        return e
    mods = lambda S: [("heap", "MwsAnswset", f) for f in ("answers", "total", "qvarNames", "qvarXpaths", "ids", "time")] + [("alloc",)] + [("ghost", q) for q in LOG]

    def pre(q):
        return lambda S: {"a query with expressions": z3.And(S[q] > 0, so.vec_len(sel(S.heap("Query", "tokens"), S[q])) > 0)}
    fp = lambda S, *f: name_of(X, S.st, PtrP(S.fp(S.this, *f)))
    harvest = Contract("HarvestQueryHandler::handleQuery", setup=setup, pre=pre("mwsQuery"), mods=mods,
                       post=lambda S: common(S, "mwsQuery", fp(S, "_meaningDictionary"), S.rd(S.this, "_encodingConfig").f["renameCi"], fp(S, "_index"),
                                             lambda S: z3.And(same(G(S, "db_crawl"), fp(S, "_crawlDb")), same(G(S, "db_formula"), fp(S, "_formulaDb")))))
    ld = lambda S, *f: name_of(X, S.st, PtrP(S.fp(S.fp(S.this, "_index"), *f)))

    def never(X_, st, this, args, fr, n):
        X.check(st, z3.BoolVal(False), "the experimental engine is not asked unless it was chosen", n)
        return [(st, VOID)]
    X.models["query_engine_run"] = never
    index = Contract("IndexQueryHandler::handleQuery", setup=setup, pre=lambda S: dict(pre("query")(S), **{"the experimental engine was not chosen": z3.Not(S.rd(S.fp(S.this, "_config"), "useExperimentalQueryEngine"))}), mods=mods,
                     post=lambda S: common(S, "query", ld(S, "m_meaningDictionary"), S.rd(S.fp(S.this, "_config"), "encoding").f["renameCi"], ld(S, "m_index"),
                                           lambda S: same(G(S, "rs_db"), S.rd(S.fp(S.this, "_index"), "m_dbQueryManager"))))

    # ---- loading an index, building one
    L = lib.strlit
    LG = ["dict_path", "fdb_path", "fdb", "cdb_path", "cdb", "qm_crawl", "qm_formula", "qm", "ms_path", "ms_rc", "ms_at", "ms_ms"]
    ROOT = z3.Function("root_of", I_, I_)

    def l_setup(S):
        setup(S)
        for q in LG:
            S.st.ghost[q] = None
    strv = lambda st, v: v.s if isinstance(v, CStr) else val(st, v)

    def failing(f):
        """may also throw"""
        def m(X_, st, this, args, fr, n):
            X.pending.append(st.copy())
            return f(X_, st, this, args, fr, n)
        return m

    def dict_model(X_, st, this, args, fr, n):
        put_g(st, dict_path=strv(st, X.rv(st, args[0])))
        return [(st, VOID)]

    def opened(which):
        def f(X_, st, this, args, fr, n):
            put_g(st, **{which + "_path": strv(st, X.rv(st, args[0])), which: this.root[2] if isinstance(this, Place) else this})
            return [(st, VOID)]
        return f

    def qm_model(X_, st, this, args, fr, n):
        a = [X.rv(st, q) for q in args]
        put_g(st, db_crawl=name_of(X_, st, a[0]), db_formula=name_of(X_, st, a[1]), qm_crawl=a[0], qm_formula=a[1], qm=this.root[2] if isinstance(this, Place) and this.root[0] == "H" else None)
        return [(st, VOID)]

    def load_model(X_, st, this, args, fr, n):
        p = pl(X.rv(st, args[0]))
        rc, m = fresh("loaded", I_), fresh("image", I_)
        st.assume(m > 0)
        put_g(st, ms_path=strv(st, X.rv(st, args[1])), ms_rc=rc, ms_at=str(p), ms_ms=m)
        bad = st.copy()
        bad.assume(rc == -1)
        st.assume(rc == 0)
        X.write(st, View(X_, st, fr).fp(p, "ms"), m)
        return [(st, rc), (bad, rc)]

    def root_model(X_, st, this, args, fr, n):
        p = pl(X.rv(st, args[0]))
        X.check(st, z3.BoolVal(str(p) == st.ghost["ms_at"]), "the root is that of the image that was loaded", n)
        X.check(st, st.ghost["ms_rc"] == 0, "the image was loaded", n)
        return [(st, ROOT(X.read(st, View(X_, st, fr).fp(p, "ms"))))]
    cs = [c for c in cs if c.fn != "DbQueryManager::DbQueryManager"] + [Contract("DbQueryManager::DbQueryManager", model=qm_model, **tr)]
    for nm, f in (("IdDictionary::IdDictionary", failing(dict_model)), ("LevFormulaDb::open", failing(opened("fdb"))), ("LevCrawlDb::open", failing(opened("cdb"))), ("memsector_load", load_model), ("memsector_get_root", root_model)):
        cs.append(Contract(nm, model=f, nparams=1 if nm.startswith("IdD") else None, **tr))
    for nm in ("LevFormulaDb", "LevCrawlDb"):
        cs.append(Contract("%s::%s" % (nm, nm), model=lambda X_, st, this, args, fr, n: [(st, VOID)], **tr))
    at = lambda S, nm: z3.Concat(S.pre.z("path"), L("/" + nm))
    DICT, FDB, CDB, IMG = "meanings.dat", "formula.db", "crawl.db", "index.memsector"

    def loader_post(S):
        hits = S.rd(S.deref("options"), "includeHits") if not isinstance(S["options"], StructV) else S["options"].f["includeHits"]
        g = lambda q: G(S, q)
        e = {"the symbols are those stored with the index": g("dict_path") == at(S, DICT), "the image is the one stored with the index": g("ms_path") == at(S, IMG), "an image that cannot be loaded is refused": g("ms_rc") == 0,
             "the image that was loaded": z3.And(S.rd(S.fp(S.this, "m_index"), "ms") == g("ms_ms"), S.rd(S.fp(S.this, "m_index"), "root") == ROOT(g("ms_ms"))),
             "without hits, no stores are needed": z3.Or(hits, z3.BoolVal(g("fdb") is None and g("cdb") is None))}
        if g("fdb") is not None and g("cdb") is not None and g("qm") is not None:
            e["the stores are those of the index"] = z3.And(g("fdb_path") == at(S, FDB), g("cdb_path") == at(S, CDB), S.rd(S.this, "m_formulaDb") == g("fdb"), S.rd(S.this, "m_crawlDb") == g("cdb"))
            e["queries go to them"] = z3.And(g("qm_crawl") == g("cdb"), g("qm_formula") == g("fdb"), S.rd(S.this, "m_dbQueryManager") == g("qm"))
        else:
            e["the stores are opened"] = z3.Not(hits)
        return e
    loader = Contract("IndexLoader::IndexLoader", setup=l_setup, mods=lambda S: [S.this, ("alloc",)] + [("ghost", q) for q in LG + LOG], post=loader_post, throws=lambda S: {})
    def unload_model(X_, st, this, args, fr, n):
        put_g(st, unloaded=str(pl(X.rv(st, args[0]))), unloads=st.ghost["unloads"] + 1)
        return [(st, VOID)]

    def u_setup(S):
        S.st.ghost.update(unloaded=None, unloads=z3.IntVal(0))
    cs.append(Contract("memsector_unload", model=unload_model, **tr))
    unload = Contract("IndexLoader::~IndexLoader", setup=u_setup, mods=lambda S: [S.this, ("ghost", "unloaded"), ("ghost", "unloads")],
                      post=lambda S: {"its image is unloaded, once": z3.And(G(S, "unloads") == 1, z3.BoolVal(G(S, "unloaded") == str(S.fp(S.this, "m_memsectorHandler"))))})

    # ---- the harvest service builds its index with the objects it answers from
    BG = ["b_formula", "b_crawl", "b_index", "b_dict", "b_cfg", "nload", "l_cfg"]

    def b_setup(S):
        for q in BG:
            S.st.ghost[q] = None
        S.st.ghost.update(nload=z3.IntVal(0))

    def lh_model(X_, st, this, args, fr, n):
        a = [X.rv(st, q) for q in args]
        V = View(X_, st, fr)
        at = lambda f: name_of(X_, st, V.rd(pl(a[0]), f))
        put_g(st, nload=st.ghost["nload"] + 1, b_formula=at("m_formulaDb"), b_crawl=at("m_crawlDb"), b_index=at("m_index"), b_dict=at("m_meaningDictionary"), b_cfg=V.rd(pl(a[0]), "m_indexingOptions").f["renameCi"], l_cfg=str(pl(args[1])))
        r = fresh("loaded", I_)
        st.assume(r >= 0)
        return [(st, r)]
    cs += [Contract("loadHarvests", model=lh_model, **tr)]
    for nm in ("TmpIndex", "MemCrawlDb", "MemFormulaDb"):
        cs.append(Contract("%s::%s" % (nm, nm), model=lambda X_, st, this, args, fr, n: [(st, VOID)], **tr))
    hctor = Contract("HarvestQueryHandler::HarvestQueryHandler", setup=b_setup, mods=lambda S: [S.this, ("alloc",)] + [("ghost", q) for q in BG + LG + LOG],
                     post=lambda S: {"its index is built, once, from the harvests of the configuration": z3.And(G(S, "nload") == 1, z3.BoolVal(G(S, "l_cfg") == str(S.deref("config")))),
                                     "into its own index, stores and symbols": z3.And(same(G(S, "b_formula"), fp(S, "_formulaDb")), same(G(S, "b_crawl"), fp(S, "_crawlDb")), same(G(S, "b_index"), fp(S, "_index")), same(G(S, "b_dict"), fp(S, "_meaningDictionary"))),
                                     "with the options with which queries are encoded": z3.And(G(S, "b_cfg") == S.rd(S.deref("config"), "encoding").f["renameCi"], S.rd(S.this, "_encodingConfig").f["renameCi"] == G(S, "b_cfg"))})
    return cs + [harvest, index, loader, unload, hctor]
