"""Writing an index (IndexWriter.cpp: createCompressedIndex): whenever it stops - by an error or because the process ends between any two
of its effects - what is in the directory is loaded as an index only if it is the complete new one, or the old one, untouched."""
import z3
import vals
vals.set_string_mode("seq")
from sx import *
from cast import I, Ty
TU = '''
#include "mws/index/IndexWriter.cpp"
#include "mws/index/IndexBuilder.cpp"
'''
HEAP = ["LevFormulaDb", "LevCrawlDb", "FormulaDb", "CrawlDb", "CmmlToken"]
GH = ["exists", "valid", "touched", "crawl", "formula", "loaded", "nloaded", "opened", "saved", "dict", "header", "nimg", "err"]


def contracts(X):
    so, lib = X.so, X.lib
    I_, B_ = z3.IntSort(), z3.BoolSort()
    tr = dict(trusted=True, verify=False)
    L = lib.strlit
    T, F = z3.BoolVal(True), z3.BoolVal(False)
    G = lambda S, q: S.st.ghost[q]
    pl = lambda v: v.place if isinstance(v, PtrP) else v
    val = lambda st, v: X.read(st, v) if isinstance(v, Place) else (X.read(st, v.place) if isinstance(v, PtrP) else v)
    strv = lambda st, v: v.s if isinstance(v, CStr) else val(st, v)

    def put_g(st, **kw):
        for q, v in kw.items():
            st.ghost[q] = v
            st.wrote(("ghost", q))

    def setup(S):
        g = S.st.ghost
        for q in GH:
            g[q] = F
        g["exists"], g["valid"] = z3.Bool("image_was_there"), z3.Bool("image_was_valid")
        g["nloaded"], g["nimg"], g["err"] = z3.IntVal(0), z3.IntVal(0), fresh("errno", I_)

    def complete(g):
        return z3.And(g["crawl"], g["formula"], g["loaded"], g["nloaded"] > 0, g["dict"])

    def crash(st, n, what):
        g = st.ghost
        X.check(st, z3.Implies(g["valid"], z3.And(g["exists"], z3.Or(z3.Not(g["touched"]), complete(g)))), "should the process end after %s, only a complete index is loaded" % what, n)
    out = lambda st, fr: View(X, st, fr).deref("config").f("dataPath", Ty("std", "string"))
    at = lambda st, fr, nm: z3.Concat(X.read(st, out(st, fr)), L("/" + nm))

    def mdl(nm, f, **kw):
        return Contract(nm, model=lambda X_, st, this, args, fr, n: f(st, this, [X.rv(st, a) for a in args], fr, n), **dict(tr, **kw))

    def m_dir(st, this, a, fr, n):
        X.check(st, strv(st, a[0]) == X.read(st, out(st, fr)), "the directory of the configuration is made", n)
        X.pending.append(st.copy())
        return [(st, VOID)]

    def m_unlink(X_, st, this, args, fr, n):
        p = strv(st, X.rv(st, args[0]))
        isimg = p == at(st, fr, "index.memsector")
        X.check(st, isimg, "nothing but an image is removed", n)
        bad = st.copy()
        put_g(st, exists=F, valid=F)
        e = fresh("errno", I_)
        bad.assume(z3.Implies(e == 2, z3.And(z3.Not(bad.ghost["exists"]), z3.Not(bad.ghost["valid"]))))
        put_g(bad, err=e)
        crash(st, n, "removing the old image")
        return [(st, z3.IntVal(0)), (bad, z3.IntVal(-1))]

    def m_access(X_, st, this, args, fr, n):
        p = strv(st, X.rv(st, args[0]))
        r = fresh("access", I_)
        st.assume(z3.Or(r == 0, r == -1))
        st.assume(z3.Implies(p == at(st, fr, "index.memsector"), (r == 0) == st.ghost["exists"]))
        return [(st, r)]
    X.models["unlink"], X.models["access"] = m_unlink, m_access
    X.models["remove"] = m_unlink

    def m_create(which, file):
        def f(st, this, a, fr, n):
            X.check(st, strv(st, a[0]) == at(st, fr, file), "the database is made where it is looked for", n)
            put_g(st, touched=T)
            crash(st, n, "making the database of %s" % which)
            X.pending.append(st.copy())
            put_g(st, **{which: T})
            put_g(st, **{which + "_obj": this.root[2] if isinstance(this, Place) and this.root[0] == "H" else this})
            return [(st, VOID)]
        return f

    def m_load(st, this, a, fr, n):
        g = st.ghost
        V = View(X, st, fr)
        b = pl(a[0])
        X.check(st, z3.And(g["crawl"], g["formula"]), "both databases are there before harvests are loaded", n)
        if "crawl_obj" in g and "formula_obj" in g:
            X.check(st, z3.And(V.rd(b, "m_crawlDb") == g["crawl_obj"], V.rd(b, "m_formulaDb") == g["formula_obj"]), "harvests are loaded into the new databases", n)
        ix, dc = V.rd(b, "m_index"), V.rd(b, "m_meaningDictionary")
        put_g(st, touched=T)
        crash(st, n, "a part of the harvests was loaded")
        r = fresh("expressions", I_)
        st.assume(z3.And(r >= 0, r < 1 << 64))
        put_g(st, loaded=T, nloaded=r)
        st.ghost["ix"], st.ghost["dc"] = str(pl(ix)), str(pl(dc))
        return [(st, r)]

    def m_open(X_, st, this, args, fr, n):
        X.check(st, strv(st, X.rv(st, args[0])) == at(st, fr, "meanings.dat"), "the dictionary is written where it is looked for", n)
        put_g(st, touched=T, opened=T, dict=F, saved=F)
        crash(st, n, "the dictionary was opened")
        return [(st, fresh("filebuf", I_))]

    def m_save(st, this, a, fr, n):
        g = st.ghost
        X.check(st, g["opened"], "the dictionary goes to the file", n)
        X.check(st, z3.BoolVal("dc" in g and str(pl(this)) == g.get("dc")), "the symbols of the harvests are written", n)
        put_g(st, touched=T)
        crash(st, n, "a part of the dictionary was written")
        ok = fresh("all_accepted", B_)
        put_g(st, saved=ok)
        return [(st, z3.If(ok, z3.IntVal(0), z3.IntVal(-1)))]

    def m_close(X_, st, this, args, fr, n):
        g = st.ghost
        ok = fresh("closed", B_)
        r = fresh("filebuf", I_)
        st.assume(z3.And(r >= 0, (r != 0) == ok))
        put_g(st, dict=z3.And(g["opened"], g["saved"], ok), opened=F)
        return [(st, r)]

    def m_notos(X_, st, this, args, fr, n):
        return [(st, z3.Not(st.ghost["saved"]))]

    def m_image(st, this, a, fr, n):
        X.check(st, strv(st, a[1]) == at(st, fr, "index.memsector"), "the image is written where it is looked for", n)
        put_g(st, exists=T, valid=F, header=T, touched=T)
        crash(st, n, "the image was opened")
        r = fresh("opened", I_)
        st.assume(z3.Or(r == 0, r == -1))
        ms = View(X, st, fr).fp(pl(a[0]), "ms")
        X.write(st, ms, X.fresh_val(ms.ty, "header", st))
        put_g(st, header=r == 0)
        return [(st, r)]

    def m_export(st, this, a, fr, n):
        g = st.ghost
        X.check(st, g["header"], "the image is open", n)
        X.check(st, z3.BoolVal("ix" in g and str(pl(this)) == g.get("ix")), "the index of the harvests is written", n)
        r, v = fresh("exported", I_), fresh("valid", B_)
        st.assume(z3.Or(r == 0, r == -1))
        st.assume(z3.Implies(r == 0, v))
        ms = View(X, st, fr).fp(pl(a[0]), "ms")
        X.write(st, ms, X.fresh_val(ms.ty, "header", st))
        put_g(st, valid=v, exists=T, nimg=g["nimg"] + 1)
        crash(st, n, "the image was written")
        return [(st, r)]
    M = X.models
    M["method:basic_filebuf::open"], M["method:basic_filebuf::close"] = m_open, m_close
    for c in ("basic_ios", "basic_ostream"):
        M["method:%s::operator!" % c] = M["method:%s::fail" % c] = m_notos
        M["method:%s::operator bool" % c] = M["method:%s::good" % c] = lambda X_, st, this, args, fr, n: [(st, st.ghost["saved"])]
    M["construct:basic_ostream"] = lambda X_, st, ty, vs, fr, n: [(st, OpaqueFn("ostream"))]
    M["__errno_location"] = lambda X_, st, this, args, fr, n: [(st, PtrP(X.temp(st, st.ghost["err"], I(32, True))))]
    M["strerror"] = lambda X_, st, this, args, fr, n: [(st, CStr(fresh("strerror", L("").sort())))]
    X.iobits = True
    nop = lambda st, this, a, fr, n: [(st, VOID)]
    cs = [mdl("create_directory", m_dir), mdl("LevCrawlDb::create_new", m_create("crawl", "crawl.db")), mdl("LevFormulaDb::create_new", m_create("formula", "formula.db")), mdl("loadHarvests", m_load),
          mdl("IdDictionary::save", m_save), mdl("memsector_create", m_image), mdl("TmpIndex::exportToMemsector", m_export), mdl("humanReadableByteCount", lambda st, this, a, fr, n: [(st, fresh("text", L("").sort()))])]
    for nm in ("LevFormulaDb", "LevCrawlDb", "TmpIndex", "IdDictionary"):
        cs.append(mdl("%s::%s" % (nm, nm), nop))
    M["std::exception::what"] = lambda X_, st, this, args, fr, n: [(st, CStr(fresh("what", L("").sort())))]
    dele = lambda S: S.rd(S.deref("config"), "deleteOldData")

    def post(S):
        g = S.st.ghost
        return {"success is reported exactly for a complete index": z3.Implies(S.ret == 0, z3.And(g["valid"], g["exists"], complete(g), g["nimg"] == 1)),
                "what is left is loaded only if it is a complete index": z3.Implies(g["valid"], z3.Or(z3.Not(g["touched"]), complete(g))),
                "an older index is only replaced if that was asked for": z3.Implies(z3.And(g0(S, "exists"), z3.Not(dele(S))), z3.And(S.ret != 0, z3.Not(g["touched"]), g["exists"], g["valid"] == g0(S, "valid")))}
    g0 = lambda S, q: z3.Bool("image_was_there") if q == "exists" else z3.Bool("image_was_valid")
    cr = Contract("createCompressedIndex", setup=setup, pre=lambda S: {"a valid image is there": z3.Implies(g0(S, "valid"), g0(S, "exists"))}, post=post, mods=lambda S: [("alloc",)] + [("ghost", q) for q in GH + ["crawl_obj", "formula_obj", "ix", "dc"]])
    return cs + [cr]
