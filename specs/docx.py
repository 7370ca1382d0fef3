"""What harvests of documents are put together from (XmlParser.cpp): escaped texts, nodes as XML, the results of XPath expressions, and the text
under a node with its formulae under their numbers."""
import z3
from sx import *
from cast import I, Ty
TU = '''
#include "crawler/parser/XmlParser.cpp"
'''
HEAP = ["_xmlNode", "_xmlAttr", "_xmlDoc", "_xmlNodeSet", "_xmlXPathObject", "_xmlXPathContext", "_xmlOutputBuffer", "_xmlNs", "_IO_FILE", "FILE", "XmlNodeProcessor", "IdDictionary"]


def contracts(X):
    so, lib = X.so, X.lib
    I_, B_ = z3.IntSort(), z3.BoolSort()
    L = lib.strlit
    STR = L("x").sort()
    T, F = z3.BoolVal(True), z3.BoolVal(False)
    sel, sto = z3.Select, z3.Store
    fn = z3.Function
    AI = z3.ArraySort(I_, I_)
    G = lambda S, q: S.st.ghost[q]
    tr = dict(trusted=True, verify=False)
    H = lambda S, c, r, f: sel(S.heap(c, f), r)
    strv = lambda st, v: lib.str_of(st, v)
    M = X.models
    i, j, x = z3.Int("xi"), z3.Int("xj"), z3.Int("xx")
    s_ = z3.Const("xs", STR)

    def cat(*a):
        r = a[0] if not isinstance(a[0], str) else L(a[0])
        for y in a[1:]:
            r = lib.cat_nf(r, L(y) if isinstance(y, str) else y)
        return r

    def put_g(st, **kw):
        for q, v in kw.items():
            st.ghost[q] = v
            st.wrote(("ghost", q))

    def mdl(nm, f):
        M[nm] = lambda X_, st, this, args, fr, n: f(st, this, [X.rv(st, a) for a in args], fr, n)
    val = lambda S, nm: (lambda v: X.read(S.pre.st, v) if isinstance(v, Place) else v)(S.pre[nm])
    X.opaque["glob_xmlFree"] = lambda X_, st, a, fr, rty: [(st, VOID)]
    cs = []
    # ------------------------------------------------------------------ escaping, nodes as XML
    esc, xml = fn("xml_escaped", STR, STR), fn("xml_of", I_, I_, STR)
    mdl("xmlEncodeSpecialChars", lambda st, this, a, fr, n: [(st, CStr(esc(strv(st, a[1]))))])
    cs.append(Contract("parser::escapeXml", post=lambda S: {"all of the text, escaped": strv(S.st, S.ret) == esc(val(S, "xml"))}))
    out = {}
    XG = ["file", "obuf", "dumped", "flushed", "bufopen", "freed"]

    def x_setup(S):
        g = S.st.ghost
        g["file"] = g["obuf"] = z3.IntVal(0)
        g["dumped"], g["flushed"] = L(""), F
        g["bufopen"], g["freed"] = F, F

    def ptr(st, nm):
        r = fresh(nm, I_)
        st.assume(r > 0)
        return r

    def m_mem(st, this, a, fr, n):
        out["buf"], out["size"] = [p.place if isinstance(p, PtrP) else p for p in a]
        f = ptr(st, "stream")
        put_g(st, file=f, bufopen=T)
        return [(st, f)]

    def m_ocreate(st, this, a, fr, n):
        X.check(st, z3.And(a[0] == st.ghost["file"], st.ghost["file"] > 0, st.ghost["obuf"] == 0), "output goes to the memory stream", n)
        o = ptr(st, "output")
        put_g(st, obuf=o, flushed=F, dumped=L(""))
        return [(st, o)]

    def m_dump(st, this, a, fr, n):
        X.check(st, z3.And(a[0] == st.ghost["obuf"], st.ghost["obuf"] > 0), "the node is written to it", n)
        X.check(st, z3.And(a[3] == 0, a[4] == 0), "as it stands, without indentation", n)
        X.check(st, z3.BoolVal(not isinstance(a[5], CStr)) if not z3.is_expr(a[5]) else a[5] == 0, "in UTF-8", n)
        put_g(st, dumped=lib.cat_nf(st.ghost["dumped"], xml(a[1], a[2])))
        return [(st, VOID)]

    def m_oclose(st, this, a, fr, n):
        X.check(st, z3.And(a[0] == st.ghost["obuf"], st.ghost["obuf"] > 0), "the output is finished", n)
        put_g(st, obuf=z3.IntVal(0), flushed=T)
        return [(st, fresh("closed", I_))]

    def m_fclose(st, this, a, fr, n):
        g = st.ghost
        X.check(st, z3.And(a[0] == g["file"], g["file"] > 0), "the stream is closed once", n)
        b = fresh("written", STR)
        st.assume(lib.slen(b) >= 0)
        st.assume(z3.Implies(g["flushed"], b == g["dumped"]))
        X.write(st, out["buf"], CStr(b))
        put_g(st, file=z3.IntVal(0), bufopen=F, freed=F)
        return [(st, fresh("fclose", I_))]

    def m_free(st, this, a, fr, n):
        X.check(st, z3.And(z3.Not(st.ghost["bufopen"]), z3.Not(st.ghost["freed"])), "the buffer is released once", n)
        put_g(st, freed=T)
        return [(st, VOID)]
    for nm, f in (("open_memstream", m_mem), ("xmlOutputBufferCreateFile", m_ocreate), ("xmlNodeDumpOutput", m_dump), ("xmlOutputBufferClose", m_oclose), ("fclose", m_fclose), ("free", m_free)):
        mdl(nm, f)
    xmods = lambda S: [("ghost", q) for q in XG] + [("alloc",)]
    idle = lambda S: {"no output is open": z3.And(G(S, "obuf") == 0, G(S, "file") == 0)}
    cs.append(Contract("parser::getXmlFromNode", setup=x_setup, pre=idle, mods=xmods, post=lambda S: dict(idle(S), **{"the node as XML, all of it": strv(S.st, S.ret) == xml(val(S, "doc"), val(S, "node")), "nothing is kept": G(S, "freed")})))
    cs.append(Contract("parser::getEscapedXmlFromNode", setup=x_setup, pre=idle, mods=xmods, post=lambda S: {"the node as XML, escaped": strv(S.st, S.ret) == esc(xml(val(S, "doc"), val(S, "node")))}))
    # ------------------------------------------------------------------ XPath
    evals, nres = fn("xpath_has_result", I_, STR, I_, B_), fn("xpath_count", I_, STR, I_, I_)
    RES = fn("xpath_results", I_, STR, I_, AI)
    XP = ["cdoc", "cnode", "cx", "live", "ncall", "found"]
    SH = z3.ArraySort(I_, B_)

    def p_setup(S):
        g = S.st.ghost
        g["cx"] = g["cdoc"] = z3.IntVal(0)
        g["live"] = z3.Const("live0", SH)
        g["ncall"], g["found"] = z3.IntVal(0), z3.IntVal(-1)

    def m_ctx(st, this, a, fr, n):
        no = st.copy()
        no.assume(z3.BoolVal(True))
        c = ptr(st, "context")
        X.check(st, st.ghost["cx"] == 0, "one context", n)
        X.write(st, Place(("H", "_xmlXPathContext", c), (), Ty("rec", "_xmlXPathContext", [])).f("node", Ty("ptr", to=Ty("rec", "_xmlNode", []))), z3.IntVal(0))
        put_g(st, cx=c, cdoc=a[0])
        return [(st, c)]

    def m_eval(st, this, a, fr, n):
        g, V = st.ghost, View(X, st, fr)
        X.check(st, z3.And(a[1] == g["cx"], g["cx"] > 0), "the expression is evaluated in the context", n)
        d, p, nd = g["cdoc"], strv(st, a[0]), H(V, "_xmlXPathContext", g["cx"], "node")
        no = st.copy()
        no.assume(z3.Not(evals(d, p, nd)))
        st.assume(evals(d, p, nd))
        r = ptr(st, "result")
        st.assume(z3.Not(sel(g["live"], r)))
        st.assume(z3.Implies(nres(d, p, nd) == 0, z3.BoolVal(True)))
        put_g(st, live=sto(g["live"], r, T))
        st.assume(z3.And(rdoc(r) == d, rpath(r) == p, rnode(r) == nd))
        return [(st, r), (no, z3.IntVal(0))]
    rdoc, rpath, rnode = fn("result_document", I_, I_), fn("result_path", I_, STR), fn("result_context", I_, I_)
    setof, robj = fn("result_set", I_, I_), fn("set_result", I_, I_)
    X.axioms.append(z3.ForAll([x], z3.And(robj(setof(x)) == x, setof(x) > 0), patterns=[setof(x)]))
    cnt = lambda r: nres(rdoc(r), rpath(r), rnode(r))
    res = lambda r: RES(rdoc(r), rpath(r), rnode(r))
    d_, p_, n_ = z3.Int("xd"), z3.Const("xp", STR), z3.Int("xn")
    X.axioms.append(z3.ForAll([d_, p_, n_], z3.And(nres(d_, p_, n_) >= 0, nres(d_, p_, n_) < 2 ** 31, z3.Implies(z3.Not(evals(d_, p_, n_)), nres(d_, p_, n_) == 0)), patterns=[nres(d_, p_, n_)]))
    X.axioms.append(z3.ForAll([d_, p_, n_, i], z3.Implies(z3.And(0 <= i, i < nres(d_, p_, n_)), sel(RES(d_, p_, n_), i) > 0), patterns=[sel(RES(d_, p_, n_), i)]))
    M["field:_xmlXPathObject::nodesetval"] = lambda X_, st, r: setof(r)

    def f_nr(X_, st, s):
        X.check(st, sel(st.ghost["live"], robj(s)), "the result is read before it is released")
        st.assume(nres(rdoc(robj(s)), rpath(robj(s)), rnode(robj(s))) >= 0)
        return cnt(robj(s))

    def f_tab(X_, st, s):
        X.check(st, sel(st.ghost["live"], robj(s)), "the result is read before it is released")
        et = Ty("ptr", to=Ty("rec", "_xmlNode", []))
        nm = "nodeTab!%s" % s
        st.blocks[nm] = (res(robj(s)), cnt(robj(s)), et)
        return BPtr(nm, z3.IntVal(0), et)
    M["field:_xmlNodeSet::nodeNr"], M["field:_xmlNodeSet::nodeTab"] = f_nr, f_tab

    def m_free_obj(st, this, a, fr, n):
        X.check(st, sel(st.ghost["live"], a[0]), "the result is released once", n)
        put_g(st, live=sto(st.ghost["live"], a[0], F))
        return [(st, VOID)]

    def m_free_ctx(st, this, a, fr, n):
        X.check(st, z3.And(a[0] == st.ghost["cx"], st.ghost["cx"] > 0), "the context is released once", n)
        put_g(st, cx=z3.IntVal(0))
        return [(st, VOID)]
    for nm, f in (("xmlXPathNewContext", m_ctx), ("xmlXPathEval", m_eval), ("xmlXPathFreeObject", m_free_obj), ("xmlXPathFreeContext", m_free_ctx)):
        mdl(nm, f)
    pmods = lambda S: [("ghost", q) for q in ("cx", "cdoc", "live")] + [("heap", "_xmlXPathContext", "node"), ("alloc",)]
    noctx = lambda S: {"no context is kept": G(S, "cx") == 0}
    xp = lambda S: strv(S.pre.st, S.pre["xpath"])
    ctxn = lambda S: val(S, "contextNode")
    same = lambda S: z3.ForAll([x], sel(G(S, "live"), x) == sel(G(S.pre, "live"), x), patterns=[sel(G(S, "live"), x)])
    r_ = lambda S: X.rv(S.st, S.ret)
    cs.append(Contract("getXMLNodeset", setup=p_setup, pre=noctx, mods=pmods, post=lambda S: dict(noctx(S), **{
        "the result of the expression in its context, or none": z3.If(evals(val(S, "doc"), xp(S), ctxn(S)), z3.And(r_(S) > 0, sel(G(S, "live"), r_(S)), z3.Not(sel(G(S.pre, "live"), r_(S))), rdoc(r_(S)) == val(S, "doc"), rpath(r_(S)) == xp(S), rnode(r_(S)) == ctxn(S)), r_(S) == 0),
        "nothing else is kept": z3.ForAll([x], z3.Or(z3.And(x == r_(S), r_(S) > 0), sel(G(S, "live"), x) == sel(G(S.pre, "live"), x)), patterns=[sel(G(S, "live"), x)])})))
    nodeat = lambda d, p, n: z3.If(nres(d, p, n) > 0, sel(RES(d, p, n), 0), z3.IntVal(0))
    cs.append(Contract("parser::getNodeByXpath", setup=p_setup, pre=noctx, mods=pmods, post=lambda S: dict(noctx(S), **{
        "the first node the expression finds in its context": r_(S) == nodeat(val(S, "doc"), xp(S), ctxn(S)), "the results are released": same(S)})))

    def c_setup(S):
        p_setup(S)

    def m_found(st, this, a, fr, n):
        put_g(st, found=a[0])
        return [(st, VOID)]

    def m_process(st, this, a, fr, n):
        V = View(X, st, fr)
        d, p = X.rv(st, V.pl("doc")) if False else val2(V, "doc"), strv(st, V["xpath"])
        k = st.ghost["ncall"]
        X.check(st, z3.And(k < nres(d, p, 0), a[0] == sel(RES(d, p, 0), k)), "every node found is processed, in order", n)
        put_g(st, ncall=k + 1)
        return [(st, VOID)]
    val2 = lambda V, nm: (lambda v: X.read(V.st, v) if isinstance(v, Place) else v)(V[nm])
    for nm, f in (("XmlNodeProcessor::foundResults", m_found), ("XmlNodeProcessor::processXmlNode", m_process)):
        cs.append(Contract(nm, model=lambda X_, st, this, args, fr, n, f=f: f(st, this, [X.rv(st, a) for a in args], fr, n), **tr))
    cs.append(Contract("parser::processXpathResults", sig="XmlNodeProcessor", setup=c_setup, pre=lambda S: dict(noctx(S), **{"a processor": val2(S, "xmlNodeProcessor") > 0}), mods=lambda S: pmods(S) + [("ghost", "ncall"), ("ghost", "found")],
                       post=lambda S: dict(noctx(S), **{"all nodes found were processed": G(S, "ncall") == nres(val(S, "doc"), xp(S), z3.IntVal(0)), "the results are released": same(S)}),
                       loops=[Loop(inv=lambda S: {"position": z3.And(0 <= S["i"], S["i"] <= nres(val(S, "doc"), xp(S), z3.IntVal(0)), G(S, "ncall") == S["i"])}, ghost=["ncall"])]))

    # ------------------------------------------------------------------ the text under a node
    name, text, hasid, idof, num = fn("node_name", I_, STR), fn("node_text", I_, STR), fn("has_id", I_, B_), fn("id_of", I_, STR), fn("number_of", STR, I_)
    M["field:_xmlNode::name"] = lambda X_, st, r: CStr(name(r))
    M["field:_xmlNode::content"] = lambda X_, st, r: CStr(text(r))
    tos = lib.fn("to_string", I_, STR)
    D, DS = fn("text_dumped", B_, STR, I_, STR), fn("stack_dumped", B_, STR, AI, I_, STR)
    nxt, chd, typ = fn("tree_next", I_, I_), fn("tree_children", I_, I_), fn("tree_type", I_, I_)
    w_, pre_, a_, k_, v_ = z3.Bool("xw"), z3.Const("xt", STR), z3.Const("xa", AI), z3.Int("xk"), z3.Int("xv")

    def item(w, p, r):
        mark = z3.If(w, cat(p, " ", "math", tos(num(idof(r))), " "), cat(p, " ", "math", idof(r), " "))
        return z3.If(typ(r) == 3, cat(p, " ", text(r), " "), z3.If(typ(r) == 1, z3.If(name(r) == L("math"), z3.If(hasid(r), mark, p), D(w, p, chd(r))), p))
    ax = [z3.ForAll([w_, pre_, x], D(w_, pre_, x) == z3.If(x == 0, pre_, D(w_, item(w_, pre_, x), nxt(x))), patterns=[D(w_, pre_, x)]),
          z3.ForAll([w_, pre_, a_, k_], DS(w_, pre_, a_, k_) == z3.If(k_ <= 0, pre_, DS(w_, D(w_, pre_, sel(a_, k_ - 1)), a_, k_ - 1)), patterns=[DS(w_, pre_, a_, k_)])]
    # what is above the top of the stack does not count (induction on the height)
    a0_, b0_ = z3.Const("xa0", AI), z3.Const("xb0", AI)
    i0_ = z3.Int("xi0")
    X_ds = lambda k, w, p: DS(w, p, a0_, k) == DS(w, p, b0_, k)
    agree = z3.ForAll([i], z3.Implies(i < i0_, sel(a0_, i) == sel(b0_, i)))
    top = lambda k, p, a: DS(w_, p, a, k) == z3.If(k <= 0, p, DS(w_, D(w_, p, sel(a, k - 1)), a, k - 1))
    h_ = z3.Int("xh")
    X.lemma("below the top of the stack, base", z3.Implies(z3.And(top(z3.IntVal(0), pre_, a0_), top(z3.IntVal(0), pre_, b0_)), X_ds(z3.IntVal(0), w_, pre_)))
    X.lemma("below the top of the stack, step", z3.Implies(z3.And(agree, 0 <= h_, h_ < i0_, top(h_ + 1, pre_, a0_), top(h_ + 1, pre_, b0_), z3.ForAll([s_], X_ds(h_, w_, s_), patterns=[DS(w_, s_, a0_, h_)])), X_ds(h_ + 1, w_, pre_)))
    frame = z3.ForAll([w_, pre_, a_, i, v_, k_], z3.Implies(k_ <= i, DS(w_, pre_, sto(a_, i, v_), k_) == DS(w_, pre_, a_, k_)), patterns=[DS(w_, pre_, sto(a_, i, v_), k_)])

    def links(S):
        return {"the tree": z3.ForAll([x], z3.And(H(S, "_xmlNode", x, "next") == nxt(x), H(S, "_xmlNode", x, "children") == chd(x), H(S, "_xmlNode", x, "type") == typ(x), nxt(x) >= 0, chd(x) >= 0),
                                      patterns=[H(S, "_xmlNode", x, "next"), H(S, "_xmlNode", x, "children"), H(S, "_xmlNode", x, "type")])}

    def m_getprop(st, this, a, fr, n):
        X.check(st, z3.And(a[0] > 0, strv(st, a[1]) == L("id")), "the id of the formula is read", n)
        no = st.copy()
        st.assume(hasid(a[0]))
        no.assume(z3.Not(hasid(a[0])))
        return [(st, CStr(idof(a[0]))), (no, z3.IntVal(0))]
    mdl("xmlGetProp", m_getprop)
    cs.append(Contract("IdDictionary::put", model=lambda X_, st, this, args, fr, n: [(st, num(strv(st, X.rv(st, args[0]))))], **tr))

    def t_setup(S):
        for q in ax + [frame]:
            S.st.assume(q)
    withdict = lambda S: (lambda v: z3.BoolVal(True) if not z3.is_expr(v) else v != 0)(val(S, "encodedMathIds"))
    sb = lambda S: X.read(S.st, S.deref("stream"))

    def rootval(S):
        try:
            v = S["root"]
        except Unsupported:         # (named so in the declaration)
            v = S["node"]
        return X.read(S.st, v) if isinstance(v, Place) else v
    root = lambda S: rootval(S.pre)
    cs.append(Contract("dumpNodeToText", setup=t_setup, pre=lambda S: dict(links(S), **{"a node": rootval(S) > 0}), mods=lambda S: [S.deref("stream")],
                       post=lambda S: {"the text under the node, with its formulae": sb(S) == D(withdict(S), sb(S.pre), chd(root(S)))},
                       loops=[Loop(inv=lambda S: {"what was written and what is left is all": z3.And(so.vec_len(S["nodes"]) >= 0, DS(withdict(S), sb(S), so.vec_arr(S["nodes"]), so.vec_len(S["nodes"])) == D(withdict(S), sb(S.pre), chd(root(S))))})]))
    norm_ = fn("spaces_normalised", STR, STR)

    def m_spaces(X_, st, this, args, fr, n):
        p = X.rv(st, args[0])
        p = p.place if isinstance(p, PtrP) else p
        X.write(st, p, norm_(X.read(st, p)))
        return [(st, VOID)]
    M["common::utils::removeDuplicateSpaces"] = M["removeDuplicateSpaces"] = m_spaces
    nodetext = lambda S, nd: norm_(D(withdict(S), L(""), chd(nd)))
    cs.append(Contract("parser::getTextFromNode", setup=t_setup, pre=lambda S: dict(links(S), **{"a node": val2(S, "node") > 0}), post=lambda S: {"the text under the node": strv(S.st, S.ret) == nodetext(S, val(S, "node"))}))

    def first_of(S):
        return nodeat(val(S, "doc"), xp(S), ctxn(S))
    cs.append(Contract("parser::getTextByXpath", setup=lambda S: (p_setup(S), t_setup(S)), pre=lambda S: dict(links(S), **noctx(S)), mods=pmods,
                       post=lambda S: {"the text under the first node found, or none": strv(S.st, S.ret) == z3.If(first_of(S) == 0, L(""), nodetext(S, first_of(S)))}))
    return cs
