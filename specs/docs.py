"""Harvests made of documents (MathParser.cpp, XmlParser.cpp): the data and the expressions are exactly those of the formulae with an id and
content, under one number each; contents are cleaned all through and dumped as they stand."""
import z3
from sx import *
from cast import I, Ty
TU = '''
#include "crawler/parser/XmlParser.cpp"
#include "crawler/parser/MathParser.cpp"
'''
HEAP = ["_xmlNode", "_xmlAttr", "_xmlDoc", "_xmlNodeSet", "_xmlXPathObject", "_xmlXPathContext", "_xmlOutputBuffer", "_xmlNs", "_IO_FILE", "FILE", "_htmlParserCtxt", "_xmlParserCtxt", "_xmlBuf"]


def contracts(X):
    so, lib = X.so, X.lib
    I_, B_ = z3.IntSort(), z3.BoolSort()
    L = lib.strlit
    STR = L("x").sort()
    T, F = z3.BoolVal(True), z3.BoolVal(False)
    sel, sto = z3.Select, z3.Store
    G = lambda S, q: S.st.ghost[q]
    tr = dict(trusted=True, verify=False)
    fn = z3.Function
    AB = z3.ArraySort(I_, B_)
    H = lambda S, c, r, f: sel(S.heap(c, f), r)
    strv = lambda st, v: lib.str_of(st, v)

    def cat(*a):
        r = L("")
        for x in a:
            r = lib.cat_nf(r, L(x) if isinstance(x, str) else x)
        return r
    DOC = z3.Int("document")
    # ---- the document
    esc, name = fn("xml_escaped", STR, STR), fn("node_name", I_, STR)
    hasid, idof, content, nmath, mnode = fn("has_id", I_, B_), fn("id_of", I_, STR), fn("content_of", I_, I_), z3.Int("n_formulae"), fn("formula", I_, I_)
    raw, clean, mxml = fn("xml_before_cleaning", I_, STR), fn("xml_cleaned", I_, STR), fn("escaped_formula", I_, STR)
    num = fn("number_of", STR, I_)
    text = fn("text_at", STR, STR)
    tos = lib.fn("to_string", I_, STR)
    i, j, x, f_ = z3.Int("di"), z3.Int("dj"), z3.Int("dx"), z3.Int("df")
    s_ = z3.Const("ds", STR)

    def put_g(st, **kw):
        for q, v in kw.items():
            st.ghost[q] = v
            st.wrote(("ghost", q))

    def mdl(nm, f, **kw):
        return Contract(nm, model=lambda X_, st, this, args, fr, n: f(st, this, [X.rv(st, a) for a in args], fr, n), **dict(tr, **kw))
    cs = []
    # ------------------------------------------------------------------ cleaning a content tree
    sib, nsib = fn("sibling", I_, I_, I_), fn("siblings", I_, I_)          # of the list that begins with a node
    under, hop = fn("is_under", I_, I_, B_), fn("hop", I_, I_, I_)
    first, props = (lambda S, r: H(S, "_xmlNode", r, "children")), (lambda S, r: H(S, "_xmlNode", r, "properties"))
    asib, nasib = fn("attribute_sibling", I_, I_, I_), fn("attributes", I_, I_)
    typ = lambda S, r: H(S, "_xmlNode", r, "type")

    def tree(S):
        nx = lambda r: H(S, "_xmlNode", r, "next")
        an = lambda r: H(S, "_xmlAttr", r, "next")
        return {"lists of nodes end": z3.And(z3.ForAll([x], z3.And(nsib(x) >= 0, (nsib(x) == 0) == (x == 0), sib(x, 0) == x, sib(x, nsib(x)) == 0), patterns=[nsib(x)]),
                                             z3.ForAll([x, i], z3.Implies(z3.And(0 <= i, i < nsib(x)), z3.And(sib(x, i) > 0, nx(sib(x, i)) == sib(x, i + 1))), patterns=[sib(x, i)])),
                "lists of attributes end": z3.And(z3.ForAll([x], z3.And(nasib(x) >= 0, (nasib(x) == 0) == (x == 0), asib(x, 0) == x, asib(x, nasib(x)) == 0), patterns=[nasib(x)]),
                                                  z3.ForAll([x, i], z3.Implies(z3.And(0 <= i, i < nasib(x)), z3.And(asib(x, i) > 0, an(asib(x, i)) == asib(x, i + 1))), patterns=[asib(x, i)])),
                "what is under a child is under the node": z3.ForAll([x, i, j], z3.Implies(z3.And(0 <= i, i < nsib(first(S, x)), under(sib(first(S, x), i), j)), under(x, j)), patterns=[under(sib(first(S, x), i), j)]),
                "a node is under itself": z3.ForAll([x], under(x, x), patterns=[under(x, x)]),
                "what is under a node is the node or under one of its children": z3.ForAll([x, j], z3.Implies(z3.And(under(x, j), x != j), z3.And(0 <= hop(x, j), hop(x, j) < nsib(first(S, x)), under(sib(first(S, x), hop(x, j)), j))), patterns=[under(x, j)])}
    HN = [("heap", "_xmlNode", "type")]

    def norefs(S, frst, n=None):
        return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < (nsib(frst) if n is None else n)), typ(S, sib(frst, i)) != 5), patterns=[sib(frst, i)])

    def mono(S, P):
        a, b = S.heap("_xmlNode", "type"), P.heap("_xmlNode", "type")
        return z3.ForAll([x], z3.Or(sel(a, x) == sel(b, x), z3.And(sel(b, x) == 5, sel(a, x) == 3)), patterns=[sel(a, x)])

    def m_replace(X_, st, this, args, fr, n):
        a, b = X.rv(st, args[0]), X.rv(st, args[1])
        V = View(X, st, fr)
        X.check(st, typ(V, a) == 5, "only entity references are replaced", n)
        X.check(st, z3.And(b == G(V, "newtext"), G(V, "newfor") == a), "by a text of their value", n)
        X.write(st, Place(("H", "_xmlNode", a), (), Ty("rec", "_xmlNode", [])).f("type", X_typ), z3.IntVal(3))
        put_g(st, freed=a, newtext=z3.IntVal(0))
        return [(st, a)]
    X_typ = I(32, False)
    value = fn("entity_value", I_, STR)
    hasval = fn("entity_has_value", I_, B_)

    def m_content(X_, st, this, args, fr, n):
        a = X.rv(st, args[0])
        no = st.copy()
        st.assume(hasval(a))
        no.assume(z3.Not(hasval(a)))
        no.assume(value(a) == L(""))
        put_g(st, cont=a)
        put_g(no, cont=a)
        return [(st, CStr(value(a))), (no, z3.IntVal(0))]

    def m_newtext(X_, st, this, args, fr, n):
        a, g = strv(st, X.rv(st, args[1])), st.ghost
        c = g["cont"]
        X.check(st, a == z3.If(lib.slen(value(c)) == 0, cat("&", name(c), ";"), value(c)), "the text is the value of the reference, or the reference itself if it has none", n)
        t = fresh("textnode", I_)
        st.assume(t > 0)
        put_g(st, newtext=t, newfor=c)
        return [(st, t)]
    M = X.models
    M["xmlReplaceNode"], M["xmlNodeGetContent"], M["xmlNewDocText"] = m_replace, m_content, m_newtext
    M["xmlFreeNode"] = lambda X_, st, this, args, fr, n: (X.check(st, X.rv(st, args[0]) == st.ghost["freed"], "what was replaced is released", n), put_g(st, freed=z3.IntVal(0)), [(st, VOID)])[2]
    X.opaque["glob_xmlFree"] = lambda X_, st, args, fr, rty: [(st, VOID)]

    M["field:_xmlNode::name"] = lambda X_, st, r: CStr(name(r))

    def gset(S):
        g = S.st.ghost
        for q in ("cont", "newtext", "newfor", "freed"):
            g[q] = z3.IntVal(0)
        g["noid"], g["noxref"], g["nons"] = z3.Const("noid0", AB), z3.Const("noxref0", AB), z3.Const("nons0", AB)
    EG = ["cont", "newtext", "newfor", "freed"]
    frst = lambda S: S.pre["first"] if not isinstance(S.pre["first"], Place) else X.read(S.pre.st, S.pre["first"])
    expand = Contract("expandEntityReferences", setup=gset, pre=tree, post=lambda S: {"no entity reference is left in the list": norefs(S, frst(S)), "other nodes are kept": mono(S, S.pre)},
                      mods=lambda S: HN + [("ghost", q) for q in EG],
                      loops=[Loop(inv=lambda S: {"position": z3.And(0 <= S.st.ghost["my:pos"], S.st.ghost["my:pos"] <= nsib(frst(S)), S.z("curr") == sib(frst(S), S.st.ghost["my:pos"])), "so far": norefs(S, frst(S), S.st.ghost["my:pos"]), "kept": mono(S, S.pre)},
                                  ghost=EG + ["my:pos"], exitghost=None)])
    # (the position is counted by the loop itself)
    lp = expand.loops[0]
    expand.setup = lambda S: (gset(S), S.st.ghost.update({"my:pos": z3.IntVal(0)}))
    lp.bodyghost = lambda S: put_g(S.st, **{"my:pos": S.st.ghost["my:pos"] + 1})
    cs.append(expand)

    def m_unset(X_, st, this, args, fr, n):
        a, k = X.rv(st, args[0]), strv(st, X.rv(st, args[1]))
        g = st.ghost
        put_g(st, noid=z3.If(k == L("id"), sto(g["noid"], a, T), g["noid"]), noxref=z3.If(k == L("xref"), sto(g["noxref"], a, T), g["noxref"]))
        X.check(st, z3.Or(k == L("id"), k == L("xref")), "no other attribute is removed", n)
        r = fresh("unset", I_)
        return [(st, r)]

    def m_setns(X_, st, this, args, fr, n):
        a, b = X.rv(st, args[0]), X.rv(st, args[1])
        X.check(st, b == 0, "names have no namespace", n)
        put_g(st, nons=sto(st.ghost["nons"], a, T))
        return [(st, VOID)]
    M["xmlUnsetProp"], M["xmlSetNs"] = m_unset, m_setns

    def done(S, r):
        g = S.st.ghost
        return z3.And(sel(g["noid"], r), sel(g["noxref"], r), sel(g["nons"], r), norefs(S, first(S, r)), z3.Implies(typ(S, r) == 1, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < nasib(props(S, r))), norefs(S, H(S, "_xmlAttr", asib(props(S, r), i), "children"))), patterns=[asib(props(S, r), i)])))
    isdone = fn("is_done", I_, I_, B_)       # (version of the tree, node)

    def kept(S, P):
        g, p = S.st.ghost, P.st.ghost
        return z3.And(mono(S, P), z3.ForAll([x], z3.And(z3.Implies(sel(p["noid"], x), sel(g["noid"], x)), z3.Implies(sel(p["noxref"], x), sel(g["noxref"], x)), z3.Implies(sel(p["nons"], x), sel(g["nons"], x))), patterns=[sel(g["noid"], x), sel(g["noxref"], x), sel(g["nons"], x)]))
    def only(S, P, inside):
        g, p = S.st.ghost, P.st.ghost
        return z3.ForAll([x], z3.Implies(sel(g["noid"], x), z3.Or(sel(p["noid"], x), inside(x))), patterns=[sel(g["noid"], x)])
    nd = lambda S: S.pre["node"] if not isinstance(S.pre["node"], Place) else X.read(S.pre.st, S.pre["node"])
    CG = EG + ["noid", "noxref", "nons"]

    def parts(S, below):
        g = S.st.ghost
        el = lambda r: z3.Implies(typ(S, r) == 1, z3.ForAll([i, f_], z3.Implies(z3.And(0 <= i, i < nasib(props(S, r)), 0 <= f_, f_ < nsib(H(S, "_xmlAttr", asib(props(S, r), i), "children"))), typ(S, sib(H(S, "_xmlAttr", asib(props(S, r), i), "children"), f_)) != 5)))
        q = lambda b: z3.ForAll([j], z3.Implies(below(j), b(j)), patterns=[sel(g["noid"], j), sel(g["noxref"], j), sel(g["nons"], j)])
        return {"no id, xref or namespace is left in the tree": z3.ForAll([j], z3.Implies(below(j), z3.And(sel(g["noid"], j), sel(g["noxref"], j), sel(g["nons"], j))), patterns=[sel(g["noid"], j), sel(g["noxref"], j), sel(g["nons"], j)]),
                "no entity reference is left among the nodes of the tree": z3.ForAll([j, i], z3.Implies(z3.And(below(j), 0 <= i, i < nsib(first(S, j))), typ(S, sib(first(S, j), i)) != 5), patterns=[z3.MultiPattern(typ(S, sib(first(S, j), i)))])}
    pos = lambda S: S.st.ghost["my:pos"]
    kids = lambda S: first(S, nd(S))
    ainv = lambda S: {"attributes": z3.And(0 <= S.st.ghost["my:apos"], S.st.ghost["my:apos"] <= nasib(props(S, nd(S))), S.z("attr") == asib(props(S, nd(S)), S.st.ghost["my:apos"])), "kept": kept(S, S.pre), "no other node": only(S, S.pre, lambda y: under(nd(S), y)),
                      "itself": z3.And([sel(S.st.ghost[q], nd(S)) for q in ("noid", "noxref", "nons")]),
                      "values so far": z3.ForAll([i, f_], z3.Implies(z3.And(0 <= i, i < S.st.ghost["my:apos"], 0 <= f_, f_ < nsib(H(S, "_xmlAttr", asib(props(S, nd(S)), i), "children"))), typ(S, sib(H(S, "_xmlAttr", asib(props(S, nd(S)), i), "children"), f_)) != 5),
                                                 patterns=[sib(H(S, "_xmlAttr", asib(props(S, nd(S)), i), "children"), f_)])}
    vals_ = lambda S: z3.ForAll([i, f_], z3.Implies(z3.And(0 <= i, i < nasib(props(S, nd(S))), 0 <= f_, f_ < nsib(H(S, "_xmlAttr", asib(props(S, nd(S)), i), "children"))), typ(S, sib(H(S, "_xmlAttr", asib(props(S, nd(S)), i), "children"), f_)) != 5),
                                 patterns=[sib(H(S, "_xmlAttr", asib(props(S, nd(S)), i), "children"), f_)])
    cinv = lambda S: dict(parts(S, lambda j: z3.And(under(nd(S), j), z3.Or(j == nd(S), hop(nd(S), j) < pos(S)))), **{
        "position": z3.And(0 <= pos(S), pos(S) <= nsib(kids(S)), S.z("curr") == sib(kids(S), pos(S))), "kept": kept(S, S.pre), "no other node": only(S, S.pre, lambda y: under(nd(S), y)),
        "itself": z3.And([sel(S.st.ghost[q], nd(S)) for q in ("noid", "noxref", "nons")]), "its list": norefs(S, kids(S)),
        "its attributes": z3.Implies(typ(S.pre, nd(S)) == 1, vals_(S))})

    def csetup(S):
        gset(S)
        S.st.ghost.update({"my:pos": z3.IntVal(0), "my:apos": z3.IntVal(0)})
    cl = Contract("cleanContentMath", setup=csetup, pre=lambda S: dict(tree(S), **{"a node": (S["node"] if not isinstance(S["node"], Place) else X.read(S.st, S["node"])) > 0}),
                  post=lambda S: dict(parts(S, lambda j: under(nd(S), j)), **{"nothing else is changed": kept(S, S.pre), "no other node": only(S, S.pre, lambda y: under(nd(S), y)), "nor in the values of its attributes": z3.Implies(typ(S.pre, nd(S)) == 1, vals_(S))}),
                  mods=lambda S: HN + [("ghost", q) for q in CG],
                  loops=[Loop(inv=ainv, ghost=CG + ["my:apos"], bodyghost=lambda S: put_g(S.st, **{"my:apos": S.st.ghost["my:apos"] + 1})), Loop(inv=cinv, ghost=CG + ["my:pos"], bodyghost=lambda S: put_g(S.st, **{"my:pos": S.st.ghost["my:pos"] + 1}))])
    cs.append(cl)

    # ------------------------------------------------------------------ the harvest of a document
    pathtext, numtext, fileof = fn("text_by_path", STR, STR), fn("text_by_path_with_numbers", STR, STR), fn("contents_of_file", STR, STR)
    valid = lambda f: z3.And(hasid(f), content(f) != 0)
    CH = ["known", "cur", "nf", "open", "parsed"] + CG
    known0 = fn("numbered_by_text", STR, B_)

    def hsetup(S):
        gset(S)
        g = S.st.ghost
        g["known"] = z3.Const("known0", z3.ArraySort(STR, B_))
        S.st.assume(z3.ForAll([s_], z3.Not(sel(g["known"], s_)), patterns=[sel(g["known"], s_)]))
        S.st.assume(z3.ForAll([x], z3.Not(sel(g["noid"], x)), patterns=[sel(g["noid"], x)]))
        g["cur"], g["nf"], g["open"], g["parsed"] = z3.IntVal(0), z3.IntVal(0), F, F
        # the formulae of the document, in its order, lie apart from each other
        S.st.assume(nmath >= 0)
        S.st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < nmath), mnode(i) > 0), patterns=[mnode(i)]))
        S.st.assume(z3.ForAll([i], content(i) >= 0, patterns=[content(i)]))
        S.st.assume(z3.ForAll([i, j, x], z3.Implies(z3.And(0 <= i, i < j, j < nmath, content(mnode(i)) > 0, content(mnode(j)) > 0, under(content(mnode(i)), x)), z3.Not(under(content(mnode(j)), x))),
                                  patterns=[z3.MultiPattern(mnode(i), mnode(j), under(content(mnode(i)), x))]))
        S.st.assume(z3.ForAll([s_], num(s_) > 0, patterns=[num(s_)]))
    nexp, forms, meta = fn("expressions_before", I_, I_), fn("data_with_formulae", I_, STR), fn("data_with_metadata", I_, STR)
    P = lambda S: S if S._pre is None else S.pre
    cfg = lambda S, *f: P(S).rd(P(S).deref("config"), *f)
    save = lambda S: cfg(S, "shouldSaveData")
    did = lambda S: cfg(S, "data_id")
    docid = lambda S: z3.If(lib.slen(cfg(S, "documentIdXpath")) == 0, X.read(P(S).st, P(S).deref("path")), pathtext(cfg(S, "documentIdXpath")))

    def item(S, k, f):
        it = P(S).fp(P(S).deref("config"), "metadataItems")
        return P(S).rd(it.i(k, it.ty.args[0]), f)

    def nitems(S):
        it = P(S).fp(P(S).deref("config"), "metadataItems")
        return so.vec_len(X.read(P(S).st, it))

    def expr(S, f):
        return z3.If(save(S), cat('<mws:expr url="', tos(num(idof(f))), '"', ' mws:data_id="', did(S), '"', ">", clean(content(f)), "</mws:expr>\n"),
                     cat('<mws:expr url="', esc(cat(docid(S), "#", idof(f))), '"', ">", clean(content(f)), "</mws:expr>\n"))

    def folds(S):
        k = z3.Int("dk")
        m = mnode(k)
        S.st.assume(meta(0) == cat('<mws:data mws:data_id="', did(S), '">\n', "<id>", esc(docid(S)), "</id>\n", "<text>", esc(numtext(cfg(S, "textWithMathXpath"))), "</text>\n", "<metadata>\n"))
        S.st.assume(z3.ForAll([k], z3.Implies(k >= 0, meta(k + 1) == cat(meta(k), "<", item(S, k, "name"), ">", esc(pathtext(item(S, k, "xpath"))), "</", item(S, k, "name"), ">\n")), patterns=[meta(k + 1)]))
        S.st.assume(forms(0) == cat(meta(nitems(S)), "</metadata>\n"))
        S.st.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < nmath), forms(k + 1) == z3.If(valid(m), cat(forms(k), '<math local_id="', tos(num(idof(m))), '">', mxml(m), "</math>\n"), forms(k))), patterns=[forms(k + 1)]))
        S.st.assume(nexp(0) == 0)
        S.st.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < nmath), nexp(k + 1) == nexp(k) + z3.If(valid(m), 1, 0)), patterns=[nexp(k + 1)]))

    def h_setup(S):
        hsetup(S)
        folds(S)

    def elems(S, v, n):
        a, ln = so.vec_arr(v), so.vec_len(v)
        return {"one expression for each formula with an id and content": ln == nexp(n),
                "in the order of the document": z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= nexp(i), nexp(i) + z3.If(valid(mnode(i)), 1, 0) <= nexp(n))), patterns=[nexp(i)]),
                "each is the content, cleaned, under the number or the url of its formula": z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, valid(mnode(i))), sel(a, nexp(i)) == expr(S, mnode(i))), patterns=[nexp(i)])}

    def walk_inv(S):
        n = G(S, "nf")
        d = dict(elems(S, S.rd(S.pl("harvest"), "contentMathElements"), n))
        d["position"] = z3.And(0 <= n, n <= nmath)
        d["the data has the formulae so far"] = z3.Implies(save(S), S["data"] == forms(n))
        d["the ones to come are as in the document"] = z3.ForAll([i], z3.Implies(z3.And(n <= i, i < nmath, valid(mnode(i))), z3.Not(sel(G(S, "noid"), content(mnode(i))))), patterns=[mnode(i)])
        return d

    def unfold(s, k):
        """the definitions at the formula in hand"""
        m = mnode(k)
        s.assume(nexp(k + 1) == nexp(k) + z3.If(valid(m), 1, 0))
        s.assume(forms(k + 1) == z3.If(valid(m), cat(forms(k), '<math local_id="', tos(num(idof(m))), '">', mxml(m), "</math>\n"), forms(k)))

    def m_walk(X_, st, this, args, fr, n):
        clo = X.rv(st, args[2])
        X.check(st, strv(st, X.rv(st, args[1])) == L("//*[local-name()='math']"), "the formulae of the document are walked over", n)
        X.check(st, z3.And(G(View(X, st, fr), "open"), X.rv(st, args[0]) == DOC, st.ghost["nf"] == 0), "all of them, once", n)

        def step(s):
            k_ = s.ghost["nf"]
            t = mnode(k_)
            s.assume(t > 0)
            unfold(s, k_)
            put_g(s, cur=t)
            o = X.call_value(clo, [t], s, fr, n)
            for e, _ in o:
                put_g(e, nf=e.ghost["nf"] + 1)
            return o
        h = X.iterate(st, fr, Loop(inv=walk_inv, ghost=["nf", "cur", "known"] + CG), lambda s: s.ghost["nf"] < nmath, step, "walk over the formulae")
        return [(h, VOID)]
    M["processXpathResults"] = M["crawler::parser::processXpathResults"] = m_walk

    def m_getprop(X_, st, this, args, fr, n):
        a, k = X.rv(st, args[0]), strv(st, X.rv(st, args[1]))
        X.check(st, z3.And(a == st.ghost["cur"], k == L("id")), "the id of the formula is read", n)
        no = st.copy()
        st.assume(hasid(a))
        no.assume(z3.Not(hasid(a)))
        return [(st, CStr(idof(a))), (no, z3.IntVal(0))]
    M["xmlGetProp"] = m_getprop

    def m_node(st, this, a, fr, n):
        X.check(st, z3.And(a[0] == DOC, st.ghost["open"], strv(st, a[1]) == L("descendant::*[@encoding='MathML-Content']/*"), a[2] == st.ghost["cur"]), "the content is looked for inside of the formula", n)
        return [(st, content(a[2]))]

    def m_raw(st, this, a, fr, n):
        X.check(st, z3.And(a[0] == DOC, st.ghost["open"], a[1] == st.ghost["cur"]), "the formula itself is written", n)
        X.check(st, z3.Not(sel(st.ghost["noid"], content(a[1]))), "as it is in the document", n)
        return [(st, mxml(a[1]))]

    def m_clean(st, this, a, fr, n):
        V = View(X, st, fr)
        X.check(st, z3.And(a[0] == DOC, st.ghost["open"], a[1] == content(st.ghost["cur"])), "the content of the formula is written", n)
        for lab, f in parts(V, lambda j_: under(a[1], j_)).items():
            X.check(st, f, lab + " when it is written", n)
        return [(st, clean(a[1]))]

    def m_escape(st, this, a, fr, n):
        return [(st, esc(strv(st, a[1])))]

    def m_text(st, this, a, fr, n):
        X.check(st, z3.And(a[0] == DOC, st.ghost["open"]), "the text of the document is read", n)
        s1 = strv(st, a[1])
        if z3.is_expr(a[2]):
            X.check(st, a[2] == 0, "no other dictionary", n)
            return [(st, pathtext(s1))]
        k2 = z3.Const(fresh("k", I_).decl().name() + "a", z3.ArraySort(STR, B_))
        st.assume(z3.ForAll([s_], z3.Implies(sel(st.ghost["known"], s_), sel(k2, s_)), patterns=[sel(k2, s_)]))
        put_g(st, known=k2)
        return [(st, numtext(s1))]

    def m_put(st, this, a, fr, n):
        k = strv(st, a[0])
        put_g(st, known=sto(st.ghost["known"], k, T))
        return [(st, num(k))]

    def m_get(st, this, a, fr, n):
        k = strv(st, a[0])
        return [(st, z3.If(sel(st.ghost["known"], k), num(k), 0))]

    def m_contents(st, this, a, fr, n):
        X.pending.append(st.copy())
        st.assume(lib.slen(fileof(strv(st, a[0]))) < 2 ** 31)
        return [(st, fileof(strv(st, a[0])))]

    def m_parse(st, this, a, fr, n):
        s1 = strv(st, a[0])
        X.check(st, s1 == fileof(X.read(st, View(X, st, fr).deref("path"))), "the file is parsed", n)
        X.check(st, a[1] == lib.slen(s1), "all of it", n)
        X.check(st, z3.Not(st.ghost["open"]), "once", n)
        X.pending.append(st.copy())
        put_g(st, open=T)
        st.assume(DOC > 0)
        return [(st, DOC)]

    def m_freedoc(X_, st, this, args, fr, n):
        X.check(st, z3.And(X.rv(st, args[0]) == DOC, st.ghost["open"]), "the document is released once", n)
        put_g(st, open=F)
        return [(st, VOID)]
    M["xmlFreeDoc"] = m_freedoc
    M["construct:IdDictionary"] = lambda X_, st, this, args, fr, n: [(st, VOID)]
    cs += [mdl("parser::getNodeByXpath", m_node), mdl("parser::getEscapedXmlFromNode", m_raw), mdl("parser::getXmlFromNode", m_clean), mdl("parser::escapeXml", m_escape), mdl("parser::getTextByXpath", m_text),
           mdl("IdDictionary::put", m_put), mdl("IdDictionary::get", m_get), mdl("getFileContents", m_contents), mdl("parser::parseDocument", m_parse)]

    def h_post(S):
        h = S.ret
        rd = lambda f: S.rd(h, f) if isinstance(h, Place) else (X.read(S.st, h.f[f]) if isinstance(h.f[f], Place) else h.f[f])
        d = elems(S, rd("contentMathElements"), nmath)
        d["the data is the id, text, metadata and formulae, escaped"] = rd("dataElement") == z3.If(save(S), cat(forms(nmath), "</mws:data>\n"), L(""))
        d["the document is released"] = z3.Not(S.st.ghost["open"])
        return d
    cs.append(Contract("createHarvestFromDocument", setup=h_setup, pre=lambda S: tree(S), post=h_post, throws=lambda S: {"nothing is kept open": z3.Not(S.st.ghost["open"])},
                       mods=lambda S: HN + [("alloc",)] + [("ghost", q) for q in CH],
                       loops=[Loop(inv=lambda S: {"position": z3.And(0 <= S.k, S.k <= nitems(S)), "the metadata so far": S["data"] == meta(S.k)})]))
    return cs
