"""Reading harvest documents (processMwsHarvest.cpp, CmmlToken.cpp): what the handlers do with each element, text and error."""
import z3
from sx import *
from cast import I, Ty
import tokens
TU = '''
#include "mws/types/CmmlToken.cpp"
#include "mws/xmlparser/processMwsHarvest.cpp"
'''
U = "MwsHarvest_SaxUserData"
HEAP = ["CmmlToken", "MwsHarvest_SaxUserData", "HarvestProcessor", "_xmlTextWriter", "_IO_FILE", "FILE"]
DEFAULT, HARVEST, EXPR, DATA, UNKNOWN = range(5)
START, ATTR, END, TEXT = range(4)
LIM = 1 << 30


def table(X, name="attrs"):
    """parameter handler: the attributes of an element, name, value, name, value, ..., null; or a null pointer"""
    I_ = z3.IntSort()

    def mk(X_, st, fr, ty):
        arr, size = z3.Const(name + "!t", z3.ArraySort(I_, X.lib.strlit("x").sort())), z3.Int(name + "!n")
        st.assume(z3.And(size >= 1, size % 2 == 1, size < LIM))
        st.blocks[name] = (arr, size, ty.to)
        b = BPtr(name, z3.IntVal(0), ty.to)
        b.nullable = z3.Bool(name + "!null")
        return b
    return mk


class Attrs:
    """The attribute table as the specification reads it."""

    def __init__(self, X):
        self.X, lib, so = X, X.lib, X.so
        self.I_ = I_ = z3.IntSort()
        self.STR = STR = lib.strlit("x").sort()
        AS = z3.ArraySort(I_, STR)
        MD, MV = z3.ArraySort(STR, z3.BoolSort()), z3.ArraySort(STR, STR)
        self.last = z3.Function("lastv", AS, STR, STR, I_, STR)
        self.dom, self.val = z3.Function("adom", AS, MD, I_, MD), z3.Function("aval", AS, I_, MV)
        a, nm, d, o, md, mv = z3.Const("aa", AS), z3.Const("an", STR), z3.Const("ad", STR), z3.Int("ao"), z3.Const("amd", MD), z3.Const("amv", MV)
        sel, sto = z3.Select, z3.Store
        none = self.none = z3.K(STR, z3.BoolVal(False))
        X.axioms += [z3.ForAll([a, nm, d], self.last(a, nm, d, 0) == d, patterns=[self.last(a, nm, d, 0)]),
                     z3.ForAll([a, nm, d, o], z3.Implies(o >= 0, self.last(a, nm, d, o + 2) == z3.If(sel(a, o) == nm, sel(a, o + 1), self.last(a, nm, d, o))), patterns=[z3.MultiPattern(self.last(a, nm, d, o), sel(a, o))]),
                     z3.ForAll([a, md], self.dom(a, md, 0) == md, patterns=[self.dom(a, md, 0)]),
                     z3.ForAll([a, md, o], z3.Implies(o >= 0, self.dom(a, md, o + 2) == sto(self.dom(a, md, o), sel(a, o), z3.BoolVal(True))), patterns=[z3.MultiPattern(self.dom(a, md, o), sel(a, o))]),
                     z3.ForAll([a, o], z3.Implies(o >= 0, self.val(a, o + 2) == z3.If(sel(self.dom(a, none, o), sel(a, o)), self.val(a, o), sto(self.val(a, o), sel(a, o), sel(a, o + 1)))), patterns=[z3.MultiPattern(self.val(a, o), sel(a, o))])]

    def arr(self, S):
        return S.st.blocks["attrs"][0]

    def n(self, S):
        """number of entries (names and values)"""
        return z3.If(z3.Bool("attrs!null"), 0, z3.Int("attrs!n") - 1)

    def pos(self, S):
        return S["attrs"].off

    def inv(self, S):
        return {"position in the attributes": z3.And(0 <= self.pos(S), self.pos(S) % 2 == 0, self.pos(S) < z3.Int("attrs!n"), z3.Implies(z3.Bool("attrs!null"), self.pos(S) == 0))}


def contracts(X):
    t = tokens.make(X)
    A = Attrs(X)
    so, lib = X.so, X.lib
    I_, STR = A.I_, A.STR
    sel, sto = z3.Select, z3.Store
    G = lambda S, n: S.st.ghost[n]
    AS, AI = z3.ArraySort(I_, STR), z3.ArraySort(I_, I_)

    def put_g(st, **kw):
        for n, v in kw.items():
            st.ghost[n] = v
            st.wrote(("ghost", n))
    UD = z3.Int("user_data!p")
    F = lambda S, f: sel(S.heap(U, f), UD)
    TH = lambda S, f: S.heap("CmmlToken", f)
    lit = lib.strlit

    # ---- what the handlers use: the XML writer, the processor of the caller
    esc = z3.Function("xml_escape", STR, STR)
    ser = z3.Function("written", AI, AS, AS, I_, STR)     # the text of a sequence of start, attribute, end and text events

    def event(st, w, kind, a, b, n):
        X.check(st, w == st.ghost["writer"], "events go to the writer in use", n)
        g = st.ghost
        put_g(st, wk=sto(g["wk"], g["wn"], z3.IntVal(kind)), wa=sto(g["wa"], g["wn"], a), wb=sto(g["wb"], g["wn"], b), wn=g["wn"] + 1)

    def anyint(st):
        r = fresh("xmlret", I_)
        st.assume(z3.And(r >= -1, r < LIM))
        return r

    def m_start(X_, st, this, args, fr, n):
        event(st, X.rv(st, args[0]), START, lib.str_of(st, args[1]), lit(""), n)
        return [(st, anyint(st))]

    def m_attr(X_, st, this, args, fr, n):
        event(st, X.rv(st, args[0]), ATTR, lib.str_of(st, args[1]), lib.str_of(st, args[2]), n)
        return [(st, anyint(st))]

    def m_end(X_, st, this, args, fr, n):
        event(st, X.rv(st, args[0]), END, lit(""), lit(""), n)
        return [(st, anyint(st))]

    def m_raw(X_, st, this, args, fr, n):
        s, k = lib.str_of(st, args[1]), X.rv(st, args[2])
        X.check(st, z3.And(k >= 0, k <= lib.slen(s)), "as many characters as there are", n)
        st.assume(z3.Implies(k == lib.slen(s), lib.ssub(s, z3.IntVal(0), k, st) == s))
        event(st, X.rv(st, args[0]), TEXT, lib.ssub(s, z3.IntVal(0), k, st), lit(""), n)
        return [(st, anyint(st))]

    def m_esc(X_, st, this, args, fr, n):
        s = lib.str_of(st, args[1])
        st.assume(z3.And(lib.slen(esc(s)) >= 0, lib.slen(esc(s)) < LIM))
        return [(st, CStr(esc(s)))]
    for nm, m in [("xmlTextWriterStartElement", m_start), ("xmlTextWriterWriteAttribute", m_attr), ("xmlTextWriterEndElement", m_end), ("xmlTextWriterWriteRawLen", m_raw), ("xmlEncodeSpecialChars", m_esc)]:
        X.models[nm] = m
    X.opaque["glob_xmlFree"] = lambda X_, st, args, fr, rty: [(st, VOID)]
    X.models["__builtin_va_start"] = X.models["__builtin_va_end"] = lambda X_, st, this, args, fr, n: [(st, VOID)]
    X.models["vfprintf"] = lambda X_, st, this, args, fr, n: [(st, anyint(st))]

    def setup_post(S):
        return {"an empty text": z3.And(G(S, "wn") == 0, F(S, "stringWriter") == G(S, "writer"))}
    place = lambda S, f, ty: Place(("H", U, UD), (("f", f, ty),), ty)
    fields = dict((n, ty) for n, ty, w in so.rec_fields(Ty("rec", U)))
    fl = lambda *ns: (lambda S: [place(S, n, fields[n]) for n in ns])
    setupw = Contract("setupCopyToStringWriter", trusted=True, verify=False, post=setup_post, mods=lambda S: fl("stringWriter", "buffer")(S) + [("ghost", "wn"), ("ghost", "writer")])
    down = Contract("tearDownCopyToStringWriter", trusted=True, verify=False, mods=fl("data", "buffer"),
                    post=lambda S: {"the text of what was written": F(S, "data") == ser(G(S, "wk"), G(S, "wa"), G(S, "wb"), G(S, "wn"))})

    def m_expr(X_, st, this, args, fr, n):
        g = st.ghost
        tok, uri, crawl = X.rv(st, args[0]), lib.str_of(st, args[1]), X.rv(st, args[2])
        S = View(X, st, fr)
        p = this.root[2] if isinstance(this, Place) else X.rv(st, this)
        X.check(st, p == F(S, "harvestProcessor"), "the processor of the caller", n)
        X.check(st, sel(st.alloc, tok), "a live expression is handed over", n)
        r = fresh("pret", I_)
        st.assume(z3.And(r >= -1, r < LIM))
        put_g(st, pk=g["pk"] + 1, ptok=tok, puri=uri, pcr=crawl, pret=r)
        return [(st, r)]

    def m_data(X_, st, this, args, fr, n):
        g = st.ghost
        r = fresh("dret", I_)
        st.assume(z3.And(r >= 0, r < (1 << 32)))
        put_g(st, dk=g["dk"] + 1, dtext=lib.str_of(st, args[0]), dret=r)
        return [(st, r)]
    pe = Contract("HarvestProcessor::processExpression", trusted=True, verify=False, model=m_expr)
    pd = Contract("HarvestProcessor::processData", trusted=True, verify=False, model=m_data)

    def setup(S):
        g = S.st.ghost
        g["D"], g["lev"] = z3.Int("D0"), z3.Const("lev0", AI)
        g["wk"], g["wa"], g["wb"], g["wn"], g["writer"] = z3.Const("wk0", AI), z3.Const("wa0", AS), z3.Const("wb0", AS), z3.Int("wn0"), z3.Int("writer0")
        g["pk"], g["ptok"], g["puri"], g["pcr"], g["pret"] = z3.IntVal(0), z3.IntVal(0), z3.Const("puri0", STR), z3.IntVal(0), z3.IntVal(0)
        g["dk"], g["dtext"], g["dret"] = z3.IntVal(0), z3.Const("dtext0", STR), z3.IntVal(0)
    params = {"user_data": lambda X_, st, fr, ty: (st.assume(UD > 0), UD)[1], "attrs": table(X)}
    l = z3.Int("hl")

    def good(S, D, lev):
        """the state of the reader when D elements are open, lev[l] the node made for the l-th of them (from 2 on)"""
        st_, ct, rt, ud, cd, pv = F(S, "state"), F(S, "currentToken"), F(S, "currentTokenRoot"), F(S, "unknownDepth"), F(S, "copyDepth"), F(S, "prevState")
        base = z3.If(pv == DEFAULT, 0, z3.If(pv == HARVEST, 1, 2))
        par = lambda r: sel(TH(S, "_parentNode"), r)
        return {"a known state": z3.And(0 <= st_, st_ <= UNKNOWN, D >= 0, D < LIM),
                "outside the harvest": z3.Implies(st_ == DEFAULT, D == 0), "in the harvest": z3.Implies(st_ == HARVEST, D == 1),
                "skipping": z3.Implies(st_ == UNKNOWN, z3.And(0 <= pv, pv <= EXPR, ud >= 1, D == base + ud)),
                "copying": z3.Implies(st_ == DATA, z3.And(cd >= 1, D == 1 + cd, F(S, "stringWriter") == G(S, "writer"), G(S, "wn") >= 0)),
                "no expression outside one": z3.And((ct == 0) == (rt == 0), z3.Implies(st_ != EXPR, ct == 0)),
                "between expressions": z3.Implies(z3.And(st_ == EXPR, ct == 0), D == 2),
                "inside an expression": z3.Implies(ct != 0, z3.And(D >= 3, ct == sel(lev, D - 1), rt == sel(lev, 2), par(rt) == 0)),
                "the open elements are nested": z3.Implies(ct != 0, z3.ForAll([l], z3.Implies(z3.And(2 <= l, l < D), z3.And(sel(lev, l) > 0, sel(S.alloc, sel(lev, l)), z3.Implies(l >= 3, par(sel(lev, l)) == sel(lev, l - 1)))), patterns=[sel(lev, l)])),
                "a processor": F(S, "harvestProcessor") > 0}

    def mapof(S):
        m = F(S, "localIdToCrawlIds")
        return so.map_dom(m), so.map_val(m)
    same = lambda S, *fs: z3.And([F(S, f) == F(S.pre, f) for f in fs])
    FS = ["state", "unknownDepth", "prevState", "currentToken", "currentTokenRoot", "copyDepth", "exprUri", "localId", "localIdToCrawlIds", "parsedExpr"]
    quiet = lambda S, *but: same(S, *[f for f in FS if f not in but])
    isname = lambda S, v: S.pre["name"].s == lit(v)
    log = lambda S: [G(S, x) for x in ("wk", "wa", "wb", "wn")]
    nolog = lambda S: z3.And([a == b for a, b in zip(log(S), log(S.pre))])
    nocall = lambda S: z3.And(G(S, "pk") == 0, G(S, "dk") == 0)
    sk = lambda S: z3.And(F(S, "state") == UNKNOWN, F(S, "unknownDepth") == 1, F(S, "prevState") == F(S.pre, "state"))

    # ---- start of an element
    D0 = lambda S: G(S.pre, "D")

    def start_pre(S):
        g = good(S, G(S, "D"), G(S, "lev"))
        g["one more element"] = G(S, "D") + 1 < LIM
        return g

    def start_post(S):
        P = S.pre
        p, arr, n = F(P, "state"), A.arr(P), A.n(P)
        lv = z3.If(p == EXPR, sto(G(P, "lev"), D0(S), F(S, "currentToken")), G(P, "lev"))
        e = good(S, D0(S) + 1, lv)
        dom, val = mapof(P)
        url = A.last(arr, lit("url"), lit(""), n)
        did = A.last(arr, lit("mws:data_id"), lit(""), n)
        known = z3.And(F(P, "shouldProcessData"), did != lit(""), z3.Not(sel(dom, did)))
        ct0, ct1 = F(P, "currentToken"), F(S, "currentToken")
        K = lambda f, r: sel(TH(S, f), r)
        md, mv = so.map_dom(K("_attributes", ct1)), so.map_val(K("_attributes", ct1))
        none = A.none
        q = z3.Const("aq", STR)
        other = lambda f, *but: TH(S, f)
        e.update({
            "mws:harvest is entered, anything else outside it skipped": z3.Implies(p == DEFAULT, z3.And(z3.If(isname(S, "mws:harvest"), z3.And(F(S, "state") == HARVEST, quiet(S, "state")), z3.And(sk(S), quiet(S, "state", "unknownDepth", "prevState"))), nolog(S))),
            "mws:expr is entered": z3.Implies(z3.And(p == HARVEST, isname(S, "mws:expr")), z3.And(F(S, "state") == EXPR, quiet(S, "state", "exprUri", "localId"), nolog(S))),
            "with its url": z3.Implies(z3.And(p == HARVEST, isname(S, "mws:expr")), F(S, "exprUri") == url),
            "and the id of its data, if there are such data": z3.Implies(z3.And(p == HARVEST, isname(S, "mws:expr")), F(S, "localId") == z3.If(known, lit(""), did)),
            "mws:data with an id is copied": z3.Implies(z3.And(p == HARVEST, isname(S, "mws:data"), did != lit("")), z3.And(F(S, "state") == DATA, F(S, "copyDepth") == 1, F(S, "localId") == did, G(S, "wn") == 0, quiet(S, "state", "copyDepth", "localId"))),
            "mws:data without id is skipped": z3.Implies(z3.And(p == HARVEST, isname(S, "mws:data"), did == lit("")), z3.And(sk(S), quiet(S, "state", "unknownDepth", "prevState", "localId"), nolog(S))),
            "any other element of the harvest is skipped": z3.Implies(z3.And(p == HARVEST, z3.Not(isname(S, "mws:data")), z3.Not(isname(S, "mws:expr"))), z3.And(sk(S), quiet(S, "state", "unknownDepth", "prevState"), nolog(S))),
            "skipped elements stay skipped": z3.Implies(p == UNKNOWN, z3.And(F(S, "unknownDepth") == F(P, "unknownDepth") + 1, quiet(S, "unknownDepth"), nolog(S))),
            "an element of an expression is a new node": z3.Implies(p == EXPR, z3.And(z3.Not(sel(P.alloc, ct1)), S.alloc == sto(P.alloc, ct1, z3.BoolVal(True)), quiet(S, "currentToken", "currentTokenRoot"), nolog(S))),
            "with the name of the element": z3.Implies(p == EXPR, TH(S, "_tag") == sto(TH(P, "_tag"), ct1, t.local(P["name"].s))),
            "with its attributes": z3.Implies(p == EXPR, md == A.dom(arr, none, n)),
            "with their values": z3.Implies(p == EXPR, z3.ForAll([q], z3.Implies(sel(md, q), sel(mv, q) == sel(A.val(arr, n), q)), patterns=[sel(mv, q)])),
            "no attribute of another node changes": z3.Implies(p == EXPR, TH(S, "_attributes") == sto(TH(P, "_attributes"), ct1, K("_attributes", ct1))),
            "no text yet": z3.Implies(p == EXPR, TH(S, "_textContent") == sto(TH(P, "_textContent"), ct1, lit(""))),
            "its parent is the element around it": z3.Implies(p == EXPR, TH(S, "_parentNode") == sto(TH(P, "_parentNode"), ct1, ct0)),
            "and it is the last child of its parent": z3.Implies(z3.And(p == EXPR, ct0 != 0), z3.And(so.vec_len(K("_childNodes", ct0)) == so.vec_len(sel(TH(P, "_childNodes"), ct0)) + 1,
                                                                                                 so.vec_arr(K("_childNodes", ct0)) == sto(so.vec_arr(sel(TH(P, "_childNodes"), ct0)), so.vec_len(sel(TH(P, "_childNodes"), ct0)), ct1))),
            "without children, and no other node gets any": z3.Implies(p == EXPR, z3.And(so.vec_len(K("_childNodes", ct1)) == 0, TH(S, "_childNodes") == z3.If(ct0 != 0, sto(sto(TH(P, "_childNodes"), ct1, K("_childNodes", ct1)), ct0, K("_childNodes", ct0)), sto(TH(P, "_childNodes"), ct1, K("_childNodes", ct1))))),
            "its position in the expression": z3.Implies(p == EXPR, TH(S, "_xpath") == sto(TH(P, "_xpath"), ct1, z3.If(ct0 == 0, lit("/*[1]"), t.kidpath(sel(TH(P, "_xpath"), ct0), so.vec_len(sel(TH(P, "_childNodes"), ct0)) + 1)))),
            "elsewhere no node changes": z3.Implies(p != EXPR, z3.And([TH(S, f) == TH(P, f) for f in t.F] + [S.alloc == P.alloc])),
            "an element of the data is copied": z3.Implies(p == DATA, z3.And(F(S, "copyDepth") == F(P, "copyDepth") + 1, quiet(S, "copyDepth"), G(S, "wn") == G(P, "wn") + 1 + fdiv(n, 2),
                                                             sel(G(S, "wk"), G(P, "wn")) == START, sel(G(S, "wa"), G(P, "wn")) == P["name"].s)),
            "with its attributes, in order": z3.Implies(p == DATA, z3.ForAll([l], z3.Implies(z3.And(0 <= l, 2 * l < n), z3.And(sel(G(S, "wk"), G(P, "wn") + 1 + l) == ATTR, sel(G(S, "wa"), G(P, "wn") + 1 + l) == sel(arr, 2 * l), sel(G(S, "wb"), G(P, "wn") + 1 + l) == sel(arr, 2 * l + 1))),
                                                                               patterns=[sel(G(S, "wk"), G(P, "wn") + 1 + l)])),
            "what was copied before stays": z3.Implies(p == DATA, z3.ForAll([l], z3.Implies(z3.And(0 <= l, l < G(P, "wn")), z3.And([sel(G(S, x), l) == sel(G(P, x), l) for x in ("wk", "wa", "wb")])), patterns=[sel(G(S, "wk"), l)])),
            "nothing is processed yet": nocall(S)})
        return e
    fdiv = lambda a, b: a / b
    # attribute loops: harvest, expression url/data, data, node, copy
    ns_inv = lambda S: A.inv(S)

    def expr_inv(S):
        o = A.inv(S)
        arr = A.arr(S)
        if True:
            o["the url so far"] = F(S, "exprUri") == A.last(arr, lit("url"), lit(""), A.pos(S))
            o["the data id so far"] = F(S, "localId") == A.last(arr, lit("mws:data_id"), lit(""), A.pos(S))
            o["other records"] = unchanged(S, "exprUri", "localId")
        return o

    def unchanged(S, *fs):
        L = S.loop_entry()
        return z3.And([S.heap(U, f) == sto(L.heap(U, f), UD, F(S, f)) for f in fs] or [z3.BoolVal(True)])

    def data_inv(S):
        o = A.inv(S)
        o["the data id so far"] = F(S, "localId") == A.last(A.arr(S), lit("mws:data_id"), lit(""), A.pos(S))
        o["other records"] = unchanged(S, "localId")
        return o

    def node_inv(S):
        o = A.inv(S)
        L = S.loop_entry()
        ct = F(S, "currentToken")
        v = sel(TH(S, "_attributes"), ct)
        arr = A.arr(S)
        q = z3.Const("nq", STR)
        o["the attributes so far"] = so.map_dom(v) == A.dom(arr, A.none, A.pos(S))
        o["their values so far"] = z3.ForAll([q], z3.Implies(sel(so.map_dom(v), q), sel(so.map_val(v), q) == sel(A.val(arr, A.pos(S)), q)), patterns=[sel(so.map_val(v), q)])
        o["those of other nodes"] = TH(S, "_attributes") == sto(TH(L, "_attributes"), ct, v)
        o["a current node"] = ct > 0
        return o

    def copy_inv(S):
        o = A.inv(S)
        L = S.loop_entry()
        w0, pos, arr = G(L, "wn"), A.pos(S), A.arr(S)
        o["the attributes so far"] = z3.And(2 * (G(S, "wn") - w0) == pos, z3.ForAll([l], z3.Implies(z3.And(w0 <= l, l < G(S, "wn")), z3.And(sel(G(S, "wk"), l) == ATTR, sel(G(S, "wa"), l) == sel(arr, 2 * (l - w0)), sel(G(S, "wb"), l) == sel(arr, 2 * (l - w0) + 1))), patterns=[sel(G(S, "wk"), l)]))
        o["what was there"] = z3.ForAll([l], z3.Implies(z3.And(0 <= l, l < w0), z3.And([sel(G(S, x), l) == sel(G(L, x), l) for x in ("wk", "wa", "wb")])), patterns=[sel(G(S, "wk"), l)])
        o["a writer"] = z3.And(F(S, "stringWriter") == G(S, "writer"), w0 >= 0)
        return o
    WG = ["wk", "wa", "wb", "wn"]
    allg = [("ghost", x) for x in ("wk", "wa", "wb", "wn", "writer", "pk", "ptok", "puri", "pcr", "pret", "dk", "dtext", "dret")]
    mods = lambda S: fl("state", "unknownDepth", "prevState", "currentToken", "currentTokenRoot", "copyDepth", "exprUri", "localId", "stringWriter", "buffer", "data", "localIdToCrawlIds", "parsedExpr", "errorDetected", "warnings")(S) \
        + [("heap", "CmmlToken", f) for f in t.F] + [("alloc",)] + allg
    dec = lambda S: z3.Int("attrs!n") - A.pos(S)
    start = Contract("my_startElement", nparams=3, setup=setup, params=params, pre=start_pre, post=start_post, mods=mods,
                     loops=[Loop(inv=ns_inv, dec=dec), Loop(inv=expr_inv, dec=dec), Loop(inv=data_inv, dec=dec), Loop(inv=node_inv, dec=dec), Loop(inv=copy_inv, dec=dec, ghost=WG)])

    # ---- end of an element
    def end_pre(S):
        g = good(S, G(S, "D"), G(S, "lev"))
        g["an element is open"] = G(S, "D") >= 1
        g["fewer than 2^62 expressions"] = z3.And(F(S, "parsedExpr") >= 0, F(S, "parsedExpr") < (1 << 62))
        return g

    def end_post(S):
        P = S.pre
        p, ct = F(P, "state"), F(P, "currentToken")
        e = good(S, D0(S) - 1, G(P, "lev"))
        dom, val = mapof(P)
        root = z3.And(p == EXPR, ct != 0, D0(S) == 3)
        did = F(P, "localId")
        done = z3.And(p == DATA, F(P, "copyDepth") == 1)
        wk, wa, wb = [sto(G(P, x), G(P, "wn"), v) for x, v in (("wk", z3.IntVal(END)), ("wa", lit("")), ("wb", lit("")))]
        dom1, val1 = mapof(S)
        took = z3.And(done, F(P, "shouldProcessData"))
        e.update({
            "the harvest is left": z3.Implies(p == HARVEST, z3.And(F(S, "state") == DEFAULT, quiet(S, "state"))),
            "the expression element is left": z3.Implies(z3.And(p == EXPR, ct == 0), z3.And(F(S, "state") == HARVEST, quiet(S, "state"))),
            "inside an expression its parent is next": z3.Implies(z3.And(p == EXPR, ct != 0, z3.Not(root)), z3.And(F(S, "currentToken") == sel(G(P, "lev"), D0(S) - 2), quiet(S, "currentToken"))),
            "a complete expression is processed, once, and nothing else is": G(S, "pk") == z3.If(root, 1, 0),
            "with its root": z3.Implies(root, G(S, "ptok") == F(P, "currentTokenRoot")),
            "with its url": z3.Implies(root, G(S, "puri") == F(P, "exprUri")),
            "with the id stored for its data": z3.Implies(root, G(S, "pcr") == z3.If(z3.And(F(P, "shouldProcessData"), sel(dom, did)), sel(val, did), 0)),
            "it is counted unless refused": z3.Implies(root, F(S, "parsedExpr") == F(P, "parsedExpr") + z3.If(G(S, "pret") == -1, 0, G(S, "pret"))),
            "then it is gone and the next may follow": z3.Implies(root, z3.And(F(S, "currentToken") == 0, F(S, "currentTokenRoot") == 0, quiet(S, "currentToken", "currentTokenRoot", "parsedExpr"), S.alloc == sto(P.alloc, ct, z3.BoolVal(False)))),
            "no node changes": z3.And([TH(S, f) == TH(P, f) for f in t.F] + [z3.Implies(z3.Not(root), S.alloc == P.alloc)]),
            "the end of an element of the data is copied": z3.Implies(z3.And(p == DATA, z3.Not(done)), z3.And(G(S, "wk") == wk, G(S, "wa") == wa, G(S, "wn") == G(P, "wn") + 1, F(S, "copyDepth") == F(P, "copyDepth") - 1, quiet(S, "copyDepth"))),
            "complete data are processed, once, if asked for, and nothing else is": G(S, "dk") == z3.If(took, 1, 0),
            "with the text of the element": z3.Implies(took, G(S, "dtext") == ser(wk, wa, wb, G(P, "wn") + 1)),
            "their id is kept for the expressions that follow": z3.Implies(z3.And(took, G(S, "dret") != 0), z3.And(dom1 == sto(dom, did, z3.BoolVal(True)), val1 == sto(val, did, G(S, "dret")))),
            "unless they were refused": z3.Implies(z3.And(done, z3.Not(z3.And(took, G(S, "dret") != 0))), same(S, "localIdToCrawlIds")),
            "after the data the harvest goes on": z3.Implies(done, z3.And(F(S, "state") == HARVEST, quiet(S, "state", "copyDepth", "localIdToCrawlIds"))),
            "skipping ends with the skipped element": z3.Implies(p == UNKNOWN, z3.And(F(S, "unknownDepth") == F(P, "unknownDepth") - 1, F(S, "state") == z3.If(F(P, "unknownDepth") == 1, F(P, "prevState"), UNKNOWN), quiet(S, "unknownDepth", "state")))})
        return e
    end = Contract("my_endElement", nparams=2, setup=setup, params=params, pre=end_pre, post=end_post, mods=mods)

    # ---- characters
    def ch_pre(S):
        g = good(S, G(S, "D"), G(S, "lev"))
        g["that many characters"] = z3.And(S["len"] >= 0, S["len"] <= lib.slen(S["ch"].s))
        return g

    def ch_post(S):
        P = S.pre
        p, ct = F(P, "state"), F(P, "currentToken")
        e = good(S, D0(S), G(P, "lev"))
        txt = lib.ssub(P["ch"].s, z3.IntVal(0), P["len"])
        e.update({"text of an expression goes to the open element": TH(S, "_textContent") == z3.If(z3.And(p == EXPR, ct != 0), sto(TH(P, "_textContent"), ct, t.kept(sel(TH(P, "_textContent"), ct), P["ch"].s, P["len"])), TH(P, "_textContent")),
                  "text of the data is copied, escaped": z3.Implies(p == DATA, z3.And(G(S, "wn") == G(P, "wn") + 1, G(S, "wk") == sto(G(P, "wk"), G(P, "wn"), TEXT), sel(G(S, "wa"), G(P, "wn")) == esc(txt), G(S, "wa") == sto(G(P, "wa"), G(P, "wn"), esc(txt)))),
                  "other text is dropped": z3.Implies(p != DATA, nolog(S)),
                  "nothing else changes": z3.And(quiet(S), nocall(S), S.alloc == P.alloc, *[TH(S, f) == TH(P, f) for f in t.F if f != "_textContent"])})
        return e
    chars = Contract("my_characters", nparams=3, setup=setup, params=params, pre=ch_pre, post=ch_post, mods=mods)

    # ---- errors that do not end the document
    def err_post(S):
        P = S.pre
        p, ct, rt = F(P, "state"), F(P, "currentToken"), F(P, "currentTokenRoot")
        e = good(S, D0(S), G(P, "lev"))
        e.update({"the error is noted": F(S, "errorDetected"),
                  "an expression with an error is dropped with all its elements": z3.Implies(rt != 0, z3.And(F(S, "state") == UNKNOWN, F(S, "prevState") == EXPR, F(S, "unknownDepth") == D0(S) - 2, F(S, "currentToken") == 0, quiet(S, "state", "prevState", "unknownDepth", "currentToken", "currentTokenRoot"))),
                  "anything else is as before": z3.Implies(rt == 0, z3.And(quiet(S), S.alloc == P.alloc)), "nothing is processed": z3.And(nocall(S), nolog(S))})
        return e

    def err_inv(S):
        n, D = F(S, "unknownDepth"), G(S, "D")
        return {"elements counted so far": z3.And(0 <= n, n <= D - 2, S["token"] == z3.If(n < D - 2, sel(G(S, "lev"), D - 1 - n), 0), S.heap(U, "unknownDepth") == sto(S.pre.heap(U, "unknownDepth"), UD, n))}
    err = Contract("my_error", setup=setup, params=params, pre=lambda S: good(S, G(S, "D"), G(S, "lev")), post=err_post, mods=mods,
                   loops=[Loop(inv=err_inv, dec=lambda S: G(S, "D") - 2 - F(S, "unknownDepth"))])
    zero = lambda S: {"nothing open, nothing read": z3.And(S.fld("state") == DEFAULT, S.fld("currentToken") == 0, S.fld("currentTokenRoot") == 0, S.fld("parsedExpr") == 0)}
    ctor = Contract("MwsHarvest_SaxUserData::MwsHarvest_SaxUserData", nparams=0, setup=setup, post=zero, mods=lambda S: [S.fp(S.this, f) for f in fields])
    return t.cs + [ctor, setupw, down, pe, pd, start, end, chars, err]
