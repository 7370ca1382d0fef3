"""The HTTP service (Daemon.cpp, GenericHttpResponses.hpp): what each call of the access handler answers, with the body put
together in memory streams (open_memstream, fmemopen) and given to libmicrohttpd."""
import z3
import vals
vals.set_string_mode("seq")
from sx import *
from cast import I, Ty
TU = '''
#include "mws/daemon/Daemon.cpp"
'''
HEAP = ["MemStream", "Query", "ResponseFormatter", "CmmlToken", "QueryHandler", "SchemaQueryHandler", "GenericAnswer", "MHD_Response", "MHD_Connection", "MHD_Daemon", "_IO_FILE", "FILE"]
WRITING, RBUF, RFILE = range(3)
PERSISTENT, MUST_FREE, MUST_COPY = range(3)
INFO = '<?xml version="1.0"?>\n<mws:info xmlns:mws="http://search.mathweb.org/ns">%s</mws:info>'
# the streams, the buffers of the C library, the responses; then what was answered, read, asked and written
RES = ["fopen", "fc", "sbuf", "owned", "bcont", "live"]
RESP = ["rbody", "rhead", "rhas"]
REP = ["nrep", "conn", "status", "body", "head", "has", "queued"]
ASK = ["rq_n", "rq_text", "rq_mode", "rq_ret", "hq_n", "hq_by", "hq_query", "hq_ret", "wd_n", "wd_fmt", "wd_ans", "wd_text", "wd_ret", "ct_fmt"]
ALL = RES + RESP + REP + ASK


def contracts(X):
    so, lib = X.so, X.lib
    I_, B_ = z3.IntSort(), z3.BoolSort()
    STR = lib.strlit("x").sort()
    L = lib.strlit
    sel, sto = z3.Select, z3.Store
    IB, IS, SS, SB = z3.ArraySort(I_, B_), z3.ArraySort(I_, STR), z3.ArraySort(STR, STR), z3.ArraySort(STR, B_)
    SORT = {"fopen": IB, "fc": IS, "sbuf": z3.ArraySort(I_, I_), "owned": IB, "bcont": IS, "live": IB, "rbody": IS, "rhead": z3.ArraySort(I_, SS), "rhas": z3.ArraySort(I_, SB),
            "body": STR, "head": SS, "has": SB, "rq_text": STR, "wd_text": STR}
    TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
    ctype = z3.Function("content_type", I_, STR)
    isschema = z3.Function("is_schema_handler", I_, B_)

    def put_g(st, **kw):
        for q, v in kw.items():
            st.ghost[q] = v
            st.wrote(("ghost", q))
    G = lambda S, q: S.st.ghost[q]

    def setup(S):
        g = S.st.ghost
        for q in ALL:
            g[q] = z3.Const("g_" + q, SORT.get(q, I_))
        for q in ("nrep", "rq_n", "hq_n", "wd_n"):
            g[q] = z3.IntVal(0)
    M = X.models

    def mdl(name, f):
        M[name] = lambda X_, st, this, args, fr, n: f(st, this, [X.rv(st, q) if not isinstance(q, Place) else X.rv(st, q) for q in args], fr, n)

    def new(st, nm, used):
        r = fresh(nm, I_)
        st.assume(r > 0)
        st.assume(z3.Not(sel(st.ghost[used], r)))
        return r
    place = lambda p: p.place if isinstance(p, PtrP) else p

    # ---- the C library's streams
    def open_memstream(st, this, a, fr, n):
        f, b = new(st, "stream", "fopen"), new(st, "buffer", "owned")
        X.write(st, place(a[0]), b)
        X.write(st, place(a[1]), fresh("size", I_))
        g = st.ghost
        put_g(st, fopen=sto(g["fopen"], f, TRUE), fc=sto(g["fc"], f, L("")), sbuf=sto(g["sbuf"], f, b))
        return [(st, f)]

    def fclose(st, this, a, fr, n):
        f, g = a[0], st.ghost
        X.check(st, sel(g["fopen"], f), "fclose of an open stream", n)
        put_g(st, fopen=sto(g["fopen"], f, FALSE))
        o = fr.this if fr.this is not None and fr.this.ty.name == "MemStream" else None
        if o is None:
            raise Unsupported("a stream is closed outside MemStream")
        b = sel(g["sbuf"], f)
        obj = lambda nm: View(X, st, fr).fp(o, nm)
        mine = b > 0
        X.check(st, z3.Implies(mine, X.read(st, obj("_buffer")) == b), "the stream closed is the one of this object", n)
        put_g(st, owned=z3.If(mine, sto(g["owned"], b, TRUE), g["owned"]), bcont=z3.If(mine, sto(g["bcont"], b, sel(g["fc"], f)), g["bcont"]))
        X.write(st, obj("_buffer_size"), z3.If(mine, lib.slen(sel(g["fc"], f)), X.read(st, obj("_buffer_size"))))
        return [(st, fresh("closed", I_))]

    def cut(st, s, k):
        return z3.If(k == lib.slen(s), s, lib.ssub(s, z3.IntVal(0), k, st))

    def fmemopen(st, this, a, fr, n):
        b, k, g = a[0], a[1], st.ghost
        X.check(st, z3.And(sel(g["owned"], b), k <= lib.slen(sel(g["bcont"], b))), "fmemopen of a buffer and its size", n)
        X.check(st, lib.str_of(st, a[2]) == L("r"), "for reading", n)
        f = new(st, "stream", "fopen")
        put_g(st, fopen=sto(g["fopen"], f, TRUE), fc=sto(g["fc"], f, cut(st, sel(g["bcont"], b), k)), sbuf=sto(g["sbuf"], f, z3.IntVal(0)))
        return [(st, f)]

    def free(st, this, a, fr, n):
        b, g = a[0], st.ghost
        X.check(st, z3.Or(b == 0, sel(g["owned"], b)), "free of a buffer, once", n)
        put_g(st, owned=z3.If(b == 0, g["owned"], sto(g["owned"], b, FALSE)))
        return [(st, VOID)]

    def fwrite(st, this, a, fr, n):
        d, g = a[0], st.ghost
        if not isinstance(d, CStr):
            raise Unsupported("fwrite")
        k, f = a[1] * a[2] if not (z3.is_int_value(a[1]) and a[1].as_long() == 1) else a[2], a[3]
        X.check(st, k <= lib.slen(d.s), "no byte behind the data is written", n)
        X.check(st, sel(g["fopen"], f), "the stream is open", n)
        r = fresh("wrote", I_)
        st.assume(z3.And(0 <= r, r <= k))
        put_g(st, fc=sto(g["fc"], f, z3.Concat(sel(g["fc"], f), lib.ssub(d.s, z3.IntVal(0), r, st))))
        return [(st, r)]
    for nm, f in (("open_memstream", open_memstream), ("fclose", fclose), ("fmemopen", fmemopen), ("free", free), ("fwrite", fwrite)):
        mdl(nm, f)

    # ---- libmicrohttpd
    def data_of(st, v, n):
        return v.s if isinstance(v, CStr) else sel(st.ghost["bcont"], v)

    def response(st, size, data, mode, n):
        g = st.ghost
        d = data_of(st, data, n)
        X.check(st, z3.And(size >= 0, size <= lib.slen(d)), "no byte behind the data is sent", n)
        if isinstance(data, CStr):
            X.check(st, mode != MUST_FREE, "data that was not allocated is not freed", n)
        else:
            X.check(st, z3.And(z3.Or(size == 0, sel(g["owned"], data)), mode != PERSISTENT), "the buffer is there until it is sent", n)
            put_g(st, owned=z3.If(mode == MUST_FREE, sto(g["owned"], data, FALSE), g["owned"]))
        r = new(st, "response", "live")
        put_g(st, live=sto(g["live"], r, TRUE), rbody=sto(g["rbody"], r, cut(st, d, size)), rhead=sto(g["rhead"], r, z3.K(STR, L(""))), rhas=sto(g["rhas"], r, z3.K(STR, FALSE)))
        return [(st, r)]
    mdl("MHD_create_response_from_buffer", lambda st, this, a, fr, n: response(st, a[0], a[1], a[2], n))
    mdl("MHD_create_response_from_data", lambda st, this, a, fr, n: response(st, a[0], a[1], z3.If(X.tobool(st, a[2]), z3.IntVal(MUST_FREE), z3.If(X.tobool(st, a[3]), z3.IntVal(MUST_COPY), z3.IntVal(PERSISTENT))), n))

    def header(st, this, a, fr, n):
        g = st.ghost
        r, k, v = a[0], lib.str_of(st, a[1]), lib.str_of(st, a[2])
        X.check(st, sel(g["live"], r), "headers are added to a response", n)
        put_g(st, rhead=sto(g["rhead"], r, sto(sel(g["rhead"], r), k, v)), rhas=sto(g["rhas"], r, sto(sel(g["rhas"], r), k, TRUE)))
        return [(st, fresh("added", I_))]
    mdl("MHD_add_response_header", header)

    def queue(st, this, a, fr, n):
        g = st.ghost
        c, s, r = a
        X.check(st, sel(g["live"], r), "a response is queued", n)
        q = fresh("queued", I_)
        st.assume(z3.Or(q == 0, q == 1))
        put_g(st, nrep=g["nrep"] + 1, conn=c, status=s, body=sel(g["rbody"], r), head=sel(g["rhead"], r), has=sel(g["rhas"], r), queued=q)
        return [(st, q)]
    mdl("MHD_queue_response", queue)

    def destroy(st, this, a, fr, n):
        g = st.ghost
        X.check(st, sel(g["live"], a[0]), "a response is released, once", n)
        put_g(st, live=sto(g["live"], a[0], FALSE))
        return [(st, VOID)]
    mdl("MHD_destroy_response", destroy)

    # ---- reading the query, the handler, the formatter: any of them may do anything its result can tell
    newq = z3.Function("tokens_of_query", I_, I_)

    def readq(st, this, a, fr, n):
        g = st.ghost
        X.check(st, sel(g["fopen"], a[0]), "precondition of readMwsQuery: the stream is open", n, kind="pre")
        q = fresh("query", I_)
        st.assume(q >= 0)
        st.assume(z3.Or(q == 0, z3.Not(sel(st.alloc, q))))
        st.alloc = z3.If(q == 0, st.alloc, sto(st.alloc, q, TRUE))
        st.wrote(("alloc",))
        put_g(st, rq_n=g["rq_n"] + 1, rq_text=sel(g["fc"], a[0]), rq_mode=a[1], rq_ret=q)
        return [(st, q)]
    mdl("readMwsQuery", readq)
    M["mws::xmlparser::readMwsQuery"] = M["readMwsQuery"]

    def may_throw(st):
        t = st.copy()
        X.pending.append(t)
        return t

    def handle(st, this, a, fr, n):
        g = st.ghost
        h = this.root[2] if isinstance(this, Place) else this
        X.check(st, h > 0, "precondition of handleQuery: there is a handler", n, kind="pre")
        X.check(st, z3.And(a[0] > 0, lib_len(st, a[0]) > 0), "precondition of handleQuery: a query with expressions", n, kind="pre")
        t = may_throw(st)
        put_g(t, hq_n=g["hq_n"] + 1, hq_by=h, hq_query=a[0], hq_ret=z3.IntVal(0))
        r = fresh("answer", I_)
        st.assume(r >= 0)
        st.assume(z3.Or(r == 0, z3.Not(sel(st.alloc, r))))
        st.alloc = z3.If(r == 0, st.alloc, sto(st.alloc, r, TRUE))
        st.wrote(("alloc",))
        put_g(st, hq_n=g["hq_n"] + 1, hq_by=h, hq_query=a[0], hq_ret=r)
        f = X.heaparr(st, "Query", "responseFormatter")
        fm = fresh("formatter", I_)
        st.assume(fm > 0)
        X.write(st, Place(("H", "Query", a[0]), (), Ty("rec", "Query", [])).f("responseFormatter", Ty("ptr", to=Ty("rec", "ResponseFormatter", []))), fm)
        return [(st, r)]

    def lib_len(st, q):
        return so.vec_len(sel(X.heaparr(st, "Query", "tokens"), q))
    mdl("mws::daemon::QueryHandler::handleQuery", handle)
    fmt = lambda S, q: sel(S.heap("Query", "responseFormatter"), q)

    def write(st, this, a, fr, n):
        g = st.ghost
        w = this.root[2] if isinstance(this, Place) else this
        X.check(st, sel(g["fopen"], a[1]), "precondition of writeData: the stream is open", n, kind="pre")
        X.check(st, a[0] > 0, "precondition of writeData: there is an answer", n, kind="pre")
        for s, bad in ((may_throw(st), True), (st, False)):
            t, r = fresh("document", STR), fresh("written", I_)
            s.assume(z3.And(r >= -(1 << 31), r < 1 << 31))
            put_g(s, fc=sto(g["fc"], a[1], z3.Concat(sel(g["fc"], a[1]), t)), wd_n=g["wd_n"] + 1, wd_fmt=w, wd_ans=a[0], wd_text=t, wd_ret=z3.IntVal(-1) if bad else r)
        return [(st, r)]
    mdl("mws::types::Query::ResponseFormatter::writeData", write)

    def gct(st, this, a, fr, n):
        w = this.root[2] if isinstance(this, Place) else this
        return [(st, CStr(ctype(w)))]
    mdl("mws::types::Query::ResponseFormatter::getContentType", gct)
    mdl("std::exception::what", lambda st, this, a, fr, n: [(st, CStr(fresh("what", STR)))])
    M["dynamic_cast:SchemaQueryHandler"] = lambda X_, st, v: z3.If(isschema(v), v, z3.IntVal(0))

    # ---- what the answers are
    nothing_else = lambda S: z3.And([G(S, q) == G(S.pre, q) for q in ("fopen", "owned", "live", "bcont")])
    hdr = lambda S, k: sel(G(S, "head"), L(k))
    has = lambda S, k: sel(G(S, "has"), L(k))

    def reply(S, status, body, ct=None):
        e = {"one response": G(S, "nrep") == G(S.pre, "nrep") + 1, "to this connection": G(S, "conn") == S["connection"], "its status": G(S, "status") == status, "its body": G(S, "body") == body,
             "whether it was accepted is told": S.ret == G(S, "queued")}
        if ct is not None:
            e["its type"] = z3.And(has(S, "Content-Type"), hdr(S, "Content-Type") == ct)
        return e
    allowed = lambda g: z3.If(g, L("GET, POST, OPTIONS"), L("POST, OPTIONS"))
    bl = lambda S, nm: S[nm]

    def options(S, g):
        return dict(reply(S, 200, L("")), **{"the methods allowed": z3.And(has(S, "Access-Control-Allow-Methods"), hdr(S, "Access-Control-Allow-Methods") == allowed(g)),
                                             "from everywhere": z3.And(has(S, "Access-Control-Allow-Origin"), hdr(S, "Access-Control-Allow-Origin") == L("*")),
                                             "requests may have a type": z3.And(has(S, "Access-Control-Allow-Headers"), hdr(S, "Access-Control-Allow-Headers") == L("CONTENT-TYPE"))})

    def denied(S, g):
        return dict(reply(S, 405, L(INFO % "Method not allowed"), L("text/xml")), **{"the methods allowed": z3.And(has(S, "Allow"), hdr(S, "Allow") == allowed(g))})
    MODS = lambda S: [("ghost", q) for q in RESP + REP + ["live"]]
    keep = lambda S: {"nothing is kept": nothing_else(S)}
    gen = Contract("sendXmlGenericResponse", setup=setup, pre=lambda S: {"a status": S["statusCode"] >= 0}, mods=MODS, post=lambda S: dict(reply(S, S["statusCode"], lib.str_of(S.st, S["xmlGenericResponse"]), L("text/xml")), **keep(S)))
    opt = Contract("sendOptionsResponse", setup=setup, mods=MODS, post=lambda S: dict(options(S, S["allowGet"]), **keep(S)))
    den = Contract("sendMethodNotAllowedResponse", setup=setup, mods=MODS, post=lambda S: dict(denied(S, S["allowGet"]), **keep(S)))

    # ---- the memory streams
    fld = lambda S, nm, p=None: S.rd(p if p is not None else S.this, nm)

    def writing(S, p=None):
        i, b = fld(S, "_input", p), fld(S, "_buffer", p)
        return z3.And(fld(S, "_mode", p) == WRITING, i > 0, sel(G(S, "fopen"), i), sel(G(S, "sbuf"), i) == b, b > 0, z3.Not(sel(G(S, "owned"), b)), fld(S, "_output", p) == 0)

    def closed(S, p=None):
        """writing has ended, the buffer holds what was written"""
        b = fld(S, "_buffer", p)
        return z3.And(fld(S, "_input", p) == 0, b > 0, sel(G(S, "owned"), b), fld(S, "_buffer_size", p) == lib.slen(sel(G(S, "bcont"), b)))

    def valid(S, p=None):
        b, o = fld(S, "_buffer", p), fld(S, "_output", p)
        return z3.Or(writing(S, p), z3.And(fld(S, "_mode", p) == RBUF, fld(S, "_input", p) == 0, o == 0, z3.Or(b == 0, sel(G(S, "owned"), b))),
                     z3.And(fld(S, "_mode", p) == RFILE, fld(S, "_input", p) == 0, o > 0, sel(G(S, "fopen"), o), sel(G(S, "sbuf"), o) == 0, b > 0, sel(G(S, "owned"), b)))
    content = lambda S, p=None: sel(G(S, "fc"), fld(S, "_input", p))
    F = lambda S, *fs: [S.fp(S.this, f) for f in fs]
    gm = lambda *q: [("ghost", x) for x in q]
    W0 = lambda S: S.pre
    f0 = lambda S, nm: S.pre.rd(S.this, nm)
    SIX = ("_mode", "_buffer", "_buffer_size", "_input", "_output")

    def ctor_post(S):
        i, b = fld(S, "_input"), fld(S, "_buffer")
        return {"ready for writing": writing(S), "nothing written": content(S) == L(""), "a new stream": z3.And(z3.Not(sel(G(S.pre, "fopen"), i)), z3.Not(sel(G(S.pre, "owned"), b))),
                "nothing else": z3.And(G(S, "fopen") == sto(G(S.pre, "fopen"), i, TRUE), G(S, "fc") == sto(G(S.pre, "fc"), i, L("")), G(S, "sbuf") == sto(G(S.pre, "sbuf"), i, b))}
    ctor = Contract("MemStream::MemStream", setup=setup, mods=lambda S: [S.this] + gm("fopen", "fc", "sbuf") if S.this.root[0] != "H" else F(S, *SIX) + gm("fopen", "fc", "sbuf"), post=ctor_post)

    def end_input(S):
        """the effect of ending the writing: the stream is closed, the buffer belongs to the object"""
        i, b = f0(S, "_input"), f0(S, "_buffer")
        return {"the stream for writing is closed": z3.And(fld(S, "_input") == 0, G(S, "owned") == sto(G(S.pre, "owned"), b, TRUE) if True else TRUE)}

    cwm = Contract("MemStream::closeWritingMode", setup=setup, pre=lambda S: {"writing": writing(S)}, mods=lambda S: F(S, "_buffer_size", "_input") + gm("fopen", "owned", "bcont"),
                   post=lambda S: {"closed": closed(S), "what was written is there": sel(G(S, "bcont"), fld(S, "_buffer")) == content(S.pre),
                                   "nothing else": z3.And(G(S, "fopen") == sto(G(S.pre, "fopen"), f0(S, "_input"), FALSE), G(S, "owned") == sto(G(S.pre, "owned"), f0(S, "_buffer"), TRUE),
                                                          G(S, "bcont") == sto(G(S.pre, "bcont"), f0(S, "_buffer"), content(S.pre)))})
    crm = Contract("MemStream::closeReadingFileMode", setup=setup, pre=lambda S: {"reading": z3.And(valid(S), fld(S, "_mode") == RFILE)}, mods=lambda S: F(S, "_output", "_buffer_size") + gm("fopen", "owned", "bcont"),
                   post=lambda S: {"closed": fld(S, "_output") == 0, "nothing else": z3.And(G(S, "fopen") == sto(G(S.pre, "fopen"), f0(S, "_output"), FALSE), G(S, "owned") == G(S.pre, "owned"), G(S, "bcont") == G(S.pre, "bcont"))})
    gin = Contract("MemStream::getInput", setup=setup, mods=lambda S: [], post=lambda S: {"the stream for writing": S.ret == fld(S, "_input")})
    gof = Contract("MemStream::getOutputFile", setup=setup, pre=lambda S: {"writing": writing(S)}, mods=lambda S: F(S, *SIX) + gm("fopen", "owned", "bcont", "fc", "sbuf"),
                   post=lambda S: {"a stream with what was written": z3.And(S.ret == fld(S, "_output"), sel(G(S, "fopen"), S.ret), sel(G(S, "fc"), S.ret) == content(S.pre)), "valid": z3.And(valid(S), fld(S, "_mode") == RFILE, fld(S, "_buffer") == f0(S, "_buffer")),
                                   "nothing else": z3.And(z3.Not(sel(sto(G(S.pre, "fopen"), f0(S, "_input"), FALSE), S.ret)), G(S, "fopen") == sto(sto(G(S.pre, "fopen"), f0(S, "_input"), FALSE), S.ret, TRUE),
                                                          G(S, "owned") == sto(G(S.pre, "owned"), f0(S, "_buffer"), TRUE), G(S, "bcont") == sto(G(S.pre, "bcont"), f0(S, "_buffer"), content(S.pre)))})
    BT = "mws::daemon::MemStream::Buffer"

    def buf_post(S):
        r = S.ret
        return {"what was written": z3.And(r.f["data"] == f0(S, "_buffer"), sel(G(S, "owned"), r.f["data"]), sel(G(S, "bcont"), r.f["data"]) == content(S.pre), r.f["size"] == lib.slen(content(S.pre))),
                "valid": z3.And(valid(S), fld(S, "_mode") == RBUF),
                "nothing else": z3.And(G(S, "fopen") == sto(G(S.pre, "fopen"), f0(S, "_input"), FALSE), G(S, "owned") == sto(G(S.pre, "owned"), f0(S, "_buffer"), TRUE), G(S, "bcont") == sto(G(S.pre, "bcont"), f0(S, "_buffer"), content(S.pre)))}
    bmods = lambda S: F(S, *SIX) + gm("fopen", "owned", "bcont")
    gob = Contract("MemStream::getOutputBuffer", setup=setup, pre=lambda S: {"writing": writing(S)}, mods=bmods, post=lambda S: dict(buf_post(S), **{"kept": fld(S, "_buffer") == f0(S, "_buffer")}))
    rob = Contract("MemStream::releaseOutputBuffer", setup=setup, pre=lambda S: {"writing": writing(S)}, mods=bmods, post=lambda S: dict(buf_post(S), **{"given away": fld(S, "_buffer") == 0}))

    def dtor_post(S):
        b, i, o = f0(S, "_buffer"), f0(S, "_input"), f0(S, "_output")
        P = S.pre
        fo = z3.If(i > 0, sto(G(P, "fopen"), i, FALSE), G(P, "fopen"))
        return {"its streams are closed": G(S, "fopen") == z3.If(o > 0, sto(fo, o, FALSE), fo), "its buffer is released": G(S, "owned") == z3.If(b > 0, sto(G(P, "owned"), b, FALSE), G(P, "owned"))}
    dtor = Contract("MemStream::~MemStream", setup=setup, pre=lambda S: {"valid": valid(S)}, mods=bmods, post=dtor_post)

    # ---- the access handler
    STREAM = z3.Int("ptr!s")
    UP = z3.Const("upload!d", STR)
    voidp = Ty("ptr", to=Ty("void"))

    def h_ptr(X_, st, fr, ty):
        st.assume(STREAM >= 0)
        return PtrP(X.temp(st, STREAM, ty.to))

    def h_size(X_, st, fr, ty):
        v = z3.Int("upload!n")
        st.assume(z3.And(v >= 0, v < 1 << 63))
        return PtrP(X.temp(st, v, ty.to))
    OBJ = lambda r: Place(("H", "MemStream", r), (), Ty("rec", "MemStream", []))
    sz = lambda S: X.read(S.st, S.deref("upload_data_size"))
    pt = lambda S: X.read(S.st, S.deref("ptr"))
    s_ = lambda S, nm: lib.str_of(S.st, S.pre[nm])
    post_ = lambda S: s_(S, "method") == L("POST")

    def acc_pre(S):
        return {"the data of a request are a memory stream that is written": z3.Implies(STREAM > 0, z3.And(sel(S.alloc, STREAM), writing(S, OBJ(STREAM)))), "a piece of the body": sz(S) <= lib.slen(UP),
                "there is a handler": S["cls"] > 0, "handlers are no streams": S["cls"] != STREAM}

    def acc_post(S):
        P = S.pre
        m, u = s_(S, "method"), s_(S, "url")
        root = u == L("/")
        isopt, isget, ispost = m == L("OPTIONS"), z3.And(m == L("GET"), root), m == L("POST")
        first = z3.And(ispost, STREAM == 0)
        n0 = z3.Int("upload!n")
        piece = z3.And(ispost, STREAM > 0, n0 > 0)
        full = z3.And(ispost, STREAM > 0, n0 == 0)
        e = {}

        def case(name, c, d):
            for k_, v in d.items():
                e["%s: %s" % (name, k_)] = z3.Implies(c, v)
        quiet = z3.And(G(S, "nrep") == 0, G(S, "rq_n") == 0, G(S, "hq_n") == 0)
        other = {"no query is read or asked": z3.And(G(S, "rq_n") == 0, G(S, "hq_n") == 0), "nothing is kept": z3.And(nothing_else(S), pt(S) == STREAM)}
        case("OPTIONS", isopt, dict(options(S, root), **other))
        case("GET /", isget, dict(reply(S, 200, L(INFO % "MathWebSearch Daemon listening"), L("text/xml")), **other))
        case("other methods", z3.And(z3.Not(isopt), z3.Not(isget), z3.Not(ispost)), dict(denied(S, root), **other))
        N = OBJ(pt(S))
        case("a request begins", first, {"goes on": S.ret == 1, "its data are an empty stream": z3.And(pt(S) > 0, sel(S.alloc, pt(S)), writing(S, N), content(S, N) == L("")), "nothing is answered yet": quiet})
        T = OBJ(STREAM)
        case("a piece of the body", piece, {"nothing is answered yet": quiet, "the stream stays": z3.And(pt(S) == STREAM, writing(S, T)),
                                            "the whole piece is added, or the request given up": z3.Or(S.ret == 0, z3.And(S.ret == 1, sz(S) == 0, content(S, T) == z3.Concat(content(P, T), lib.ssub(UP, z3.IntVal(0), n0, S.st))))})
        q, a = G(S, "rq_ret"), G(S, "hq_ret")
        empty = z3.Or(q == 0, so.vec_len(sel(S.heap("Query", "tokens"), q)) == 0)
        case("the body is complete", full, {"the query is read from the whole body, once": z3.And(G(S, "rq_n") == 1, G(S, "rq_text") == content(P, T), G(S, "rq_mode") == z3.If(isschema(S["cls"]), QM["QUERY_SCHEMA"], QM["QUERY_MWS"])),
                                            "the stream is released": z3.And(pt(S) == 0, z3.Or(z3.Not(sel(S.alloc, STREAM)), G(S, "rq_ret") == STREAM, G(S, "hq_ret") == STREAM)),
                                            "streams are closed": G(S, "fopen") == sto(G(P, "fopen"), fld(P, "_input", T), FALSE), "buffers are released": G(S, "owned") == G(P, "owned"), "responses are released": G(S, "live") == G(P, "live")})
        case("no query, or none that asks anything", z3.And(full, empty), dict(reply(S, 400, L(INFO % "Bad query request"), L("text/xml")), **{"the handler is not asked": G(S, "hq_n") == 0}))
        asked = z3.And(full, z3.Not(empty))
        case("a query", asked, {"the handler is asked, once": z3.And(G(S, "hq_n") == 1, G(S, "hq_by") == S["cls"], G(S, "hq_query") == q)})
        case("no answer", z3.And(asked, a == 0), dict(reply(S, 500, L(INFO % "Server error"), L("text/xml")), **{"nothing is written": G(S, "wd_n") == 0}))
        ans = z3.And(asked, a > 0)
        case("an answer", ans, {"the formatter of the query writes it, once": z3.And(G(S, "wd_n") == 1, G(S, "wd_fmt") == fmt(S, q), G(S, "wd_ans") == a)})
        case("an answer that cannot be written", z3.And(ans, G(S, "wd_ret") < 0), reply(S, 500, L(INFO % "Server error"), L("text/xml")))
        case("an answer that is written", z3.And(ans, G(S, "wd_ret") >= 0), dict(reply(S, 200, G(S, "wd_text"), ctype(fmt(S, q))), **{"from everywhere": z3.And(has(S, "Access-Control-Allow-Origin"), hdr(S, "Access-Control-Allow-Origin") == L("*"))}))
        return e
    QM = {"QUERY_MWS": z3.IntVal(X.u.enums["QUERY_MWS"]) if hasattr(X.u, "enums") and "QUERY_MWS" in X.u.enums else z3.IntVal(0), "QUERY_SCHEMA": z3.IntVal(1)}

    def body_inv(S):
        T = OBJ(STREAM)
        n0 = z3.Int("upload!n")
        E = S.loop_entry()
        up = lib.str_of(S.st, S["upload_data"])
        done = n0 - sz(S)
        return {"position": z3.And(sz(S) >= 0, sz(S) <= n0), "what is left": up == lib.ssub(UP, done, lib.slen(UP) - done, S.st), "the stream": z3.And(writing(S, T), STREAM > 0, pt(S) == STREAM),
                "what is done": content(S, T) == z3.Concat(content(E, T), lib.ssub(UP, z3.IntVal(0), done, S.st))}
    acc = Contract("accessHandlerCallback", setup=setup, pre=acc_pre, post=acc_post,
                   params={"ptr": h_ptr, "upload_data_size": h_size, "upload_data": lambda X_, st, fr, ty: CStr(UP)},
                   mods=lambda S: [S.deref("ptr"), S.deref("upload_data_size"), ("alloc",)] + [("heap", "MemStream", f) for f in SIX] + [("heap", "Query", "responseFormatter")] + gm(*ALL),
                   loops=[Loop(inv=body_inv, dec=lambda S: sz(S), ghost=["fc"])])

    done = Contract("requestCompletedCallback", setup=setup, pre=lambda S: {"the data of a request are a memory stream": z3.Implies(STREAM > 0, z3.And(sel(S.alloc, STREAM), valid(S, OBJ(STREAM))))}, params={"ptr": h_ptr},
                    mods=lambda S: [S.deref("ptr"), ("alloc",)] + [("heap", "MemStream", f) for f in SIX] + gm(*RES),
                    post=lambda S: {"no data are left": z3.And(pt(S) == 0, S.alloc == z3.If(STREAM > 0, sto(S.pre.alloc, STREAM, FALSE), S.pre.alloc)),
                                    "its streams are closed": G(S, "fopen") == z3.If(STREAM > 0, (lambda T: (lambda fo: z3.If(fld(S.pre, "_output", T) > 0, sto(fo, fld(S.pre, "_output", T), FALSE), fo))(z3.If(fld(S.pre, "_input", T) > 0, sto(G(S.pre, "fopen"), fld(S.pre, "_input", T), FALSE), G(S.pre, "fopen"))))(OBJ(STREAM)), G(S.pre, "fopen")),
                                    "its buffer is released": G(S, "owned") == (lambda b: z3.If(z3.And(STREAM > 0, b > 0), sto(G(S.pre, "owned"), b, FALSE), G(S.pre, "owned")))(fld(S.pre, "_buffer", OBJ(STREAM)))})

    # ---- starting and stopping
    running = z3.Const("g_running", IB)

    def start(st, this, a, fr, n):
        g = st.ghost
        X.check(st, z3.BoolVal(isinstance(a[4], (FnRef, OpaqueFn))), "requests are handled by a function", n)
        d = fresh("daemon", I_)
        st.assume(z3.And(d >= 0, z3.Not(sel(g["running"], d))))
        put_g(st, running=z3.If(d > 0, sto(g["running"], d, TRUE), g["running"]), port=a[1], cls=a[5])
        return [(st, d)]

    def stop(st, this, a, fr, n):
        X.check(st, sel(st.ghost["running"], a[0]), "a service that runs is stopped", n)
        put_g(st, running=sto(st.ghost["running"], a[0], FALSE))
        return [(st, VOID)]
    mdl("MHD_start_daemon", start)
    mdl("MHD_stop_daemon", stop)
    for nm in ("common::utils::formattedString", "formattedString"):
        mdl(nm, lambda st, this, a, fr, n: [(st, fresh("text", STR))])

    def d_setup(S):
        setup(S)
        S.st.ghost.update(running=running, port=z3.Int("g_port"), cls=z3.Int("g_cls"))
    DG = gm("running", "port", "cls")
    PORT = z3.Int("config!port")

    def h_cfg(X_, st, fr, ty):
        t = ty.to if ty.k == "ref" else ty
        st.assume(z3.And(PORT >= 0, PORT < 1 << 16))
        return X.temp(st, StructV(t, {"port": PORT, "enableIpv6": z3.Bool("config!v6")}), t)
    dctor = Contract("Daemon::Daemon", setup=d_setup, sig="QueryHandler", params={"config": h_cfg}, mods=lambda S: [S.this] + DG, throws=lambda S: {"only without a handler, or when the service cannot be started": z3.Or(S.pre["queryHandler"] == 0, G(S, "running") == G(S.pre, "running"))},
                     post=lambda S: {"a service runs": z3.And(fld(S, "_mhd") > 0, sel(G(S, "running"), fld(S, "_mhd"))), "on the port of the configuration": G(S, "port") == PORT,
                                     "it asks the handler, which it owns": z3.And(S.pre["queryHandler"] > 0, G(S, "cls") == S.pre["queryHandler"], fld(S, "_queryHandler") == S.pre["queryHandler"])})
    ddtor = Contract("Daemon::~Daemon", setup=d_setup, pre=lambda S: {"a service": z3.Implies(fld(S, "_mhd") != 0, sel(G(S, "running"), fld(S, "_mhd")))}, mods=lambda S: [S.this] + DG,
                     post=lambda S: {"the service is stopped": z3.Not(z3.And(f0(S, "_mhd") != 0, sel(G(S, "running"), f0(S, "_mhd"))))})
    return [gen, opt, den, ctor, cwm, crm, gin, gof, gob, rob, dtor, acc, done, dctor, ddtor]
