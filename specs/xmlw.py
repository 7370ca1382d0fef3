"""Model of libxml2's text writer: the elements, attributes and texts given to it so far (the attributes of a start tag in any order), and where its output goes."""
import z3
from sx import *


class Xml:
    def __init__(self, X):
        self.X, lib = X, X.lib
        I_, B_ = z3.IntSort(), z3.BoolSort()
        S_ = self.S_ = lib.strlit("x").sort()
        sel, sto = z3.Select, z3.Store
        D, V = z3.ArraySort(S_, B_), z3.ArraySort(S_, S_)
        self.none, self.nov = z3.K(S_, z3.BoolVal(False)), z3.K(S_, lib.strlit(""))
        L = self.L = z3.DeclareSort("XmlLog")
        self.start, self.end_, self.text_ = z3.Function("x_start", L, S_, D, V, L), z3.Function("x_end", L, L), z3.Function("x_text", L, S_, L)
        l = z3.Const("xl", L)
        X.axioms.append(z3.ForAll([l], self.text_(l, lib.strlit("")) == l, patterns=[self.text_(l, lib.strlit(""))]))
        self.sorts = dict(xlog=L, xpend=B_, xtag=S_, xdom=D, xval=V, xdepth=I_, xroot=B_)
        self.GH = list(self.sorts)
        self.MORE = ["xbuf", "xwr", "xstarted", "xended", "xflushed", "xbytes"]
        M = X.models
        OUT, WR = z3.Int("xml_out_buffer"), z3.Int("xml_writer")
        self.ctx = {}

        def put(st, **kw):
            for k, v in kw.items():
                st.ghost[k] = v
                st.wrote(("ghost", k))

        def ok(st):
            r = fresh("xr", I_)
            st.assume(z3.And(r >= 0, r < 1 << 30))
            return [(st, r)]

        def flush(st):
            put(st, xlog=self.flog(st), xpend=z3.BoolVal(False))

        def writer(f):
            def g(X_, st, this, args, fr, n):
                X.check(st, z3.And(X.rv(st, args[0]) == WR, st.ghost["xwr"] == 1), "the writer is open", n)
                f(st, args, n)
                return ok(st)
            return g

        def startdoc(st, a, n):
            X.check(st, z3.Not(st.ghost["xstarted"]), "the document is started once", n)
            put(st, xstarted=z3.BoolVal(True))

        def inside(st, n):
            g = st.ghost
            X.check(st, z3.And(g["xstarted"], z3.Not(g["xended"])), "output is inside the document", n)

        def startel(st, a, n):
            inside(st, n)
            g = st.ghost
            X.check(st, z3.Or(g["xdepth"] > 0, z3.Not(g["xroot"])), "one root element", n)
            flush(st)
            put(st, xpend=z3.BoolVal(True), xtag=lib.str_of(st, a[1]), xdom=self.none, xval=self.nov, xdepth=g["xdepth"] + 1, xroot=z3.BoolVal(True))

        def attr(st, a, n):
            inside(st, n)
            g = st.ghost
            k, v = lib.str_of(st, a[1]), lib.str_of(st, a[2])
            X.check(st, g["xpend"], "attributes are written in a start tag", n)
            X.check(st, z3.Not(sel(g["xdom"], k)), "no attribute twice", n)
            put(st, xdom=sto(g["xdom"], k, z3.BoolVal(True)), xval=sto(g["xval"], k, v))

        def string(st, a, n):
            inside(st, n)
            X.check(st, st.ghost["xdepth"] > 0, "text is inside an element", n)
            flush(st)
            put(st, xlog=self.text_(st.ghost["xlog"], lib.str_of(st, a[1])))

        def endel(st, a, n):
            inside(st, n)
            X.check(st, st.ghost["xdepth"] > 0, "an element is open", n)
            flush(st)
            put(st, xlog=self.end_(st.ghost["xlog"]), xdepth=st.ghost["xdepth"] - 1)

        def comment(st, a, n):
            inside(st, n)
            flush(st)

        def element(st, a, n):
            startel(st, a, n)
            string(st, [a[0], a[2]], n)
            endel(st, a, n)

        def enddoc(st, a, n):
            inside(st, n)
            X.check(st, z3.And(st.ghost["xdepth"] == 0, st.ghost["xroot"]), "the root element is complete", n)
            put(st, xended=z3.BoolVal(True))

        def out(st):
            b = fresh("xbytes", I_)
            st.assume(z3.And(b >= st.ghost["xbytes"], b < 1 << 31))
            put(st, xbytes=b)
            p = self.ctx["place"]
            X.write(st, p, b)

        def doflush(st, a, n):
            put(st, xflushed=z3.And(st.ghost["xended"]))
            out(st)
        M["xmlTextWriterStartDocument"] = writer(startdoc)
        M["xmlTextWriterStartElement"] = writer(startel)
        M["xmlTextWriterWriteAttribute"] = writer(attr)
        M["xmlTextWriterWriteString"] = writer(string)
        M["xmlTextWriterEndElement"] = M["xmlTextWriterFullEndElement"] = writer(endel)
        M["xmlTextWriterWriteComment"] = writer(comment)
        M["xmlTextWriterWriteElement"] = writer(element)
        M["xmlTextWriterEndDocument"] = writer(enddoc)
        M["xmlTextWriterFlush"] = writer(doflush)

        def create(X_, st, this, args, fr, n):
            f, c = X.rv(st, args[0]), X.rv(st, args[2])
            X.check(st, st.ghost["xbuf"] == 0, "one output buffer", n)
            if not isinstance(f, FnRef) or not isinstance(c, PtrP):
                raise Unsupported("output callback")
            X.check(st, z3.BoolVal(f.decl.get("name") == self.callback), "output goes to the function under contract", n)
            names = {x: t for x, t, w in X.so.rec_fields(c.place.ty)}
            X.check(st, X.read(st, c.place.f("file", names["file"])) == z3.Int("output!f"), "output goes to the stream given", n)
            X.check(st, X.read(st, c.place.f("total_bytes_written", names["total_bytes_written"])) == 0, "nothing is counted yet", n)
            self.ctx["place"] = c.place.f("total_bytes_written", names["total_bytes_written"])
            t = st.copy()
            put(st, xbuf=z3.IntVal(1))
            st.assume(OUT > 0)
            return [(st, OUT), (t, z3.IntVal(0))]
        M["xmlOutputBufferCreateIO"] = create

        def neww(X_, st, this, args, fr, n):
            X.check(st, z3.And(X.rv(st, args[0]) == OUT, st.ghost["xbuf"] == 1), "the writer gets the output buffer", n)
            t = st.copy()
            put(st, xbuf=z3.IntVal(2), xwr=z3.IntVal(1))
            st.assume(WR > 0)
            return [(st, WR), (t, z3.IntVal(0))]
        M["xmlNewTextWriter"] = neww

        def free(X_, st, this, args, fr, n):
            X.check(st, z3.And(X.rv(st, args[0]) == WR, st.ghost["xwr"] == 1), "the writer is released once", n)
            put(st, xwr=z3.IntVal(2), xbuf=z3.IntVal(3))
            out(st)
            return [(st, VOID)]
        M["xmlFreeTextWriter"] = free

        def close(X_, st, this, args, fr, n):
            X.check(st, z3.And(X.rv(st, args[0]) == OUT, st.ghost["xbuf"] == 1), "the buffer is released once", n)
            put(st, xbuf=z3.IntVal(3))
            return ok(st)
        M["xmlOutputBufferClose"] = close
        self.nolog = z3.Const("x_nothing", L)
        self.callback = "fileXmlOutputWriteCallback"
        self.WR = WR

        # the callback: everything goes to the stream
        def m_fwrite(X_, st, this, args, fr, n):
            s = lib.str_of(st, args[0])
            a, b, f = [X.rv(st, x) for x in args[1:4]]
            X.check(st, z3.And(s == z3.Const("data!s", S_), a * b == z3.Int("data_size!v"), f == z3.Int("ctxt_file!")), "the bytes given are written to the stream", n)
            r = fresh("fwrite", I_)
            st.assume(z3.And(r >= 0, r <= b))
            put(st, fw=st.ghost.get("fw", z3.IntVal(0)) + r)
            return [(st, r)]
        M["fwrite"] = m_fwrite

    def flog(self, st):
        g = st.ghost
        return z3.If(g["xpend"], self.start(g["xlog"], g["xtag"], g["xdom"], g["xval"]), g["xlog"])

    def attrs(self, **kw):
        d, v = self.none, self.nov
        for k, x in kw.items():
            k = self.X.lib.strlit(k.replace("__", ":"))
            d, v = z3.Store(d, k, z3.BoolVal(True)), z3.Store(v, k, x)
        return d, v

    def elem(self, log, tag, **kw):
        d, v = self.attrs(**kw)
        return self.start(log, self.X.lib.strlit(tag) if isinstance(tag, str) else tag, d, v)

    def setup(self, S):
        g = S.st.ghost
        g.update(xlog=self.nolog, xpend=z3.BoolVal(False), xtag=z3.Const("xtag0", self.S_), xdom=self.none, xval=self.nov, xdepth=z3.IntVal(0), xroot=z3.BoolVal(False))
        g.update(xbuf=z3.IntVal(0), xwr=z3.IntVal(0), xstarted=z3.BoolVal(False), xended=z3.BoolVal(False), xflushed=z3.BoolVal(False), xbytes=z3.IntVal(0))

    def mods(self, S):
        return [("ghost", k) for k in self.GH + self.MORE]

    def done(self, S, log):
        g = S.st.ghost
        return {"the document is complete and written": z3.Implies(S.ret >= 0, z3.And(g["xended"], g["xflushed"])),
                "it says what the answer set holds": z3.Implies(S.ret >= 0, g["xlog"] == log),
                "the number of bytes written is returned": z3.Implies(S.ret >= 0, S.ret == g["xbytes"]),
                "nothing is left open": z3.And(z3.Or(g["xbuf"] == 0, g["xbuf"] == 3), g["xwr"] != 1)}
