"""Model of json-c as the response formatters use it: values with identity in a heap of their own, and the text printed of one of them."""
import z3
from sx import *
OBJ, ARR, INT, STR = 1, 2, 3, 4
MAPS = ["jk", "jint", "jstr", "jdom", "jval", "jlen", "jel", "jown"]
GH = MAPS + ["jn"]


class Json:
    def __init__(self, X):
        self.X, lib = X, X.lib
        I_, B_ = z3.IntSort(), z3.BoolSort()
        S_ = self.S_ = lib.strlit("x").sort()
        A = z3.ArraySort
        self.sorts = dict(jk=A(I_, I_), jint=A(I_, I_), jstr=A(I_, S_), jdom=A(I_, A(S_, B_)), jval=A(I_, A(S_, I_)), jlen=A(I_, I_), jel=A(I_, A(I_, I_)), jown=A(I_, B_), jn=I_)
        self.none = z3.K(S_, z3.BoolVal(False))
        sel, sto = z3.Select, z3.Store
        M = X.models

        def new(kind, **kw):
            def f(X_, st, this, args, fr, n):
                g = st.ghost
                i = g["jn"]
                vals_ = dict(jk=z3.IntVal(kind), jown=z3.BoolVal(False))
                for k, h in kw.items():
                    vals_[k] = h(st, args) if callable(h) else h
                for k, v in vals_.items():
                    g[k] = sto(g[k], i, v)
                    st.wrote(("ghost", k))
                g["jn"] = i + 1
                st.wrote(("ghost", "jn"))
                return [(st, i)]
            return f
        M["json_object_new_object"] = new(OBJ, jdom=self.none)
        M["json_object_new_array"] = new(ARR, jlen=z3.IntVal(0))
        M["json_object_new_array_ext"] = M["json_object_new_array"]
        M["json_object_new_int"] = M["json_object_new_int64"] = M["json_object_new_uint64"] = new(INT, jint=lambda st, a: X.rv(st, a[0]))
        M["json_object_new_string"] = new(STR, jstr=lambda st, a: lib.str_of(st, a[0]))

        def own(st, v, n):
            g = st.ghost
            X.check(st, z3.And(v > 0, v < g["jn"], z3.Not(sel(g["jown"], v))), "a value is put in one place only", n)
            g["jown"] = sto(g["jown"], v, z3.BoolVal(True))
            st.wrote(("ghost", "jown"))

        def done(st, n):
            t = X.u.ty(n)
            return [(st, VOID if t.k == "void" else z3.IntVal(0))]

        def add(X_, st, this, args, fr, n):
            g = st.ghost
            o, v, k = X.rv(st, args[0]), X.rv(st, args[2]), lib.str_of(st, args[1])
            X.check(st, z3.And(o > 0, sel(g["jk"], o) == OBJ), "members are added to objects", n)
            X.check(st, z3.Not(sel(sel(g["jdom"], o), k)), "every member of an object has a name of its own", n)
            own(st, v, n)
            g["jdom"] = sto(g["jdom"], o, sto(sel(g["jdom"], o), k, z3.BoolVal(True)))
            g["jval"] = sto(g["jval"], o, sto(sel(g["jval"], o), k, v))
            for x in ("jdom", "jval"):
                st.wrote(("ghost", x))
            return done(st, n)
        M["json_object_object_add"] = add

        def aadd(X_, st, this, args, fr, n):
            g = st.ghost
            o, v = X.rv(st, args[0]), X.rv(st, args[1])
            X.check(st, z3.And(o > 0, sel(g["jk"], o) == ARR), "elements are added to arrays", n)
            own(st, v, n)
            L = sel(g["jlen"], o)
            g["jel"] = sto(g["jel"], o, sto(sel(g["jel"], o), L, v))
            g["jlen"] = sto(g["jlen"], o, L + 1)
            for x in ("jel", "jlen"):
                st.wrote(("ghost", x))
            return done(st, n)
        M["json_object_array_add"] = aadd

        def text(X_, st, this, args, fr, n):
            g = st.ghost
            d = X.rv(st, args[0])
            X.check(st, d > 0, "a value is printed", n)
            for k in GH:
                g["p_" + k] = g[k]
                st.wrote(("ghost", "p_" + k))
            g["p_doc"] = d
            t = fresh("json_text", S_)
            st.assume(lib.slen(t) >= 2)
            st.assume(lib.slen(t) < 1 << 31)
            g["p_text"] = t
            for k in ("p_doc", "p_text"):
                st.wrote(("ghost", k))
            return [(st, CStr(t))]
        M["json_object_to_json_string"] = M["json_object_to_json_string_ext"] = text

        def put(X_, st, this, args, fr, n):
            g = st.ghost
            d = X.rv(st, args[0])
            X.check(st, z3.And(d == g["p_doc"], z3.Not(sel(g["jown"], d))), "the printed document is released, once", n)
            g["jown"] = sto(g["jown"], d, z3.BoolVal(True))
            st.wrote(("ghost", "jown"))
            return done(st, n)
        M["json_object_put"] = put

        def fwrite(X_, st, this, args, fr, n):
            g = st.ghost
            s = lib.str_of(st, args[0])
            a, b, f = [X.rv(st, x) for x in args[1:4]]
            X.check(st, z3.And(s == g["p_text"], a * b == lib.slen(s) if not (z3.is_int_value(a) or z3.is_int_value(b)) else (a * b) == lib.slen(s)), "all of the text is written", n)
            X.check(st, f == z3.Int("output!f"), "to the stream given", n)
            X.check(st, g["written"] == 0, "once", n)
            g["written"] = z3.IntVal(1)
            st.wrote(("ghost", "written"))
            return [(st, b)]
        M["fwrite"] = fwrite
        M["fputs"] = None
        del M["fputs"]

    def setup(self, S):
        g = S.st.ghost
        for k in GH:
            for p in ("", "p_"):
                g[p + k] = z3.Const(p + k + "0", self.sorts[k])
        g["p_doc"], g["p_text"], g["written"] = z3.IntVal(0), z3.Const("p_text0", self.S_), z3.IntVal(0)
        S.st.assume(g["jn"] > 0)

    # ---- reading a state (p: of the document as it was printed)
    def at(self, S, p="", lo=1):
        X, lib = self.X, self.X.lib
        sel, sto = z3.Select, z3.Store
        g = S.st.ghost
        J = type("J", (), {})()
        G = lambda k: g[p + k]
        J.G = G
        J.new = lambda v: z3.And(v >= lo, v < G("jn"))
        J.isint = lambda v, x: z3.And(J.new(v), sel(G("jk"), v) == INT, sel(G("jint"), v) == x)
        J.isstr = lambda v, s: z3.And(J.new(v), sel(G("jk"), v) == STR, sel(G("jstr"), v) == s)
        J.get = lambda v, k: sel(sel(G("jval"), v), lib.strlit(k))
        J.el = lambda v, i: sel(sel(G("jel"), v), i)
        J.len = lambda v: sel(G("jlen"), v)
        J.isarr = lambda v: z3.And(J.new(v), sel(G("jk"), v) == ARR)

        def isobj(v, *keys):
            d = self.none
            for k in keys:
                d = sto(d, lib.strlit(k), z3.BoolVal(True))
            return z3.And(J.new(v), sel(G("jk"), v) == OBJ, sel(G("jdom"), v) == d)
        J.isobj = isobj
        return J

    def every(self, J, arr, n, pred, lo=None):
        """the elements of an array: n of them, pred(e, k) of each; lo: all are new since"""
        k = fresh("jk", z3.IntSort())
        e = J.el(arr, k)
        c = pred(e, k)
        if lo is not None:
            c = z3.And(c, e >= lo)
        return z3.And(J.isarr(arr), J.len(arr) == n, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), c), patterns=[e]))

    def frame(self, S, L, *targets):
        """values that existed when the loop began are as they were, but for the arrays it fills"""
        i = z3.Int("jf!")
        n0 = L.st.ghost["jn"]
        out = {"values are numbered": S.st.ghost["jn"] >= n0}
        for m in MAPS:
            a, b = S.st.ghost[m], L.st.ghost[m]
            ex = [i != t for t in targets] if m in ("jel", "jlen") else []
            out["older values: " + m] = z3.ForAll([i], z3.Implies(z3.And(i > 0, i < n0, *ex), z3.Select(a, i) == z3.Select(b, i)), patterns=[z3.Select(a, i)])
        return out

    def loop(self, local, pred, n):
        """the loop that fills the array held by a local variable"""
        def inv(S):
            L = S.loop_entry()
            t = S.z(local)
            J = self.at(S)
            e = {"an array": z3.And(t == L.z(local), t > 0, t < L.st.ghost["jn"], z3.Select(L.st.ghost["jk"], t) == ARR, L.st.ghost["jlen"][t] == 0)}
            e["position"] = z3.And(0 <= S.k, S.k <= n(S))
            e.update(self.frame(S, L, t))
            jn = L.st.ghost["jn"]
            q = pred(S, self.at(S, "", jn))
            for lab, f in (q.items() if isinstance(q, dict) else [("all of them", q)]):
                e["the elements so far: " + lab] = self.every(J, t, S.k, f, lo=jn)
            return e
        return Loop(inv=inv, ghost=GH)

    def written(self, S):
        return {"the document is written, once": S.st.ghost["written"] == 1, "and its size returned": S.ret == self.X.lib.slen(S.st.ghost["p_text"])}

    def mods(self, S):
        return [("ghost", k) for k in GH + ["p_" + k for k in GH] + ["p_doc", "p_text", "written"]]
