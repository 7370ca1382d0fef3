"""Models of the C++ standard library and C library calls (trusted; listed in the evidence)."""
import z3
from cast import Ty, Unsupported, I
from vals import *
import vals

U64, I32, BOOL = I(64, False), I(32, True), Ty("bool")


class Lib:
    def __init__(self, X):
        self.X = X
        self.so = X.so
        self.used = set()
        self.lits = {}
        self._fn = {}

    # --------------------------------------------------------------- strings
    @property
    def seq(self):
        return vals._mode["str"] == "seq"

    def fn(self, name, *sorts):
        k = (name,) + tuple(str(s) for s in sorts)
        if k not in self._fn:
            self._fn[k] = z3.Function(name, *sorts)
        return self._fn[k]

    def strlit(self, s):
        if self.seq:
            return z3.StringVal("".join(c if 32 <= ord(c) < 127 and c != "\\" else "\\u{%x}" % ord(c) for c in s))
        if s not in self.lits:
            c = z3.Const("lit_" + ("".join(x if x.isalnum() else "_%x_" % ord(x) for x in s) or "empty"), vals.Str)
            self.lits[s] = c
            ax = [self.slen(c) == len(s)]
            for i, ch in enumerate(s[:64]):
                o = ord(ch)
                ax.append(self.sat(c, z3.IntVal(i)) == (o if o < 128 else o - 256))
            others = [v for k, v in self.lits.items() if k != s]
            for o in others:
                ax.append(c != o)
            self.X.axioms += ax
            self.newax = getattr(self, "newax", []) + ax
            self.X.lit_axioms = getattr(self.X, "lit_axioms", []) + ax
        return self.lits[s]

    def slen(self, s):
        if self.seq:
            return z3.Length(s)
        return self.fn("slen", vals.Str, z3.IntSort())(s)

    def sat(self, s, i):
        """i-th byte, as a (signed) char value."""
        if self.seq:
            c = z3.StrToCode(z3.SubString(s, i, 1)) if False else z3.StrToCode(s.at(i))
            return z3.If(c < 128, c, c - 256)
        return self.fn("sat", vals.Str, z3.IntSort(), z3.IntSort())(s, i)

    def sconcat(self, a, b, st=None):
        if self.seq:
            return z3.Concat(a, b)
        f = self.fn("sconcat", vals.Str, vals.Str, vals.Str)
        r = f(a, b)
        if st is not None:
            st.assume(self.slen(r) == self.slen(a) + self.slen(b))
            i = z3.Int("ci")
            st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.slen(r)), self.sat(r, i) ==
                      z3.If(i < self.slen(a), self.sat(a, i), self.sat(b, i - self.slen(a)))),
                      patterns=[self.sat(r, i)]))
        return r

    def cat_nf(self, a, b):
        """concatenation nested to the left, without empty literals"""
        e = self.strlit("")
        if a.eq(e):
            return b
        if b.eq(e):
            return a
        if z3.is_app(b) and b.num_args() == 2 and b.decl().name() == "sconcat":
            return self.cat_nf(self.cat_nf(a, b.arg(0)), b.arg(1))
        return self.sconcat(a, b)

    def ssub(self, s, i, n, st=None):
        if self.seq:
            return z3.SubString(s, i, n)
        if z3.is_int_value(i) and i.as_long() == 0 and z3.is_expr(n) and n.eq(self.slen(s)):
            return s
        f = self.fn("ssub", vals.Str, z3.IntSort(), z3.IntSort(), vals.Str)
        r = f(s, i, n)
        if st is not None:
            L = self.slen(s)
            st.assume(self.slen(r) == z3.If(i + n <= L, n, L - i))
            j = z3.Int("sj")
            st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.slen(r)), self.sat(r, j) == self.sat(s, i + j)),
                                patterns=[self.sat(r, j)]))
        return r

    def char_str(self, c, st):
        """One-character string from a char value."""
        if self.seq:
            return z3.StrFromCode(z3.If(c >= 0, c, c + 256))
        f = self.fn("schar", z3.IntSort(), vals.Str)
        r = f(c)
        st.assume(self.slen(r) == 1)
        st.assume(self.sat(r, z3.IntVal(0)) == c)
        return r

    def str_of(self, st, v, ty=None):
        """Logical string of a std::string place/value or a C string."""
        if isinstance(v, Place):
            v = self.X.read(st, v)
        if isinstance(v, CStr):
            if getattr(v, "nullable", None) is not None:
                self.X.check(st, z3.Not(v.nullable), "no null pointer is used as a string")
            return v.s
        if z3.is_expr(v) and v.sort() == vals.Str:
            return v
        if z3.is_expr(v) and v.sort() == z3.IntSort():
            return self.char_str(v, st)
        raise Unsupported("string value " + type(v).__name__)

    def cstr_char(self, st, v):
        return self.cstr_at(st, v, z3.IntVal(0))

    def cstr_at(self, st, v, i):
        L = self.slen(v.s)
        self.X.check(st, z3.And(i >= 0, i <= L), "read inside the C string")
        c = z3.If(i < L, self.sat(v.s, i), z3.IntVal(0))
        st.assume(z3.And(c >= -128, c <= 127))
        return self.char_at(st, None, i, c)

    def char_at(self, st, place, i, c):
        """a character of a string; writing it changes the string (of which nothing is known: not supported)"""
        t = self.X.temp(st, c, I(8, True))
        self.X.charof[t.root[1]] = (place if isinstance(place, Place) else None, i)
        return t

    def char_write(self, st, key, v):
        place, i = self.X.charof[key]
        if place is None or self.seq:
            raise Unsupported("write to a character of a string")
        s = self.X.read(st, place)
        r = fresh("supd", vals.Str)
        j = z3.Int("uj")
        st.assume(z3.And(self.slen(r) == self.slen(s), self.sat(r, i) == v))
        st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < self.slen(s), j != i), self.sat(r, j) == self.sat(s, j)), patterns=[self.sat(r, j)]))
        self.X.check(st, z3.And(i >= 0, z3.Or(i < self.slen(s), v == 0)), "the end of a string stays as it is")
        self.X.write(st, place, r)
        st.loc[key] = v

    def cstr_add(self, st, v, d):
        d = z3.IntVal(d) if isinstance(d, int) else d
        L = self.slen(v.s)
        self.X.check(st, z3.And(d >= 0, d <= L), "pointer stays inside the C string")
        r = CStr(self.ssub(v.s, d, L - d, st))
        return r

    def cstr_diff(self, st, a, b):
        raise Unsupported("difference of C strings")

    def flex_bound(self, st, place, off):
        h = getattr(self.X, "flex_len", None)
        if h is None:
            raise Unsupported("flexible array access without a declared length")
        self.X.check(st, z3.And(off >= 0, off < h(self.X, st, place)), "flexible-array index inside the node")

    def global_ref(self, d, st):
        nm = d.get("name")
        if nm in IOBITS and (X_streams(self) or getattr(self.X, "iobits", False)):
            return z3.IntVal(IOBITS[nm])
        if nm == "npos":
            return z3.IntVal((1 << 64) - 1)
        if nm in ("nullopt", "cout", "cerr", "endl", "stderr", "stdout", "piecewise_construct", "nothrow"):
            return self.X.temp(st, z3.Int("global_" + nm), Ty("std", nm))
        return None

    def bitcast(self, st, v, ft, tt):
        if isinstance(v, (PtrP, BPtr, CStr, ArrPtrT())) or z3.is_expr(v) or isinstance(v, Place):
            return v
        return v

    # --------------------------------------------------------------- maps: enumeration order
    def map_fns(self, dom):
        ks = dom.sort().domain()
        mkey = self.fn("mkey_" + sanitize(str(ks)), dom.sort(), z3.IntSort(), ks)
        mpos = self.fn("mpos_" + sanitize(str(ks)), dom.sort(), ks, z3.IntSort())
        mcard = self.fn("mcard_" + sanitize(str(ks)), dom.sort(), z3.IntSort())
        return mkey, mpos, mcard

    def card(self, st, dom):
        mkey, mpos, mcard = self.map_fns(dom)
        n = mcard(dom)
        key = ("card", dom.get_id())
        if key not in st.wf:
            st.wf.add(key)
            self.X.keep.append(dom)
            st.assume(n >= 0)
            st.assume(n <= (1 << 60))
            if z3.is_app_of(dom, z3.Z3_OP_STORE):
                d0, k, v = dom.arg(0), dom.arg(1), dom.arg(2)
                n0 = self.card(st, d0)
                st.assume(n == n0 + z3.If(z3.And(v, z3.Not(z3.Select(d0, k))), 1,
                                          z3.If(z3.And(z3.Not(v), z3.Select(d0, k)), -1, 0)))
            if z3.is_const_array(dom):
                st.assume(n == 0)
            k = z3.Const("mk_k", dom.sort().domain())
            st.assume(z3.ForAll([k], z3.Implies(z3.Select(dom, k), n > 0), patterns=[z3.Select(dom, k)]))
        return n

    def map_enum(self, st, dom):
        mkey, mpos, mcard = self.map_fns(dom)
        n = self.card(st, dom)
        key = ("enum", dom.get_id())
        if key not in st.wf:
            st.wf.add(key)
            i = z3.Int("me_i")
            k = z3.Const("me_k", dom.sort().domain())
            st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(
                z3.Select(dom, mkey(dom, i)), mpos(dom, mkey(dom, i)) == i)), patterns=[mkey(dom, i)]))
            st.assume(z3.ForAll([k], z3.Implies(z3.Select(dom, k), z3.And(
                mpos(dom, k) >= 0, mpos(dom, k) < n, mkey(dom, mpos(dom, k)) == k)),
                patterns=[z3.Select(dom, k), mpos(dom, k)]))
        return mkey, mpos, n

    def map_iter_at(self, st, place, i):
        v = self.X.read(st, place)
        dom = v if place.ty.name in SETS else self.so.map_dom(v)
        mkey, mpos, n = self.map_enum(st, dom)
        return MapIter(place, mkey(dom, i), i == n, i)

    def iter_place(self, st, it):
        if isinstance(it, MapIter):
            self.X.check(st, z3.Not(it.atend), "iterator is dereferenceable")
            ty = it.place.ty
            if ty.name in SETS:
                return self.X.temp(st, it.key, ty.args[0])
            return MapEntry(it, ty)
        cont = self.X.read(st, it.place)
        if it.place.ty.k == "std" and it.place.ty.name == "string":
            n = self.slen(cont)
            self.X.check(st, z3.And(it.idx >= 0, it.idx < n), "iterator is dereferenceable")
            c = self.sat(cont, it.idx)
            st.assume(z3.And(c >= -128, c <= 127))
            return self.char_at(st, it.place, it.idx, c)
        n = self.so.vec_len(cont)
        idx = (it.idx - 1) if it.rev else it.idx
        self.X.check(st, z3.And(idx >= 0, idx < n), "iterator is dereferenceable")
        return it.place.i(idx, it.place.ty.args[0])

    # --------------------------------------------------------------- constructors
    def construct(self, ty, vs, ch, st, fr, n, ct):
        X = self.X
        if ty.k != "std":
            return None
        if not vs:
            return [(st, X.default_val(ty))]
        if ty.name == "string":
            if len(vs) == 1 or (len(vs) == 2 and X.u.ty(ch[1]).k == "std" and "allocator" in str(X.u.ty(ch[1]))):
                return [(st, self.str_of(st, vs[0]))]
            v0, v1 = X.rv(st, vs[0]), X.rv(st, vs[1])
            if len(vs) >= 2 and isinstance(v0, CStr) and z3.is_expr(v1) and v1.sort() == z3.IntSort():
                if not v1.eq(self.slen(v0.s)):
                    X.check(st, z3.And(v1 >= 0, v1 <= self.slen(v0.s) + 1), "string(ptr,n) reads inside the buffer")
                return [(st, self.ssub(v0.s, z3.IntVal(0), v1, st))]
            if isinstance(v0, BPtr) and z3.is_expr(v1):
                return [(st, X.block_string(st, v0, v1))]
            if len(vs) >= 2 and isinstance(v0, IterV) and isinstance(v1, IterV):
                s = X.read(st, v0.place)
                X.check(st, z3.And(v0.idx >= 0, v0.idx <= v1.idx, v1.idx <= self.slen(s)), "iterator range is valid")
                return [(st, self.ssub(s, v0.idx, v1.idx - v0.idx, st))]
            return None
        if ty.name in SEQS:
            if len(vs) >= 1:
                v0 = X.rv(st, vs[0])
                if z3.is_expr(v0) and v0.sort() == z3.IntSort():
                    a = z3.K(z3.IntSort(), X.dflt_const(ty.args[0]))
                    if len(vs) >= 2 and not (X.u.ty(ch[1]).k == "std" and "allocator" in str(X.u.ty(ch[1]))):
                        a = z3.K(z3.IntSort(), self.so.to_z3(X.rv(st, vs[1]), ty.args[0]))
                    return [(st, self.so.mkvec(ty, a, v0))]
                if z3.is_expr(v0) and v0.sort() == self.so.of(ty):
                    return [(st, v0)]
                if isinstance(v0, IterV) and len(vs) >= 2:
                    v1 = X.rv(st, vs[1])
                    src = X.read(st, v0.place)
                    n_ = v1.idx - v0.idx
                    X.check(st, z3.And(v0.idx >= 0, v0.idx <= v1.idx, v1.idx <= self.so.vec_len(src)), "iterator range is valid")
                    a = fresh("range", self.so.of(ty).accessor(0, 0).range())
                    i = z3.Int("ri")
                    st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n_), z3.Select(a, i) == z3.Select(self.so.vec_arr(src), i + v0.idx)), patterns=[z3.Select(a, i)]))
                    return [(st, self.so.mkvec(ty, a, n_))]
            return None
        if ty.name == "pair":
            if len(vs) == 2:
                return [(st, StructV(ty, {"first": self.elem(st, vs[0], ty.args[0], X.u.ty(ch[0])), "second": self.elem(st, vs[1], ty.args[1], X.u.ty(ch[1]))}))]
            v0 = X.rv(st, vs[0])
            if isinstance(v0, StructV):
                return [(st, StructV(ty, dict(v0.f)))]
            return None
        if ty.name in ("unique_ptr", "shared_ptr"):
            return [(st, X.rv(st, vs[0]))]
        if ty.name == "function":
            return [(st, X.rv(st, vs[0]))]
        if ty.name in MAPS or ty.name in SETS:
            v0 = X.rv(st, vs[0])
            if z3.is_expr(v0) and v0.sort() == self.so.of(ty):
                return [(st, v0)]
        if len(vs) == 1:
            v0 = X.rv(st, vs[0])
            if isinstance(v0, (IterV, MapIter)):
                return [(st, v0)]
        if ty.name in ("runtime_error", "logic_error", "allocator", "exception", "invalid_argument"):
            return [(st, fresh("exc", self.so.of(ty)))]
        return None

    def elem(self, st, v, ty, vty=None):
        """Convert an argument to the element type ty."""
        X = self.X
        if isinstance(v, Place):
            v = X.read(st, v)
        if isinstance(v, CStr) and ty.k == "std" and ty.name == "string":
            return v.s
        if vty is not None and vty.k == "ref":
            vty = vty.to
        if ty.k == "int" and vty is not None and vty.k == "int":
            return X.int_conv(v, vty, ty)
        if ty.k == "std" and ty.name == "pair" and isinstance(v, StructV) and v.ty != ty:
            return StructV(ty, {"first": self.elem(st, v.f["first"], ty.args[0], v.ty.args[0] if v.ty.args else None),
                                "second": self.elem(st, v.f["second"], ty.args[1], v.ty.args[1] if v.ty.args else None)})
        return v

    # --------------------------------------------------------------- member functions
    def method(self, ty, name, p, vs, ch, st, fr, n, rty):
        if ty.name in ("duration", "time_point") and name in ("count", "time_since_epoch"):
            v = fresh("time", self.so.of(rty))
            self.X.wf(st, v, rty)
            return [(st, v)]
        X = self.X
        if ty.k == "ref":
            ty = ty.to
        tn = ty.name if ty.k == "std" else None
        if p.ty is not None and p.ty.k == "std" and p.ty.name in SEQS + MAPS + SETS + ("string", "unique_ptr"):
            tn, ty = p.ty.name, p.ty
        self.used.add("%s::%s" % (tn, name))
        if tn == "string":
            return self.m_string(ty, name, p, vs, ch, st, fr, rty)
        if tn in SEQS:
            return self.m_seq(ty, name, p, vs, ch, st, fr, rty)
        if tn in MAPS:
            return self.m_map(ty, name, p, vs, ch, st, fr, rty)
        if tn in SETS:
            return self.m_set(ty, name, p, vs, ch, st, fr, rty)
        if tn in ("unique_ptr", "shared_ptr"):
            if name == "get":
                return [(st, X.read(st, p))]
            if name == "reset":
                X.write(st, p, X.rv(st, vs[0]) if vs else z3.IntVal(0))
                return [(st, VOID)]
        if X.streams is not None and tn in IOS:
            r = X.streams.method(name, p, vs, st, n)
            if r is not None:
                return r
        if p.ty is not None and p.ty.k == "std" and p.ty.name in OSS and not self.seq:
            if name == "str" and not vs:
                return [(st, X.read(st, p))]
            if name == "str":
                X.write(st, p, self.str_of(st, vs[0]))
                return [(st, VOID)]
        if name == "what":
            return [(st, CStr(fresh("what", vals.Str)))]
        if name.startswith("operator ") and "bool" in name:
            return [(st, X.tobool(st, X.read(st, p)))]
        return None

    def m_seq(self, ty, name, p, vs, ch, st, fr, rty):
        X, so = self.X, self.so
        et = ty.args[0]
        v = X.read(st, p)
        if not z3.is_expr(v):
            raise Unsupported("container value " + type(v).__name__)
        arr, ln = so.vec_arr(v), so.vec_len(v)
        X.wf(st, v, ty)
        if name in ("size", "length"):
            return [(st, ln)]
        if name == "empty":
            return [(st, ln == 0)]
        if name in ("begin", "cbegin"):
            return [(st, IterV(p, z3.IntVal(0)))]
        if name in ("end", "cend"):
            return [(st, IterV(p, ln))]
        if name in ("rbegin", "crbegin"):
            return [(st, IterV(p, ln, True))]
        if name in ("rend", "crend"):
            return [(st, IterV(p, z3.IntVal(0), True))]
        if name in ("push_back", "push", "emplace_back", "emplace"):
            if name.startswith("emplace") and len(vs) != 1:
                return None
            x = so.to_z3(self.elem(st, vs[0], et, X.u.ty(ch[0]) if ch else None), et)
            X.write(st, p, so.mkvec(ty, z3.Store(arr, ln, x), ln + 1))
            return [(st, VOID)]
        if name in ("pop_back",) or (name == "pop" and ty.name == "stack"):
            X.check(st, ln > 0, "%s::%s on a non-empty container" % (ty.name, name))
            X.write(st, p, so.mkvec(ty, arr, ln - 1))
            return [(st, VOID)]
        if name == "pop_front" or (name == "pop" and ty.name == "queue"):
            X.check(st, ln > 0, "%s::%s on a non-empty container" % (ty.name, name))
            a2 = fresh("shift", arr.sort())
            i = z3.Int("qi")
            st.assume(z3.ForAll([i], z3.Select(a2, i) == z3.Select(arr, i + 1), patterns=[z3.Select(a2, i)]))
            X.write(st, p, so.mkvec(ty, a2, ln - 1))
            return [(st, VOID)]
        if name in ("top", "back"):
            X.check(st, ln > 0, "%s::%s on a non-empty container" % (ty.name, name))
            if ty.name == "queue" and name == "back" or ty.name != "queue":
                return [(st, p.i(ln - 1, et))]
        if name == "front":
            X.check(st, ln > 0, "%s::%s on a non-empty container" % (ty.name, name))
            return [(st, p.i(z3.IntVal(0), et))]
        if name in ("at",):
            i = X.rv(st, vs[0])
            t = st.copy()
            t.assume(z3.Not(z3.And(i >= 0, i < ln)))
            if X.feasible(t):
                X.pending.append(t)
            st.assume(z3.And(i >= 0, i < ln))
            return [(st, p.i(i, et))]
        if name == "clear":
            X.write(st, p, so.mkvec(ty, arr, z3.IntVal(0)))
            return [(st, VOID)]
        if name in ("reserve", "shrink_to_fit"):
            return [(st, VOID)]
        if name == "capacity":
            return [(st, fresh("cap", z3.IntSort()))]
        if name == "resize":
            k = X.rv(st, vs[0])
            d = X.dflt_const(et)
            if len(vs) > 1:
                d = so.to_z3(self.elem(st, vs[1], et), et)
            a2 = fresh("rsz", arr.sort())
            i = z3.Int("rzi")
            st.assume(z3.ForAll([i], z3.Select(a2, i) == z3.If(i < ln, z3.Select(arr, i), d), patterns=[z3.Select(a2, i)]))
            X.write(st, p, so.mkvec(ty, a2, k))
            return [(st, VOID)]
        if name == "swap":
            o = vs[0]
            w = X.read(st, o)
            X.write(st, p, w)
            X.write(st, o, v)
            return [(st, VOID)]
        if name == "erase" and len(vs) == 1:
            it = X.rv(st, vs[0])
            if isinstance(it, IterV) and not it.rev:
                X.check(st, z3.And(it.idx >= 0, it.idx < ln), "erase of a valid position")
                a2 = fresh("erase", arr.sort())
                i = z3.Int("ei")
                st.assume(z3.ForAll([i], z3.Select(a2, i) == z3.If(i < it.idx, z3.Select(arr, i), z3.Select(arr, i + 1)), patterns=[z3.Select(a2, i)]))
                X.write(st, p, so.mkvec(ty, a2, ln - 1))
                return [(st, IterV(p, it.idx))]
        if name == "insert" and len(vs) == 2:
            it = X.rv(st, vs[0])
            if isinstance(it, IterV) and not it.rev:
                x = so.to_z3(self.elem(st, vs[1], et), et)
                a2 = fresh("ins", arr.sort())
                i = z3.Int("ii")
                X.check(st, z3.And(it.idx >= 0, it.idx <= ln), "insert at a valid position")
                st.assume(z3.ForAll([i], z3.Select(a2, i) == z3.If(i < it.idx, z3.Select(arr, i), z3.If(i == it.idx, x, z3.Select(arr, i - 1))), patterns=[z3.Select(a2, i)]))
                X.write(st, p, so.mkvec(ty, a2, ln + 1))
                return [(st, IterV(p, it.idx))]
        return None

    def m_map(self, ty, name, p, vs, ch, st, fr, rty):
        X, so = self.X, self.so
        kt, vt = ty.args
        v = X.read(st, p)
        dom, val = so.map_dom(v), so.map_val(v)
        if name == "find":
            k = so.to_z3(self.elem(st, vs[0], kt, X.u.ty(ch[0])), kt)
            return [(st, MapIter(p, k, z3.Not(z3.Select(dom, k))))]
        if name in ("end", "cend"):
            return [(st, MapIter(p, None, z3.BoolVal(True), self.card(st, dom)))]
        if name in ("begin", "cbegin"):
            return [(st, self.map_iter_at(st, p, z3.IntVal(0)))]
        if name == "count":
            k = so.to_z3(self.elem(st, vs[0], kt, X.u.ty(ch[0])), kt)
            return [(st, z3.If(z3.Select(dom, k), z3.IntVal(1), z3.IntVal(0)))]
        if name == "size":
            return [(st, self.card(st, dom))]
        if name == "empty":
            n = self.card(st, dom)
            return [(st, n == 0)]
        if name == "clear":
            X.write(st, p, X.default_val(ty))
            return [(st, VOID)]
        if name in ("insert", "emplace"):
            if name == "emplace" or len(vs) == 2:
                k = so.to_z3(self.elem(st, vs[0], kt), kt)
                x = so.to_z3(self.elem(st, vs[1], vt), vt)
            else:
                pr = self.elem(st, vs[0], Ty("std", "pair", (kt, vt)), X.u.ty(ch[0]))
                if not isinstance(pr, StructV):
                    return None
                k = so.to_z3(pr.f["first"], kt)
                x = so.to_z3(self.elem(st, pr.f["second"], vt), vt)
            had = z3.Select(dom, k)
            X.write(st, p, so.mkmap(ty, z3.Store(dom, k, z3.BoolVal(True)), z3.If(had, val, z3.Store(val, k, x))))
            it = MapIter(p, k, z3.BoolVal(False))
            return [(st, StructV(Ty("std", "pair", (Ty("std", "_iter"), BOOL)), {"first": it, "second": z3.Not(had)}))]
        if name == "at":
            k = so.to_z3(self.elem(st, vs[0], kt, X.u.ty(ch[0])), kt)
            t = st.copy()
            t.assume(z3.Not(z3.Select(dom, k)))
            if X.feasible(t):
                X.pending.append(t)
            st.assume(z3.Select(dom, k))
            return [(st, p.m(k, vt))]
        if name == "erase":
            a = X.rv(st, vs[0])
            k = a.key if isinstance(a, MapIter) else so.to_z3(self.elem(st, vs[0], kt, X.u.ty(ch[0])), kt)
            X.write(st, p, so.mkmap(ty, z3.Store(dom, k, z3.BoolVal(False)), val))
            return [(st, VOID if isinstance(a, MapIter) else z3.If(z3.Select(dom, k), z3.IntVal(1), z3.IntVal(0)))]
        return None

    def m_set(self, ty, name, p, vs, ch, st, fr, rty):
        X, so = self.X, self.so
        kt = ty.args[0]
        v = X.read(st, p)
        if name in ("insert", "emplace") and len(vs) == 1:
            k = so.to_z3(self.elem(st, vs[0], kt, X.u.ty(ch[0])), kt)
            had = z3.Select(v, k)
            X.write(st, p, z3.Store(v, k, z3.BoolVal(True)))
            return [(st, StructV(Ty("std", "pair", (Ty("std", "_iter"), BOOL)),
                                 {"first": MapIter(p, k, z3.BoolVal(False)), "second": z3.Not(had)}))]
        if name == "count":
            k = so.to_z3(self.elem(st, vs[0], kt, X.u.ty(ch[0])), kt)
            return [(st, z3.If(z3.Select(v, k), z3.IntVal(1), z3.IntVal(0)))]
        if name == "find":
            k = so.to_z3(self.elem(st, vs[0], kt, X.u.ty(ch[0])), kt)
            return [(st, MapIter(p, k, z3.Not(z3.Select(v, k))))]
        if name in ("end", "cend"):
            return [(st, MapIter(p, None, z3.BoolVal(True), self.card(st, v)))]
        if name in ("begin", "cbegin"):
            return [(st, self.map_iter_at(st, p, z3.IntVal(0)))]
        if name == "size":
            return [(st, self.card(st, v))]
        if name == "empty":
            return [(st, self.card(st, v) == 0)]
        if name == "clear":
            X.write(st, p, X.default_val(ty))
            return [(st, VOID)]
        if name == "erase":
            a = X.rv(st, vs[0])
            k = a.key if isinstance(a, MapIter) else so.to_z3(self.elem(st, vs[0], kt), kt)
            X.write(st, p, z3.Store(v, k, z3.BoolVal(False)))
            return [(st, VOID)]
        return None

    def m_string(self, ty, name, p, vs, ch, st, fr, rty):
        X = self.X
        s = X.read(st, p)
        X.wf(st, s, Ty("std", "string"))
        if name in ("size", "length"):
            return [(st, self.slen(s))]
        if name == "empty":
            return [(st, self.slen(s) == 0)]
        if name in ("c_str", "data"):
            return [(st, CStr(s))]
        if name in ("begin", "cbegin"):
            return [(st, IterV(p, z3.IntVal(0)))]
        if name in ("end", "cend"):
            return [(st, IterV(p, self.slen(s)))]
        if name == "clear":
            X.write(st, p, self.strlit(""))
            return [(st, VOID)]
        if name == "reserve":
            return [(st, VOID)]
        if name in ("append", "push_back"):
            if len(vs) == 1:
                X.write(st, p, self.sconcat(s, self.str_of(st, vs[0]), st))
                return [(st, p)]
            v0, v1 = X.rv(st, vs[0]), X.rv(st, vs[1])
            if z3.is_int_value(simplify(v0) if z3.is_expr(v0) else v0) and simplify(v0).as_long() == 1 and z3.is_expr(v1):
                X.write(st, p, self.sconcat(s, self.char_str(v1, st), st))
                return [(st, p)]
            if z3.is_expr(v0) and v0.sort() == z3.IntSort() and len(vs) == 2 and not self.seq:
                X.check(st, v0 >= 0, "append(n,c): n is not negative")
                X.write(st, p, self.cat_nf(s, self.fn("srep", z3.IntSort(), z3.IntSort(), vals.Str)(v0, v1)))
                return [(st, p)]
            if isinstance(v0, CStr) and len(vs) == 2:
                X.check(st, z3.And(v1 >= 0, v1 <= self.slen(v0.s) + 1), "append(ptr,n) reads inside the buffer")
                X.write(st, p, self.sconcat(s, self.ssub(v0.s, z3.IntVal(0), v1, st), st))
                return [(st, p)]
            if isinstance(v0, BPtr) and len(vs) == 2:
                X.write(st, p, self.sconcat(s, X.block_string(st, v0, v1), st))
                return [(st, p)]
            return None
        if name == "pop_back":
            X.check(st, self.slen(s) > 0, "pop_back on a non-empty string")
            X.write(st, p, self.ssub(s, z3.IntVal(0), self.slen(s) - 1, st))
            return [(st, VOID)]
        if name in ("back", "front"):
            X.check(st, self.slen(s) > 0, name + " of a non-empty string")
            i = self.slen(s) - 1 if name == "back" else z3.IntVal(0)
            c = self.sat(s, i)
            st.assume(z3.And(c >= -128, c <= 127))
            return [(st, self.char_at(st, p, i, c))]
        if name == "at":
            i = X.rv(st, vs[0])
            t = st.copy()
            t.assume(z3.Not(i < self.slen(s)))
            if X.feasible(t):
                X.pending.append(t)
            st.assume(i < self.slen(s))
            c = self.sat(s, i)
            st.assume(z3.And(c >= -128, c <= 127))
            return [(st, self.char_at(st, p, i, c))]
        if name == "substr":
            i = X.rv(st, vs[0]) if vs else z3.IntVal(0)
            L = self.slen(s)
            t = st.copy()
            t.assume(i > L)
            if X.feasible(t):
                X.pending.append(t)
            st.assume(i <= L)
            if len(vs) > 1 and ch[1].get("kind") != "CXXDefaultArgExpr":
                k = X.rv(st, vs[1])
                k = z3.If(k > L - i, L - i, k)
            else:
                k = L - i
            r = self.ssub(s, i, k, st)
            return [(st, r)]
        if name == "compare":
            if len(vs) == 1:
                b = self.str_of(st, vs[0])
                a = s
            elif len(vs) == 3:
                i, k = X.rv(st, vs[0]), X.rv(st, vs[1])
                L = self.slen(s)
                t = st.copy()
                t.assume(i > L)
                if X.feasible(t):
                    X.pending.append(t)
                st.assume(i <= L)
                a = self.ssub(s, i, z3.If(k > L - i, L - i, k), st)
                b = self.str_of(st, vs[2])
            else:
                return None
            r = fresh("cmp", z3.IntSort())
            st.assume((r == 0) == (a == b))
            st.assume(z3.And(r >= -(1 << 31), r < (1 << 31)))
            if self.seq:
                st.assume((r < 0) == (a < b))
            return [(st, r)]
        if name in ("find", "rfind", "find_first_of", "find_last_of") and self.seq:
            a = X.rv(st, vs[0])
            npos = z3.IntVal((1 << 64) - 1)
            pos = z3.IntVal(0)
            if len(vs) > 1 and ch[1].get("kind") != "CXXDefaultArgExpr":
                pos = X.rv(st, vs[1])
            t = self.str_of(st, a)
            if name == "find":
                ix = z3.IndexOf(s, t, pos)
                return [(st, z3.If(z3.And(pos <= z3.Length(s), ix >= 0), ix, npos))]
            if name == "find_last_of" and len(vs) <= 2:
                ix = z3.LastIndexOf(s, t)
                return [(st, z3.If(ix >= 0, ix, npos))]
            return None
        if name in ("find", "rfind", "find_last_of", "find_first_of") and not self.seq:
            r = fresh("find", z3.IntSort())
            if name == "find" and (len(vs) == 1 or ch[1].get("kind") == "CXXDefaultArgExpr"):
                r = self.fn("sfind", vals.Str, vals.Str, z3.IntSort())(s, self.str_of(st, vs[0]))
            st.assume(z3.And(r >= 0, r < (1 << 64)))
            st.assume(z3.Or(r == (1 << 64) - 1, r < self.slen(s)))
            return [(st, r)]
        return None

    # --------------------------------------------------------------- operators
    def operator(self, name, vs, ch, st, fr, n, rty):
        X = self.X
        t0 = X.u.ty(ch[0]) if ch else None
        if t0 is not None and t0.k == "std" and t0.name in ("time_point", "duration") and rty.k == "std":
            return [(st, fresh("time", self.so.of(rty)))]
        self.used.add(name)
        t0 = X.u.ty(ch[0])
        if t0.k == "ref":
            t0 = t0.to
        if X.streams is not None and t0.k == "std" and t0.name in IOS:
            r = X.streams.operator(name, vs, st)
            if r is not None:
                return r
        raw0 = vs[0]
        if isinstance(raw0, Place) and raw0.ty is not None and raw0.ty.k == "std":
            t0 = raw0.ty
            if t0.name in OSS and name == "operator<<" and not self.seq:
                t1 = X.u.ty(ch[1])
                t1 = t1.to if t1.k == "ref" else t1
                v1 = X.rv(st, vs[1])
                if t1.k == "int" and t1.bits > 8 and z3.is_expr(v1) and v1.sort() == z3.IntSort():
                    piece = self.fn("to_string", z3.IntSort(), vals.Str)(v1)
                elif t1.k == "bool" or t1.k == "float":
                    raise Unsupported("printing of " + str(t1))
                else:
                    piece = self.str_of(st, v1)
                X.write(st, raw0, self.cat_nf(X.read(st, raw0), piece))
                return [(st, raw0)]
        v0 = X.rv(st, raw0) if not isinstance(raw0, MapEntry) else raw0
        if isinstance(v0, (IterV, MapIter)):
            return self.o_iter(name, v0, vs, ch, st, n)
        if t0.k == "std" and t0.name in SEQS:
            if name == "operator[]":
                i = X.rv(st, vs[1])
                v = v0
                X.check(st, z3.And(i >= 0, i < self.so.vec_len(v)), "%s index inside bounds" % t0.name)
                if isinstance(raw0, Place):
                    return [(st, raw0.i(i, t0.args[0]))]
            if name == "operator=":
                v = X.rv(st, vs[1])
                X.write(st, raw0, v)
                return [(st, raw0)]
            if name in ("operator==", "operator!="):
                return None
        if t0.k == "std" and t0.name in MAPS:
            if name == "operator[]":
                k = self.so.to_z3(self.elem(st, vs[1], t0.args[0], X.u.ty(ch[1])), t0.args[0])
                dom, val = self.so.map_dom(v0), self.so.map_val(v0)
                d = X.dflt_const(t0.args[1])
                had = z3.Select(dom, k)
                nm = self.so.mkmap(t0, z3.Store(dom, k, z3.BoolVal(True)),
                                   z3.Store(val, k, z3.If(had, z3.Select(val, k), d)))
                X.write(st, raw0, nm)
                return [(st, raw0.m(k, t0.args[1]))]
            if name == "operator=":
                X.write(st, raw0, X.rv(st, vs[1]))
                return [(st, raw0)]
        if t0.k == "std" and t0.name in SETS and name == "operator=":
            X.write(st, raw0, X.rv(st, vs[1]))
            return [(st, raw0)]
        if (t0.k == "std" and t0.name == "string") or isinstance(v0, CStr) or \
                (len(vs) > 1 and self.is_str(st, vs[1])):
            return self.o_string(name, raw0, v0, vs, ch, st)
        if t0.k == "std" and t0.name in ("unique_ptr", "shared_ptr"):
            if name in ("operator->",):
                return [(st, v0)]
            if name == "operator*":
                return [(st, X.deref(st, v0, Ty("ptr", to=t0.args[0])))]
            if name == "operator=":
                X.write(st, raw0, X.rv(st, vs[1]))
                return [(st, raw0)]
            if name in ("operator==", "operator!="):
                b = X.rv(st, vs[1])
                return [(st, X.compare(name[8:], v0, b, t0, t0, st))]
        if name == "operator=" and isinstance(raw0, Place):
            X.write(st, raw0, X.rv(st, vs[1]))
            return [(st, raw0)]
        if t0.k == "std" and t0.name in ("function",) and name in ("operator==", "operator!="):
            b = z3.BoolVal(name == "operator!=")
            return [(st, b)]
        if name in ("operator|", "operator&"):
            a, b = X.rv(st, vs[0]), X.rv(st, vs[1])
            if z3.is_int_value(a) and z3.is_int_value(b):
                f = (lambda p, q: p | q) if name == "operator|" else (lambda p, q: p & q)
                return [(st, z3.IntVal(f(a.as_long(), b.as_long())))]
            return [(st, fresh("flags", z3.IntSort()))]
        return None

    def is_str(self, st, v):
        try:
            v = self.X.rv(st, v)
        except Unsupported:
            return False
        return z3.is_expr(v) and v.sort() == vals.Str

    def o_iter(self, name, it, vs, ch, st, n):
        X = self.X
        raw = vs[0]
        if name == "operator*":
            return [(st, self.iter_place(st, it))]
        if name == "operator->":
            pl = self.iter_place(st, it)
            return [(st, PtrP(pl))]
        if name in ("operator++", "operator--"):
            d = 1 if name == "operator++" else -1
            if isinstance(it, MapIter):
                if it.pos is None:
                    raise Unsupported("advance of a found map iterator")
                new = self.map_iter_at(st, it.place, it.pos + d)
            else:
                new = IterV(it.place, it.idx + (d if not it.rev else -d), it.rev)
            X.write(st, raw, new)
            post = len(vs) > 1
            return [(st, it if post else raw)]
        if name in ("operator==", "operator!="):
            b = X.rv(st, vs[1])
            if isinstance(it, MapIter):
                e = self.miter_eq(st, it, b)
            else:
                e = it.idx == b.idx
                from sx import same_place
                if not same_place(it.place, b.place):
                    raise Unsupported("comparison of iterators of different containers")
            return [(st, e if name == "operator==" else z3.Not(e))]
        if name in ("operator<", "operator>", "operator<=", "operator>="):
            b = X.rv(st, vs[1])
            return [(st, X.compare(name[8:], it, b, None, None, st))]
        if name in ("operator+", "operator-"):
            b = X.rv(st, vs[1])
            if isinstance(b, IterV):
                return [(st, it.idx - b.idx)]
            return [(st, IterV(it.place, it.idx + b if (name == "operator+") != it.rev else it.idx - b, it.rev))]
        if name in ("operator+=", "operator-="):
            b = X.rv(st, vs[1])
            X.write(st, raw, IterV(it.place, it.idx + b if name == "operator+=" else it.idx - b, it.rev))
            return [(st, raw)]
        if name == "operator=":
            X.write(st, raw, X.rv(st, vs[1]))
            return [(st, raw)]
        return None

    def miter_eq(self, st, a, b):
        if a.key is None and b.key is None:
            return z3.BoolVal(True)
        if b.key is None:
            return a.atend
        if a.key is None:
            return b.atend
        if a.pos is not None and b.pos is not None:
            return a.pos == b.pos
        return z3.And(a.atend == b.atend, z3.Or(a.atend, a.key == b.key))

    def o_string(self, name, raw0, v0, vs, ch, st):
        X = self.X
        if name == "operator=":
            X.write(st, raw0, self.str_of(st, vs[1]))
            return [(st, raw0)]
        if name == "operator+=":
            X.write(st, raw0, self.sconcat(self.str_of(st, v0), self.str_of(st, vs[1]), st))
            return [(st, raw0)]
        if name == "operator+":
            return [(st, self.sconcat(self.str_of(st, v0), self.str_of(st, vs[1]), st))]
        if name in ("operator==", "operator!="):
            a, b = self.str_of(st, v0), self.str_of(st, vs[1])
            self.lit_ext(st, a, b)
            return [(st, a == b if name == "operator==" else a != b)]
        if name in ("operator<", "operator>", "operator<=", "operator>="):
            a, b = self.str_of(st, v0), self.str_of(st, vs[1])
            if self.seq:
                return [(st, {"operator<": a < b, "operator>": b < a, "operator<=": a <= b, "operator>=": b <= a}[name])]
            lt = self.fn("slt", vals.Str, vals.Str, z3.BoolSort())
            return [(st, {"operator<": lt(a, b), "operator>": lt(b, a), "operator<=": z3.Not(lt(b, a)),
                          "operator>=": z3.Not(lt(a, b))}[name])]
        if name == "operator[]":
            i = X.rv(st, vs[1])
            L = self.slen(v0)
            X.check(st, z3.And(i >= 0, i <= L), "string index inside bounds")
            c = z3.If(i < L, self.sat(v0, i), z3.IntVal(0))
            st.assume(z3.And(c >= -128, c <= 127))
            return [(st, self.char_at(st, vs[0], i, c))]
        return None

    def lit_ext(self, st, a, b):
        """Extensionality of short literals in the abstract theory: equal length and bytes => equal."""
        if self.seq:
            return
        for x, y in ((a, b), (b, a)):
            for s, c in self.lits.items():
                if c.eq(y) and len(s) <= 8:
                    f = [self.slen(x) == len(s)]
                    for i, chh in enumerate(s):
                        o = ord(chh)
                        f.append(self.sat(x, z3.IntVal(i)) == (o if o < 128 else o - 256))
                    st.assume(z3.And(*f) == (x == y))

    # --------------------------------------------------------------- free functions
    def call(self, name, vs, argn, st, fr, n, rty):
        X = self.X
        if name == "getline" and X.streams is not None:
            return X.streams.getline(vs, st)
        self.used.add(name)
        if name in ("make_pair",):
            ty = rty
            a, b = vs[0], vs[1]
            return [(st, StructV(ty, {"first": self.elem(st, a, ty.args[0] if ty.args else Ty("unk"), X.u.ty(argn[0])),
                                      "second": self.elem(st, b, ty.args[1] if ty.args else Ty("unk"), X.u.ty(argn[1]))}))]
        if name in ("move", "forward", "ref", "cref"):
            return [(st, vs[0])]
        if name == "distance":
            a, b = X.rv(st, vs[0]), X.rv(st, vs[1])
            return [(st, b.idx - a.idx)]
        if name in ("next", "prev") and isinstance(X.rv(st, vs[0]), IterV):
            it = X.rv(st, vs[0])
            d = X.rv(st, vs[1]) if len(vs) > 1 and argn[1].get("kind") != "CXXDefaultArgExpr" else z3.IntVal(1)
            return [(st, IterV(it.place, it.idx + (d if name == "next" else -d), it.rev))]
        if name == "swap":
            a, b = X.read(st, vs[0]), X.read(st, vs[1])
            X.write(st, vs[0], b)
            X.write(st, vs[1], a)
            return [(st, VOID)]
        if name in ("min", "max") and vs:
            a, b = X.rv(st, vs[0]), X.rv(st, vs[1])
            return [(st, z3.If(b < a, b, a) if name == "min" else z3.If(a < b, b, a))]
        if name in ("__assert_fail",):
            X.check(st, False, "assert() holds")
            st.assume(z3.BoolVal(False))
            return []
        if name in ("abort", "exit", "_exit", "__builtin_unreachable"):
            st.assume(z3.BoolVal(False))
            return []
        if name in ("printf", "fprintf", "puts", "perror", "fflush", "fputs", "fputc", "syslog", "putchar"):
            return [(st, fresh("io", z3.IntSort()))]
        if name == "memcmp":
            return self.c_memcmp(vs, st)
        if name == "to_string":
            x = X.rv(st, vs[0])
            if self.seq:
                r = z3.If(x >= 0, z3.IntToStr(x), z3.Concat(z3.StringVal("-"), z3.IntToStr(-x)))
                return [(st, r)]
            f = self.fn("to_string", z3.IntSort(), vals.Str)
            g = self.fn("to_string_inv", vals.Str, z3.IntSort())
            r = f(x)
            st.assume(g(r) == x)
            st.assume(self.slen(r) >= 1)
            return [(st, r)]
        if name in ("now", "duration_cast"):
            return [(st, fresh("time", self.so.of(rty)))]
        if name in ("lowest", "max", "min", "infinity", "epsilon") and not vs and rty.k == "float":
            return [(st, self.fn("LIMIT_%s_%s" % (sanitize(rty.name), name), z3.RealSort())())]
        if name in ("stod", "stoi", "stol", "stoul", "stoull", "stoll") and all(c.get("kind") == "CXXDefaultArgExpr" for c in argn[1:]):
            v = self.str_of(st, vs[0])
            ok = self.fn(name.upper() + "_OK", vals.Str, z3.BoolSort())(v)
            r = self.fn(name.upper(), vals.Str, z3.RealSort() if name == "stod" else z3.IntSort())(v)
            t = st.copy()
            t.assume(z3.Not(ok))
            if X.feasible(t):
                X.pending.append(t)
            st.assume(ok)
            if name == "stoi":
                st.assume(z3.And(r >= -(1 << 31), r < (1 << 31)))
            return [(st, r)]
        if name == "strcmp":
            a, b = self.str_of(st, vs[0]), self.str_of(st, vs[1])
            r = fresh("strcmp", z3.IntSort())
            st.assume((r == 0) == (a == b))
            st.assume(z3.And(r >= -(1 << 31), r < (1 << 31)))
            self.lit_ext(st, a, b)
            return [(st, r)]
        if name == "strncmp":
            a, b, k = self.str_of(st, vs[0]), self.str_of(st, vs[1]), X.rv(st, vs[2])
            r = fresh("strncmp", z3.IntSort())
            cut = lambda x: z3.If(self.slen(x) < k, x, self.ssub(x, z3.IntVal(0), k, st))
            for x in (a, b):
                st.assume(z3.Implies(self.slen(x) == k, self.ssub(x, z3.IntVal(0), k) == x))
            st.assume((r == 0) == (cut(a) == cut(b)))
            st.assume(z3.And(r >= -(1 << 31), r < (1 << 31)))
            return [(st, r)]
        if name == "strlen":
            return [(st, self.slen(self.str_of(st, vs[0])))]
        if name in ("isspace", "isdigit", "isalpha", "isalnum", "tolower", "toupper"):
            c = X.rv(st, vs[0])
            X.check(st, z3.And(c >= -128, c <= 255), "%s argument is a char value or EOF (as glibc allows)" % name)
            r = self.ctype(name, c)
            return [(st, r)]
        if name in ("begin", "end", "cbegin", "cend"):
            p = vs[0]
            return self.method(p.ty, name, p, [], [], st, fr, n, rty)
        if name == "make_unique":
            return None
        if name == "__errno_location":
            return [(st, PtrP(X.temp(st, fresh("errno", z3.IntSort()), I(32, True))))]
        if name == "strerror":
            return [(st, CStr(fresh("strerror", vals.Str)))]
        if name in ("min", "max", "lowest", "infinity") and not vs:
            return None
        if name == "getline":
            return None
        if name == "remove" or name == "unlink":
            return [(st, fresh("io", z3.IntSort()))]
        return None

    def ctype(self, name, c):
        if name == "isspace":
            b = z3.Or(c == 32, z3.And(c >= 9, c <= 13))
        elif name == "isdigit":
            b = z3.And(c >= 48, c <= 57)
        elif name == "tolower":
            return z3.If(z3.And(c >= 65, c <= 90), c + 32, c)
        elif name == "toupper":
            return z3.If(z3.And(c >= 97, c <= 122), c - 32, c)
        elif name == "isalpha":
            b = z3.Or(z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122))
        else:
            b = z3.Or(z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122), z3.And(c >= 48, c <= 57))
        return z3.If(b, z3.IntVal(1), z3.IntVal(0))

    def c_memcmp(self, vs, st):
        X = self.X
        a, b, sz = X.rv(st, vs[0]), X.rv(st, vs[1]), simplify(X.rv(st, vs[2]))
        if isinstance(a, PtrP) and isinstance(b, PtrP):
            pa, pb = a.place, b.place
            ta, tb = strip_ref(pa.ty), strip_ref(pb.ty)
            if ta == tb and ta.k == "rec" and z3.is_int_value(sz) and sz.as_long() == X.sizeof(ta):
                va, vb = X.read(st, pa), X.read(st, pb)
                za, zb = self.so.to_z3(va, ta), self.so.to_z3(vb, ta)
                mo = self.memord(ta)
                r = fresh("memcmp", z3.IntSort())
                st.assume((r < 0) == (mo(za) < mo(zb)))
                st.assume((r == 0) == (mo(za) == mo(zb)))
                st.assume((mo(za) == mo(zb)) == (za == zb))
                st.assume(z3.And(r >= -(1 << 31), r < (1 << 31)))
                return [(st, r)]
        raise Unsupported("memcmp of these objects (whole equal-typed objects only)")

    def memord(self, ty):
        """Order of the object representation (bytes compared as unsigned), injective on the type."""
        return self.fn("memord_" + sanitize(ty.key()), self.so.of(ty), z3.IntSort())


def simplify(x):
    return z3.simplify(x)


def strip_ref(t):
    return t.to if t.k == "ref" else t


class MapEntry(Place):
    """The (key, value) pair a map iterator designates."""
    __slots__ = ("it",)

    def __init__(self, it, ty):
        self.it = it
        Place.__init__(self, it.place.root, it.place.sels, Ty("std", "pair", ty.args))

    def f(self, name, ty):
        if name == "first":
            return ConstPlace(self.it.key, self.it.place.ty.args[0])
        return self.it.place.m(self.it.key, self.it.place.ty.args[1])


class ConstPlace(Place):
    __slots__ = ("v",)

    def __init__(self, v, ty):
        self.v = v
        Place.__init__(self, ("C", v), (), ty)


def ArrPtrT():
    import sx
    return sx.ArrPtr


OSS = ("stringstream", "ostringstream", "basic_stringstream", "basic_ostringstream")      # output only: the text so far
IOS = ("ifstream", "ofstream", "fstream", "istream", "ostream", "iostream", "basic_ifstream", "basic_ofstream", "basic_fstream", "basic_istream", "basic_ostream",
       "basic_iostream", "basic_ios", "stringstream", "ostringstream", "istringstream", "basic_stringstream", "basic_ostringstream", "basic_istringstream")
def X_streams(lib):
    return lib.X.streams is not None


IOBITS = {"goodbit": 0, "badbit": 1, "eofbit": 2, "failbit": 4, "in": 8, "out": 16, "binary": 32, "trunc": 64, "app": 128}


class Streams:
    """One input and one output stream, seen as sequences of NUL-terminated records (keys hold no NUL).
    Ghost state: output orec[0..on-1] complete records, opart the unfinished one, ook: everything was accepted;
    input irec[0..in_-1], itail after the last NUL, ipos next record, ieof/ibad/iopen, iexc the exception mask."""

    def __init__(self, X):
        self.X = X
        self.lit = X.lib.strlit

    def start(self, st):
        S = self.lit("x").sort()
        A = z3.ArraySort(z3.IntSort(), S)
        g = st.ghost
        g["orec"], g["on"], g["opart"], g["ook"] = z3.K(z3.IntSort(), self.lit("")), z3.IntVal(0), self.lit(""), z3.Const("ostream_ok", z3.BoolSort())
        g["irec"], g["in_"], g["itail"] = z3.Const("irec", A), z3.Int("in_n"), z3.Const("itail", S)
        g["ipos"], g["ieof"], g["iopen"], g["iexc"], g["iofail"], g["ifail"] = z3.IntVal(0), z3.BoolVal(False), z3.BoolVal(False), z3.IntVal(0), z3.BoolVal(False), z3.BoolVal(False)
        st.assume(g["in_"] >= 0)
        for q in ("irec", "in_", "itail"):
            pass

    def set(self, st, **kw):
        for k, v in kw.items():
            st.ghost[k] = v
            st.wrote(("ghost", k))

    def throws(self, st, bit):
        """splits st: (states that throw because the mask has the bit -> pending); returns the state that goes on, or None"""
        m = st.ghost["iexc"]
        if not z3.is_int_value(m):
            raise Unsupported("stream exception mask is not constant")
        if m.as_long() & bit:
            self.X.pending.append(st)
            return None
        return st

    def method(self, name, p, vs, st, n):
        X, g = self.X, st.ghost
        if name == "exceptions" and vs:
            self.set(st, iexc=X.rv(st, vs[0]))
            return [(st, VOID)]
        if name == "open":
            bad = st.copy()
            self.set(st, iopen=z3.BoolVal(True), ipos=z3.IntVal(0), ieof=z3.BoolVal(False))
            self.set(bad, iofail=z3.BoolVal(True), ifail=z3.BoolVal(True))
            bad = self.throws(bad, 4)
            return [(st, VOID)] + ([(bad, VOID)] if bad is not None else [])
        if name == "is_open":
            return [(st, g["iopen"])]
        if name == "eof":
            return [(st, g["ieof"])]
        if name in ("close", "clear"):
            return [(st, VOID)]
        if name == "flush":
            self.fails(st)
            return [(st, p)]
        if name in ("good", "fail", "bad") or name.startswith("operator "):
            return [(st, self.state(p, st) if name in ("good",) or name.startswith("operator ") else z3.Not(self.state(p, st)))]
        return None

    def isin(self, p):
        return p.ty is not None and p.ty.k == "std" and p.ty.name in ("ifstream", "istream", "basic_ifstream", "basic_istream")

    def state(self, p, st):
        return z3.Not(st.ghost["ifail"]) if self.isin(p) else st.ghost["ook"]

    def fails(self, st):
        """an output operation may fail: silently (the stream remembers) or with an exception"""
        self.set(st, ook=z3.And(st.ghost["ook"], fresh("accepted", z3.BoolSort())))
        t = st.copy()
        self.set(t, ook=z3.BoolVal(False))
        self.X.pending.append(t)

    def operator(self, name, vs, st):
        X, g = self.X, st.ghost
        p = vs[0]
        if name == "operator!":
            return [(st, z3.Not(self.state(p, st)))]
        if name != "operator<<":
            return None
        v = X.rv(st, vs[1])
        if z3.is_int_value(v) and v.as_long() == 0:
            self.set(st, orec=z3.Store(g["orec"], g["on"], g["opart"]), on=g["on"] + 1, opart=self.lit(""))
        else:
            s = X.lib.str_of(st, vs[1])
            self.set(st, opart=z3.If(g["opart"] == self.lit(""), s, X.lib.sconcat(g["opart"], s, st)))
        self.fails(st)
        return [(st, p)]

    def getline(self, vs, st):
        X, g = self.X, st.ghost
        bad = st.copy()
        self.set(bad, iofail=z3.BoolVal(True), ifail=z3.BoolVal(True))
        bad = self.throws(bad, 1)
        out = [(bad, vs[0])] if bad is not None else []
        if len(vs) < 3 or not (z3.is_int_value(X.rv(st, vs[2])) and X.rv(st, vs[2]).as_long() == 0):
            raise Unsupported("getline with another delimiter than NUL")
        rec, end = st, st.copy()
        if True:
            rec.assume(z3.And(g["ipos"] < g["in_"], z3.Not(g["ieof"])))
            X.write(rec, vs[1], z3.Select(g["irec"], g["ipos"]))
            self.set(rec, ipos=g["ipos"] + 1)
            out.append((rec, vs[0]))
            g = end.ghost
            end.assume(z3.Or(g["ipos"] >= g["in_"], g["ieof"]))
            X.write(end, vs[1], z3.If(g["ieof"], X.rv(end, vs[1]), g["itail"]))
            empty = z3.Or(g["ieof"], g["itail"] == self.lit(""))
            self.set(end, ieof=z3.BoolVal(True), ifail=z3.Or(g["ifail"], empty))
            if g["iexc"].as_long() & 6:
                raise Unsupported("stream throws at the end of the file")
            out.append((end, vs[0]))
        return out
