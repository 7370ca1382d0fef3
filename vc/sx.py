"""Symbolic executor / verification-condition generator over clang's AST of the real code."""
import z3, copy, itertools
from cast import Ty, Unsupported, I, params, body, BUILTIN
from vals import *
import vals

U64, I32, BOOL = I(64, False), I(32, True), Ty("bool")
CHARPTR = Ty("ptr", to=I(8, True))


def isT(x):
    return z3.is_true(x)


def isF(x):
    return z3.is_false(x)


def simp(x):
    return z3.simplify(x)


class State:
    def __init__(self):
        self.loc, self.lty = {}, {}
        self.heap, self.glob, self.ghost, self.blocks = {}, {}, {}, {}
        self.alloc = None
        self.pc = []
        self.wf = set()
        self.writes = None

    def copy(self):
        s = State.__new__(State)
        s.loc, s.lty = dict(self.loc), dict(self.lty)
        s.heap, s.glob, s.ghost, s.blocks = dict(self.heap), dict(self.glob), dict(self.ghost), dict(self.blocks)
        s.alloc = self.alloc
        s.pc = list(self.pc)
        s.wf = set(self.wf)
        s.writes = self.writes
        return s

    def assume(self, f):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        if isT(f):
            return
        self.pc.append(f)

    def wrote(self, r):
        if self.writes is not None:
            self.writes.add(r)


class Frame:
    n = itertools.count()

    def __init__(self, fdecl, this, caller=None, define=None, contract=None):
        self.id = next(Frame.n)
        self.fdecl, self.this, self.caller, self.define = fdecl, this, caller, define
        self.contract = contract
        self.names = {}
        self.entry = None
        self.loopk = []
        self.retref = False
        self.loop_entries = []

    def lookup(self, declid):
        f = self
        while f is not None:
            if declid in f.owned:
                return (f.id, declid)
            f = f.define
        return None

    @property
    def owned(self):
        if not hasattr(self, "_o"):
            self._o = set()
        return self._o


class Loop:
    def __init__(self, inv=None, dec=None, unroll=None, ghost=None, mods=None, name=None, pre=None,
                 bodyghost=None, chain=False, exitghost=None, core=()):
        self.core = core
        self.chain, self.exitghost = chain, exitghost
        self.inv, self.dec, self.unroll, self.ghost, self.mods, self.name = inv, dec, unroll, ghost, mods, name
        self.pre = pre
        self.bodyghost = bodyghost


class Contract:
    def __init__(self, fn, pre=None, post=None, mods=None, loops=None, setup=None, sig=None,
                 nparams=None, this="value", throws=None, ret=None, trusted=False, pure=None,
                 verify=True, title=None, inline_only=False, retplace=None, model=None, rec=None,
                 params=None, hints=None, exits=None, noinline=False, clos=None, chain=False):
        self.chain = chain
        self.fn, self.pre, self.post, self.mods = fn, pre, post, mods
        self.loops = loops or []
        self.setup, self.sig, self.nparams, self.this = setup, sig, nparams, this
        self.throws, self.ret, self.trusted, self.verify = throws, ret, trusted, verify
        self.title = title or fn
        self.retplace = retplace
        self.model = model
        self.rec = rec
        self.params = params
        self.hints = hints
        self.exits = exits

    def matches(self, qn, decl):
        if not (qn == self.fn or qn.endswith("::" + self.fn)):
            return False
        if self.sig is not None and self.sig not in decl["type"]["qualType"]:
            return False
        if self.nparams is not None and len(params(decl)) != self.nparams:
            return False
        if self.rec is not None:
            r = decl.get("_rec")
            if r is None or not self.rec(r):
                return False
        return True


class View:
    """What a specification sees: values by name at one point of the execution."""

    def __init__(self, X, st, fr, ret=None, pre=None):
        self.X, self.st, self.fr, self.ret, self._pre = X, st, fr, ret, pre

    @property
    def pre(self):
        return View(self.X, self._pre or self.fr.entry, self.fr)

    def at(self, st):
        return View(self.X, st, self.fr, pre=self._pre)

    def _key(self, name):
        f = self.fr
        while f is not None:
            g = f
            while g is not None:
                if name in g.names:
                    return (g.id, g.names[name])
                g = g.define
            f = f.caller
        alt = self.X.rename(self.fr, name)
        if alt is not None:
            return alt
        raise Unsupported("specification refers to a local '%s' that the code no longer has" % name)

    def has(self, name):
        try:
            self._key(name)
            return True
        except Unsupported:
            return False

    def raw(self, name):
        k = self._key(name)
        if k not in self.st.loc:
            raise Unsupported("local '%s' has no value here" % name)
        return self.st.loc[k]

    def pl(self, name):
        k = self._key(name)
        v = self.st.loc.get(k)
        if isinstance(v, Place):
            return v
        return Place(("L", k), (), self.st.lty[k])

    def __getitem__(self, name):
        v = self.raw(name)
        if isinstance(v, Place):
            return self.X.read(self.st, v)
        return v

    def z(self, name):
        """Local as a logical term."""
        k = self._key(name)
        v = self[name]
        ty = self.st.lty[k]
        if ty.k == "ref":
            ty = ty.to
        return self.X.so.to_z3(v, ty)

    @property
    def this(self):
        f = self.fr
        while f is not None and f.this is None:
            f = f.define or f.caller
        return f.this

    def fld(self, *path):
        """Read a field of *this (values)."""
        p = self.this
        return self.rd(p, *path)

    def fp(self, p, *path):
        for n in path:
            for fn, ft, w in self.X.so.rec_fields(p.ty):
                if fn == n:
                    p = p.f(n, ft)
                    break
            else:
                raise Unsupported("record %s has no field '%s'" % (p.ty, n))
        return p

    def rd(self, p, *path):
        return self.X.read(self.st, self.fp(p, *path))

    def deref(self, name):
        """Place a pointer/reference parameter points to."""
        v = self.raw(name)
        if isinstance(v, Place):
            return v
        if isinstance(v, PtrP):
            return v.place
        if z3.is_expr(v):
            ty = self.st.lty[self._key(name)]
            return Place(("H", ty.to.name, v), (), ty.to)
        raise Unsupported("deref of " + name)

    def heap(self, cls, field):
        return self.X.heaparr(self.st, cls, field)

    def g(self, name):
        return self.st.ghost[name]

    def glob(self, name):
        return self.X.read(self.st, self.X.gplace(name))

    @property
    def alloc(self):
        return self.st.alloc

    @property
    def k(self):
        """Logical counter of the innermost loop being specified."""
        return self.X.loop_counter(self.st, self.fr)

    def len(self, v):
        return self.X.so.vec_len(v)

    def arr(self, v):
        return self.X.so.vec_arr(v)

    def loop_entry(self):
        return View(self.X, self.fr.loop_entries[-1], self.fr, pre=self._pre)


class VC:
    __slots__ = ("fn", "label", "pc", "goal", "line", "res", "time", "solver", "hints", "kind", "slim")

    def __init__(self, fn, label, pc, goal, line, kind="ob"):
        self.fn, self.label, self.pc, self.goal, self.line, self.kind = fn, label, pc, goal, line, kind
        self.res = None
        self.time = 0
        self.solver = None
        self.slim = None


def quantified(f, seen=None):
    seen = set() if seen is None else seen
    todo = [f]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        todo += x.children()
    return False


def kids(n):
    return n.get("inner", []) or []


PASS_CASTS = {"NoOp", "LValueToRValue", "FunctionToPointerDecay", "ConstructorConversion",
              "UserDefinedConversion", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived",
              "BitCast", "ArrayToPointerDecay", "NullToPointer", "IntegralCast", "IntegralToBoolean",
              "PointerToBoolean", "ToVoid", "IntegralToFloating", "FloatingToIntegral", "FloatingCast",
              "BuiltinFnToFnPtr", "Dynamic", "PointerToIntegral", "IntegralToPointer", "Dependent"}


class Exec:
    def __init__(self, unit, heap_classes=(), contracts=(), lib=None, models=None, globals_init=None,
                 axioms=(), concrete_globals=True, maxdepth=14, prune=True):
        self.u = unit
        self.so = Sorts(unit)
        self.heap_classes = set(heap_classes)
        self.contracts = list(contracts)
        self.models = models or {}
        self.vcs = []
        self.cur = None
        self.pending = []
        self.quiet = 0
        self.fnstack = []
        self.maxdepth = maxdepth
        self.axioms = list(axioms)
        self.line = 0
        self.prune = prune
        self.locals_base = {}
        self.trusted_used = set()
        self.inlined = set()
        self.lam = {}
        import libm
        self.lib = libm.Lib(self)
        self.lib_MapEntry = libm.MapEntry
        self.paths = 0
        self.exits = {}
        self.defs = {}
        self.opaque = {}
        self.charof = {}      # temporaries that stand for a character of a string: (place of the string, index)
        self.streams = None
        self.unroll_default = 0
        self.maxpaths = 6000
        self.invtag, self.invkeep = {}, []

    def lemma(self, name, f):
        """A lemma over the specification vocabulary: proved from the axioms so far, then available."""
        self.vcs.append(VC("lemma", name, list(self.axioms) + list(getattr(self, "lit_axioms", [])), f, 0, "ob"))
        self.axioms.append(f)

    # ------------------------------------------------------------- obligations
    def check(self, st, goal, label, node=None, kind="ob"):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        g = simp(goal)
        if not self.quiet:
            if isT(g):
                self.vcs.append(VC(self.cur, label, [], z3.BoolVal(True), self.line, kind))
            else:
                v = VC(self.cur, label, list(st.pc), goal, self.line, kind)
                if ": invariant preserved: " in label:      # a subset of the hypotheses to try first: drop the other quantified invariants
                    L = label.split(": invariant preserved: ", 1)[1]
                    sl = [p for p in v.pc if self.invtag.get(p.get_id(), (L, 0))[0] == L or not self.invtag[p.get_id()][1]]
                    if len(sl) < len(v.pc):
                        v.slim = sl
                self.vcs.append(v)
        if not isT(g):
            st.assume(goal)

    def feasible(self, st, quick=120):
        if not self.prune:
            return True
        s = z3.Solver()
        s.set("timeout", quick)
        for p in st.pc:
            if isF(p):
                return False
            if not has_quant(p):
                s.add(p)
        return s.check() != z3.unsat

    # ------------------------------------------------------------- memory
    def heaparr(self, st, cls, field):
        k = (cls, field)
        if k not in st.heap:
            d = self.hrec(cls)
            t = None
            for n, ty, w in self.u.fields(d):
                if n == field:
                    t = ty
            if t is None:
                raise Unsupported("record %s has no field %s" % (cls, field))
            # one initial array per (owner,field), shared by all states of this run
            own = self.owner(cls, field)
            ik = (own, field)
            if ik not in self.heap0:
                self.heap0[ik] = z3.Const("H_%s_%s" % ik, z3.ArraySort(z3.IntSort(), self.so.of(t)))
            if ik not in st.heap:
                st.heap[ik] = self.heap0[ik]
            return st.heap[ik]
        return st.heap[k]

    def hrec(self, cls):
        """Record of a heap class (of the chosen specialisation, heap_spec, if there are several)."""
        sp = getattr(self, "heap_spec", {}).get(cls)
        d = self.u.record(sp or Ty("rec", cls))
        if d is None:
            raise Unsupported("record %s is not known" % cls)
        return d

    def owner(self, cls, field):
        d = self.hrec(cls)
        for c in d.get("inner", []):
            if c.get("kind") == "FieldDecl" and c.get("name") == field:
                return cls
        for b in d.get("bases", []):
            bt = self.u.ty(b)
            bd = self.u.record(bt)
            if bd is not None and any(n == field for n, _, _ in self.u.fields(bd)):
                return self.owner(bt.name, field)
        return cls

    def hsel(self, arr, ref):
        """Heap read, folded over writes to syntactically equal references."""
        d = self.defs.get(arr.get_id())
        if d is not None and d[1].eq(ref):
            return d[2]
        return z3.Select(arr, ref)

    def root_val(self, st, root, ty):
        k = root[0]
        if k == "L":
            if root[1] not in st.loc:
                raise Unsupported("read of an unknown object")
            return st.loc[root[1]]
        if k == "G":
            if root[1] not in st.glob:
                gk = root[1]
                if gk not in self.glob0:
                    self.glob0[gk] = self.global_init(gk, st)
                st.glob[gk] = self.glob0[gk][0]
                for a in self.glob0[gk][1]:
                    st.assume(a)
            return st.glob[root[1]]
        if k == "H":
            d = self.u.record(ty)
            return StructV(ty, {n: self.so.from_z3(self.hsel(self.heaparr(st, self.owner(ty.name, n), n), root[2]), t)
                                for n, t, w in self.u.fields(d)})
        raise Unsupported("root " + str(root))

    def global_init(self, name, st):
        d = None
        for i, q in self.u.qn.items():
            if q == name and self.u.byid[i].get("kind") == "VarDecl":
                n = self.u.byid[i]
                if d is None or kids(n):
                    d = n
        if d is None:
            raise Unsupported("global " + name)
        ty = self.u.ty(d)
        q = d["type"]["qualType"]
        if ("const" in q.split() or q.startswith("const ") or d.get("constexpr")) and kids(d):
            s2 = State()
            s2.alloc = st.alloc
            r = self.ev(kids(d)[-1], s2, Frame(None, None))
            return (self.rv(s2, r[0][1]) if isinstance(r[0][1], Place) else r[0][1], list(s2.pc))
        s2 = State()
        v = self.fresh_val(ty, "glob_" + d["name"], s2)
        return (v, s2.pc)

    def gplace(self, name):
        for i, q in self.u.qn.items():
            if (q == name or q.endswith("::" + name)) and self.u.byid[i].get("kind") == "VarDecl":
                return Place(("G", q), (), self.u.ty(self.u.byid[i]))
        raise Unsupported("global " + name)

    def read(self, st, p):
        if isinstance(p, self.lib_MapEntry):
            return StructV(p.ty, {"first": self.so.from_z3(p.it.key, p.it.place.ty.args[0]),
                                  "second": self.read(st, p.f("second", None))})
        if p.root[0] == "C":
            v, ty = self.so.from_z3(p.root[1], p.v_ty if hasattr(p, "v_ty") else p.ty) if not p.sels else p.root[1], None
            if p.sels:
                raise Unsupported("selection in a constant")
            return v
        if p.root[0] == "H" and p.sels and p.sels[0][0] == "f":
            n, t = p.sels[0][1], p.sels[0][2]
            cls = p.root[1]
            h = self.models.get("field:%s::%s" % (cls, n))       # a field that a specification describes (a C string, say)
            if h is not None and len(p.sels) == 1:
                return h(self, st, p.root[2])
            v = self.so.from_z3(self.hsel(self.heaparr(st, self.owner(cls, n), n), p.root[2]), t)
            sels = p.sels[1:]
            ty = t
        elif p.root[0] == "B":
            arr, size, et = st.blocks[p.root[1]]
            if et.k == "ptr" and arr.sort().range() == vals.Str:     # a table of C strings that ends with a null pointer
                v = CStr(z3.Select(arr, p.sels[0][1]))
                st.assume(self.lib.slen(v.s) >= 0)
                v.nullable = p.sels[0][1] == size - 1
            else:
                v = self.so.from_z3(z3.Select(arr, p.sels[0][1]), et)
            sels, ty = p.sels[1:], et
        else:
            v = self.root_val(st, p.root, p.ty if not p.sels else None or self.root_ty(st, p))
            sels = p.sels
            ty = self.root_ty(st, p)
        for s in sels:
            v = self.sel(st, v, ty, s)
            ty = s[2]
        self.wf(st, v, p.ty)
        return v

    def root_ty(self, st, p):
        if p.root[0] == "L":
            t = st.lty.get(p.root[1])
            return t.to if t is not None and t.k == "ref" else t
        if p.root[0] == "H":
            return Ty("rec", p.root[1])
        if p.root[0] == "G":
            for i, q in self.u.qn.items():
                if q == p.root[1] and self.u.byid[i].get("kind") == "VarDecl":
                    return self.u.ty(self.u.byid[i])
        return p.ty

    def sel(self, st, v, ty, s):
        k = s[0]
        if isinstance(v, Undef):
            return Undef(s[2])
        if k == "f":
            if isinstance(v, StructV):
                if s[1] not in v.f:
                    raise Unsupported("field " + s[1])
                return v.f[s[1]]
            if z3.is_expr(v):
                return self.so.from_z3(v, ty).f[s[1]]
        if k == "i":
            if z3.is_expr(v):
                if ty.k == "arr":
                    return self.so.from_z3(z3.Select(v, s[1]), s[2])
                return self.so.from_z3(z3.Select(self.so.vec_arr(v), s[1]), s[2])
            if isinstance(v, list):
                i = simp(s[1])
                if z3.is_int_value(i):
                    return v[i.as_long()]
        if k == "m":
            return self.so.from_z3(z3.Select(self.so.map_val(v), self.so.to_z3(s[1], None)), s[2])
        raise Unsupported("cannot select %s from %s" % (k, type(v).__name__))

    def upd(self, st, v, ty, sels, new):
        if not sels:
            return new
        s = sels[0]
        if s[0] == "f":
            if isinstance(v, Undef):
                v = self.undef_struct(ty)
            if not isinstance(v, StructV):
                v = self.so.from_z3(v, ty)
            return v.with_(s[1], self.upd(st, v.f[s[1]], s[2], sels[1:], new))
        if isinstance(v, Undef):
            v = self.so.to_z3(v, ty)
        if s[0] == "i":
            if ty.k == "arr":
                old = self.so.from_z3(z3.Select(v, s[1]), s[2]) if len(sels) > 1 else None
                return z3.Store(v, s[1], self.so.to_z3(self.upd(st, old, s[2], sels[1:], new), s[2]))
            arr = self.so.vec_arr(v)
            old = self.so.from_z3(z3.Select(arr, s[1]), s[2]) if len(sels) > 1 else None
            nv = self.so.to_z3(self.upd(st, old, s[2], sels[1:], new), s[2])
            return v.sort().constructor(0)(z3.Store(arr, s[1], nv), self.so.vec_len(v))
        if s[0] == "m":
            val = self.so.map_val(v)
            old = self.so.from_z3(z3.Select(val, s[1]), s[2]) if len(sels) > 1 else None
            nv = self.so.to_z3(self.upd(st, old, s[2], sels[1:], new), s[2])
            return v.sort().constructor(0)(self.so.map_dom(v), z3.Store(val, s[1], nv))
        raise Unsupported("update")

    def undef_struct(self, ty):
        return StructV(ty, {n: (self.undef_struct(t) if self.so.is_struct(t) else
                                (self.default_val(t) if t.k == "std" else Undef(t)))
                            for n, t, w in self.so.rec_fields(ty)})

    def write(self, st, p, v):
        r = p.root
        if r[0] == "H":
            if not p.sels:
                if not isinstance(v, StructV):
                    v = self.so.from_z3(v, p.ty)
                for n, t, w in self.so.rec_fields(p.ty):
                    self.write(st, p.f(n, t), v.f[n])
                return
            n, t = p.sels[0][1], p.sels[0][2]
            own = self.owner(r[1], n)
            arr = self.heaparr(st, own, n)
            old = self.so.from_z3(self.hsel(arr, r[2]), t) if len(p.sels) > 1 else None
            nv = self.upd(st, old, t, p.sels[1:], v)
            x = self.so.to_z3(nv, t)
            if z3.is_app_of(arr, z3.Z3_OP_STORE) or arr.get_id() in self.defs and False:
                pass
            na = fresh("H_%s_%s" % (own, n), arr.sort())
            self.defs[na.get_id()] = (arr, r[2], x, na)
            st.assume(na == z3.Store(arr, r[2], x))
            st.heap[(own, n)] = na
            st.wrote(("heap", own, n))
            return
        if r[0] == "B":
            arr, size, et = st.blocks[r[1]]
            old = self.so.from_z3(z3.Select(arr, p.sels[0][1]), et) if len(p.sels) > 1 else None
            nv = self.upd(st, old, et, p.sels[1:], v)
            st.blocks[r[1]] = (z3.Store(arr, p.sels[0][1], self.so.to_z3(nv, et)), size, et)
            st.wrote(("block", r[1]))
            return
        if r[0] == "L":
            if r[1] in self.charof:
                self.lib.char_write(st, r[1], v)
                return
            if not p.sels:
                st.loc[r[1]] = v
            else:
                st.loc[r[1]] = self.upd(st, st.loc[r[1]], self.root_ty(st, p), p.sels, v)
            fs = []
            for x in p.sels:
                if x[0] != "f":
                    break
                fs.append(x[1])
            st.wrote(("locf", r[1], tuple(fs)) if fs else ("loc", r[1]))
            return
        if r[0] == "G":
            old = self.root_val(st, r, p.ty)
            st.glob[r[1]] = self.upd(st, old, self.root_ty(st, p), p.sels, v)
            st.wrote(("glob", r[1]))
            return
        raise Unsupported("write " + str(r))

    def wf(self, st, v, ty):
        """Type invariants of a value that was read (ranges of machine integers, sizes >= 0)."""
        if ty is None or not z3.is_expr(v):
            if isinstance(v, StructV):
                for n, t, w in self.so.rec_fields(v.ty):
                    x = v.f[n]
                    if z3.is_expr(x) and w and t.k in ("int", "enum"):
                        self._range(st, x, 0, (1 << w) - 1)
                    else:
                        self.wf(st, x, t)
            return
        if z3.is_int_value(v):
            return
        if ty.k == "int":
            lo, hi = self.so.int_range(ty)
            self._range(st, v, lo, hi)
        elif ty.k == "enum":
            pass
        elif ty.k == "std" and ty.name in SEQS and z3.is_expr(v):
            l = self.so.vec_len(v)
            if not z3.is_int_value(l):
                self._range(st, l, 0, (1 << 60))
        elif ty.k == "std" and ty.name in ("string",):
            l = self.lib.slen(v)
            if not z3.is_int_value(l):
                self._range(st, l, 0, (1 << 60))
        elif ty.k == "ptr" and z3.is_expr(v) and v.sort() == z3.IntSort():
            self._range(st, v, 0, None)

    def _range(self, st, v, lo, hi):
        k = (v.get_id(), lo, hi)
        if k in st.wf:
            return
        st.wf.add(k)
        self.keep.append(v)
        st.assume(v >= lo)
        if hi is not None:
            st.assume(v <= hi)

    keep = []

    def fresh_val(self, ty, name, st):
        if ty.k == "ref":
            return self.fresh_val(ty.to, name, st)
        if self.so.is_struct(ty):
            d = {}
            for n, t, w in self.so.rec_fields(ty):
                d[n] = self.fresh_val(t, name + "." + n, st)
                if w and t.k in ("int", "enum"):
                    self._range(st, d[n], 0, (1 << w) - 1)
            return StructV(ty, d)
        if ty.k == "func" or (ty.k == "std" and ty.name == "function"):
            return OpaqueFn(name)
        if ty.k == "ptr" and ty.to.k == "func":
            return OpaqueFn(name)
        v = fresh(name, self.so.of(ty))
        self.wf(st, v, ty)
        return v

    def default_val(self, ty):
        """Value-initialised object."""
        if ty.k in ("int", "enum"):
            return z3.IntVal(0)
        if ty.k == "bool":
            return z3.BoolVal(False)
        if ty.k == "float":
            return z3.RealVal(0)
        if ty.k in ("ptr", "nullptr"):
            return z3.IntVal(0)
        if ty.k == "std":
            if ty.name in ("string", "stringstream", "ostringstream", "basic_stringstream", "basic_ostringstream"):
                return self.lib.strlit("")
            if ty.name in SEQS:
                return self.so.mkvec(ty, z3.K(z3.IntSort(), self.dflt_const(ty.args[0])), z3.IntVal(0))
            if ty.name in MAPS:
                ks = self.so.of(ty.args[0])
                return self.so.mkmap(ty, z3.K(ks, z3.BoolVal(False)), z3.K(ks, self.dflt_const(ty.args[1])))
            if ty.name in SETS:
                return z3.K(self.so.of(ty.args[0]), z3.BoolVal(False))
            if ty.name in ("unique_ptr", "shared_ptr"):
                return z3.IntVal(0)
            if ty.name == "pair":
                return StructV(ty, {"first": self.default_val(ty.args[0]), "second": self.default_val(ty.args[1])})
            if ty.name == "function":
                return OpaqueFn("null")
            return z3.Const("default_" + sanitize(ty.key()), self.so.of(ty))
        if self.so.is_struct(ty):
            return StructV(ty, {n: self.default_val(t) for n, t, w in self.so.rec_fields(ty)})
        return fresh("dflt", self.so.of(ty))

    def dflt_const(self, ty):
        try:
            return self.so.to_z3(self.default_val(ty), ty)
        except Unsupported:
            return z3.Const("dfl_" + sanitize(ty.key()), self.so.of(ty))

    def rv(self, st, v):
        """lvalue-to-rvalue."""
        if isinstance(v, Place):
            return self.read(st, v)
        return v

    def temp(self, st, v, ty):
        k = ("tmp", next(Frame.n))
        st.loc[k] = v
        st.lty[k] = ty
        return Place(("L", k), (), ty)

    # ------------------------------------------------------------- function verification
    def verify(self, c, fdecl, rec=None):
        """Generate all obligations of one function against its contract."""
        self.cur = c.title
        self.heap0, self.glob0 = getattr(self, "heap0", {}), getattr(self, "glob0", {})
        st = State()
        st.alloc = z3.Const("alloc0", z3.ArraySort(z3.IntSort(), z3.BoolSort()))
        for a in self.axioms:
            st.assume(a)
        recd = fdecl.get("_rec")
        this = None
        is_ctor = fdecl["kind"] == "CXXConstructorDecl"
        if recd is not None and fdecl.get("storageClass") != "static":
            tname = recd.get("name")
            targs = [self.u.tt.parse(a) for a in recd.get("_targs", [])]
            rty = Ty("rec", tname, targs)
            if tname in self.heap_classes:
                r = z3.Int("this")
                st.assume(r > 0)
                st.assume(z3.Select(st.alloc, r))
                this = Place(("H", tname, r), (), rty)
            else:
                k = ("this", 0)
                st.lty[k] = rty
                if is_ctor:
                    st.loc[k] = self.undef_struct(rty) if self.so.is_struct(rty) else z3.Const("this", self.so.of(rty))
                else:
                    st.loc[k] = self.fresh_val(rty, "this", st)
                this = Place(("L", k), (), rty)
        fr = Frame(fdecl, this, contract=c)
        fr.retref = ret_type(fdecl["type"]["qualType"]).endswith("&")
        vc0 = len(self.vcs)
        self.lit_axioms = getattr(self, "lit_axioms", [])
        self.number_loops(body(fdecl), c)
        for p in params(fdecl):
            self.bind_param_fresh(st, fr, p, c)
        if c.setup:
            c.setup(View(self, st, fr))
        fr.entry = st.copy()
        S = View(self, st, fr)
        if c.pre:
            for lab, f in norm(c.pre(S)):
                st.assume(f)
        fr.entry = st.copy()
        self.vcs.append(VC(self.cur, "precondition is satisfiable", list(st.pc), z3.BoolVal(False), 0, "vac"))
        self.root_frame = fr
        self.fnstack = [fdecl["id"]]
        pre = st.copy()
        if is_ctor:
            outs0 = self.ctor_inits(fdecl, st, fr)
        else:
            outs0 = [st]
        n_exit = 0
        exits = []
        for s0 in outs0:
            for kind, s1, val in self.run(body(fdecl), s0, fr):
                if kind == "normal":
                    kind, val = "return", VOID
                if kind == "return":
                    exits.append(s1)
                    self.finish(c, fr, pre, s1, val)
                elif kind == "throw":
                    if c.throws is None:
                        self.check(s1, False, "no exception escapes")
                    else:
                        for lab, f in norm(c.throws(View(self, s1, fr, pre=pre))):
                            self.check(s1, f, "on throw: " + lab, kind="post")
                        exits.append(s1)
                    self.frame_check(c, fr, pre, s1)
                else:
                    raise Unsupported("stray " + kind)
        for i, e in enumerate(exits):
            self.vcs.append(VC(self.cur, "exit path %d" % i, list(e.pc), z3.BoolVal(False), 0, "reach"))
        self.exits[self.cur] = len(exits)
        for v in self.vcs[vc0:]:
            v.pc = self.lit_axioms + v.pc

    def finish(self, c, fr, pre, s1, val):
        s0, s1 = s1, s1.copy()
        S = View(self, s1, fr, ret=val, pre=pre)
        if c.hints:
            for f in c.hints(S):
                s1.assume(f)
        if c.post:
            for lab, f in norm(c.post(S)):
                if isinstance(f, Unsupported):
                    raise f
                s2 = s1 if c.chain else s1.copy()
                self.check(s2, f, "postcondition: " + lab, kind="post")
        self.frame_check(c, fr, pre, s0)

    def frame_check(self, c, fr, pre, s1):
        allowed = []
        if c.mods == "any":
            return
        if c.mods:
            allowed = list(c.mods(View(self, pre, fr)))

        def ok(kind, *key):
            for a in allowed:
                if isinstance(a, Place):
                    if kind == "H" and a.root[0] == "H" and a.sels and a.sels[0][1] == key[1] and False:
                        return True
                elif a[0] == kind and tuple(a[1:]) == key:
                    return True
            return False
        for k, v in s1.heap.items():
            v0 = pre.heap.get(k, self.heap0.get(k))
            if v0 is None or v.eq(v0):
                continue
            if ok("heap", *k):
                continue
            pls = [a for a in allowed if isinstance(a, Place) and a.root[0] == "H" and
                   self.owner(a.root[1], a.sels[0][1]) == k[0] and a.sels[0][1] == k[1]]
            r = z3.Int("frame_r")
            cond = [r != a.root[2] for a in pls]
            # fresh objects may be initialised freely
            cond.append(z3.Select(pre.alloc, r))
            self.check(s1.copy(), z3.ForAll([r], z3.Implies(z3.And(*cond), z3.Select(v, r) == z3.Select(v0, r))),
                       "frame: %s.%s unchanged elsewhere" % k, kind="frame")
        for k, v in s1.glob.items():
            if k in pre.glob or k in self.glob0:
                v0 = pre.glob.get(k, self.glob0[k][0] if k in self.glob0 else None)
                if v is v0 or ok("glob", k):
                    continue
                self.check(s1.copy(), self.eqv(v, v0), "frame: global %s unchanged" % k, kind="frame")
        for k, v in s1.ghost.items():
            v0 = pre.ghost.get(k)
            if v0 is None or v.eq(v0) or ok("ghost", k) or k.startswith("my:"):     # "my:...": a ghost local of this call (its caller has its own)
                continue
            self.check(s1.copy(), v == v0, "frame: ghost %s unchanged" % k, kind="frame")
        for k, v in s1.blocks.items():
            v0 = pre.blocks.get(k)
            if v0 is None or v[0].eq(v0[0]) or ok("block", k):
                continue
            self.check(s1.copy(), v[0] == v0[0], "frame: buffer unchanged", kind="frame")
        # objects reachable through this / parameters
        for k, v in s1.loc.items():
            if k not in pre.loc:
                continue
            v0 = pre.loc[k]
            if v is v0 or (k[0] == fr.id):
                continue
            pls = [a for a in allowed if isinstance(a, Place) and a.root == ("L", k)]
            if any(not a.sels for a in pls):
                continue
            self.frame_struct(s1, k, v, v0, pls, self.root_ty(s1, Place(("L", k), (), None)), "")

    def frame_struct(self, st, k, v, v0, pls, ty, path):
        if isinstance(v, Undef) or isinstance(v0, Undef):
            if isinstance(v, Undef) and isinstance(v0, Undef):
                return
        if isinstance(v, StructV) and isinstance(v0, StructV):
            for n in v.f:
                if v.f[n] is v0.f[n]:
                    continue
                sub = [a for a in pls if a.sels and a.sels[0][1] == n]
                if any(len(a.sels) == 1 for a in sub):
                    continue
                t = dict((x[0], x[1]) for x in self.so.rec_fields(v.ty))[n]
                self.frame_struct(st, k, v.f[n], v0.f[n],
                                  [Place(a.root, a.sels[1:], a.ty) for a in sub], t, path + "." + n)
            return
        if isinstance(v0, Undef):
            return
        self.check(st.copy(), self.eqv(v, v0), "frame: %s%s unchanged" % (k[0], path), kind="frame")

    def eqv(self, a, b):
        if isinstance(a, StructV) and isinstance(b, StructV):
            return z3.And(*[self.eqv(a.f[n], b.f[n]) for n in a.f])
        if isinstance(a, StructV):
            a = self.so.to_z3(a, a.ty)
        if isinstance(b, StructV):
            b = self.so.to_z3(b, b.ty)
        if z3.is_expr(a) and z3.is_expr(b):
            return a == b
        if isinstance(a, PtrP) and isinstance(b, PtrP):
            return z3.BoolVal(same_place(a.place, b.place))
        if isinstance(a, BPtr) and isinstance(b, BPtr):
            return z3.And(z3.BoolVal(a.block == b.block), a.off == b.off)
        if a is b:
            return z3.BoolVal(True)
        if isinstance(a, CStr) and isinstance(b, CStr):
            return a.s == b.s
        raise Unsupported("equality of %s and %s" % (type(a).__name__, type(b).__name__))

    def bind_param_fresh(self, st, fr, p, c):
        ty = self.u.ty(p)
        k = (fr.id, p["id"])
        fr.owned.add(p["id"])
        fr.names[p.get("name", "")] = p["id"]
        st.lty[k] = ty
        nm = p.get("name", "arg")
        if c.params and nm in c.params:
            v = c.params[nm](self, st, fr, ty)
            if v is not None:
                st.loc[k] = v
                return
        if ty.k == "ref":
            if ty.to.k == "rec" and ty.to.name in self.heap_classes:
                r = z3.Int(nm + "!p")
                st.assume(r > 0)
                st.loc[k] = Place(("H", ty.to.name, r), (), ty.to)
                return
            if ty.to.k == "ptr" and ty.to.to.k == "std":
                raise Unsupported("reference to pointer parameter")
            t = ("arg", p["id"])
            st.lty[t] = ty.to
            st.loc[t] = self.fresh_val(ty.to, nm, st)
            st.loc[k] = Place(("L", t), (), ty.to)
            return
        if ty.k == "ptr":
            to = ty.to
            if to.k == "rec" and to.name in self.heap_classes:
                v = z3.Int(nm + "!p")
                st.assume(v >= 0)
                st.loc[k] = v
                return
            if to.k == "func":
                st.loc[k] = OpaqueFn(nm)
                return
            if to.k == "rec" and self.u.record(to) is None:
                st.loc[k] = z3.Int(nm)
                return
            if to.k in ("rec", "std", "int", "ptr", "bool", "enum", "float") and not (to.k == "int" and to.bits == 8):
                t = ("arg", p["id"])
                st.lty[t] = to
                st.loc[t] = self.fresh_val(to, nm, st)
                st.loc[k] = PtrP(Place(("L", t), (), to))
                return
            if to.k == "int" and to.bits == 8:
                if (p["type"]["qualType"].startswith("const")):
                    st.loc[k] = CStr(fresh(nm, vals.Str))
                    self.wf(st, st.loc[k].s, Ty("std", "string"))
                    return
                b = ("blk", p["id"])
                st.blocks[b] = (z3.Const(nm + "_mem", z3.ArraySort(z3.IntSort(), z3.IntSort())), z3.Int(nm + "_size"), to)
                st.loc[k] = BPtr(b, z3.IntVal(0), to)
                return
            if to.k == "void":
                st.loc[k] = z3.Int(nm)
                return
            raise Unsupported("pointer parameter of type " + str(ty))
        st.loc[k] = self.fresh_val(ty, nm, st)

    def number_loops(self, b, c):
        self.own_loops = []

        def walk(n):
            if not isinstance(n, dict):
                return
            if n.get("kind") in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt") and not do_once(n):
                self.own_loops.append(n["id"])
            if n.get("kind") == "LambdaExpr":
                bs = [x for x in kids(n) if x.get("kind") == "CompoundStmt"]
                if bs:
                    walk(bs[-1])
                return
            for x in kids(n):
                walk(x)
        walk(b)
        self.extra_loops = []

    def loop_spec(self, n, fr):
        c = self.root_frame.contract
        fd = fr.fdecl
        qn = self.u.qn.get(fd["id"], fd.get("name", "?")) if fd else "?"
        specs = c.loops if isinstance(c.loops, dict) else dict(enumerate(c.loops))
        if n["id"] in self.own_loops:
            i = self.own_loops.index(n["id"])
            if i in specs:
                return specs[i]
            return None
        # inlined callee: named spec, else the next unused own spec (helper extracted)
        for kx, sp in specs.items():
            if isinstance(kx, str) and qn.endswith(kx.split("#")[0]):
                ids = [x for x in loops_in(body(fd))]
                want = int(kx.split("#")[1]) if "#" in kx else 0
                if n["id"] in ids and ids.index(n["id"]) == want:
                    return sp
        if n["id"] not in self.extra_loops:
            self.extra_loops.append(n["id"])
        free = [i for i in sorted(k for k in specs if isinstance(k, int)) if i >= len(self.own_loops)]
        j = self.extra_loops.index(n["id"])
        if j < len(free):
            return specs[free[j]]
        return None

    def rename(self, fr, name):
        return None

    def loop_counter(self, st, fr):
        f = fr
        while f is not None:
            if f.loopk:
                k = f.loopk[-1]
                v = st.loc.get(k)
                if isinstance(v, IterV):
                    return v.idx
                if isinstance(v, MapIter):
                    return v.pos
                if v is None:
                    raise Unsupported("loop counter")
                return v
            f = f.caller
        raise Unsupported("no loop counter")

    # ------------------------------------------------------------- statements
    # run(n, st, fr) -> list of (kind, state, value); kind in normal/break/continue/return/throw
    def run(self, n, st, fr):
        k = n.get("kind")
        if n.get("range", {}).get("begin", {}).get("line"):
            self.line = n["range"]["begin"]["line"]
        m = getattr(self, "s_" + k, None) if k else None
        if m is not None:
            return m(n, st, fr)
        if k is None:
            return [("normal", st, None)]
        out = []
        for s, v in self.ev(n, st, fr):
            out.append(("normal", s, None))
        return self.drain(out)

    def drain(self, out):
        if self.pending:
            p, self.pending = self.pending, []
            out = out + [("throw", s, None) for s in p]
        return out

    def evs(self, n, st, fr):
        """Evaluate an expression at statement level: (values, throws)."""
        r = self.ev(n, st, fr)
        th = []
        if self.pending:
            th, self.pending = [("throw", s, None) for s in self.pending], []
        return r, th

    def s_CompoundStmt(self, n, st, fr):
        cur = [st]
        out = []
        jumps = []                                  # forward jumps to a label of this block
        labels = {}
        for i, c in enumerate(kids(n)):
            x = c
            while x.get("kind") == "LabelStmt":
                labels[x.get("declId")] = i
                x = kids(x)[-1]
        for i, c in enumerate(kids(n)):
            cur += [s for j, s in jumps if j == i]
            jumps = [(j, s) for j, s in jumps if j != i]
            nxt = []
            for s in cur:
                for kind, s2, v in self.run(c, s, fr):
                    if kind == "normal":
                        nxt.append(s2)
                    elif kind == "goto" and labels.get(v, -1) > i:
                        jumps.append((labels[v], s2))
                    elif kind == "goto" and v in labels:
                        raise Unsupported("jump backwards")
                    else:
                        out.append((kind, s2, v))
            cur = nxt
            if len(cur) > self.maxpaths:
                raise Unsupported("too many paths")
            if not cur and not jumps:
                break
        out += [("normal", s, None) for s in cur]
        if any(d.get("kind") == "VarDecl" and self.u.ty(d).k == "rec" and self.dtor(self.u.ty(d)) for c in kids(n) if c.get("kind") == "DeclStmt" for d in kids(c)):
            out = [(kind, self.leave(n, s, fr), v) for kind, s, v in out]
        return out

    def s_NullStmt(self, n, st, fr):
        return [("normal", st, None)]

    def s_LabelStmt(self, n, st, fr):
        return self.run(kids(n)[-1], st, fr)

    def s_AttributedStmt(self, n, st, fr):
        return self.run(kids(n)[-1], st, fr)

    def s_DeclStmt(self, n, st, fr):
        cur = [st]
        th = []
        for d in kids(n):
            if d.get("kind") == "VarDecl":
                nxt = []
                for s in cur:
                    nxt += self.decl_var(d, s, fr)
                    if self.pending:
                        th += [("throw", x, None) for x in self.pending]
                        self.pending = []
                cur = nxt
        return th + [("normal", s, None) for s in cur]

    def declare(self, d, st, fr, v, ty):
        k = (fr.id, d["id"])
        fr.owned.add(d["id"])
        if d.get("name"):
            fr.names[d["name"]] = d["id"]
            fr.order = getattr(fr, "order", [])
            if d["id"] not in fr.order:
                fr.order.append(d["id"])
        st.lty[k] = ty
        st.loc[k] = v
        st.wrote(("decl", k))
        return k

    def decl_var(self, d, st, fr):
        ty = self.u.ty(d)
        init = [x for x in kids(d) if x.get("kind", "").endswith(("Expr", "Operator", "Literal", "Cleanups")) or x.get("kind") in ("ConstantExpr",)]
        if d.get("storageClass") == "static" and not (d["type"]["qualType"].startswith("const")):
            raise Unsupported("static local variable")
        if ty.k == "rec" and ty.name == "lambda":
            out = []
            for s, v in self.ev(init[0], st, fr):
                self.declare(d, s, fr, v, ty)
                out.append(s)
            return out
        if not init:
            if self.so.is_struct(ty):
                v = self.undef_struct(ty)
            elif ty.k == "std":
                v = self.default_val(ty)
            elif ty.k == "arr":
                v = self.array_init(ty)
            else:
                v = Undef(ty)
            self.declare(d, st, fr, v, ty)
            return [st]
        out = []
        for s, v in self.ev(init[0], st, fr):
            if ty.k == "ref":
                if not isinstance(v, Place):
                    v = self.temp(s, v, ty.to)
                self.declare(d, s, fr, v, ty)
            else:
                v = self.rv(s, v)
                self.declare(d, s, fr, v, ty)
            out.append(s)
        return out

    def array_init(self, ty):
        return z3.K(z3.IntSort(), self.dflt_const(ty.to)) if False else fresh("arr", self.so.of(ty))

    def split(self, st, cond):
        """-> (state if true or None, state if false or None)"""
        c = simp(cond)
        if isT(c):
            return st, None
        if isF(c):
            return None, st
        a, b = st, st.copy()
        a.assume(cond)
        b.assume(z3.Not(cond))
        if not self.feasible(a):
            a = None
        if not self.feasible(b):
            b = None
        return a, b

    def cond(self, n, st, fr):
        """Evaluate a condition -> list of (state, z3 bool)."""
        out = []
        for s, v in self.ev(n, st, fr):
            out.append((s, self.tobool(s, v, self.u.ty(n))))
        return out

    def tobool(self, st, v, ty=None):
        v = self.rv(st, v)
        if isinstance(v, Undef):
            self.check(st, False, "no read of an uninitialised value")
            return fresh("undef", z3.BoolSort())
        if z3.is_expr(v):
            if v.sort() == z3.BoolSort():
                return v
            if v.sort() == z3.IntSort():
                return v != 0
        if isinstance(v, (PtrP, BPtr, CStr, Clos, OpaqueFn)):
            return z3.BoolVal(True)
        raise Unsupported("condition value " + type(v).__name__)

    def s_IfStmt(self, n, st, fr):
        ch = kids(n)
        out = []
        cur = [st]
        i = 0
        if n.get("hasInit") or n.get("hasVar"):
            r = self.run(ch[0], st, fr)
            cur = [s for k, s, v in r if k == "normal"]
            out += [x for x in r if x[0] != "normal"]
            i = 1
        for s in cur:
            rs = self.cond(ch[i], s, fr)
            out = self.drain(out)
            for s2, c in rs:
                a, b = self.split(s2, c)
                if a is not None:
                    out += self.run(ch[i + 1], a, fr)
                if b is not None:
                    if n.get("hasElse"):
                        out += self.run(ch[i + 2], b, fr)
                    else:
                        out.append(("normal", b, None))
        return out

    def s_ReturnStmt(self, n, st, fr):
        ch = kids(n)
        if not ch:
            return [("return", st, VOID)]
        rs, out = self.evs(ch[0], st, fr)
        rt = fr.rty if hasattr(fr, "rty") else None
        for s, v in rs:
            if fr.retref:
                out.append(("return", s, v if isinstance(v, Place) else v))
            else:
                out.append(("return", s, self.rv(s, v)))
        return out

    def s_GotoStmt(self, n, st, fr):
        return [("goto", st, n.get("targetLabelDeclId"))]

    def s_BreakStmt(self, n, st, fr):
        return [("break", st, None)]

    def s_ContinueStmt(self, n, st, fr):
        return [("continue", st, None)]

    def s_CXXTryStmt(self, n, st, fr):
        ch = kids(n)
        out = []
        for kind, s, v in self.run(ch[0], st, fr):
            if kind == "throw":
                h = ch[1]
                if len(ch) > 2:
                    raise Unsupported("several catch clauses")
                hk = kids(h)
                for x in hk:
                    if x.get("kind") == "VarDecl":
                        fr.owned.add(x["id"])
                        s.loc[(fr.id, x["id"])] = fresh("exc", z3.IntSort())
                        s.lty[(fr.id, x["id"])] = Ty("unk", "exc")
                out += self.run(hk[-1], s, fr)
            else:
                out.append((kind, s, v))
        return out

    def s_SwitchStmt(self, n, st, fr):
        ch = kids(n)
        rs, out = self.evs(ch[0], st, fr)
        bodyn = ch[-1]
        # flatten: list of (labels, stmts)
        items = []

        def flat(x):
            if x.get("kind") in ("CaseStmt", "DefaultStmt"):
                sub = kids(x)
                items.append(("label", x))
                flat(sub[-1])
            else:
                items.append(("stmt", x))
        for x in kids(bodyn):
            flat(x)
        labels = [(i, x) for i, (t, x) in enumerate(items) if t == "label"]
        for s, v in rs:
            v = self.rv(s, v)
            conds = []
            deflt = None
            for i, x in labels:
                if x["kind"] == "DefaultStmt":
                    deflt = i
                    continue
                cv = self.const_int(kids(x)[0], s, fr)
                conds.append((i, v == cv))
            rest = s
            for i, c in conds:
                if rest is None:
                    break
                a, b = self.split(rest, c)
                if a is not None:
                    out += self.switch_run(items, i, a, fr)
                rest = b
            if rest is not None:
                if deflt is not None:
                    out += self.switch_run(items, deflt, rest, fr)
                else:
                    out.append(("normal", rest, None))
        return out

    def const_int(self, n, st, fr):
        if n.get("kind") == "ConstantExpr" and "value" in n:
            return z3.IntVal(int(n["value"]))
        return self.rv(st, self.ev(n, st, fr)[0][1])

    def switch_run(self, items, i, st, fr):
        cur, out = [st], []
        for t, x in items[i:]:
            if t == "label":
                continue
            nxt = []
            for s in cur:
                for kind, s2, v in self.run(x, s, fr):
                    if kind == "normal":
                        nxt.append(s2)
                    elif kind == "break":
                        out.append(("normal", s2, None))
                    else:
                        out.append((kind, s2, v))
            cur = nxt
        return out + [("normal", s, None) for s in cur]

    # ------------------------------------------------------------- loops
    def s_WhileStmt(self, n, st, fr):
        ch = kids(n)
        if n.get("hasVar"):
            # while (T v = e) body
            return self.loop(n, st, fr, pre_cond=ch[0], cond=ch[1], inc=None, bodyn=ch[2])
        return self.loop(n, st, fr, cond=ch[0], inc=None, bodyn=ch[1])

    def s_DoStmt(self, n, st, fr):
        ch = kids(n)
        if do_once(n):      # do { ... } while (0)
            return [("normal", s, None) if k in ("normal", "break", "continue") else (k, s, v) for k, s, v in self.run(ch[0], st, fr)]
        return self.loop(n, st, fr, cond=ch[1], inc=None, bodyn=ch[0], do=True)

    def s_ForStmt(self, n, st, fr):
        ch = kids(n)
        out = []
        starts = [("normal", st, None)]
        if ch[0]:
            starts = self.run(ch[0], st, fr)
        for kind, s, v in starts:
            if kind != "normal":
                out.append((kind, s, v))
                continue
            out += self.loop(n, s, fr, cond=ch[2] or None, inc=ch[3] or None, bodyn=ch[4],
                             init=ch[0])
        return out

    def s_CXXForRangeStmt(self, n, st, fr):
        ch = kids(n)
        # [init, range, begin, end, cond, inc, loopvar, body]
        cur = [st]
        out = []
        for d in ch[0:4]:
            if not d:
                continue
            nxt = []
            for s in cur:
                for kind, s2, v in self.run(d, s, fr):
                    (nxt.append(s2) if kind == "normal" else out.append((kind, s2, v)))
            cur = nxt
        bid = kids(ch[2])[0]["id"]
        for s in cur:
            out += self.loop(n, s, fr, cond=ch[4], inc=ch[5], bodyn=ch[7], loopvar=ch[6], counter=bid)
        return out

    def counter_of(self, inc):
        ids = []

        def walk(x):
            if x.get("kind") in ("UnaryOperator",) and x.get("opcode") in ("++", "--"):
                for y in kids(x):
                    d = y
                    while d.get("kind") in ("ParenExpr", "ImplicitCastExpr"):
                        d = kids(d)[0]
                    if d.get("kind") == "DeclRefExpr":
                        ids.append(d["referencedDecl"]["id"])
            if x.get("kind") == "CXXOperatorCallExpr":
                ks = kids(x)
                if len(ks) >= 2 and ks[0].get("kind") == "ImplicitCastExpr":
                    nm = (kids(ks[0])[0].get("referencedDecl") or {}).get("name", "")
                    if nm in ("operator++", "operator--"):
                        d = ks[1]
                        while d.get("kind") in ("ParenExpr", "ImplicitCastExpr"):
                            d = kids(d)[0]
                        if d.get("kind") == "DeclRefExpr":
                            ids.append(d["referencedDecl"]["id"])
            for y in kids(x):
                walk(y)
        walk(inc)
        return ids[0] if ids else None

    def loop(self, n, st, fr, cond, inc, bodyn, do=False, loopvar=None, counter=None, pre_cond=None, init=None):
        spec = self.loop_spec(n, fr)
        if spec is None or spec.unroll:
            N = spec.unroll if spec else self.unroll_default
            return self.unroll(n, st, fr, cond, inc, bodyn, do, loopvar, N, pre_cond)
        line = self.line
        if counter is None and inc is not None:
            counter = self.counter_of(inc)
        ck = None
        if counter is not None:
            ck = fr.lookup(counter)
        lname = spec.name or "loop at line %s" % line
        fr.loop_entries.append(st.copy())
        fr.loopk.append(ck)
        cs = self.classify
        try:
            # ghost initialisation
            if spec.pre:
                spec.pre(View(self, st, fr))
                fr.loop_entries[-1] = st.copy()
            # 1. invariant on entry
            for lab, f in norm(spec.inv(View(self, st, fr))):
                s2 = st.copy()
                self.check(s2, f, "%s: invariant holds on entry: %s" % (lname, lab), kind="inv")
            # 2. which objects does the body change
            mods = self.find_mods(n, st, fr, cond, inc, bodyn, loopvar, spec, pre_cond, do)
            h = st.copy()
            self.havoc(h, mods, fr)
            if spec.ghost:
                for gname in spec.ghost:
                    h.ghost[gname] = fresh("g_" + gname, h.ghost[gname].sort())
                    h.wrote(("ghost", gname))
            for lab, f in norm(spec.inv(View(self, h, fr))):
                h.assume(f)
                if not isinstance(f, bool):
                    self.invtag[f.get_id()] = (lab, quantified(f) and lab not in spec.core)
                    self.invkeep.append(f)
            out = []

            def one_iter(s0, after):
                res = []
                r = [(s0, None)]
                if loopvar is not None:
                    rr = self.run(loopvar, s0, fr)
                    r = [(s, None) for kk, s, v in rr if kk == "normal"]
                    res += [x for x in rr if x[0] != "normal"]
                for s, _ in r:
                    if spec.bodyghost:
                        spec.bodyghost(View(self, s, fr))
                    for kind, s2, v in self.run(bodyn, s, fr):
                        if kind in ("normal", "continue"):
                            ends = [s2]
                            if inc is not None:
                                ends = []
                                rs, th = self.evs(inc, s2, fr)
                                res += th
                                ends = [x for x, _ in rs]
                            for e in ends:
                                after(e)
                        elif kind == "break":
                            res.append(("normal", e2(s2), None))
                        else:
                            res.append((kind, s2, v))
                return res

            def e2(s):
                return s
            if not do:
                starts = [("normal", h, None)]
                if pre_cond is not None:
                    starts = self.run(pre_cond, h, fr)
                for kk, hs, vv in starts:
                    if kk != "normal":
                        out.append((kk, hs, vv))
                        continue
                    if cond is None:
                        rs, th = [(hs, z3.BoolVal(True))], []
                    else:
                        rs = self.cond(cond, hs, fr)
                        th = []
                        if self.pending:
                            th, self.pending = [("throw", s, None) for s in self.pending], []
                    out += th
                    for s, c in rs:
                        a, b = self.split(s, c)
                        if b is not None:
                            out.append(("normal", b, None))
                        if a is not None:
                            d0 = spec.dec(View(self, h, fr)) if spec.dec else None
                            if d0 is not None:
                                self.check(a, decok(d0), "%s: variant bounded below" % lname, kind="dec")
                            if not self.quiet:
                                self.vcs.append(VC(self.cur, lname + ": body reachable", list(a.pc), z3.BoolVal(False), line, "reach"))

                            def after(e, d0=d0):
                                self.line = line
                                ec = e.copy() if spec.chain else None
                                for lab, f in norm(spec.inv(View(self, e, fr))):
                                    s3 = ec or e.copy()
                                    self.check(s3, f, "%s: invariant preserved: %s" % (lname, lab), kind="inv")
                                if d0 is not None:
                                    self.check(e, declt(spec.dec(View(self, e, fr)), d0), "%s: variant decreases" % lname, kind="dec")
                            out += one_iter(a, after)
            else:
                def after(e):
                    for s, c in self.cond(cond, e, fr):
                        a, b = self.split(s, c)
                        if b is not None:
                            out.append(("normal", b, None))
                        if a is not None:
                            for lab, f in norm(spec.inv(View(self, a, fr))):
                                s3 = a.copy()
                                self.check(s3, f, "%s: invariant preserved: %s" % (lname, lab), kind="inv")
                            if d0 is not None:
                                self.check(a, declt(spec.dec(View(self, a, fr)), d0), "%s: variant decreases" % lname, kind="dec")
                d0 = spec.dec(View(self, h, fr)) if spec.dec else None
                if d0 is not None:
                    self.check(h, decok(d0), "%s: variant bounded below" % lname, kind="dec")
                out += one_iter(h, after)
            if spec.exitghost:
                for kk, s, v in out:
                    if kk == "normal":
                        spec.exitghost(View(self, s, fr))
            return out
        finally:
            fr.loop_entries.pop()
            fr.loopk.pop()

    def iterate(self, st, fr, spec, more, step, name):
        """Models of functions that call a closure any number of times: spec.inv (over the caller's frame) is proved to hold before the first
        call and after every call; more(st): the condition for another call; step(st) -> [(st, value)]: one call. -> states after the last call"""
        V = lambda s: View(self, s, fr)
        fr.loop_entries.append(st.copy())
        try:
            for lab, f in norm(spec.inv(V(st))):
                self.check(st.copy(), f, "%s: invariant holds on entry: %s" % (name, lab), kind="inv")
            mods, pend = set(), self.pending
            self.quiet += 1
            try:
                for _ in range(8):
                    s = st.copy()
                    self.havoc(s, mods, fr)
                    for gname in spec.ghost:
                        s.ghost[gname] = fresh("g_" + gname, s.ghost[gname].sort())
                    for lab, f in norm(spec.inv(V(s))):
                        s.assume(f)
                    s.assume(more(s))
                    w = s.writes = set()
                    step(s)
                    self.pending = []
                    new = set(x for x in w if not (x[0] == "decl" or (x[0] in ("loc", "locf") and x[1] not in st.loc) or (x[0] == "block" and x[1] not in st.blocks)))
                    if new <= mods:
                        break
                    mods |= new
                else:
                    raise Unsupported("modified set does not stabilise")
            finally:
                self.quiet -= 1
                self.pending = pend
            for x in mods:
                st.wrote(x)
            h = st.copy()
            self.havoc(h, mods, fr)
            for gname in spec.ghost:
                h.ghost[gname] = fresh("g_" + gname, h.ghost[gname].sort())
                h.wrote(("ghost", gname))
            for lab, f in norm(spec.inv(V(h))):
                h.assume(f)
                if not isinstance(f, bool):
                    self.invtag[f.get_id()] = (lab, quantified(f) and lab not in spec.core)
                    self.invkeep.append(f)
            a = h.copy()
            a.assume(more(a))
            if not self.quiet:
                self.vcs.append(VC(self.cur, name + ": another call possible", list(a.pc), z3.BoolVal(False), self.line, "reach"))
            for e, _ in step(a):
                for lab, f in norm(spec.inv(V(e))):
                    self.check(e.copy(), f, "%s: invariant preserved: %s" % (name, lab), kind="inv")
            h.assume(z3.Not(more(h)))
            return h
        finally:
            fr.loop_entries.pop()

    def find_mods(self, n, st, fr, cond, inc, bodyn, loopvar, spec, pre_cond, do):
        mods = set()
        self.quiet += 1
        pend = self.pending
        try:
            for rnd in range(8):
                s = st.copy()
                self.havoc(s, mods, fr)
                if spec.ghost:
                    for gname in spec.ghost:
                        s.ghost[gname] = fresh("g_" + gname, s.ghost[gname].sort())
                for lab, f in norm(spec.inv(View(self, s, fr))):
                    s.assume(f)
                w = set()
                s.writes = w
                fr_owned = set(fr.owned)
                starts = [("normal", s, None)]
                if pre_cond is not None:
                    starts = self.run(pre_cond, s, fr)
                for kk, s1, v in starts:
                    if kk != "normal":
                        continue
                    if cond is not None and not do:
                        rs = self.cond(cond, s1, fr)
                    else:
                        rs = [(s1, z3.BoolVal(True))]
                    for s2, c in rs:
                        a, b = self.split(s2, c)
                        if a is None:
                            continue
                        r = [a]
                        if loopvar is not None:
                            r = [x for kk2, x, v in self.run(loopvar, a, fr) if kk2 == "normal"]
                        for x in r:
                            if spec.bodyghost:
                                spec.bodyghost(View(self, x, fr))
                            for kk3, s3, v in self.run(bodyn, x, fr):
                                if kk3 in ("normal", "continue") and inc is not None:
                                    self.ev(inc, s3, fr)
                                if do and kk3 in ("normal", "continue"):
                                    self.cond(cond, s3, fr)
                self.pending = []
                new = set()
                decls = set(x[1] for x in w if x[0] == "decl")
                for x in w:
                    if x[0] == "decl":
                        continue
                    if x[0] in ("loc", "locf"):
                        if x[1] not in st.loc:
                            continue
                    if x[0] == "block" and x[1] not in st.blocks:
                        continue
                    new.add(x)
                if new <= mods:
                    break
                mods |= new
            else:
                raise Unsupported("modified set does not stabilise")
        finally:
            self.quiet -= 1
            self.pending = pend
        for x in mods:
            st.wrote(x)
        return mods

    def havoc(self, st, mods, fr):
        for x in sorted(mods, key=str):
            if x[0] == "loc":
                k = x[1]
                if k not in st.loc:
                    continue
                v = st.loc[k]
                st.loc[k] = self.havoc_val(st, v, st.lty.get(k), str(k))
            elif x[0] == "locf":
                k = x[1]
                if k not in st.loc or ("loc", k) in mods:
                    continue
                st.loc[k] = self.havoc_path(st, st.loc[k], st.lty.get(k), x[2], str(k))
            elif x[0] == "heap":
                k = (x[1], x[2])
                self.heaparr(st, *k)
                st.heap[k] = fresh("H_%s_%s" % k, st.heap[k].sort())
            elif x[0] == "glob":
                self.root_val(st, ("G", x[1]), None)
                st.glob[x[1]] = self.havoc_val(st, st.glob[x[1]], self.root_ty(st, Place(("G", x[1]), (), None)), x[1])
            elif x[0] == "ghost":
                st.ghost[x[1]] = fresh("g_" + x[1], st.ghost[x[1]].sort())
            elif x[0] == "block":
                a, s, e = st.blocks[x[1]]
                st.blocks[x[1]] = (fresh("blk", a.sort()), s, e)
            elif x[0] == "alloc":
                old = st.alloc
                st.alloc = fresh("alloc", old.sort())
                r = z3.Int("ra")
                st.assume(z3.ForAll([r], z3.Implies(z3.Select(old, r), z3.Select(st.alloc, r)),
                                    patterns=[z3.Select(old, r), z3.Select(st.alloc, r)]))

    def havoc_path(self, st, v, ty, path, name):
        """v with only the part at the field path made arbitrary."""
        if path and isinstance(v, StructV) and path[0] in v.f:
            t = dict((n, t) for n, t, w in self.so.rec_fields(v.ty))[path[0]]
            return v.with_(path[0], self.havoc_path(st, v.f[path[0]], t, path[1:], name + "." + path[0]))
        return self.havoc_val(st, v, ty, name)

    def havoc_val(self, st, v, ty, name):
        if isinstance(v, IterV):
            i = fresh("it", z3.IntSort())
            st.assume(i >= 0)
            return IterV(v.place, i, v.rev)
        if isinstance(v, MapIter):
            i = fresh("mit", z3.IntSort())
            st.assume(i >= 0)
            return self.lib.map_iter_at(st, v.place, i)
        if isinstance(v, BPtr):
            b = BPtr(v.block, fresh("off", z3.IntSort()), v.elem)
            if getattr(v, "nullable", None) is not None:
                b.nullable = v.nullable
            return b
        if isinstance(v, StructV):
            return StructV(v.ty, {n: self.havoc_val(st, v.f[n], t, name + "." + n)
                                  for n, t, w in self.so.rec_fields(v.ty)})
        if isinstance(v, Undef):
            t = v.ty
            if t.k == "rec" and self.so.is_struct(t):
                return self.fresh_val(t, "hv", st)
            return self.fresh_val(t, "hv", st)
        if isinstance(v, CStr):
            return CStr(fresh("cstr", vals.Str))
        if z3.is_expr(v):
            x = fresh("hv", v.sort())
            if ty is not None:
                self.wf(st, x, ty.to if ty.k == "ref" else ty)
            return x
        if isinstance(v, PtrP):
            raise Unsupported("loop changes a pointer to a local object")
        raise Unsupported("loop changes a value of kind " + type(v).__name__)

    classify = None

    def unroll(self, n, st, fr, cond, inc, bodyn, do, loopvar, N, pre_cond=None):
        out = []
        cur = [st]
        for it in range(N + 1):
            nxt = []
            for s in cur:
                starts = [("normal", s, None)]
                if pre_cond is not None:
                    starts = self.run(pre_cond, s, fr)
                for kk, s, vv in starts:
                    if kk != "normal":
                        out.append((kk, s, vv))
                        continue
                    if do and it == 0:
                        rs = [(s, z3.BoolVal(True))]
                    else:
                        rs = self.cond(cond, s, fr) if cond is not None else [(s, z3.BoolVal(True))]
                        out = self.drain(out)
                    for s2, c in rs:
                        a, b = self.split(s2, c)
                        if b is not None:
                            out.append(("normal", b, None))
                        if a is not None:
                            if it == N:
                                raise Unsupported("loop without invariant (line %s)" % self.line)
                            r = [a]
                            if loopvar is not None:
                                rr = self.run(loopvar, a, fr)
                                r = [x for k2, x, v in rr if k2 == "normal"]
                                out += [x for x in rr if x[0] != "normal"]
                            for x in r:
                                for kind, s3, v in self.run(bodyn, x, fr):
                                    if kind in ("normal", "continue"):
                                        if inc is not None:
                                            rs2, th = self.evs(inc, s3, fr)
                                            out += th
                                            nxt += [y for y, _ in rs2]
                                        else:
                                            nxt.append(s3)
                                    elif kind == "break":
                                        out.append(("normal", s3, None))
                                    else:
                                        out.append((kind, s3, v))
            cur = nxt
            if not cur:
                break
        return out

    # ------------------------------------------------------------- expressions
    def ev(self, n, st, fr):
        k = n.get("kind")
        r = n.get("range", {}).get("begin", {})
        if r.get("line"):
            self.line = r["line"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Unsupported("expression kind %s" % k)
        return m(n, st, fr)

    def ev_list(self, ns, st, fr):
        cur = [(st, [])]
        for n in ns:
            nxt = []
            for s, vs in cur:
                for s2, v in self.ev(n, s, fr):
                    nxt.append((s2, vs + [v]))
            cur = nxt
        return cur

    def e_IntegerLiteral(self, n, st, fr):
        return [(st, z3.IntVal(int(n["value"])))]

    def e_CharacterLiteral(self, n, st, fr):
        return [(st, z3.IntVal(int(n["value"])))]

    def e_FloatingLiteral(self, n, st, fr):
        return [(st, z3.RealVal(str(n["value"])))]

    def e_CXXBoolLiteralExpr(self, n, st, fr):
        return [(st, z3.BoolVal(bool(n["value"])))]

    def e_CXXNullPtrLiteralExpr(self, n, st, fr):
        return [(st, z3.IntVal(0))]

    def e_GNUNullExpr(self, n, st, fr):
        return [(st, z3.IntVal(0))]

    def e_StringLiteral(self, n, st, fr):
        import ast
        v = n["value"]
        try:
            s = decode_lit(v)
        except Exception:
            s = v
        return [(st, CStr(self.lib.strlit(s)))]

    def e_PredefinedExpr(self, n, st, fr):
        return [(st, CStr(self.lib.strlit("fn")))]

    def _pass(self, n, st, fr):
        return self.ev(kids(n)[0], st, fr)
    e_ParenExpr = e_ExprWithCleanups = e_CXXBindTemporaryExpr = _pass
    e_SubstNonTypeTemplateParmExpr = e_CXXStdInitializerListExpr = _pass
    e_FullExpr = _pass

    def e_ConstantExpr(self, n, st, fr):
        return self.ev(kids(n)[0], st, fr)

    def e_MaterializeTemporaryExpr(self, n, st, fr):
        out = []
        for s, v in self.ev(kids(n)[0], st, fr):
            if not isinstance(v, Place):
                v = self.temp(s, v, self.u.ty(n))
            out.append((s, v))
        return out

    def e_CXXDefaultArgExpr(self, n, st, fr):
        if kids(n):
            return self.ev(kids(n)[0], st, fr)
        if "allocator" in n["type"]["qualType"]:
            return [(st, z3.Int("allocator"))]
        if self.u.ty(n).k in ("int", "enum", "ptr"):
            return [(st, fresh("default", z3.IntSort()))]      # an unknown value
        if self.u.ty(n).k == "bool":
            return [(st, fresh("default", z3.BoolSort()))]
        raise Unsupported("default argument of type " + n["type"]["qualType"])

    def e_CXXDefaultInitExpr(self, n, st, fr):
        if kids(n):
            return self.ev(kids(n)[0], st, fr)
        raise Unsupported("default member initialiser")

    def e_SourceLocExpr(self, n, st, fr):
        return [(st, fresh("srcloc", z3.IntSort()))]

    def e_ImplicitValueInitExpr(self, n, st, fr):
        return [(st, self.default_val(self.u.ty(n)))]
    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_CXXThisExpr(self, n, st, fr):
        f = fr
        while f is not None and f.this is None:
            f = f.define
        if f is None:
            raise Unsupported("this")
        p = f.this
        if p.root[0] == "H" and not p.sels:
            return [(st, p.root[2])]
        return [(st, PtrP(p))]

    def e_DeclRefExpr(self, n, st, fr):
        d = n["referencedDecl"]
        did = d["id"]
        k = d["kind"]
        if k == "EnumConstantDecl":
            if did in self.u.enumconst:
                return [(st, z3.IntVal(self.u.enumconst[did]))]
            return [(st, z3.Int("enum_" + d.get("name", did)))]
        if k in ("FunctionDecl", "CXXMethodDecl"):
            return [(st, FnRef(d))]
        key = fr.lookup(did)
        if key is not None:
            if key not in st.loc:
                raise Unsupported("variable %s out of scope" % d.get("name"))
            v = st.loc[key]
            if isinstance(v, Place):
                return [(st, v)]
            return [(st, Place(("L", key), (), st.lty[key]))]
        q = self.u.qn.get(did)
        if q is None and did in self.u.prev:
            q = self.u.qn.get(self.u.prev[did])
        if q is None:
            m = self.lib.global_ref(d, st)
            if m is not None:
                return [(st, m)]
            raise Unsupported("reference to %s" % d.get("name"))
        return [(st, Place(("G", q), (), self.u.ty(d)))]

    def e_MemberExpr(self, n, st, fr):
        out = []
        base = kids(n)[0]
        fld = n.get("name")
        bt = self.u.ty(base)
        for s, v in self.ev(base, st, fr):
            md = n.get("referencedMemberDecl")
            mdn = self.u.byid.get(md)
            if mdn is not None and mdn.get("kind") == "VarDecl":
                q = mdn.get("_qn") or self.u.qn.get(md)
                out.append((s, Place(("G", q), (), self.u.ty(mdn))))
                continue
            if n.get("isArrow"):
                p = self.deref(s, v, bt)
            else:
                p = v if isinstance(v, Place) else self.temp(s, v, bt)
            ft = self.field_ty(p, fld, n)
            out.append((s, p.f(fld, ft)))
        return out

    def field_ty(self, p, fld, n):
        ty = p.ty
        if ty is not None and ty.k == "ref":
            ty = ty.to
        if ty is not None and (ty.k == "rec" or (ty.k == "std" and ty.name == "pair")):
            for fn, ft, w in self.so.rec_fields(ty):
                if fn == fld:
                    return ft
        return self.u.ty(n)

    def bitwidth(self, p):
        if p.sels and p.sels[-1][0] == "f":
            # find owner type
            t = self.root_ty_of_prefix(p)
            if t is not None and t.k == "rec":
                for fn, ft, w in self.so.rec_fields(t):
                    if fn == p.sels[-1][1]:
                        return w
        return None

    def root_ty_of_prefix(self, p):
        if len(p.sels) >= 2:
            return p.sels[-2][2]
        if p.root[0] == "H":
            return Ty("rec", p.root[1])
        if p.root[0] == "L":
            t = self.curst.lty.get(p.root[1])
            return t.to if t is not None and t.k == "ref" else t
        if p.root[0] == "G":
            return self.root_ty(None, p) if False else None
        return None

    curst = None

    def deref(self, st, v, pty):
        """Place designated by pointer value v of (pointer) type pty."""
        if isinstance(v, Place):
            v = self.read(st, v)
        to = pty.to if pty.k == "ptr" else (pty.args[0] if pty.k == "std" and pty.args else None)
        if isinstance(v, PtrP):
            return v.place
        if isinstance(v, BPtr):
            arr, size, et = st.blocks[v.block]
            if getattr(v, "nullable", None) is not None:
                self.check(st, z3.Not(v.nullable), "no null pointer is dereferenced")
            self.check(st, z3.And(v.off >= 0, v.off < size), "memory access inside its buffer")
            return Place(("B", v.block), (("i", v.off, et),), et)
        if isinstance(v, IterV):
            return self.lib.iter_place(st, v)
        if isinstance(v, Undef):
            self.check(st, False, "no use of an uninitialised pointer")
            v = fresh("undefp", z3.IntSort())
        if z3.is_expr(v) and v.sort() == z3.IntSort():
            self.check(st, v != 0, "no null pointer is dereferenced")
            if to is not None and to.k == "rec" and self.u.record(to) is not None:
                return Place(("H", to.name, v), (), to)
        if isinstance(v, CStr):
            return self.lib.cstr_char(st, v)
        raise Unsupported("dereference of %s (%s)" % (type(v).__name__, pty))

    def e_ImplicitCastExpr(self, n, st, fr):
        ck = n.get("castKind")
        sub = kids(n)[0]
        out = []
        tt = self.u.ty(n)
        if ck in ("FunctionToPointerDecay", "BuiltinFnToFnPtr"):
            return self.ev(sub, st, fr)
        for s, v in self.ev(sub, st, fr):
            out.append((s, self.cast(s, v, self.u.ty(sub), tt, ck)))
        return out
    e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_ImplicitCastExpr
    e_CXXReinterpretCastExpr = e_CXXConstCastExpr = e_ImplicitCastExpr

    def e_CXXDynamicCastExpr(self, n, st, fr):
        to = self.u.ty(n)
        to = to.to if to.k in ("ptr", "ref") else to
        h = self.models.get("dynamic_cast:" + str(getattr(to, "name", "")))
        r = self.ev(kids(n)[0], st, fr)
        return r if h is None else [(s, h(self, s, self.rv(s, v))) for s, v in r]

    def e_BuiltinBitCastExpr(self, n, st, fr):
        raise Unsupported("bit cast")

    def cast(self, st, v, ft, tt, ck):
        if ck == "LValueToRValue":
            if isinstance(v, Place):
                r = self.read(st, v)
                if isinstance(r, Undef):
                    self.check(st, False, "no read of an uninitialised value")
                    r = self.fresh_val(r.ty, "undef", st)
                    self.write(st, v, r)
                return r
            return v
        if ck in ("NoOp", "ConstructorConversion", "UserDefinedConversion", "BitCast",
                  "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "Dynamic"):
            if ck == "BitCast" or ck in ("BaseToDerived",):
                return self.lib.bitcast(st, v, ft, tt)
            return v
        if ck == "ArrayToPointerDecay":
            if isinstance(v, CStr):
                return v
            if isinstance(v, Place):
                if (v.root[0] == "G" or (v.root[0] == "L" and isinstance(st.loc.get(v.root[1]), CStr))) and not v.sels and v.ty.k == "arr" and getattr(v.ty.to, "bits", None) == 8:
                    x = self.read(st, v)
                    if isinstance(x, CStr):
                        return x
                if v.ty.k == "arr":
                    return ArrPtr(v, z3.IntVal(0))
                x = self.read(st, v)
                if isinstance(x, CStr):
                    return x
            raise Unsupported("array decay")
        if ck in ("NullToPointer", "NullToMemberPointer"):
            return z3.IntVal(0)
        if ck == "ToVoid":
            return VOID
        if ck in ("IntegralToBoolean", "PointerToBoolean"):
            return self.tobool(st, v)
        v = self.rv(st, v)
        if ck == "FloatingToBoolean":
            return v != 0
        if ck in ("IntegralCast",):
            return self.int_conv(v, ft, tt)
        if ck == "IntegralToFloating":
            return z3.ToReal(v if v.sort() == z3.IntSort() else z3.If(v, z3.IntVal(1), z3.IntVal(0)))
        if ck == "FloatingToIntegral":
            return z3.ToInt(v)
        if ck == "FloatingCast":
            return v
        if ck in ("PointerToIntegral", "IntegralToPointer"):
            return v
        raise Unsupported("cast " + str(ck))

    def int_conv(self, v, ft, tt):
        if z3.is_expr(v) and v.sort() == z3.BoolSort():
            if tt.k == "bool":
                return v
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if tt.k == "bool":
            return v != 0
        if tt.k == "enum" or not z3.is_expr(v):
            return v
        if tt.k != "int":
            return v
        lo, hi = self.so.int_range(tt)
        if ft is not None and ft.k == "int":
            flo, fhi = self.so.int_range(ft)
            if flo >= lo and fhi <= hi:
                return v
        elif ft is not None and ft.k in ("bool", "enum"):
            return v
        if z3.is_int_value(v):
            x = v.as_long()
            m = 1 << tt.bits
            x = x % m
            if tt.signed and x > hi:
                x -= m
            return z3.IntVal(x)
        m = 1 << tt.bits
        if tt.signed:
            w = (v + (1 << (tt.bits - 1))) % m - (1 << (tt.bits - 1))
        else:
            w = v % m
        return z3.If(z3.And(v >= lo, v <= hi), v, w)

    # ---- operators
    def e_UnaryOperator(self, n, st, fr):
        op = n["opcode"]
        sub = kids(n)[0]
        ty = self.u.ty(n)
        out = []
        if op in ("++", "--"):
            for s, p in self.ev(sub, st, fr):
                old = self.read(s, p)
                self.curst = s
                if isinstance(old, Undef):
                    self.check(s, False, "no read of an uninitialised value")
                    old = self.fresh_val(old.ty, "undef", s)
                if isinstance(old, (BPtr, ArrPtr, IterV)):
                    new = self.ptr_add(old, 1 if op == "++" else -1)
                elif isinstance(old, CStr):
                    new = self.lib.cstr_add(s, old, 1 if op == "++" else -1)
                else:
                    new = self.arith("+" if op == "++" else "-", old, z3.IntVal(1), ty, s)
                    new = self.trunc_bits(s, p, new)
                self.write(s, p, new)
                out.append((s, p if not n.get("isPostfix") else old))
            return out
        for s, v in self.ev(sub, st, fr):
            if op == "&":
                out.append((s, self.addr_of(s, v)))
            elif op == "*":
                out.append((s, self.deref(s, v, self.u.ty(sub)) if not isinstance(v, ArrPtr) else v.place_at(self, s)))
            elif op == "!":
                out.append((s, z3.Not(self.tobool(s, v))))
            elif op == "-":
                x = self.rv(s, v)
                if ty.k == "float":
                    out.append((s, -x))
                else:
                    out.append((s, self.arith("-", z3.IntVal(0), x, ty, s)))
            elif op == "+":
                out.append((s, self.rv(s, v)))
            elif op == "~":
                x = self.rv(s, v)
                lo, hi = self.so.int_range(ty)
                out.append((s, (hi - x) if not ty.signed else (-x - 1)))
            elif op == "__extension__":
                out.append((s, v))
            else:
                raise Unsupported("unary " + op)
        return out

    def addr_of(self, s, v):
        if isinstance(v, (FnRef, Clos)):
            return v
        if not isinstance(v, Place):
            raise Unsupported("address of a value")
        if v.root[0] == "H" and not v.sels:
            return v.root[2]
        if v.root[0] == "B" and len(v.sels) == 1:
            return BPtr(v.root[1], v.sels[0][1], v.ty)
        return PtrP(v)

    def trunc_bits(self, st, p, v):
        self.curst = st
        w = self.bitwidth(p)
        if w and z3.is_expr(v) and v.sort() == z3.IntSort():
            if z3.is_int_value(v):
                return z3.IntVal(v.as_long() % (1 << w))
            return z3.If(z3.And(v >= 0, v < (1 << w)), v, v % (1 << w))
        return v

    def ptr_add(self, p, d):
        d = z3.IntVal(d) if isinstance(d, int) else d
        if isinstance(p, BPtr):
            return BPtr(p.block, p.off + d, p.elem)
        if isinstance(p, ArrPtr):
            return ArrPtr(p.place, p.off + d)
        if isinstance(p, IterV):
            return IterV(p.place, (p.idx - d) if p.rev else (p.idx + d), p.rev)
        raise Unsupported("pointer arithmetic")

    def arith(self, op, a, b, ty, st):
        if ty.k == "float":
            if op == "+":
                return a + b
            if op == "-":
                return a - b
            if op == "*":
                return a * b
            if op == "/":
                return a / b
            raise Unsupported("float op " + op)
        if z3.is_expr(a) and a.sort() == z3.BoolSort():
            a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
        if z3.is_expr(b) and b.sort() == z3.BoolSort():
            b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        if isinstance(a, Undef) or isinstance(b, Undef):
            self.check(st, False, "no read of an uninitialised value")
            return fresh("undef", z3.IntSort())
        lo, hi = self.so.int_range(ty) if ty.k == "int" else (-(1 << 63), (1 << 64) - 1)
        m = 1 << (ty.bits or 64)
        if op in ("+", "-", "*"):
            r = a + b if op == "+" else a - b if op == "-" else a * b
            rs = simp(r)
            if z3.is_int_value(rs):
                x = rs.as_long()
                if lo <= x <= hi:
                    return rs
                if not ty.signed:
                    return z3.IntVal(x % m)
            if ty.signed:
                self.check(st, z3.And(r >= lo, r <= hi), "no signed overflow in '%s'" % op)
                return r
            if op == "+":
                return z3.If(r <= hi, r, r - m)
            if op == "-":
                return z3.If(a >= b, r, r + m)
            return z3.If(r <= hi, r, r % m)
        if op in ("/", "%"):
            self.check(st, b != 0, "no division by zero")
            if not ty.signed or (z3.is_int_value(b) and b.as_long() > 0 and not ty.signed):
                return a / b if op == "/" else a % b
            q = z3.If(a >= 0, z3.If(b > 0, a / b, -(a / (-b))), z3.If(b > 0, -((-a) / b), (-a) / (-b)))
            return q if op == "/" else a - q * b
        if op in ("<<", ">>"):
            sb = simp(b)
            if z3.is_int_value(sb):
                kk = sb.as_long()
                if op == ">>":
                    return a / (1 << kk)
                r = a * (1 << kk)
                if ty.signed:
                    self.check(st, z3.And(r >= lo, r <= hi), "no overflow in shift")
                    return r
                return z3.If(r <= hi, r, r % m)
            return self.bvop(op, a, b, ty)
        if op in ("&", "|", "^"):
            for x, y in ((a, b), (b, a)):
                sy = simp(y)
                if z3.is_int_value(sy) and op == "&":
                    c = sy.as_long()
                    if c >= 0 and (c & (c + 1)) == 0:
                        return x % (c + 1)
                if z3.is_int_value(sy) and sy.as_long() == 0:
                    return z3.IntVal(0) if op == "&" else x
            return self.bvop(op, a, b, ty)
        raise Unsupported("operator " + op)

    def bvop(self, op, a, b, ty):
        w = ty.bits
        x, y = z3.Int2BV(a, w), z3.Int2BV(b, w)
        r = {"&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y, "<<": lambda: x << y,
             ">>": lambda: z3.LShR(x, y) if not ty.signed else x >> y}[op]()
        return z3.BV2Int(r, is_signed=ty.signed)

    def e_BinaryOperator(self, n, st, fr):
        op = n["opcode"]
        l, r = kids(n)
        ty = self.u.ty(n)
        out = []
        if op == ",":
            for s, _ in self.ev(l, st, fr):
                out += self.ev(r, s, fr)
            return out
        if op in ("&&", "||"):
            for s, a in self.cond(l, st, fr):
                sa = simp(a)
                if (op == "&&" and isF(sa)) or (op == "||" and isT(sa)):
                    out.append((s, sa))
                    continue
                # try to stay on one path when the right operand has no effect
                t = s.copy()
                t.assume(a if op == "&&" else z3.Not(a))
                npc = len(t.pc)
                nv = len(self.vcs)
                rs = self.cond(r, t, fr)
                if len(rs) == 1 and same_mem(rs[0][0], s):
                    t2, b = rs[0]
                    g = a if op == "&&" else z3.Not(a)
                    for f in t2.pc[npc:]:
                        s.assume(z3.Implies(g, f))
                    out.append((s, z3.And(a, b) if op == "&&" else z3.Or(a, b)))
                else:
                    for t2, b in rs:
                        out.append((t2, b))
                    s.assume(z3.Not(a) if op == "&&" else a)
                    if self.feasible(s):
                        out.append((s, z3.BoolVal(op == "||")))
            return out
        if op == "=":
            for s, v in self.ev(r, st, fr):
                v = self.rv(s, v)
                for s2, p in self.ev(l, s, fr):
                    if not isinstance(p, Place):
                        raise Unsupported("assignment target")
                    if isinstance(v, Undef):
                        pass
                    v2 = self.trunc_bits(s2, p, v)
                    self.write(s2, p, v2)
                    out.append((s2, p))
            return out
        lt, rt = self.u.ty(l), self.u.ty(r)
        for s, vs in self.ev_list([l, r], st, fr):
            a, b = self.rv(s, vs[0]), self.rv(s, vs[1])
            out.append((s, self.binop(op, a, b, lt, rt, ty, s)))
        return out

    def binop(self, op, a, b, lt, rt, ty, s):
        if isinstance(a, Undef) or isinstance(b, Undef):
            self.check(s, False, "no read of an uninitialised value")
            return self.fresh_val(ty, "undef", s)
        if op in ("==", "!=", "<", "<=", ">", ">="):
            return self.compare(op, a, b, lt, rt, s)
        if isinstance(a, (BPtr, ArrPtr, IterV)) and op in ("+", "-"):
            if isinstance(b, (BPtr, ArrPtr, IterV)):
                return self.ptr_diff(a, b)
            return self.ptr_add(a, b if op == "+" else -b)
        if isinstance(b, (BPtr, ArrPtr)) and op == "+":
            return self.ptr_add(b, a)
        if isinstance(a, CStr) and op in ("+", "-"):
            if isinstance(b, CStr):
                return self.lib.cstr_diff(s, a, b)
            return self.lib.cstr_add(s, a, b if op == "+" else -b)
        if not (z3.is_expr(a) and z3.is_expr(b)):
            raise Unsupported("operator %s on %s,%s" % (op, type(a).__name__, type(b).__name__))
        return self.arith(op, a, b, ty, s)

    def ptr_diff(self, a, b):
        if isinstance(a, BPtr) and a.block == b.block:
            return a.off - b.off
        if isinstance(a, IterV):
            return a.idx - b.idx
        raise Unsupported("pointer difference")

    def compare(self, op, a, b, lt, rt, s):
        import operator
        ops = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le,
               ">": operator.gt, ">=": operator.ge}
        if z3.is_expr(a) and z3.is_expr(b):
            if a.sort() == z3.BoolSort() and b.sort() == z3.IntSort():
                a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
            if b.sort() == z3.BoolSort() and a.sort() == z3.IntSort():
                b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
            if a.sort() == z3.BoolSort() and op not in ("==", "!="):
                a, b = z3.If(a, z3.IntVal(1), z3.IntVal(0)), z3.If(b, z3.IntVal(1), z3.IntVal(0))
            return ops[op](a, b)
        if isinstance(a, BPtr) and isinstance(b, BPtr):
            if a.block == b.block:
                return ops[op](a.off, b.off)
            if op in ("==", "!="):
                return z3.BoolVal(op == "!=")
        if isinstance(a, IterV) and isinstance(b, IterV):
            if not same_place(a.place, b.place):
                raise Unsupported("iterators of different containers")
            return ops[op](a.idx, b.idx)
        # null comparisons
        for x, y in ((a, b), (b, a)):
            if z3.is_expr(y) and isinstance(x, (PtrP, BPtr, CStr, Clos, OpaqueFn, FnRef, ArrPtr)):
                ys = simp(y)
                if z3.is_int_value(ys) and ys.as_long() == 0:
                    if isinstance(x, (CStr, BPtr)) and getattr(x, "nullable", None) is not None:
                        return x.nullable if op == "==" else z3.Not(x.nullable)
                    return z3.BoolVal(op == "!=")
        if isinstance(a, PtrP) and isinstance(b, PtrP) and op in ("==", "!="):
            return z3.BoolVal(same_place(a.place, b.place) == (op == "=="))
        raise Unsupported("comparison %s of %s and %s" % (op, type(a).__name__, type(b).__name__))

    def e_CompoundAssignOperator(self, n, st, fr):
        op = n["opcode"][:-1]
        l, r = kids(n)
        out = []
        ct = self.u.tt.parse((n.get("computeResultType") or n["type"]).get("desugaredQualType") or
                             (n.get("computeResultType") or n["type"])["qualType"])
        lt = self.u.ty(l)
        for s, v in self.ev(r, st, fr):
            v = self.rv(s, v)
            for s2, p in self.ev(l, s, fr):
                old = self.read(s2, p)
                if isinstance(old, (BPtr, ArrPtr, IterV)):
                    nv = self.ptr_add(old, v if op == "+" else -v)
                elif isinstance(old, CStr):
                    nv = self.lib.cstr_add(s2, old, v if op == "+" else -v)
                else:
                    if lt.k == "bool" and ct.k == "int":
                        old = self.int_conv(old, lt, ct)
                    elif lt.k == "int" and ct.k == "int":
                        old = self.int_conv(old, lt, ct)
                    nv = self.binop(op, old, v, ct, self.u.ty(r), ct, s2)
                    if ct.k == "int" and lt.k in ("int", "bool"):
                        nv = self.int_conv(nv, ct, lt)
                self.write(s2, p, self.trunc_bits(s2, p, nv))
                out.append((s2, p))
        return out

    def e_ConditionalOperator(self, n, st, fr):
        c, a, b = kids(n)
        ty = self.u.ty(n)
        out = []
        for s, cv in self.cond(c, st, fr):
            sc = simp(cv)
            if isT(sc):
                out += self.ev(a, s, fr)
                continue
            if isF(sc):
                out += self.ev(b, s, fr)
                continue
            x, y = self.split(s, cv)
            if x is not None:
                out += self.ev(a, x, fr)
            if y is not None:
                out += self.ev(b, y, fr)
        return out

    def e_ArraySubscriptExpr(self, n, st, fr):
        b, i = kids(n)
        out = []
        for s, vs in self.ev_list([b, i], st, fr):
            base, idx = self.rv(s, vs[0]), self.rv(s, vs[1])
            if isinstance(base, ArrPtr):
                out.append((s, ArrPtr(base.place, base.off + idx).place_at(self, s)))
            elif isinstance(base, BPtr):
                q = BPtr(base.block, base.off + idx, base.elem)
                if getattr(base, "nullable", None) is not None:
                    q.nullable = base.nullable
                out.append((s, self.deref(s, q, Ty("ptr", to=base.elem))))
            elif isinstance(base, CStr):
                out.append((s, self.lib.cstr_at(s, base, idx)))
            else:
                raise Unsupported("subscript of " + type(base).__name__)
        return out

    def e_UnaryExprOrTypeTraitExpr(self, n, st, fr):
        if n.get("name") != "sizeof":
            raise Unsupported(n.get("name"))
        if "argType" in n:
            t = n["argType"]
            ty = self.u.tt.parse(t.get("desugaredQualType") or t["qualType"])
        else:
            ty = self.u.ty(kids(n)[0])
        return [(st, z3.IntVal(self.sizeof(ty)))]

    def sizeof(self, ty):
        return self.layout(ty)[0]

    def layout(self, ty):
        if ty.k == "ref":
            return self.layout(ty.to)
        if ty.k == "int":
            return ty.bits // 8, ty.bits // 8
        if ty.k == "bool":
            return 1, 1
        if ty.k == "enum":
            return 4, 4
        if ty.k == "ptr":
            return 8, 8
        if ty.k == "float":
            return (8, 8) if ty.name == "double" else (4, 4)
        if ty.k == "arr":
            s, a = self.layout(ty.to)
            return s * (ty.n or 0), a
        if ty.k == "rec":
            d = self.u.record(ty)
            if d is None:
                raise Unsupported("sizeof " + ty.key())
            packed = any(c.get("kind") == "PackedAttr" for c in kids(d))
            bits, al = 0, 1
            for n, t, w in self.u.fields(d):
                s, a = self.layout(t)
                if w is not None:
                    if not packed and (bits // (s * 8)) != ((bits + w - 1) // (s * 8)):
                        bits = (bits + s * 8 - 1) // (s * 8) * (s * 8)
                    bits += w
                    al = max(al, a)
                    continue
                unit = 8 if packed else a * 8
                bits = (bits + unit - 1) // unit * unit
                bits += s * 8
                al = max(al, a)
            if packed:
                al = 1
            unit = al * 8
            bits = (bits + unit - 1) // unit * unit
            return max(bits // 8, 0), al
        raise Unsupported("sizeof " + ty.key())

    def e_InitListExpr(self, n, st, fr):
        ty = self.u.ty(n)
        ch = kids(n)
        if self.so.is_struct(ty):
            fs = self.so.rec_fields(ty)
            out = []
            for s, vs in self.ev_list(ch, st, fr):
                d = {}
                for i, (fn, ft, w) in enumerate(fs):
                    d[fn] = self.rv(s, vs[i]) if i < len(vs) else self.default_val(ft)
                out.append((s, StructV(ty, d)))
            return out
        if ty.k == "arr" or (ty.k == "std" and ty.name in SEQS):
            et = ty.to if ty.k == "arr" else ty.args[0]
            out = []
            for s, vs in self.ev_list(ch, st, fr):
                a = z3.K(z3.IntSort(), self.dflt_const(et))
                for i, v in enumerate(vs):
                    a = z3.Store(a, z3.IntVal(i), self.so.to_z3(self.rv(s, v), et))
                if ty.k == "arr":
                    v = a
                else:
                    v = self.so.mkvec(ty, a, z3.IntVal(len(vs)))
                out.append((s, v))
            return out
        if len(ch) == 1:
            return self.ev(ch[0], st, fr)
        if not ch:
            return [(st, self.default_val(ty))]
        raise Unsupported("initialiser list for " + str(ty))

    def e_LambdaExpr(self, n, st, fr):
        rec = kids(n)[0]
        caps = {}
        fields = [c for c in kids(rec) if c.get("kind") == "FieldDecl"]
        inits = [c for c in kids(n)[1:] if c.get("kind") != "CompoundStmt"]
        bod = [c for c in kids(n) if c.get("kind") == "CompoundStmt"][-1]
        op = None
        for c in kids(rec):
            if c.get("kind") == "CXXMethodDecl" and c.get("name") == "operator()":
                op = c
        for f, i in zip(fields, inits):
            t = self.u.ty(f)
            if t.k == "ref":
                continue
            d = i
            while d.get("kind") in ("ImplicitCastExpr", "CXXConstructExpr", "ParenExpr", "ExprWithCleanups", "CXXBindTemporaryExpr") and kids(d):
                d = kids(d)[0]
            if d.get("kind") == "DeclRefExpr":
                did = d["referencedDecl"]["id"]
                key = fr.lookup(did)
                if key is not None:
                    v = st.loc[key]
                    caps[did] = (self.read(st, v) if isinstance(v, Place) else v, t)
        thisp = None
        f = fr
        while f is not None and f.this is None:
            f = f.define
        if f is not None:
            thisp = f.this
        return [(st, Clos({"op": op, "body": bod, "id": n["id"]}, fr, caps, thisp))]

    def call_closure(self, c, args, st, fr):
        op = c.node["op"]
        nf = Frame(op, c.thisv, caller=fr, define=c.frame)
        for did, (v, t) in c.caps.items():
            nf.owned.add(did)
            k = (nf.id, did)
            st.loc[k] = v
            st.lty[k] = t
        return self.enter(op, c.node["body"], nf, args, st)

    # ---- calls
    def e_CallExpr(self, n, st, fr):
        ch = kids(n)
        callee = strip(ch[0])
        out = []
        d = callee.get("referencedDecl") if callee.get("kind") == "DeclRefExpr" else None
        if d is not None and d["kind"] in ("FunctionDecl", "CXXMethodDecl"):
            for s, vs in self.ev_list(ch[1:], st, fr):
                out += self.call_decl(d, None, vs, ch[1:], s, fr, n)
            return out
        for s, vs in self.ev_list(ch, st, fr):
            f = self.rv(s, vs[0])
            out += self.call_value(f, vs[1:], s, fr, n)
        return out

    def call_value(self, f, args, s, fr, n):
        if isinstance(f, Clos):
            return self.call_closure(f, args, s, fr)
        if isinstance(f, FnRef):
            if f.bound is not None:
                return self.call_decl(f.decl, f.bound, args, [], s, fr, n)
            return self.call_decl(f.decl, None, args, [], s, fr, n)
        if isinstance(f, OpaqueFn):
            h = self.opaque.get(f.name)
            if h is None:
                # try the suffix (parameter name)
                h = self.opaque.get(f.name.split(".")[-1])
            if h is None:
                raise Unsupported("call of an unspecified callback " + f.name)
            return h(self, s, [self.rv(s, a) for a in args], fr, self.u.ty(n))
        raise Unsupported("call of " + type(f).__name__)

    def call_decl(self, d, this, args, argn, st, fr, n):
        """Call function/method decl d (a referencedDecl stub or a full node)."""
        did = d["id"]
        full = self.u.byid.get(did)
        qn = self.u.qn.get(did)
        name = d.get("name", "")
        if qn is None and did in self.u.prev:
            qn = self.u.qn.get(self.u.prev[did])
        key = qn or name
        if key in self.models:
            return self.models[key](self, st, this, args, fr, n)
        if name in self.models and (qn is None):
            return self.models[name](self, st, this, args, fr, n)
        if full is not None:
            for i, a in enumerate(argn):
                if i < len(args) and a.get("kind") == "CXXDefaultArgExpr" and not kids(a):
                    for f in [full] + [x for y, x in self.u.byid.items() if y != did and self.u.prev.get(y) == full["id"]]:
                        ps = params(f)
                        if i < len(ps) and kids(ps[i]):
                            r = self.ev(kids(ps[i])[-1], st, fr)
                            if len(r) == 1 and r[0][0] is st:
                                args = args[:i] + [r[0][1]] + args[i + 1:]
                            break
        if full is not None and qn is not None:
            for c in self.contracts:
                if c.matches(qn, full):
                    return self.apply(c, full, this, args, st, fr, n)
            b = self.u.body_of(did)
            if b is not None and not self.is_lib(qn):
                if len(self.fnstack) > self.maxdepth:
                    raise Unsupported("inlining too deep at " + qn)
                if b["id"] in self.fnstack and self.fnstack.count(b["id"]) > 1:
                    raise Unsupported("recursive function without contract: " + qn)
                self.inlined.add(qn)
                nf = Frame(b, this, caller=fr)
                return self.enter(b, body(b), nf, args, st)
        if this is None:
            r = self.lib.call(name, args, argn, st, fr, n, self.u.ty(n))
            if r is not None:
                return r
        raise Unsupported("call of '%s' which has neither contract, body nor model" % key)

    def is_lib(self, qn):
        return False

    def enter(self, fdecl, bodyn, nf, args, st):
        ps = params(fdecl)
        for i, p in enumerate(ps):
            ty = self.u.ty(p)
            k = (nf.id, p["id"])
            nf.owned.add(p["id"])
            nf.names[p.get("name", "")] = p["id"]
            st.lty[k] = ty
            if i >= len(args):
                raise Unsupported("missing argument")
            v = args[i]
            if ty.k == "ref":
                if not isinstance(v, Place):
                    v = self.temp(st, v, ty.to)
                st.loc[k] = v
            else:
                st.loc[k] = self.rv(st, v)
        rt = fdecl["type"]["qualType"]
        rts = ret_type(rt)
        nf.retref = rts.endswith("&")
        nf.entry = st.copy()
        self.fnstack.append(fdecl["id"])
        save_pending, self.pending = self.pending, []
        outs = []
        th = []
        try:
            starts = [st]
            if fdecl["kind"] == "CXXConstructorDecl":
                starts = self.ctor_inits(fdecl, st, nf)
            for s0 in starts:
                for kind, s, v in self.run(bodyn, s0, nf):
                    if kind == "normal":
                        outs.append((s, VOID))
                    elif kind == "return":
                        outs.append((s, v))
                    elif kind == "throw":
                        th.append(s)
                    else:
                        raise Unsupported("stray " + kind)
        finally:
            self.fnstack.pop()
        self.pending = save_pending + self.pending + th
        return outs

    def ctor_inits(self, fdecl, st, fr):
        cur = [st]
        p = fr.this
        for c in kids(fdecl):
            if c.get("kind") != "CXXCtorInitializer":
                continue
            nxt = []
            for s in cur:
                if "anyInit" in c:
                    f = c["anyInit"]["name"]
                    ft = self.field_ty(p, f, c["anyInit"])
                    e = kids(c)[0] if kids(c) else None
                    if e is not None and e.get("kind") == "CXXDefaultInitExpr" and not kids(e):
                        fd = self.u.byid.get(c["anyInit"].get("id"))      # the initialiser stands at the member's declaration
                        if fd is None or not kids(fd):
                            raise Unsupported("default member initialiser")
                        e = kids(fd)[-1]
                    if e is None or (strip(e).get("kind") == "CXXConstructExpr" and not kids(strip(e)) and "unnamed" in strip(e)["type"]["qualType"]):
                        nxt.append(s)          # a struct without a name has no constructor that does anything
                        continue
                    for s2, v in self.ev(e, s, fr):
                        self.write(s2, p.f(f, ft), self.rv(s2, v))
                        nxt.append(s2)
                elif "baseInit" in c:
                    e = kids(c)[0] if kids(c) else None
                    r = [(s, None)]
                    ce = strip(e) if e else None
                    if ce is not None and ce.get("kind") == "CXXConstructExpr":
                        r = self.construct(ce, s, fr, p)
                    nxt += [x for x, _ in r]
                else:
                    nxt.append(s)
            cur = nxt
        return cur

    def apply(self, c, fdecl, this, args, st, fr, n):
        """Replace a call by the callee's contract."""
        if c.model:
            return c.model(self, st, this, args, fr, n)
        if c.trusted:
            self.trusted_used.add(c.title)
        nf = Frame(fdecl, this, caller=fr)
        for i, p in enumerate(params(fdecl)):
            ty = self.u.ty(p)
            k = (nf.id, p["id"])
            nf.owned.add(p["id"])
            nf.names[p.get("name", "")] = p["id"]
            st.lty[k] = ty
            v = args[i]
            if ty.k == "ref":
                st.loc[k] = v if isinstance(v, Place) else self.temp(st, v, ty.to)
            else:
                st.loc[k] = self.rv(st, v)
        # the callee's specification must not see the caller's locals
        saved, nf.caller = nf.caller, None
        pre = st.copy()
        nf.entry = pre
        S = View(self, st, nf, pre=pre)
        short = c.title
        if c.pre:
            for lab, f in norm(c.pre(S)):
                self.check(st, f, "precondition of %s: %s" % (short, lab), kind="pre")
        outs = []
        if c.throws is not None:
            ts = st.copy()
            if c.mods and c.mods != "any":
                for a in c.mods(View(self, pre, nf)):
                    self.havoc_place(ts, a, nf)
            for lab, f in norm(c.throws(View(self, ts, nf, pre=pre))):
                ts.assume(f)
            if self.feasible(ts):
                self.pending.append(ts)
        if c.mods and c.mods != "any":
            for a in c.mods(View(self, pre, nf)):
                self.havoc_place(st, a, nf)
        rts = ret_type(fdecl["type"]["qualType"])
        rty = self.u.ty(n) if n.get("type", {}).get("qualType") != "void" else Ty("void")
        if c.retplace:
            ret = c.retplace(View(self, st, nf, pre=pre))
        elif rty.k == "void":
            ret = VOID
        else:
            ret = self.fresh_val(rty.to if rty.k == "ref" else rty, "ret_" + short.split("::")[-1], st)
        S2 = View(self, st, nf, ret=ret, pre=pre)
        if c.post:
            for lab, f in norm(c.post(S2)):
                st.assume(f)
        nf.caller = saved
        outs.append((st, ret))
        return outs

    def havoc_place(self, st, a, fr):
        if isinstance(a, Place):
            old = None
            try:
                old = self.read(st, a)
            except Unsupported:
                pass
            if old is not None and not z3.is_expr(old) and not isinstance(old, Undef):
                self.write(st, a, self.havoc_val(st, old, a.ty, "h"))
            else:
                self.write(st, a, self.fresh_val(a.ty, "h", st))
        else:
            if a[0] == "alloc":
                st.wrote(("alloc",))
            else:
                st.wrote(tuple(a))
            self.havoc(st, [tuple(a)], fr)

    def e_CXXMemberCallExpr(self, n, st, fr):
        ch = kids(n)
        me = strip(ch[0])
        out = []
        if me.get("kind") != "MemberExpr":
            raise Unsupported("member call through " + str(me.get("kind")))
        base = kids(me)[0]
        bt = self.u.ty(base)
        md = me.get("referencedMemberDecl")
        mdn = self.u.byid.get(md)
        for s, b in self.ev(base, st, fr):
            if me.get("isArrow"):
                bv = self.rv(s, b)
                ot = bt.to if bt.k == "ptr" else (bt.args[0] if bt.args else bt)
                if mdn is not None:
                    key = self.u.qn.get(md)
                    if key in self.models:
                        for s2, vs in self.ev_list(ch[1:], s, fr):
                            out += self.models[key](self, s2, bv, vs, fr, n)
                        continue
                p = self.deref(s, bv, bt)
            else:
                p = b if isinstance(b, Place) else self.temp(s, b, bt)
                ot = bt
            for s2, vs in self.ev_list(ch[1:], s, fr):
                if mdn is not None:
                    out += self.call_decl(mdn, p, vs, ch[1:], s2, fr, n)
                else:
                    m = self.models.get("method:%s::%s" % (ot.name, me.get("name")))
                    r = m(self, s2, p, vs, fr, n) if m is not None else self.lib.method(ot, me.get("name"), p, vs, ch[1:], s2, fr, n, self.u.ty(n))
                    if r is None:
                        raise Unsupported("no model for %s::%s" % (ot, me.get("name")))
                    out += r
        return out

    def e_CXXOperatorCallExpr(self, n, st, fr):
        ch = kids(n)
        callee = strip(ch[0])
        d = callee.get("referencedDecl", {})
        name = d.get("name", "")
        out = []
        did = d.get("id")
        full = self.u.byid.get(did)
        for s, vs in self.ev_list(ch[1:], st, fr):
            if full is not None and full.get("kind") == "CXXMethodDecl":
                if name == "operator()":
                    v0 = self.rv(s, vs[0]) if isinstance(vs[0], Place) else vs[0]
                    if isinstance(v0, Clos):
                        out += self.call_closure(v0, vs[1:], s, fr)
                        continue
                if name == "operator=" and (full.get("isImplicit") or full.get("explicitlyDefaulted") or not self.u.body_of(did)):
                    self.write(s, vs[0], self.rv(s, vs[1]))
                    out.append((s, vs[0]))
                    continue
                p = vs[0] if isinstance(vs[0], Place) else self.temp(s, vs[0], self.u.ty(ch[1]))
                out += self.call_decl(full, p, vs[1:], ch[2:], s, fr, n)
                continue
            if full is not None and full.get("kind") == "FunctionDecl":
                out += self.call_decl(full, None, vs, ch[1:], s, fr, n)
                continue
            if name == "operator()":
                f = self.rv(s, vs[0])
                out += self.call_value(f, vs[1:], s, fr, n)
                continue
            m = self.models.get("method:%s::%s" % (self.u.ty(ch[1]).name, name))
            r = m(self, s, vs[0], vs[1:], fr, n) if m is not None else self.lib.operator(name, vs, ch[1:], s, fr, n, self.u.ty(n))
            if r is None:
                raise Unsupported("no model for %s on %s" % (name, self.u.ty(ch[1])))
            out += r
        return out

    def e_CXXConstructExpr(self, n, st, fr):
        return self.construct(n, st, fr, None)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def construct(self, n, st, fr, into):
        ty = self.u.ty(n)
        ch = kids(n)
        out = []
        ct = (n.get("ctorType") or {}).get("qualType", "")
        for s, vs in self.ev_list(ch, st, fr):
            # copy / move construction
            if len(vs) == 1 and (n.get("elidable") or self.is_copy(ct, ty, ch[0])):
                v = self.rv(s, vs[0])
                if into is not None:
                    self.write(s, into, v)
                out.append((s, v if into is None else into))
                continue
            if ty.k == "rec" and self.u.record(ty) is not None:
                r = self.construct_rec(ty, ct, vs, ch, s, fr, n, into)
                out += r
                continue
            if ty.k == "arr" and ty.to.k == "unk" and "va_list" in str(ty.to):    # a list of variable arguments: nothing is known about it
                out.append((s, VOID))
                continue
            m = self.models.get("construct:" + (ty.name or ""))
            r = m(self, s, ty, vs, fr, n) if m is not None else self.lib.construct(ty, vs, ch, s, fr, n, ct)
            if r is None:
                raise Unsupported("no model for constructor of %s %s" % (ty, ct))
            for s2, v in r:
                if into is not None:
                    self.write(s2, into, v)
                out.append((s2, v))
        return out

    def is_copy(self, ct, ty, arg):
        at = self.u.ty(arg)
        if at.k == "ref":
            at = at.to
        if at != ty:
            return False
        return True

    def construct_rec(self, ty, ct, vs, ch, s, fr, n, into):
        d = self.u.record(ty)
        ctor = None
        cands = [c for c in kids(d) if c.get("kind") == "CXXConstructorDecl"]
        for c in kids(d):
            if c.get("kind") == "FunctionTemplateDecl":
                cands += [x for x in kids(c) if x.get("kind") == "CXXConstructorDecl"]
        for c in cands:
            if c["type"]["qualType"] == ct:
                ctor = c
        if ctor is None:
            cc = [c for c in cands if len(params(c)) >= len(vs) and not c.get("isImplicit")]
            if len(cc) == 1:
                ctor = cc[0]
        p = into
        if p is None:
            v0 = self.undef_struct(ty) if self.so.is_struct(ty) else fresh("obj", self.so.of(ty))
            p = self.temp(s, v0, ty)
        if ctor is not None:
            qn = self.u.qn.get(ctor["id"], "")
            for c in self.contracts:
                if c.matches(qn, ctor):
                    r = self.apply(c, ctor, p, vs, s, fr, n)
                    return [(x, self.read(x, p) if into is None else into) for x, _ in r]
            if qn in self.models:
                r = self.models[qn](self, s, p, vs, fr, n)
                return [(x, self.read(x, p) if into is None else into) for x, _ in r]
        b = self.u.body_of(ctor["id"]) if ctor is not None else None
        if b is None:
            # implicit default constructor
            if not vs:
                if self.so.is_struct(ty):
                    for fn, ft, w in self.so.rec_fields(ty):
                        if ft.k == "std" or self.so.is_struct(ft):
                            self.write(s, p.f(fn, ft), self.default_val(ft) if ft.k == "std" else self.undef_struct(ft))
                        # in-class initialisers of implicit constructors
                    for c in kids(d):
                        if c.get("kind") == "FieldDecl" and c.get("hasInClassInitializer") and kids(c):
                            for s2, v in self.ev(kids(c)[-1], s, Frame(None, p)):
                                self.write(s2, p.f(c["name"], self.u.ty(c)), self.rv(s2, v))
                return [(s, self.read(s, p) if into is None else into)]
            raise Unsupported("constructor of %s" % ty)
        nf = Frame(b, p, caller=fr)
        r = self.enter(b, body(b), nf, vs, s)
        return [(x, self.read(x, p) if into is None else into) for x, _ in r]

    def e_CXXNewExpr(self, n, st, fr):
        ty = self.u.ty(n)
        to = ty.to
        ch = kids(n)
        if n.get("isArray"):
            out = []
            for s, v in self.ev(ch[0], st, fr):
                sz = self.rv(s, v)
                b = ("new", next(Frame.n))
                s.blocks[b] = (fresh("mem", z3.ArraySort(z3.IntSort(), self.so.of(to))), sz, to)
                s.wrote(("newblock", b))
                out.append((s, BPtr(b, z3.IntVal(0), to)))
            return out
        if to.k == "rec" and to.name in self.heap_classes:
            r = fresh("new_" + to.name, z3.IntSort())
            st.assume(r > 0)
            st.assume(z3.Not(z3.Select(st.alloc, r)))
            st.alloc = z3.Store(st.alloc, r, z3.BoolVal(True))
            st.wrote(("alloc",))
            p = Place(("H", to.name, r), (), to)
            cons = [c for c in ch if strip(c).get("kind") in ("CXXConstructExpr",)]
            if cons:
                return [(s, r) for s, _ in self.construct(strip(cons[0]), st, fr, p)]
            return [(st, r)]
        if ch:
            out = []
            for s, v in self.ev(ch[0], st, fr):
                p = self.temp(s, self.rv(s, v), to)
                out.append((s, PtrP(p)))
            return out
        p = self.temp(st, Undef(to) if not self.so.is_struct(to) else self.undef_struct(to), to)
        return [(st, PtrP(p))]

    def e_CXXDeleteExpr(self, n, st, fr):
        out = []
        for s, v in self.ev(kids(n)[0], st, fr):
            v = self.rv(s, v)
            if z3.is_expr(v):
                self.check(s, z3.Or(v == 0, z3.Select(s.alloc, v)), "delete of a live object")
                pt = self.u.ty(kids(n)[0])
                dd = self.dtor(pt.to) if pt.k == "ptr" else None
                if dd is not None:
                    t, f = self.split(s, v == 0)
                    if t is not None:
                        out.append((t, VOID))
                    if f is None:
                        continue
                    s = f
                    for s2, _ in self.apply(dd[0], dd[1], Place(("H", pt.to.name, v), (), pt.to), [], s, fr, {"type": {"qualType": "void"}}):
                        s = s2
                s.alloc = z3.Store(s.alloc, v, z3.BoolVal(False))
                s.wrote(("alloc",))
            out.append((s, VOID))
        return out

    def dtor(self, ty):
        """the destructor of a class, if it is under contract: (contract, declaration)"""
        if ty.k != "rec" or self.u.record(ty) is None:
            return None
        for d in kids(self.u.record(ty)):
            if d.get("kind") == "CXXDestructorDecl":
                qn = self.u.qn.get(d["id"], "")
                for c in self.contracts:
                    if c.matches(qn, d):
                        return c, d
        return None

    def leave(self, n, s, fr):
        """the end of a block: its objects are destroyed, the last one first (classes whose destructor is under contract)"""
        for c in reversed(kids(n)):
            if c.get("kind") != "DeclStmt":
                continue
            for d in reversed(kids(c)):
                k = (fr.id, d.get("id"))
                if d.get("kind") != "VarDecl" or k not in s.loc or s.lty.get(k) is None or s.lty[k].k != "rec":
                    continue
                dd = self.dtor(s.lty[k])
                if dd is not None:
                    (s, _), = self.apply(dd[0], dd[1], Place(("L", k), (), s.lty[k]), [], s, fr, {"type": {"qualType": "void"}})
        return s

    def e_CXXThrowExpr(self, n, st, fr):
        self.pending.append(st)
        return []

    def e_StmtExpr(self, n, st, fr):
        r = self.run(kids(n)[0], st, fr)
        return [(s, VOID) for k, s, v in r]

    def e_CXXInheritedCtorInitExpr(self, n, st, fr):
        return [(st, VOID)]

    def e_OpaqueValueExpr(self, n, st, fr):
        return self.ev(kids(n)[0], st, fr)

    def e_CXXTypeidExpr(self, n, st, fr):
        raise Unsupported("typeid")


class ArrPtr:
    """Pointer into an array-typed place."""

    def __init__(self, place, off):
        self.place, self.off = place, off

    def place_at(self, X, st):
        t = self.place.ty
        if t.n is not None:
            X.check(st, z3.And(self.off >= 0, self.off < t.n), "array index inside bounds")
        else:
            X.lib.flex_bound(st, self.place, self.off)
        return self.place.i(self.off, t.to)


def ret_type(q):
    d = 0
    for i, ch in enumerate(q):
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif ch == "(" and d == 0:
            if q[i:].startswith("(lambda"):
                continue
            return q[:i].strip()
    return q


def strip(n):
    while n.get("kind") in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "CXXBindTemporaryExpr",
                            "MaterializeTemporaryExpr"):
        n = kids(n)[0]
    return n


def do_once(n):
    if n.get("kind") != "DoStmt":
        return False
    c = kids(n)[1]
    while c.get("kind") in ("ImplicitCastExpr", "ParenExpr", "ConstantExpr", "ExprWithCleanups"):
        c = kids(c)[0]
    return (c.get("kind") == "IntegerLiteral" and str(c.get("value")) == "0") or (c.get("kind") == "CXXBoolLiteralExpr" and c.get("value") is False)


def loops_in(b):
    out = []

    def walk(n):
        if not isinstance(n, dict):
            return
        if n.get("kind") in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt") and not do_once(n):
            out.append(n["id"])
        for x in kids(n):
            walk(x)
    walk(b)
    return out


def norm(fs):
    """[(label, formula)] from a dict / list / single formula."""
    if fs is None:
        return []
    if isinstance(fs, dict):
        return list(fs.items())
    out = []
    for i, f in enumerate(fs):
        if isinstance(f, tuple):
            out.append(f)
        else:
            out.append(("clause %d" % (i + 1), f))
    return out


def decok(d):
    if isinstance(d, (list, tuple)):
        return z3.And(*[x >= 0 for x in d])
    return d >= 0


def declt(a, b):
    if isinstance(a, (list, tuple)):
        r = z3.BoolVal(False)
        eq = z3.BoolVal(True)
        for x, y in zip(a, b):
            r = z3.Or(r, z3.And(eq, x < y))
            eq = z3.And(eq, x == y)
        return r
    return a < b


def same_place(a, b):
    if a.root[0] != b.root[0] or len(a.sels) != len(b.sels):
        return False
    if a.root[0] == "H":
        if not a.root[2].eq(b.root[2]):
            return False
    elif a.root != b.root:
        return False
    for x, y in zip(a.sels, b.sels):
        if x[0] != y[0]:
            return False
        if x[0] == "f":
            if x[1] != y[1]:
                return False
        elif not simp(x[1]).eq(simp(y[1])):
            return False
    return True


def same_mem(a, b):
    if a.alloc is not b.alloc and not a.alloc.eq(b.alloc):
        return False
    for x, y in ((a.heap, b.heap), (a.glob, b.glob), (a.ghost, b.ghost)):
        for k in y:
            if x.get(k) is not y[k]:
                return False
    for k in b.loc:
        if a.loc.get(k) is not b.loc[k]:
            return False
    for k in b.blocks:
        if a.blocks.get(k) is not b.blocks[k]:
            return False
    return True


_hq = {}


def has_quant(e):
    k = e.get_id()
    if k in _hq:
        return _hq[k][0]
    todo = [e]
    seen = set()
    r = False
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            r = True
            break
        todo += x.children()
    _hq[k] = (r, e)
    return r


def decode_lit(v):
    # clang prints the literal with C escapes, in quotes
    assert v[0] == '"' or v[0] in "uUL"
    v = v[v.index('"'):]
    body_ = v[1:-1]
    out = []
    i = 0
    while i < len(body_):
        c = body_[i]
        if c == "\\":
            i += 1
            c = body_[i]
            m = {"n": "\n", "t": "\t", "r": "\r", "\\": "\\", '"': '"', "'": "'", "0": "\0", "a": "\a",
                 "b": "\b", "f": "\f", "v": "\v", "?": "?"}
            if c == "x":
                j = i + 1
                while j < len(body_) and body_[j] in "0123456789abcdefABCDEF":
                    j += 1
                out.append(chr(int(body_[i + 1:j], 16)))
                i = j
                continue
            if c in "01234567":
                j = i
                while j < len(body_) and j < i + 3 and body_[j] in "01234567":
                    j += 1
                out.append(chr(int(body_[i:j], 8)))
                i = j
                continue
            out.append(m.get(c, c))
        else:
            out.append(c)
        i += 1
    return "".join(out)
