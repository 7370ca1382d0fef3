"""Values, sorts and places of the verifier."""
import z3
from cast import Ty, Unsupported, I

_fresh = [0]


def fresh(name, sort):
    _fresh[0] += 1
    return z3.Const("%s!%d" % (name, _fresh[0]), sort)


_ForAll, _Exists = z3.ForAll, z3.Exists
_BADPAT = {z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_IMPLIES, z3.Z3_OP_LE,
           z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT}


def _okpat(t):
    """Solvers accept as triggers only terms without connectives, conditionals or quantifiers."""
    st = [t]
    while st:
        x = st.pop()
        if z3.is_quantifier(x):
            return False
        if z3.is_app(x):
            if x.decl().kind() in _BADPAT:
                return False
            st += x.children()
    return True


def _pats(patterns):
    out = []
    for p in patterns:
        ts = [p]
        if isinstance(p, z3.PatternRef):
            ts = [z3.ExprRef(z3.Z3_get_pattern(p.ctx_ref(), p.as_ast(), i), p.ctx)
                  for i in range(z3.Z3_get_pattern_num_terms(p.ctx_ref(), p.as_ast()))] if False else getattr(p, "_terms", [])
            if not ts:
                return None
        if not all(_okpat(t) for t in ts):
            return None
        out.append(p)
    return out


def _forall(vs, body, weight=1, qid="", skid="", patterns=[], no_patterns=[]):
    ps = _pats(patterns) if patterns else []
    return _ForAll(vs, body, patterns=ps or [])


def _multi(*ts):
    p = _MultiPattern(*ts)
    p._terms = list(ts)
    return p


_MultiPattern = z3.MultiPattern
z3.MultiPattern = _multi
z3.ForAll = _forall


class Undef:
    """Value of an uninitialised object."""

    def __init__(self, ty):
        self.ty = ty


class StructV:
    __slots__ = ("ty", "f")

    def __init__(self, ty, f):
        self.ty, self.f = ty, f

    def with_(self, n, v):
        d = dict(self.f)
        d[n] = v
        return StructV(self.ty, d)


class Place:
    """root: ('L',key) local/temporary, ('H',cls,ref) heap object, ('G',name) global, ('B',id) block."""
    __slots__ = ("root", "sels", "ty")

    def __init__(self, root, sels, ty):
        self.root, self.sels, self.ty = root, tuple(sels), ty

    def f(self, name, ty):
        return Place(self.root, self.sels + (("f", name, ty),), ty)

    def i(self, idx, ty):
        return Place(self.root, self.sels + (("i", idx, ty),), ty)

    def m(self, key, ty):
        return Place(self.root, self.sels + (("m", key, ty),), ty)

    def __repr__(self):
        return "Place(%s,%s)" % (self.root, self.sels)


class PtrP:
    """Pointer to a known place."""

    def __init__(self, place):
        self.place = place


class BPtr:
    """Pointer into a memory block (array element granularity)."""

    def __init__(self, block, off, elem):
        self.block, self.off, self.elem = block, off, elem


class CStr:
    """const char* pointing at the start of (or inside) a string value's buffer."""

    def __init__(self, s):
        self.s = s


class IterV:
    """Iterator of a sequence container (or reverse when rev)."""

    def __init__(self, place, idx, rev=False):
        self.place, self.idx, self.rev = place, idx, rev


class MapIter:
    def __init__(self, place, key, atend, pos=None):
        self.place, self.key, self.atend, self.pos = place, key, atend, pos


class Clos:
    def __init__(self, node, frame, caps, thisv):
        self.node, self.frame, self.caps, self.thisv = node, frame, caps, thisv


class FnRef:
    def __init__(self, decl, bound=None):
        self.decl, self.bound = decl, bound


class OpaqueFn:
    """A callback about which only the specification speaks."""

    def __init__(self, name):
        self.name = name


class Voidv:
    pass


VOID = Voidv()

SEQS = ("vector", "list", "deque", "stack", "queue", "initializer_list")
MAPS = ("map", "unordered_map")
SETS = ("set", "unordered_set")
_sorts = {}
_dt = {}
Str = None
_mode = {"str": "abs"}


def set_string_mode(m):
    global Str
    _mode["str"] = m
    Str = z3.StringSort() if m == "seq" else z3.DeclareSort("Str")


set_string_mode("abs")


def sanitize(s):
    return "".join(c if c.isalnum() else "_" for c in s)


class Sorts:
    def __init__(self, unit):
        self.u = unit
        self.c = {}
        self.dts = {}

    def of(self, ty):
        k = ty.key()
        if k in self.c:
            return self.c[k]
        s = self._of(ty)
        self.c[k] = s
        return s

    def _of(self, ty):
        if ty.k in ("int", "enum"):
            return z3.IntSort()
        if ty.k == "bool":
            return z3.BoolSort()
        if ty.k == "float":
            return z3.RealSort()
        if ty.k in ("ptr", "nullptr"):
            return z3.IntSort()
        if ty.k == "ref":
            return self.of(ty.to)
        if ty.k == "arr":
            return z3.ArraySort(z3.IntSort(), self.of(ty.to))
        if ty.k == "std":
            if ty.name in ("string", "stringstream", "ostringstream", "basic_stringstream", "basic_ostringstream"):
                return Str
            if ty.name in ("unique_ptr", "shared_ptr", "function"):
                return z3.IntSort()
            if ty.name in SEQS:
                es = self.of(ty.args[0])
                d = z3.Datatype("Vec_" + sanitize(ty.args[0].key()))
                k = "Vec_" + sanitize(ty.args[0].key())
                d.declare("mk" + k, ("arr_" + k, z3.ArraySort(z3.IntSort(), es)), ("len_" + k, z3.IntSort()))
                if k not in self.dts:
                    self.dts[k] = d.create()
                return self.dts[k]
            if ty.name in MAPS:
                ks, vs = self.of(ty.args[0]), self.of(ty.args[1])
                k = "Map_" + sanitize(ty.args[0].key()) + "_" + sanitize(ty.args[1].key())
                if k not in self.dts:
                    d = z3.Datatype(k)
                    d.declare("mk" + k, ("dom_" + k, z3.ArraySort(ks, z3.BoolSort())),
                              ("val_" + k, z3.ArraySort(ks, vs)))
                    self.dts[k] = d.create()
                return self.dts[k]
            if ty.name in SETS:
                return z3.ArraySort(self.of(ty.args[0]), z3.BoolSort())
            if ty.name == "pair":
                k = "Pair_" + sanitize(ty.key())
                if k not in self.dts:
                    d = z3.Datatype(k)
                    d.declare("mk" + k, (k + "_first", self.of(ty.args[0])),
                              (k + "_second", self.of(ty.args[1])))
                    self.dts[k] = d.create()
                return self.dts[k]
            return z3.DeclareSort("Std_" + sanitize(ty.key()))
        if ty.k == "rec":
            d = self.u.record(ty)
            if d is None:
                return z3.DeclareSort("Rec_" + sanitize(ty.key()))
            fs = self.u.fields(d)
            k = "R_" + sanitize(ty.key())
            if k not in self.dts:
                if not fs:
                    return z3.DeclareSort(k)
                dt = z3.Datatype(k)
                dt.declare("mk" + k, *[(k + "_" + n, self.of(t)) for n, t, w in fs])
                self.dts[k] = dt.create()
            return self.dts[k]
        return z3.DeclareSort("Unk_" + sanitize(ty.key()))

    # accessors with constructor folding
    def acc(self, sort, i, e):
        if z3.is_app(e) and e.decl().eq(sort.constructor(0)):
            return e.arg(i)
        return sort.accessor(0, i)(e)

    def vec_arr(self, v):
        return self.acc(v.sort(), 0, v)

    def vec_len(self, v):
        return self.acc(v.sort(), 1, v)

    def mkvec(self, ty, arr, ln):
        return self.of(ty).constructor(0)(arr, ln)

    def map_dom(self, m):
        return self.acc(m.sort(), 0, m)

    def map_val(self, m):
        return self.acc(m.sort(), 1, m)

    def mkmap(self, ty, dom, val):
        return self.of(ty).constructor(0)(dom, val)

    def rec_fields(self, ty):
        if ty.k == "std" and ty.name == "pair":
            return [("first", ty.args[0], None), ("second", ty.args[1], None)]
        d = self.u.record(ty)
        if d is None:
            raise Unsupported("unknown record " + ty.key())
        return self.u.fields(d)

    def is_struct(self, ty):
        if ty.k == "std" and ty.name == "pair":
            return True
        return ty.k == "rec" and self.u.record(ty) is not None and bool(self.u.fields(self.u.record(ty)))

    def to_z3(self, v, ty):
        if isinstance(v, Undef):
            return fresh("undef", self.of(ty))
        if isinstance(v, StructV):
            s = self.of(v.ty)
            args = [self.to_z3(v.f[n], t) for n, t, w in self.rec_fields(v.ty)]
            # eta: mk(acc0(x), acc1(x), ...) is x
            x = None
            for i, a in enumerate(args):
                if z3.is_app(a) and a.num_args() == 1 and a.decl().eq(s.accessor(0, i)) and (x is None or x.eq(a.arg(0))):
                    x = a.arg(0)
                else:
                    x = None
                    break
            if x is not None:
                return x
            return s.constructor(0)(*args)
        if z3.is_expr(v):
            return v
        if type(v).__name__ == "CStr" and ty.k == "std" and ty.name == "string":
            return v.s
        raise Unsupported("value of type %s has no logical representation (%s)" % (ty, type(v).__name__))

    def from_z3(self, e, ty):
        if self.is_struct(ty):
            s = self.of(ty)
            fs = self.rec_fields(ty)
            return StructV(ty, {n: self.from_z3(self.acc(s, i, e), t) for i, (n, t, w) in enumerate(fs)})
        return e

    def int_range(self, t):
        if t.signed:
            return -(1 << (t.bits - 1)), (1 << (t.bits - 1)) - 1
        return 0, (1 << t.bits) - 1
