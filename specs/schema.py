"""Schemata (SchemaEngine.cpp): cutting off encoded formulae, walking over subexpressions, naming symbols."""
import z3
from sx import *
from cast import I, Ty
TU = '''
#include "mws/query/SchemaEngine.cpp"
'''
HEAP = ["CmmlToken", "SchemaAnswset", "GenericAnswer"]
LIM = 1 << 31
NMAX = 1 << 31


class Codes:
    """Encoded formulae as trees: where subexpressions end, and what is kept of them when they are cut off at a depth."""
    def __init__(self, X):
        self.X, so, lib = X, X.so, X.lib
        I_, B_ = z3.IntSort(), z3.BoolSort()
        self.TOK = TOK = Ty("rec", "encoded_token_s")
        tok = so.of(TOK)
        tf = {n: i for i, (n, ty, w) in enumerate(so.rec_fields(TOK))}
        AR = self.AR = lambda e: tok.accessor(0, tf["arity"])(e)
        ID = self.ID = lambda e: tok.accessor(0, tf["id"])(e)
        self.tok = tok

    def init(self, VS, walk=True):
        X, so = self.X, self.X.so
        I_, B_ = z3.IntSort(), z3.BoolSort()
        self.VS = VS
        vlen, varr = so.vec_len, so.vec_arr
        sel, sto = z3.Select, z3.Store
        v, o, i, j, n, p, L, d = z3.Const("cv", VS), z3.Const("co", VS), *z3.Ints("ci cj cn cp cL cd")
        f = z3.Bool("cf")
        at = self.at = lambda v, i: sel(varr(v), i)
        ar = self.ar = lambda v, i: z3.If(z3.And(0 <= i, i < vlen(v), self.AR(at(v, i)) >= 0), self.AR(at(v, i)), 0)
        end, kids = self.end, self.kids = z3.Function("code_end", VS, I_, I_), z3.Function("code_kids", VS, I_, I_, I_)
        isap = self.isap = z3.Function("is_apply", I_, B_)
        keepn, keepk = self.keepn, self.keepk = z3.Function("keep_node", VS, I_, VS, I_, I_, VS), z3.Function("keep_kids", VS, I_, VS, I_, I_, I_, B_, VS)
        push = self.push = lambda o, e: VS.constructor(0)(sto(varr(o), vlen(o), e), vlen(o) + 1)
        A = X.axioms
        if not walk: return
        # definitions
        A += [z3.ForAll([v, i], end(v, i) == kids(v, i + 1, ar(v, i)), patterns=[z3.MultiPattern(end(v, i), at(v, i))]),
              z3.ForAll([v, i], z3.Implies(i >= vlen(v), end(v, i) == i + 1), patterns=[end(v, i)]),
              z3.ForAll([v, p, n], z3.Implies(n <= 0, kids(v, p, n) == p), patterns=[kids(v, p, n)]),
              z3.ForAll([v, p, n], z3.Implies(n > 0, kids(v, p, n) == kids(v, end(v, p), n - 1)), patterns=[z3.MultiPattern(kids(v, p, n), at(v, p)), z3.MultiPattern(kids(v, p, n), end(v, p))])]
        # they walk forward: by induction on (what is left of the code, number of subexpressions)
        v0, p0, n0 = z3.Const("iv0", VS), z3.Int("ip0"), z3.Int("in0")
        left = lambda p: z3.If(p < vlen(v0), vlen(v0) - p, 0)
        hyp = z3.ForAll([p, n], z3.Implies(z3.And(p >= 0, z3.Or(left(p) < left(p0), z3.And(left(p) == left(p0), n < n0))), kids(v0, p, n) >= p + z3.If(n > 0, n, 0)), patterns=[kids(v0, p, n)])
        unf = z3.And(end(v0, p0) == kids(v0, p0 + 1, ar(v0, p0)), z3.Implies(n0 > 0, kids(v0, p0, n0) == kids(v0, end(v0, p0), n0 - 1)))
        X.lemma("subexpressions lie one after the other, step", z3.Implies(z3.And(p0 >= 0, vlen(v0) >= 0, unf, hyp), kids(v0, p0, n0) >= p0 + z3.If(n0 > 0, n0, 0)))
        A += [z3.ForAll([v, p, n], z3.Implies(z3.And(p >= 0, vlen(v) >= 0), kids(v, p, n) >= p + z3.If(n > 0, n, 0)), patterns=[kids(v, p, n)]),
              z3.ForAll([v, p], z3.Implies(z3.And(p >= 0, vlen(v) >= 0), end(v, p) >= p + 1), patterns=[end(v, p)])]
        # what is kept
        A += [z3.ForAll([v, d, o, i, L], keepn(v, d, o, i, L) == keepk(v, d, push(o, at(v, i)), i + 1, ar(v, i), L + 1, isap(self.ID(at(v, i)))), patterns=[keepn(v, d, o, i, L)]),
              z3.ForAll([v, d, o, p, n, L, f], z3.Implies(z3.Or(n <= 0, z3.And(L >= d, z3.Not(f))), keepk(v, d, o, p, n, L, f) == o), patterns=[keepk(v, d, o, p, n, L, f)]),
              z3.ForAll([v, d, o, p, n, L, f], z3.Implies(z3.And(n > 0, z3.Or(L < d, f)), keepk(v, d, o, p, n, L, f) == keepk(v, d, keepn(v, d, o, p, L), end(v, p), n - 1, L, z3.BoolVal(False))),
                        patterns=[z3.MultiPattern(keepk(v, d, o, p, n, L, f), at(v, p))])]

    def walks(self, name, ES, fst):
        """position after everything that a stack of pending arguments stands for (the topmost not yet begun; begun once for those below)"""
        X = self.X
        I_ = z3.IntSort()
        AS = z3.ArraySort(I_, ES)
        S, v, j, p, i, x = z3.Const(name + "_wS", AS), z3.Const(name + "_wv", self.VS), z3.Int(name + "_wj"), z3.Int(name + "_wp"), z3.Int(name + "_wi"), z3.Const(name + "_wx", ES)
        R = z3.Function(name, self.VS, AS, I_, I_, I_)
        n = lambda S, j: fst(z3.Select(S, j))
        X.axioms += [z3.ForAll([v, S, j, p], z3.Implies(j <= 0, R(v, S, j, p) == p), patterns=[R(v, S, j, p)]),
                     z3.ForAll([v, S, j, p], z3.Implies(j > 0, R(v, S, j, p) == R(v, S, j - 1, self.kids(v, p, n(S, j - 1) - 1))), patterns=[z3.MultiPattern(R(v, S, j, p), z3.Select(S, j - 1))])]
        S0, v0, j0, p0, i0, x0 = z3.Const(name + "_wS0", AS), z3.Const(name + "_wv0", self.VS), z3.Int(name + "_wj0"), z3.Int(name + "_wp0"), z3.Int(name + "_wi0"), z3.Const(name + "_wx0", ES)
        unf = lambda T: z3.Implies(j0 > 0, R(v0, T, j0, p0) == R(v0, T, j0 - 1, self.kids(v0, p0, n(T, j0 - 1) - 1)))
        T0 = z3.Store(S0, i0, x0)
        X.lemma(name + ": pending arguments above do not matter, step", z3.Implies(z3.And(i0 >= j0, unf(S0), unf(T0), z3.ForAll([p], z3.Implies(j0 > 0, R(v0, T0, j0 - 1, p) == R(v0, S0, j0 - 1, p)), patterns=[R(v0, T0, j0 - 1, p)])),
                                                                                  R(v0, T0, j0, p0) == R(v0, S0, j0, p0)))
        X.axioms.append(z3.ForAll([v, S, j, p, i, x], z3.Implies(i >= j, R(v, z3.Store(S, i, x), j, p) == R(v, S, j, p)), patterns=[R(v, z3.Store(S, i, x), j, p)]))
        X.lemma(name + ": forward, step", z3.Implies(z3.And(p0 >= 0, X.so.vec_len(v0) >= 0, unf(S0), z3.ForAll([p], z3.Implies(z3.And(p >= 0, j0 > 0), R(v0, S0, j0 - 1, p) >= p), patterns=[R(v0, S0, j0 - 1, p)])), R(v0, S0, j0, p0) >= p0))
        X.axioms.append(z3.ForAll([v, S, j, p], z3.Implies(z3.And(p >= 0, X.so.vec_len(v) >= 0), R(v, S, j, p) >= p), patterns=[R(v, S, j, p)]))
        return R

    def keeps(self, name, ES, fst):
        """the same for what is kept"""
        X = self.X
        I_ = z3.IntSort()
        AS = z3.ArraySort(I_, ES)
        VS = self.VS
        S, v, o, j, p, i, d, x = z3.Const(name + "_kS", AS), z3.Const(name + "_kv", VS), z3.Const(name + "_ko", VS), z3.Int(name + "_kj"), z3.Int(name + "_kp"), z3.Int(name + "_ki"), z3.Int(name + "_kd"), z3.Const(name + "_kx", ES)
        R = z3.Function(name, VS, I_, AS, I_, VS, I_, VS)
        n = lambda S, j: fst(z3.Select(S, j))
        nx = lambda v, d, S, j, o, p: R(v, d, S, j - 1, self.keepk(v, d, o, p, n(S, j - 1) - 1, j, z3.BoolVal(False)), self.kids(v, p, n(S, j - 1) - 1))
        X.axioms += [z3.ForAll([v, d, S, j, o, p], z3.Implies(j <= 0, R(v, d, S, j, o, p) == o), patterns=[R(v, d, S, j, o, p)]),
                     z3.ForAll([v, d, S, j, o, p], z3.Implies(j > 0, R(v, d, S, j, o, p) == nx(v, d, S, j, o, p)), patterns=[z3.MultiPattern(R(v, d, S, j, o, p), z3.Select(S, j - 1))])]
        S0, v0, o0, j0, p0, i0, d0, x0 = z3.Const(name + "_kS0", AS), z3.Const(name + "_kv0", VS), z3.Const(name + "_ko0", VS), z3.Int(name + "_kj0"), z3.Int(name + "_kp0"), z3.Int(name + "_ki0"), z3.Int(name + "_kd0"), z3.Const(name + "_kx0", ES)
        T0 = z3.Store(S0, i0, x0)
        unf = lambda T: z3.Implies(j0 > 0, R(v0, d0, T, j0, o0, p0) == nx(v0, d0, T, j0, o0, p0))
        X.lemma(name + ": pending arguments above do not matter, step", z3.Implies(z3.And(i0 >= j0, unf(S0), unf(T0), z3.ForAll([o, p], z3.Implies(j0 > 0, R(v0, d0, T0, j0 - 1, o, p) == R(v0, d0, S0, j0 - 1, o, p)), patterns=[R(v0, d0, T0, j0 - 1, o, p)])),
                                                                                  R(v0, d0, T0, j0, o0, p0) == R(v0, d0, S0, j0, o0, p0)))
        X.axioms.append(z3.ForAll([v, d, S, j, o, p, i, x], z3.Implies(i >= j, R(v, d, z3.Store(S, i, x), j, o, p) == R(v, d, S, j, o, p)), patterns=[R(v, d, z3.Store(S, i, x), j, o, p)]))
        return R


def make(X, part):
    so, lib = X.so, X.lib
    I_, B_, sel = z3.IntSort(), z3.BoolSort(), z3.Select
    lit = lib.strlit
    STR = lit("x").sort()
    C = Codes(X)
    VS = so.of(Ty("std", "vector", (C.TOK,)))
    C.init(VS, part == "cut")
    vlen, varr = so.vec_len, so.vec_arr
    val = lambda S, n: (lambda x: X.read(S.st, x) if isinstance(x, Place) else x)(S.deref(n))
    zval = lambda S, n, ty: so.to_z3(val(S, n), ty)

    # ---- naming symbols
    tagof, textof, name_of = z3.Function("tag_of", STR, STR), z3.Function("text_of", STR, STR), z3.Function("meaning_of", I_, STR)
    mng = Contract("ExpressionDecoder::getMeaning", trusted=True, verify=False, post=lambda S: {"name of the symbol": S.ret == name_of(S["meaningId"])})
    ia = Contract("SchemaEngine::isApply", post=lambda S: {"applications": S.ret == C.isap(C.ID(zval(S.pre, "tok", C.TOK)))}, trusted=True, verify=False)

    PT = Ty("std", "pair", (I(32, False), Ty("bool")))
    P = so.of(PT)
    N1, F1 = (lambda e: P.accessor(0, 0)(e)), (lambda e: P.accessor(0, 1)(e))
    i = z3.Int("si")
    up_dec = lambda S: z3.If(S["parentExpr"] == 0, S.len(S["unexplored"]) + 1, 0)

    if part == "cut":
        # ---- completeExpression
        R1 = C.walks("pending_end", I_, lambda e: e)
        def ce_inv(S):
            v = val(S.pre, "expr")
            st, h = S.arr(S["unexplored"]), S.len(S["unexplored"])
            p = S["currTok"]
            i = z3.Int("si")
            return {"position": z3.And(p >= S.pre["startExpr"], p < vlen(v), h >= 0), "pending": z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < h), sel(st, i) > 0), patterns=[sel(st, i)]),
                    "what is pending ends where the expression does": z3.If(h == 0, p == S.pre["startExpr"], R1(v, st, h - 1, C.kids(v, p, sel(st, h - 1))) == C.end(v, S.pre["startExpr"]))}
        def ce_in(S):
            v = val(S.pre, "expr")
            st, h = S.arr(S["unexplored"]), S.len(S["unexplored"])
            p, q = S["currTok"] + 1, S["parentExpr"]
            i = z3.Int("si")
            return {"pending": z3.And(h >= 0, q >= 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < h), sel(st, i) > 0), patterns=[sel(st, i)])),
                    "what is pending ends where the expression does": z3.If(q == 0, R1(v, st, h, p) == C.end(v, S.pre["startExpr"]),
                                                                           z3.And(h > 0, sel(st, h - 1) == q, R1(v, st, h - 1, C.kids(v, p, q)) == C.end(v, S.pre["startExpr"])))}
        ce = Contract("SchemaEngine::completeExpression", pre=lambda S: {"an expression inside the code": z3.And(0 <= S["startExpr"], S["startExpr"] < vlen(val(S, "expr")), vlen(val(S, "expr")) < NMAX, C.end(val(S, "expr"), S["startExpr"]) <= vlen(val(S, "expr")))},
                      post=lambda S: {"the end of the expression": S.ret == C.end(val(S.pre, "expr"), S.pre["startExpr"])},
                      loops=[Loop(inv=ce_inv, dec=lambda S: vlen(val(S.pre, "expr")) - S["currTok"]), Loop(inv=ce_in, dec=lambda S: z3.If(S["parentExpr"] == 0, S.len(S["unexplored"]) + 1, 0))])

        # ---- reduceFormula
        RE, RK = C.walks("pending_end2", P, N1), C.keeps("pending_kept", P, N1)
        EMPTY = lambda: so.mkvec(Ty("std", "vector", (C.TOK,)), z3.K(I_, C.tok.constructor(0)(0, 0)), z3.IntVal(0))
        out = lambda S: (lambda x: X.read(S.st, x) if isinstance(x, Place) else x)(S["reducedExpr"])
        same = lambda S: S.st.ghost["kept"]

        def rest(S, h, p, w):
            v, d, st, o = val(S.pre, "expr"), S.pre["max_depth"], S.arr(S["unexplored"]), out(S)
            t = sel(st, h - 1)
            if w == 0: return z3.If(h == 0, p == vlen(v), RE(v, st, h - 1, C.kids(v, p, N1(t))) == vlen(v))
            return z3.If(h == 0, o == same(S), RK(v, d, st, h - 1, C.keepk(v, d, o, p, N1(t), h, F1(t)), C.kids(v, p, N1(t))) == same(S))

        def done(S, h, p, w):
            v, d, st, o = val(S.pre, "expr"), S.pre["max_depth"], S.arr(S["unexplored"]), out(S)
            return RE(v, st, h, p) == vlen(v) if w == 0 else RK(v, d, st, h, o, p) == same(S)

        def entries(S):
            st, h = S.arr(S["unexplored"]), S.len(S["unexplored"])
            return z3.And(h >= 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < h), z3.Or(N1(sel(st, i)) >= 1, vlen(val(S.pre, "expr")) == 1)), patterns=[sel(st, i)]))

        def rf_inv(S):
            v, p, h = val(S.pre, "expr"), S["currToken"], S.len(S["unexplored"])
            return {"position": z3.And(1 <= p, p <= vlen(v)), "a single symbol": z3.Implies(vlen(v) == 1, h <= 1), "pending": entries(S), "where what is pending ends": rest(S, h, p, 0), "what is kept, with what is pending": rest(S, h, p, 1)}

        def rf_up(S, p):
            v, q, h = val(S.pre, "expr"), S["parentExpr"], S.len(S["unexplored"])
            t = sel(S.arr(S["unexplored"]), h - 1)
            return {"pending": z3.And(entries(S), q >= 0, h <= S.len(S.loop_entry()["unexplored"])), "where what is pending ends": z3.If(q == 0, done(S, h, p, 0), z3.And(h > 0, N1(t) == q, z3.Not(F1(t)), rest(S, h, p, 0))),
                    "what is kept, with what is pending": z3.If(q == 0, done(S, h, p, 1), rest(S, h, p, 1))}

        # instances of the definitions, for what is done next
        def rf_hint(S):
            v, d, st, o, p, h = val(S.pre, "expr"), S.pre["max_depth"], S.arr(S["unexplored"]), out(S), S["currToken"], S.len(S["unexplored"])
            k, f = N1(sel(st, h - 1)), F1(sel(st, h - 1))
            nd, e = C.keepn(v, d, o, p, h), C.end(v, p)
            a = C.ar(v, p)
            S.st.assume(z3.And(z3.Implies(z3.And(k > 0, z3.Or(h < d, f)), C.keepk(v, d, o, p, k, h, f) == C.keepk(v, d, nd, e, k - 1, h, z3.BoolVal(False))),
                               nd == C.keepk(v, d, C.push(o, C.at(v, p)), p + 1, a, h + 1, C.isap(C.ID(C.at(v, p)))), e == C.kids(v, p + 1, a), z3.Implies(k > 0, C.kids(v, p, k) == C.kids(v, e, k - 1)),
                               z3.Implies(h > 0, z3.And(RE(v, st, h, e) == RE(v, st, h - 1, C.kids(v, e, k - 1)), RK(v, d, st, h, nd, e) == RK(v, d, st, h - 1, C.keepk(v, d, nd, e, k - 1, h, z3.BoolVal(False)), C.kids(v, e, k - 1))))))

        def up_hint(S, p):
            v, d, st, o, h = val(S.pre, "expr"), S.pre["max_depth"], S.arr(S["unexplored"]), out(S), S.len(S["unexplored"])
            k = N1(sel(st, h - 1))
            S.st.assume(z3.Implies(h > 0, z3.And(RE(v, st, h, p) == RE(v, st, h - 1, C.kids(v, p, k - 1)), RK(v, d, st, h, o, p) == RK(v, d, st, h - 1, C.keepk(v, d, o, p, k - 1, h, z3.BoolVal(False)), C.kids(v, p, k - 1)))))

        def rf_skip(S):
            L = S.loop_entry()
            v, k, n, p = val(S.pre, "expr"), S["i"], S["exprToComplete"], S["currToken"]
            h = S.len(S["unexplored"])
            return {"position": z3.And(1 <= k, k <= n + 1, p >= L["currToken"], C.kids(v, p, n - (k - 1)) == C.kids(v, L["currToken"], n)), "inside": z3.And(C.kids(v, p, n - (k - 1)) <= vlen(v))}
        red = lambda v, d: z3.If(z3.Or(vlen(v) == 0, d == 0), EMPTY(), C.keepn(v, d, EMPTY(), 0, 0))
        def rf_setup(S):
            v, d = val(S, "expr"), S["max_depth"]
            S.st.ghost["kept"] = C.keepn(v, d, EMPTY(), 0, 0)
        eqv = lambda a, b: z3.And(vlen(a) == vlen(b), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < vlen(a)), sel(varr(a), i) == sel(varr(b), i)), patterns=[sel(varr(b), i)]))
        code = lambda v: z3.And(vlen(v) < NMAX, vlen(v) >= 0, z3.Implies(vlen(v) > 0, C.end(v, 0) == vlen(v)))
        rf = Contract("SchemaEngine::reduceFormula", setup=rf_setup, pre=lambda S: {"a code": code(val(S, "expr")), "depth": S["max_depth"] >= 0},
                      post=lambda S: {"what is cut off is left out": eqv(S.ret, red(val(S.pre, "expr"), S.pre["max_depth"]))},
                      loops=[Loop(inv=rf_inv, dec=lambda S: (vlen(val(S.pre, "expr")) - S["currToken"], S.len(S["unexplored"])), bodyghost=rf_hint), Loop(inv=rf_skip, dec=lambda S: S["exprToComplete"] + 1 - S["i"]),
                             Loop(inv=lambda S: rf_up(S, S["currToken"]), dec=up_dec, bodyghost=lambda S: up_hint(S, S["currToken"])), Loop(inv=lambda S: rf_up(S, S["currToken"] + 1), dec=up_dec, bodyghost=lambda S: up_hint(S, S["currToken"] + 1))])

        return [ce, mng, ia, rf]

    # ---- decodeFormula: the nodes of the result are numbered in the order in which they are made (node 0 is the root)
    ANY = z3.ArraySort(I_, STR)
    AII = z3.ArraySort(I_, I_)
    D = z3.Datatype("Drawn")
    D.declare("drawn", ("at", I_), ("vars", I_), ("cnt", I_), ("par", AII), ("tag", ANY), ("txt", ANY))
    D = D.create()
    sto = z3.Store
    tostr = lib.fn("to_string", I_, STR)
    appd = z3.Function("text_added", STR, STR, STR)
    none = lit("")
    q1 = lambda s, m: D.drawn(D.at(s), D.vars(s) + 1, D.cnt(s) + 1, sto(D.par(s), D.cnt(s), m), sto(D.tag(s), D.cnt(s), lit("mws:qvar")), sto(D.txt(s), D.cnt(s), appd(none, lib.sconcat(lit("x"), tostr(D.vars(s))))))
    n1 = lambda v, s, m: D.drawn(D.at(s) + 1, D.vars(s), D.cnt(s) + 1, sto(D.par(s), D.cnt(s), m), sto(D.tag(s), D.cnt(s), tagof(name_of(C.ID(C.at(v, D.at(s)))))),
                                 sto(D.txt(s), D.cnt(s), appd(none, textof(name_of(C.ID(C.at(v, D.at(s))))))))
    drawn, drawk, drawq = z3.Function("draw_node", VS, I_, D, I_, I_, D), z3.Function("draw_kids", VS, I_, D, I_, I_, I_, B_, D), z3.Function("draw_vars", D, I_, I_, D)
    v, s, m, n, L, d, f, A, j, x, y = z3.Const("dv", VS), z3.Const("ds", D), *z3.Ints("dm dn dL dd"), z3.Bool("df"), z3.Const("dA", AII), *z3.Ints("dj dx dy")
    X.axioms += [z3.ForAll([s, m, n], z3.Implies(n <= 0, drawq(s, m, n) == s), patterns=[drawq(s, m, n)]),
                 z3.ForAll([s, m, n], z3.Implies(n > 0, drawq(s, m, n) == drawq(q1(s, m), m, n - 1)), patterns=[z3.MultiPattern(drawq(s, m, n), D.is_drawn(s))]),
                 z3.ForAll([v, d, s, m, L], drawn(v, d, s, m, L) == drawk(v, d, n1(v, s, m), D.cnt(s), C.ar(v, D.at(s)), L + 1, C.isap(C.ID(C.at(v, D.at(s))))), patterns=[z3.MultiPattern(drawn(v, d, s, m, L), C.at(v, D.at(s)))]),
                 z3.ForAll([v, d, s, m, n, L, f], z3.Implies(n <= 0, drawk(v, d, s, m, n, L, f) == s), patterns=[drawk(v, d, s, m, n, L, f)]),
                 z3.ForAll([v, d, s, m, n, L, f], z3.Implies(z3.And(n > 0, L >= d, z3.Not(f)), drawk(v, d, s, m, n, L, f) == drawq(s, m, n)), patterns=[drawk(v, d, s, m, n, L, f)]),
                 z3.ForAll([v, d, s, m, n, L, f], z3.Implies(z3.And(n > 0, z3.Or(L < d, f)), drawk(v, d, s, m, n, L, f) == drawk(v, d, drawn(v, d, s, m, L), m, n - 1, L, z3.BoolVal(False))), patterns=[z3.MultiPattern(drawk(v, d, s, m, n, L, f), C.at(v, D.at(s)))])]
    # reading goes forward
    s0, m0, n0, L0, d0, v0, f0 = z3.Const("ds0", D), *z3.Ints("dm0 dn0 dL0 dd0"), z3.Const("dv0", VS), z3.Bool("df0")
    qfacts = lambda s, t, n: z3.And(D.at(t) == D.at(s), D.vars(t) == D.vars(s) + z3.If(n > 0, n, 0))
    on = lambda s, t: z3.And(D.at(t) >= D.at(s), D.vars(t) >= D.vars(s))
    X.lemma("variables read nothing, step", z3.Implies(z3.And(z3.Implies(n0 <= 0, drawq(s0, m0, n0) == s0), z3.Implies(n0 > 0, drawq(s0, m0, n0) == drawq(q1(s0, m0), m0, n0 - 1)), z3.ForAll([s, m], z3.Implies(n0 > 0, qfacts(s, drawq(s, m, n0 - 1), n0 - 1)), patterns=[drawq(s, m, n0 - 1)])),
                                                       qfacts(s0, drawq(s0, m0, n0), n0)))
    X.axioms.append(z3.ForAll([s, m, n], qfacts(s, drawq(s, m, n), n), patterns=[drawq(s, m, n)]))
    left = lambda s: z3.If(D.at(s) < vlen(v0), vlen(v0) - D.at(s), 0)
    hyp = z3.ForAll([s, m, n, L, f], z3.Implies(z3.And(D.at(s) >= 0, z3.Or(left(s) < left(s0), z3.And(left(s) == left(s0), n < n0))), on(s, drawk(v0, d0, s, m, n, L, f))), patterns=[drawk(v0, d0, s, m, n, L, f)])
    kid = drawn(v0, d0, s0, m0, L0)
    kdef = z3.And(kid == drawk(v0, d0, n1(v0, s0, m0), D.cnt(s0), C.ar(v0, D.at(s0)), L0 + 1, C.isap(C.ID(C.at(v0, D.at(s0))))),
                  z3.Implies(z3.And(n0 > 0, z3.Or(L0 < d0, f0)), drawk(v0, d0, s0, m0, n0, L0, f0) == drawk(v0, d0, kid, m0, n0 - 1, L0, z3.BoolVal(False))))
    X.lemma("reading goes forward, step", z3.Implies(z3.And(D.at(s0) >= 0, vlen(v0) >= 0, hyp, kdef), on(s0, drawk(v0, d0, s0, m0, n0, L0, f0))))
    X.axioms += [z3.ForAll([v, d, s, m, n, L, f], z3.Implies(z3.And(D.at(s) >= 0, vlen(v) >= 0), on(s, drawk(v, d, s, m, n, L, f))), patterns=[drawk(v, d, s, m, n, L, f)])]
    X.lemma("what is not left out is read", z3.Implies(z3.And(D.at(s0) >= 0, vlen(v0) >= 0, kdef, n0 > 0, z3.Or(L0 < d0, f0)), D.at(drawk(v0, d0, s0, m0, n0, L0, f0)) > D.at(s0)))
    X.axioms += [z3.ForAll([v, d, s, m, n, L, f], z3.Implies(z3.And(D.at(s) >= 0, vlen(v) >= 0, n > 0, z3.Or(L < d, f)), D.at(drawk(v, d, s, m, n, L, f)) > D.at(s)), patterns=[drawk(v, d, s, m, n, L, f)])]
    # everything that is pending
    PA = z3.ArraySort(I_, P)
    PD = z3.Function("pending_drawn", VS, I_, PA, AII, I_, D, D)
    S_, e_ = z3.Const("dS", PA), z3.Const("de", P)
    nxt = lambda v, d, S_, A, j, s: PD(v, d, S_, A, j - 1, drawk(v, d, s, sel(A, j - 1), N1(sel(S_, j - 1)) - 1, j, z3.BoolVal(False)))
    X.axioms += [z3.ForAll([v, d, S_, A, j, s], z3.Implies(j <= 0, PD(v, d, S_, A, j, s) == s), patterns=[PD(v, d, S_, A, j, s)]),
                 z3.ForAll([v, d, S_, A, j, s], z3.Implies(j > 0, PD(v, d, S_, A, j, s) == nxt(v, d, S_, A, j, s)), patterns=[z3.MultiPattern(PD(v, d, S_, A, j, s), sel(S_, j - 1))])]
    S0, A0, j0, x0, y0, e0 = z3.Const("dS0", PA), z3.Const("dA0", AII), *z3.Ints("dj0 dx0 dy0"), z3.Const("de0", P)
    unf = lambda T, A: z3.Implies(j0 > 0, PD(v0, d0, T, A, j0, s0) == nxt(v0, d0, T, A, j0, s0))
    for nm, T, A_ in (("arguments", sto(S0, x0, e0), A0), ("nodes", S0, sto(A0, x0, y0))):
        X.lemma("pending %s above do not matter, step" % nm, z3.Implies(z3.And(x0 >= j0, unf(S0, A0), unf(T, A_), z3.ForAll([s], z3.Implies(j0 > 0, PD(v0, d0, T, A_, j0 - 1, s) == PD(v0, d0, S0, A0, j0 - 1, s)), patterns=[PD(v0, d0, T, A_, j0 - 1, s)])),
                                                                        PD(v0, d0, T, A_, j0, s0) == PD(v0, d0, S0, A0, j0, s0)))
    X.axioms += [z3.ForAll([v, d, S_, A, j, s, x, e_], z3.Implies(x >= j, PD(v, d, sto(S_, x, e_), A, j, s) == PD(v, d, S_, A, j, s)), patterns=[PD(v, d, sto(S_, x, e_), A, j, s)]),
                 z3.ForAll([v, d, S_, A, j, s, x, y], z3.Implies(x >= j, PD(v, d, S_, sto(A, x, y), j, s) == PD(v, d, S_, A, j, s)), patterns=[PD(v, d, S_, sto(A, x, y), j, s)])]
    X.lemma("reading what is pending goes forward, step", z3.Implies(z3.And(D.at(s0) >= 0, vlen(v0) >= 0, unf(S0, A0), z3.ForAll([s], z3.Implies(z3.And(D.at(s) >= 0, j0 > 0), on(s, PD(v0, d0, S0, A0, j0 - 1, s))), patterns=[PD(v0, d0, S0, A0, j0 - 1, s)])),
                                                                     on(s0, PD(v0, d0, S0, A0, j0, s0))))
    X.axioms.append(z3.ForAll([v, d, S_, A, j, s], z3.Implies(z3.And(D.at(s) >= 0, vlen(v) >= 0), on(s, PD(v, d, S_, A, j, s))), patterns=[PD(v, d, S_, A, j, s)]))
    NG = ("nodes", "parents", "tags", "texts")
    G = lambda S, g: S.st.ghost[g]

    def m_new(X_, st, this, args, fr, nn):
        g = st.ghost
        par = z3.IntVal(-1) if this is None else node(st, this)
        if this is None: X.check(st, g["nodes"] == 0, "one root", nn)
        g["parents"], g["tags"], g["texts"] = sto(g["parents"], g["nodes"], par), sto(g["tags"], g["nodes"], none), sto(g["texts"], g["nodes"], none)
        g["nodes"] = g["nodes"] + 1
        for k in NG: st.wrote(("ghost", k))
        return [(st, g["nodes"])]

    def node(st, p):
        p = p.root[2] if isinstance(p, Place) and p.root[0] == "H" else X.rv(st, p)
        X.check(st, z3.And(p > 0, p <= st.ghost["nodes"]), "a node of the tree", None)
        return p - 1

    def m_tag(X_, st, this, args, fr, nn):
        k = node(st, this)
        st.ghost["tags"] = sto(st.ghost["tags"], k, lib.str_of(st, args[0]))
        st.wrote(("ghost", "tags"))
        return [(st, VOID)]

    def m_text(X_, st, this, args, fr, nn):
        k = node(st, this)
        st.ghost["texts"] = sto(st.ghost["texts"], k, appd(sel(st.ghost["texts"], k), lib.str_of(st, args[0])))
        st.wrote(("ghost", "texts"))
        return [(st, VOID)]
    for nm, mm in [("newRoot", m_new), ("newChildNode", m_new), ("setTag", m_tag), ("appendTextContent", m_text)]:
        X.models["mws::types::CmmlToken::" + nm] = mm
    X.models["mws::types::CmmlToken::getParentNode"] = lambda X_, st, this, args, fr, nn: (lambda k: [(st, sel(st.ghost["parents"], k) + 1)])(node(st, this))
    X.models["mws::types::CmmlToken::isRoot"] = lambda X_, st, this, args, fr, nn: (lambda k: [(st, k == 0)])(node(st, this))
    start = lambda S: D.drawn(0, 1, 0, *(S.st.ghost["_" + g] for g in NG[1:]))
    want = lambda S: drawn(val(S.pre, "expr"), S.pre["max_depth"], start(S), -1, 0)
    now = lambda S, q: D.drawn(S["currTok"] if not q else q(S), S["qvar_count"], G(S, "nodes"), G(S, "parents"), G(S, "tags"), G(S, "texts"))

    def df_setup(S):
        g = S.st.ghost
        for k, so_ in zip(NG[1:], (AII, ANY, ANY)):
            g["_" + k] = g[k] = z3.Const("first_" + k, so_)
        g["nodes"], g["anc"] = z3.IntVal(0), z3.Const("anc0", AII)

    def df_pre(S):
        e, dd = val(S, "expr"), S["max_depth"]
        return {"a code cut off at that depth": z3.And(vlen(e) < NMAX, z3.Implies(vlen(e) > 0, D.at(drawn(e, dd, start(S), -1, 0)) == vlen(e))), "few variables": D.vars(drawn(e, dd, start(S), -1, 0)) < 1 << 32, "depth": z3.Or(dd >= 1, vlen(e) == 0)}

    def df_post(S):
        e = val(S.pre, "expr")
        fin = want(S)
        one = D.drawn(0, 1, 1, sto(G(S, "_parents"), 0, -1), sto(G(S, "_tags"), 0, lit("mws:qvar")), sto(G(S, "_texts"), 0, appd(none, lit("x0"))))
        fin = z3.If(vlen(e) == 0, one, fin)
        return {"the root": S.ret == 1, "as many nodes": G(S, "nodes") == D.cnt(fin), "where they are": G(S, "parents") == D.par(fin), "what they are": G(S, "tags") == D.tag(fin), "what they say": G(S, "texts") == D.txt(fin)}

    def df_rest(S, q=None):
        e, dd, h, st, A = val(S.pre, "expr"), S.pre["max_depth"], S.len(S["unexplored"]), S.arr(S["unexplored"]), G(S, "anc")
        t = sel(st, h - 1)
        cur = S["currCmml"] - 1
        return z3.If(h == 0, now(S, q) == want(S), PD(e, dd, st, A, h - 1, drawk(e, dd, now(S, q), cur, N1(t), h, F1(t))) == want(S))

    def df_nodes(S, top):
        """the nodes whose arguments are pending: each is the parent of the next"""
        h, A, par, cnt = S.len(S["unexplored"]), G(S, "anc"), G(S, "parents"), G(S, "nodes")
        hi = h if top is None else h - 1
        c = S["currCmml"] - 1
        o = z3.And(0 <= c, c < cnt, z3.ForAll([j], z3.Implies(z3.And(1 <= j, j < hi), sel(par, sel(A, j)) == sel(A, j - 1)), patterns=[sel(A, j)]),
                   z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < hi), z3.And(0 <= sel(A, j), sel(A, j) < cnt)), patterns=[sel(A, j)]),
                   z3.Implies(hi >= 1, sel(A, 0) == 0), z3.If(hi >= 1, sel(par, c) == sel(A, hi - 1), c == 0))
        return o
    def df_entries(S):
        st, h = S.arr(S["unexplored"]), S.len(S["unexplored"])
        return z3.And(h >= 0, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < h), N1(sel(st, j)) >= 1), patterns=[sel(st, j)]))

    def df_inv(S):
        e, h = val(S.pre, "expr"), S.len(S["unexplored"])
        return {"position": z3.And(1 <= S["currTok"], S["currTok"] <= vlen(e)), "something is pending": h > 0, "variables": S["qvar_count"] >= 1,
                "pending": df_entries(S), "nodes": df_nodes(S, True), "what is there with what is pending": df_rest(S)}

    def df_in(S):
        L = S.loop_entry()
        e, dd, cur = val(S.pre, "expr"), S.pre["max_depth"], S["currCmml"] - 1
        return {"variables for what is left out": z3.And(S["i"] >= 1, S["i"] <= S["anonExprs"] + 1, cur == L["currCmml"] - 1, drawq(now(S, None), cur, S["anonExprs"] - (S["i"] - 1)) == drawq(now(L, None), cur, S["anonExprs"])),
                "parents are as before": z3.And(G(S, "nodes") >= G(L, "nodes"), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < G(L, "nodes")), sel(G(S, "parents"), j) == sel(G(L, "parents"), j)), patterns=[sel(G(S, "parents"), j)]))}

    def df_up(S, q):
        h, st, p = S.len(S["unexplored"]), S.arr(S["unexplored"]), S["parentExpr"]
        t = sel(st, h - 1)
        e, dd, A = val(S.pre, "expr"), S.pre["max_depth"], G(S, "anc")
        c = S["currCmml"] - 1
        return {"pending": z3.And(df_entries(S), p >= 0, h <= S.len(S.loop_entry()["unexplored"])), "nodes": z3.If(p == 0, df_nodes(S, None), df_nodes(S, True)),
                "what is there with what is pending": z3.If(p == 0, PD(e, dd, st, A, h, now(S, q)) == want(S), z3.And(h > 0, N1(t) == p, z3.Not(F1(t)), df_rest(S, q)))}

    def df_body(S):
        e, dd, h, st, c, t = val(S.pre, "expr"), S.pre["max_depth"], S.len(S["unexplored"]), S.arr(S["unexplored"]), S["currCmml"] - 1, now(S, None)
        k, f_ = N1(sel(st, h - 1)), F1(sel(st, h - 1))
        nd = drawn(e, dd, t, c, h)
        S.st.assume(z3.And(z3.Implies(z3.And(k > 0, z3.Or(h < dd, f_)), drawk(e, dd, t, c, k, h, f_) == drawk(e, dd, nd, c, k - 1, h, z3.BoolVal(False))),      # instances of the definitions
                           nd == drawk(e, dd, n1(e, t, c), G(S, "nodes"), C.ar(e, S["currTok"]), h + 1, C.isap(C.ID(C.at(e, S["currTok"]))))))
        A2 = S.st.ghost["anc"] = sto(S.st.ghost["anc"], S.len(S["unexplored"]) - 1, S["currCmml"] - 1)
        S.st.assume(z3.Implies(h > 0, PD(e, dd, st, A2, h, nd) == PD(e, dd, st, A2, h - 1, drawk(e, dd, nd, c, k - 1, h, z3.BoolVal(False)))))
        S.st.wrote(("ghost", "anc"))
    def q_body(S):
        t, c, k = now(S, None), S["currCmml"] - 1, S["anonExprs"] - (S["i"] - 1)
        S.st.assume(z3.Implies(k > 0, drawq(t, c, k) == drawq(q1(t, c), c, k - 1)))      # an instance of the definition
    up = Loop(inv=lambda S: df_up(S, None), dec=up_dec)
    up2 = Loop(inv=lambda S: df_up(S, lambda S: S["currTok"] + 1), dec=up_dec)
    vars_ = Loop(inv=df_in, dec=lambda S: S["anonExprs"] + 1 - S["i"], ghost=NG, bodyghost=q_body)
    def df_last(S):
        o = dict(df_inv(S))
        del o["something is pending"]
        o["everything is read"] = S["currTok"] == vlen(val(S.pre, "expr"))
        return o
    df = Contract("SchemaEngine::decodeFormula", setup=df_setup, pre=df_pre, post=df_post, mods=lambda S: [("ghost", g) for g in NG + ("anc",)],
                  loops=[Loop(inv=df_inv, dec=lambda S: (vlen(val(S.pre, "expr")) - S["currTok"], S.len(S["unexplored"])), bodyghost=df_body, ghost=NG + ("anc",)), vars_, up, up2, Loop(inv=df_last, dec=lambda S: S.len(S["unexplored"]), bodyghost=df_body, ghost=NG + ("anc",)), vars_, up])
    dm = Contract("SchemaEngine::decodeMeaning", trusted=True, verify=False, post=lambda S: {"tag": P2(S.ret, 0) == tagof(val(S.pre, "meaning")), "text": P2(S.ret, 1) == textof(val(S.pre, "meaning"))})
    SPT = Ty("std", "pair", (Ty("std", "string"), Ty("std", "string")))
    SP = so.of(SPT)
    P2 = lambda r, k: SP.accessor(0, k)(so.to_z3(r, SPT))
    return [mng, ia, dm, df]


def contracts(X):
    return make(X, "cut")
