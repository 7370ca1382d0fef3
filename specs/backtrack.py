"""Choice points of a search (SearchContext.cpp: QvarCtxt, RangeCtxt)."""
import z3
from sx import *
import itr
from itr import Sub, IA, ITrie, TU
HEAP = ["inode_s", "inode_long_s", "ExpressionDecoder", "ContainerIterator"]


def contracts(X):
    T = ITrie(X)
    cs = itr.contracts(X, T)
    for c in cs:
        c.verify = False
    so, lib = X.so, X.lib
    CI = X.u.tt.parse("common::utils::ContainerIterator<mws::index::IndexAccessor::_Iterator>")
    X.heap_spec = {"ContainerIterator": CI}
    I_ = z3.IntSort()
    it = lambda S: Sub(S, "iterator")
    H = X.itr
    m_of = lambda S: H["P"](it(S))[0]

    # ------------------------------------------------------------------ variables
    def clean(S):
        return {"nothing enumerated yet": z3.And(m_of(S) == 0)}

    def qsolve_pre(S):
        return {"nothing enumerated yet": m_of(S) == 0, "a node with an open expression": z3.And(S["root"] > 0, T.pend(S["root"]) > 0)}

    def end(S):
        m, nd, ix, en, ei, a = H["P"](it(S))
        return z3.If(m > 0, T.cnode(nd(m - 1), ix(m - 1)), 0)

    def state(S):
        o = H["good"](it(S))
        o["solved exactly while a term is selected"] = S.fld("isSolved") == (m_of(S) > 0)
        o["a selected term is complete"] = z3.Implies(m_of(S) > 0, S.fld("iterator", "_arity") == 0)
        return o

    def qsolve_post(S):
        m, nd, ix, en, ei, a = H["P"](it(S))
        j = z3.Int("j")
        o = dict(state(S))
        o["rooted where it was asked to"] = S.fld("iterator", "_root") == S.pre["root"]
        o["null exactly when there is no term"] = (S.ret == 0) == (m == 0)
        o["the node behind the selected term"] = z3.Implies(S.ret != 0, S.ret == end(S))
        o["the first term"] = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), ix(j) == 0), patterns=[z3.Select(a, j)])
        return o
    mods = lambda S: [S.fp(S.this, "iterator"), S.fp(S.this, "isSolved"), ("ghost", "d")]

    def qpre(S):
        o = qsolve_pre(S)
        o["not solved"] = z3.Not(S.fld("isSolved"))
        return o
    qsolve = Contract("QvarCtxt::solve", rec=IA, setup=H["setup"], pre=qpre, post=qsolve_post, mods=mods)

    def qnext_post(S):
        o = H["post"](it(S))
        for k, v in state(S).items():
            o[k] = v
        return o

    def qnext_pre(S):
        o = dict(state(S))
        o["a term is selected"] = S.fld("isSolved")
        return o
    qnext = Contract("QvarCtxt::nextSol", rec=IA, setup=H["setup"], pre=qnext_pre, post=qnext_post, mods=mods)

    # ------------------------------------------------------------------ number ranges
    MEAN = z3.Function("MEANING_OF", I_, I_, lib.strlit("").sort())
    OK = lib.fn("STOD_OK", lib.strlit("").sort(), z3.BoolSort())
    NUM = lib.fn("STOD", lib.strlit("").sort(), z3.RealSort())
    gmean = Contract("ExpressionDecoder::getMeaning", trusted=True, verify=False, post=lambda S: {"name of the symbol": S.ret == MEAN(ref(S.pre), S.pre["meaningId"])})

    def ref(S):
        return S.this.root[2]

    def isnum(S, tok):
        s = MEAN(S.fld("decoder"), T.idf(tok))
        return z3.And(T.ar(tok) == 0, lib.slen(s) >= 3, *[lib.sat(s, z3.IntVal(q)) == ord("cn#"[q]) for q in range(3)])

    def value(S, tok):
        s = MEAN(S.fld("decoder"), T.idf(tok))
        return lib.ssub(s, z3.IntVal(3), lib.slen(s) - 3, S.st)

    def inr(S, tok):
        v = value(S, tok)
        b = S.fld("bounds")
        lo, hi = itr.rec_get(X, b, ["first"]), itr.rec_get(X, b, ["second"])
        return z3.And(OK(v), lo <= NUM(v), NUM(v) <= hi)
    tokS = lambda S: S.pre.z("tok")
    isn = Contract("RangeCtxt::isCmmlNumber", rec=IA, pre=lambda S: {"a decoder": S.fld("decoder") > 0},
                   post=lambda S: {"exactly for cn elements": S.ret == isnum(S.pre, tokS(S))})
    isr = Contract("RangeCtxt::isInRange", rec=IA, pre=lambda S: {"a decoder": S.fld("decoder") > 0, "a number": isnum(S, S.z("tok"))},
                   post=lambda S: {"exactly when the number lies between the bounds": S.ret == inr(S.pre, tokS(S))})
    val = Contract("RangeCtxt::validSubst", rec=IA, pre=lambda S: {"a decoder": S.fld("decoder") > 0},
                   post=lambda S: {"a number between the bounds": S.ret == z3.And(isnum(S.pre, tokS(S)), inr(S.pre, tokS(S)))})
    VALID = lambda S, t: z3.And(isnum(S, t), inr(S, t))
    q = z3.Int("q")

    def cur(S, nm="iterator"):
        r = S.fld("iterator")
        p = Place(("H", "ContainerIterator", r), (), CI)
        return r, S.rd(p, "_current", "_node"), S.rd(p, "_current", "_index"), S.rd(p, "_end", "_node"), S.rd(p, "_end", "_index")

    def rgood(S, root):
        r, nd, ix, en, ei = cur(S)
        return {"iterates over the children of the node": z3.And(r > 0, z3.Select(S.alloc, r), root > 0, nd == root, en == root, ei == T.nch(root), 0 <= ix, ix < T.nch(root))}

    def V(S, Sp, root, lo, hi):
        """no child at positions lo..hi-1 is a number in the range"""
        return z3.ForAll([q], z3.Implies(z3.And(lo <= q, q < hi), z3.Not(VALIDF(Sp, root, q))), patterns=[T.ctok(root, q)])

    def VALIDF(Sp, root, i):
        s = MEAN(Sp.fld("decoder"), T.idf(T.ctok(root, i)))
        v = lib.fn("ssub", s.sort(), I_, I_, s.sort())(s, z3.IntVal(3), lib.slen(s) - 3)
        b = Sp.fld("bounds")
        lo, hi = itr.rec_get(X, b, ["first"]), itr.rec_get(X, b, ["second"])
        return z3.And(T.ar(T.ctok(root, i)) == 0, lib.slen(s) >= 3, *[lib.sat(s, z3.IntVal(k)) == ord("cn#"[k]) for k in range(3)], OK(v), lo <= NUM(v), NUM(v) <= hi)

    def rinv(first):
        def inv(S):
            r, nd, ix, en, ei = cur(S)
            root = S.pre["root"] if first else S.pre.fld("root")
            start = z3.IntVal(0) if first else cur(S.pre)[2] + 1
            o = rgood(S, root)
            o["token at hand"] = S.z("tok") == T.ctok(root, ix)
            o["no number in the range passed over"] = V(S, S.pre, root, start, ix)
            o["moves forward"] = ix >= start
            o["decoder kept"] = z3.And(S.fld("decoder") == S.pre.fld("decoder"), z3.BoolVal(True))
            return o
        return inv

    def rpost(first):
        def post(S):
            r, nd, ix, en, ei = cur(S)
            root = S.pre["root"] if first else S.pre.fld("root")
            start = z3.IntVal(0) if first else cur(S.pre)[2] + 1
            o = {"solved exactly when a node is returned": S.fld("isSolved") == (S.ret != 0),
                 "root": S.fld("root") == root}
            o["otherwise no further child is a number in the range"] = z3.Implies(S.ret == 0, V(S, S.pre, root, start, T.nch(root)))
            o["the next child that is a number in the range"] = z3.Implies(S.ret != 0, z3.And(
                *rgood(S, root).values(), ix >= start, S.ret == T.cnode(root, ix), VALIDF(S.pre, root, ix), V(S, S.pre, root, start, ix)))
            return o
        return post
    rmods = lambda S: [S.fp(S.this, "iterator"), S.fp(S.this, "isSolved"), S.fp(S.this, "index"), S.fp(S.this, "root"), ("heap", "ContainerIterator", "_current"), ("heap", "ContainerIterator", "_end")]
    rsolve = Contract("RangeCtxt::solve", rec=IA, pre=lambda S: {"a decoder": S.fld("decoder") > 0, "a node": S["root"] > 0}, post=rpost(True), mods=rmods, loops=[Loop(inv=rinv(True), dec=lambda S: T.nch(S.pre["root"]) - cur(S)[2])])
    rnext = Contract("RangeCtxt::nextSol", rec=IA, pre=lambda S: dict(rgood(S, S.fld("root")), **{"a decoder": S.fld("decoder") > 0}), post=rpost(False), mods=rmods, loops=[Loop(inv=rinv(False), dec=lambda S: T.nch(S.pre.fld("root")) - cur(S)[2])])
    return cs + [qsolve, qnext, gmean, isn, isr, val, rsolve, rnext]
