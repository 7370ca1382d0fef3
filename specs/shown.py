"""The text of an expression tree (CmmlToken::toString): its elements, attributes and texts, with the characters that have a meaning in XML escaped."""
import z3
from sx import *
from cast import I, Ty
TU = '''
#include "mws/types/CmmlToken.cpp"
'''
HEAP = ["CmmlToken"]


def contracts(X):
    so, lib = X.so, X.lib
    I_, sel = z3.IntSort(), z3.Select
    STR = lib.strlit("x").sort()
    T = lambda S, f: S.heap("CmmlToken", f)
    vlen, varr = so.vec_len, so.vec_arr
    lit = lib.strlit
    schar, srep = lib.fn("schar", I_, STR), lib.fn("srep", I_, I_, STR)
    shown, attrsf, kidsf, esc = z3.Function("shown", I_, I_, STR), z3.Function("attrs_shown", STR, I_, I_, STR), z3.Function("kids_shown", STR, I_, I_, I_, STR), z3.Function("escaped", STR, I_, STR)
    s, i, r, d, b = z3.Const("es", STR), z3.Int("ei"), z3.Int("er"), z3.Int("ed"), z3.Const("eb", STR)
    rep = lambda c: z3.If(c == 38, lit("&amp;"), z3.If(c == 60, lit("&lt;"), z3.If(c == 62, lit("&gt;"), z3.If(c == 34, lit("&quot;"), schar(c)))))
    X.axioms += [z3.ForAll([s], esc(s, 0) == lit(""), patterns=[esc(s, 0)]),
                 z3.ForAll([s, i], z3.Implies(i >= 0, esc(s, i + 1) == lib.sconcat(esc(s, i), rep(lib.sat(s, i)))), patterns=[z3.MultiPattern(esc(s, i), lib.sat(s, i))])]
    E = lambda v: esc(v, lib.slen(v))

    def cat(*p):
        o = lit("")
        for x in p:
            o = lib.cat_nf(o, lit(x) if isinstance(x, str) else x)
        return o
    ref = lambda S: S.this.root[2]
    sv = lambda S, n: (lambda v: X.read(S.st, v) if isinstance(v, Place) else v.s if isinstance(v, CStr) else v)(S[n])
    xe = Contract("xmlEscape", post=lambda S: {"every character, escaped where it has a meaning in XML": S.ret == E(sv(S.pre, "text"))},
                  loops=[Loop(inv=lambda S: {"position": z3.And(0 <= S.k, S.k <= lib.slen(sv(S, "text"))), "the characters so far": S.z("escaped") == esc(sv(S, "text"), S.k)})])
    lens = lambda S: z3.ForAll([r], vlen(sel(T(S, "_childNodes"), r)) >= 0, patterns=[sel(T(S, "_childNodes"), r)])
    arr = lambda v, k: sel(varr(v), k)
    k = z3.Int("ek")
    ht = z3.Function("height", I_, I_)
    nodes = lambda S: z3.ForAll([r, k], z3.Implies(z3.And(r > 0, 0 <= k, k < vlen(sel(T(S, "_childNodes"), r))), z3.And(arr(sel(T(S, "_childNodes"), r), k) > 0, ht(arr(sel(T(S, "_childNodes"), r), k)) >= 0, ht(arr(sel(T(S, "_childNodes"), r), k)) < ht(r))), patterns=[arr(sel(T(S, "_childNodes"), r), k)])

    def setup(S):
        st = S.st
        tag, txt, at, ch = (T(S, f) for f in ("_tag", "_textContent", "_attributes", "_childNodes"))
        dom, val = lambda r: so.map_dom(sel(at, r)), lambda r: so.map_val(sel(at, r))
        mkey, mpos, mcard = lib.map_fns(dom(r))
        key = lambda r, j: mkey(dom(r), j)
        head = lambda r, d: attrsf(cat(srep(d, 32), "<", sel(tag, r), " "), r, mcard(dom(r)))
        body = lambda r, d: cat(head(r, d), ">", E(sel(txt, r)))
        n = lambda r: vlen(sel(ch, r))
        full = lambda r, d: z3.If(n(r) == 0, cat(body(r, d), "</", sel(tag, r), ">\n"), cat(kidsf(cat(body(r, d), "\n"), r, d, n(r)), srep(d, 32), "</", sel(tag, r), ">\n"))
        st.assume(z3.ForAll([r, d], shown(r, d) == full(r, d), patterns=[shown(r, d)]))
        st.assume(z3.ForAll([b, r], attrsf(b, r, 0) == b, patterns=[attrsf(b, r, 0)]))
        st.assume(z3.ForAll([b, r, i], z3.Implies(i >= 0, attrsf(b, r, i + 1) == cat(attrsf(b, r, i), key(r, i), "=\"", E(sel(val(r), key(r, i))), "\" ")), patterns=[z3.MultiPattern(attrsf(b, r, i), key(r, i))]))
        st.assume(z3.ForAll([b, r, d], kidsf(b, r, d, 0) == b, patterns=[kidsf(b, r, d, 0)]))
        st.assume(z3.ForAll([b, r, d, i], z3.Implies(i >= 0, kidsf(b, r, d, i + 1) == cat(kidsf(b, r, d, i), shown(arr(sel(ch, r), i), d + 2))), patterns=[z3.MultiPattern(kidsf(b, r, d, i), arr(sel(ch, r), i))]))
    at = lambda S: sel(T(S, "_attributes"), ref(S))
    ts = Contract("CmmlToken::toString", setup=setup, pre=lambda S: {"indentation": z3.And(S["indent"] >= 0, ht(ref(S)) >= 0, S["indent"] + 2 * ht(ref(S)) < 1 << 31), "children are there": nodes(S), "lists": lens(S), "a node": ref(S) > 0},
                  post=lambda S: {"the text of the node": S.ret == shown(ref(S), S.pre["indent"])},
                  loops=[Loop(inv=lambda S: {"position": z3.And(0 <= S.k, S.k <= lib.card(S.st, so.map_dom(at(S)))), "the attributes so far": S.z("ss") == attrsf(S.loop_entry().z("ss"), ref(S), S.k)}),
                         Loop(inv=lambda S: {"position": z3.And(0 <= S.k, S.k <= vlen(sel(T(S, "_childNodes"), ref(S)))), "the children so far": S.z("ss") == kidsf(S.loop_entry().z("ss"), ref(S), S["indent"], S.k)})])
    return [xe, ts]
