"""Boolean option values (getBoolType.cpp)."""
import z3
from sx import *
from cast import I, Ty
TU = '#include "common/utils/getBoolType.cpp"\n'
HEAP = []


def contracts(X):
    lib = X.lib
    i = z3.Int("bi")
    low = lambda c: z3.If(z3.And(c >= 65, c <= 90), c + 32, c)
    same = lambda s, v: z3.And(lib.slen(s) == len(v), *[low(lib.sat(s, z3.IntVal(k))) == ord(c) for k, c in enumerate(v)])
    at = lambda s, k: lib.sat(s, k)

    # strings are equal if their characters are
    t = z3.Const("bt", lib.strlit("x").sort())
    for v in ("yes", "1", "no", "0"):
        X.axioms.append(z3.ForAll([t], z3.Implies(z3.And(lib.slen(t) == len(v), *[lib.sat(t, z3.IntVal(k)) == ord(c) for k, c in enumerate(v)]), t == lib.strlit(v)), patterns=[lib.slen(t)]))

    def inv(S):
        s, o, n = S.z("str"), S.pre.z("str"), S["i"]
        return {"position": z3.And(0 <= n, n <= lib.slen(s), lib.slen(s) == lib.slen(o)),
                "lower case so far": z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < lib.slen(s)), at(s, i) == z3.If(i < n, low(at(o, i)), at(o, i))), patterns=[at(s, i)])}

    def post(S):
        o = S.pre.z("str")
        yes, no = z3.Or(same(o, "yes"), same(o, "1")), z3.Or(same(o, "no"), same(o, "0"))
        return {"yes, no, or neither": S.ret == z3.If(yes, 1, z3.If(no, 2, 0))}
    def inv2(S):
        s = S.z("str")
        return {"position": z3.And(0 <= S["i"], S["i"] <= 4), "none of the values before": z3.And([z3.Implies(k < S["i"], s != lib.strlit(v)) for k, v in enumerate(("yes", "1", "no", "0"))]), "nothing found": S["result"] == 0}
    return [Contract("getBoolType", pre=lambda S: {"a C string": z3.And(lib.slen(S.z("str")) < (1 << 30), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < lib.slen(S.z("str"))), at(S.z("str"), i) != 0), patterns=[at(S.z("str"), i)]))},
                     post=post, loops=[Loop(inv=inv, dec=lambda S: lib.slen(S.z("str")) - S["i"]), Loop(inv=inv2, dec=lambda S: 4 - S["i"])])]
