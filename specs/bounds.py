"""Bounds of a range element (CmmlToken.cpp: getRangeBounds)."""
import z3
from sx import *
TU = '''
#include "mws/types/CmmlToken.cpp"
'''
HEAP = ["CmmlToken"]


def contracts(X):
    so, lib = X.so, X.lib
    lit = lib.strlit
    STR = lit("x").sort()
    OK = lib.fn("STOD_OK", STR, z3.BoolSort())
    NUM = lib.fn("STOD", STR, z3.RealSort())
    LOW, MAX = lib.fn("LIMIT_double_lowest", z3.RealSort()), lib.fn("LIMIT_double_max", z3.RealSort())
    import itr

    def bound(S, name, other):
        m = S.fld("_attributes")
        has = z3.Select(so.map_dom(m), lit(name))
        v = z3.Select(so.map_val(m), lit(name))
        return z3.If(z3.And(has, OK(v)), NUM(v), other)

    def post(S):
        g = lambda p: itr.rec_get(X, S.ret, [p])
        return {"lower bound: the low attribute, the lowest double when it is missing or no number": g("first") == bound(S.pre, "low", LOW()),
                "upper bound: the high attribute, the largest double when it is missing or no number": g("second") == bound(S.pre, "high", MAX())}
    KIND = z3.Function("KIND_OF", STR, z3.IntSort())
    kind = Contract("CmmlToken::getType", trusted=True, verify=False, post=lambda S: {"by tag (proved in C04)": S.ret == KIND(S.pre.fld("_tag"))})
    return [kind, Contract("CmmlToken::getRangeBounds", pre=lambda S: {"a range element": KIND(S.fld("_tag")) == 1}, post=post)]
