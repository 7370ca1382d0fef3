"""Schemata: names of symbols (SchemaEngine.cpp, ExpressionEncoder.cpp) taken apart into tag and text. Strings are z3 sequences here."""
import z3, vals
vals.set_string_mode("seq")
from sx import *
from cast import I, Ty
TU = '''
#include "mws/query/SchemaEngine.cpp"
#include "mws/index/ExpressionEncoder.cpp"
'''
HEAP = []
# kinds of ids (the constants of mws/index/encoded_token.h, written down independently: named and anonymous variables of the index and of queries, ranges)
KINDS = [("hvar", 1), ("anonymous_hvar", 33), ("qvar", 65), ("anonymous_qvar", 97), ("range", 129)]
FIRST = 161


def contracts(X):
    so, lib = X.so, X.lib
    sv = z3.StringVal
    SPT = Ty("std", "pair", (Ty("std", "string"), Ty("std", "string")))
    SP = so.of(SPT)
    val = lambda S, n: (lambda x: X.read(S.st, x) if isinstance(x, Place) else x)(S.deref(n))
    hash_ = lambda m: z3.IndexOf(m, sv("#"), 0)
    tag = lambda m: z3.If(z3.PrefixOf(sv("~"), m), sv("ci"), z3.If(hash_(m) < 0, m, z3.SubString(m, 0, hash_(m))))
    text = lambda m: z3.If(z3.PrefixOf(sv("~"), m), m, z3.If(hash_(m) < 0, sv(""), z3.SubString(m, hash_(m) + 1, z3.Length(m) - hash_(m) - 1)))
    P2 = lambda r, k: SP.accessor(0, k)(so.to_z3(r, SPT))
    TOK = Ty("rec", "encoded_token_s")
    tok = so.of(TOK)
    ID = lambda e: tok.accessor(0, [n for n, ty, w in so.rec_fields(TOK)].index("id"))(e)
    keys = lambda S, path: S.rd(S.fp(S.this, *path), "_keys") if False else None
    name = z3.Function("name_of", z3.IntSort(), z3.StringSort())
    dm = Contract("SchemaEngine::decodeMeaning", setup=lambda S: S.st.assume(z3.Length(val(S, "meaning")) < 1 << 62),      # strings fit into memory
                  post=lambda S: {"the tag": P2(S.ret, 0) == tag(val(S.pre, "meaning")), "the text": P2(S.ret, 1) == text(val(S.pre, "meaning"))})
    # what the constants are called is the dictionary's business (specs/dictionary.py)
    known = z3.Function("known", z3.IntSort(), z3.BoolSort())
    get = Contract("ReverseLookupTable::get", trusted=True, verify=False, post=lambda S: {"the key of the id": (S.ret if not isinstance(S.ret, Place) else X.read(S.st, S.ret)) == name(S["valueId"])}, throws=lambda S: {"only for an id that was never given out": z3.Not(known(S["valueId"]))})

    def meaning(r, i):
        e = {"an id that stands for something": i >= 1, "the key of a constant": z3.Implies(i >= FIRST, r == name(i - FIRST))}
        for n, (k, lo) in enumerate(KINDS):
            hi = KINDS[n + 1][1] if n + 1 < len(KINDS) else FIRST
            e["the number of a " + k] = z3.Implies(z3.And(i >= lo, i < hi), r == z3.Concat(sv(k + "#"), z3.IntToStr(i - lo)))
        return e
    gm = Contract("ExpressionDecoder::getMeaning", post=lambda S: meaning(S.ret, S["meaningId"]),
                  throws=lambda S: {"only for an id that stands for nothing": z3.Or(S["meaningId"] < 1, z3.And(S["meaningId"] >= FIRST, z3.Not(known(S["meaningId"] - FIRST))))})
    tid = lambda S: ID(so.to_z3(val(S.pre, "tok"), TOK))
    ia = Contract("SchemaEngine::isApply", post=lambda S: {"applications are the symbols whose tag begins with apply": z3.Implies(tid(S) >= FIRST, S.ret == z3.PrefixOf(sv("apply"), tag(name(tid(S) - FIRST)))),
                                                                "variables and ranges are no applications": z3.Implies(tid(S) < FIRST, z3.Not(S.ret))},
                  throws=lambda S: {"only for an id that stands for nothing": z3.Or(tid(S) < 1, z3.And(tid(S) >= FIRST, z3.Not(known(tid(S) - FIRST))))})
    return [dm, get, gm, ia]
