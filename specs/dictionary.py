"""The dictionary of meanings and its file (IdDictionary.hpp)."""
import z3
from sx import *
from libm import Streams
import dicts
TU = '''
#include "common/types/IdDictionary.hpp"
#include "mws/index/MeaningDictionary.hpp"
void vp_use(std::ostream& o, uint32_t i) {
    mws::index::MeaningDictionary a("x"), b;
    a.save(o);
    a.put("x");
    a.get("x");
    a.getReverseLookupTable().get(i);
}
'''
HEAP = []
LIM = dicts.LIM


def contracts(X):
    so, lib = X.so, X.lib
    lit = lib.strlit
    STR = lit("x").sort()
    X.streams = Streams(X)
    dc = dicts.make(X)
    this = dc.this
    k = z3.Const("sk", STR)
    i, j = z3.Int("si"), z3.Int("sj")

    def start(S):
        X.streams.start(S.st)

    # ---- saving: the records written are the keys in the order of their ids
    def written(S, upto):
        d = this(S.pre)
        g = S.st.ghost
        return z3.And(g["on"] == upto, g["opart"] == lit(""),
                      z3.ForAll([k], z3.Implies(z3.And(d.has(k), d.id(k) <= upto), z3.Select(g["orec"], d.id(k) - 1) == k), patterns=[d.has(k)]))

    def save_inv(S):
        d = this(S.pre)
        keys = S.rd(S.pl("table"), "_keys")
        return {"one entry per key": z3.And(S.len(keys) == d.next - 1, 0 <= S.k, S.k <= S.len(keys)),
                "the table holds the keys": z3.ForAll([k], z3.Implies(d.has(k), z3.Select(S.arr(keys), d.id(k) - 1) == k), patterns=[d.has(k)]),
                "the stream was usable": z3.Implies(S.st.ghost["ook"], z3.Const("ostream_ok", z3.BoolSort())),
                "the keys so far are written, in the order of their ids": written(S, S.k)}
    GM = ["orec", "on", "opart", "ook"]
    save = Contract("IdDictionary::save", pre=lambda S: dict(dc.dinv(X, S.st, this(S)), **{"fewer than 2^31 keys": this(S).next < LIM}), setup=start,
                    mods=lambda S: [("ghost", q) for q in GM],
                    post=lambda S: {"success or failure": z3.Or(S.ret == 0, S.ret == -1),
                                    "success means that every byte was accepted": z3.Implies(S.ret == 0, S.st.ghost["ook"]),
                                    "failure is reported only if the stream failed": z3.Implies(S.ret == -1, z3.Not(S.st.ghost["ook"])),
                                    "then the file holds exactly the keys, each at its id": z3.Implies(S.ret == 0, written(S, this(S.pre).next - 1)),
                                    "the dictionary is as before": z3.And(this(S).next == this(S.pre).next, this(S).dom == this(S.pre).dom, this(S).val == this(S.pre).val)},
                    loops=[Loop(inv=save_inv)])

    # ---- loading: a file of distinct, non-empty keys gives each the id of its position
    def proper(S):
        g = S.st.ghost
        r, n = g["irec"], g["in_"]
        return z3.And(g["itail"] == lit(""), n < LIM - 2,
                      z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Not(z3.Select(r, i) == lit(""))), patterns=[z3.Select(r, i)]),
                      z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), z3.Not(z3.Select(r, i) == z3.Select(r, j))), patterns=[z3.MultiPattern(z3.Select(r, i), z3.Select(r, j))]))

    def loaded(S, upto):
        d = this(S)
        r = S.st.ghost["irec"]
        return z3.And(d.next == upto + 1,
                      z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < upto), z3.And(d.has(z3.Select(r, i)), d.id(z3.Select(r, i)) == i + 1)), patterns=[z3.Select(r, i)]),
                      z3.ForAll([k], z3.Implies(d.has(k), z3.And(d.id(k) >= 1, d.id(k) <= upto, z3.Select(r, d.id(k) - 1) == k)), patterns=[d.has(k)]))

    def load_inv(S):
        g = S.st.ghost
        o = {"dictionary: " + a: b for a, b in dc.dinv(X, S.st, this(S)).items()}
        o["position in the file"] = z3.And(g["ipos"] >= 0, g["ipos"] <= g["in_"], z3.Implies(g["ieof"], g["ipos"] == g["in_"]))
        o["file opened, nothing failed"] = z3.And(g["iopen"], z3.Not(g["iofail"]))
        o["fewer keys than records"] = this(S).next <= g["ipos"] + 1 + z3.If(g["ieof"], 1, 0)
        o["the keys read so far have the ids of their positions"] = z3.Implies(proper(S), loaded(S, g["ipos"]))
        return o
    IG = ["ipos", "ieof", "iopen", "iexc", "iofail", "ifail"]

    def load_setup(S):
        start(S)
        S.st.assume(S.st.ghost["in_"] < LIM - 2)
        k2 = z3.Const("e0", STR)
        S.st.assume(lib.slen(lit("")) == 0)
        S.st.assume(z3.ForAll([k2], z3.And(lib.slen(k2) >= 0, z3.Implies(lib.slen(k2) == 0, k2 == lit(""))), patterns=[lib.slen(k2)]))
    load = Contract("IdDictionary::IdDictionary", nparams=1, sig="const std::string", setup=load_setup,
                    mods=lambda S: [S.fp(S.this, "_map"), S.fp(S.this, "_nextId")] + [("ghost", q) for q in IG],
                    post=lambda S: dict(dc.dinv(X, S.st, this(S)), **{
                        "only a file that was opened and read to its end is accepted": z3.And(S.st.ghost["iopen"], z3.Not(S.st.ghost["iofail"]), S.st.ghost["ieof"], S.st.ghost["ipos"] == S.st.ghost["in_"]),
                        "each key of the file has the id of its position, and no other key is known": z3.Implies(proper(S), loaded(S, S.st.ghost["in_"]))}),
                    throws=lambda S: {"only if the file could not be opened or read": S.st.ghost["iofail"]},
                    loops=[Loop(inv=load_inv, dec=lambda S: S.st.ghost["in_"] - S.st.ghost["ipos"] + z3.If(S.st.ghost["ieof"], 0, 1))])
    empty = Contract("IdDictionary::IdDictionary", nparams=0, mods=lambda S: [S.fp(S.this, "_map"), S.fp(S.this, "_nextId")],
                     post=lambda S: {"no key is known": z3.And(this(S).next == 1, z3.ForAll([k], z3.Not(this(S).has(k)), patterns=[this(S).has(k)]))})

    def rget_keys(S):
        return S.fld("_keys")
    rget = Contract("ReverseLookupTable::get", pre=lambda S: {"fewer than 2^31 keys": S.len(rget_keys(S)) < LIM}, post=lambda S: {"the key of the id": (S.ret if not isinstance(S.ret, Place) else S.X.read(S.st, S.ret)) == z3.Select(S.arr(rget_keys(S)), S["valueId"] - 1)},
                    throws=lambda S: {"only for an id that was never given out": z3.Or(S["valueId"] < 1, S["valueId"] > S.len(rget_keys(S)))})
    # ---- lemma: what save writes for a dictionary without an empty key is a file that load accepts as proper
    so_a = z3.ArraySort(z3.IntSort(), STR)
    dom, val, rec, nx = z3.Const("lm_dom", z3.ArraySort(STR, z3.BoolSort())), z3.Const("lm_val", z3.ArraySort(STR, z3.IntSort())), z3.Const("lm_rec", so_a), z3.Int("lm_next")
    has, ident, at = (lambda q: z3.Select(dom, q)), (lambda q: z3.Select(val, q)), (lambda q: z3.Select(rec, q))
    owner = lambda q: z3.Implies(z3.And(q >= 1, q < nx), z3.Exists([k], z3.And(has(k), ident(k) == q)))
    hint = z3.And(owner(i + 1), owner(j + 1))       # two instances of the hypothesis, spelt out for the solver
    hyp = z3.And(hint, nx >= 1, z3.ForAll([k], z3.Implies(has(k), z3.And(ident(k) >= 1, ident(k) < nx)), patterns=[has(k)]), z3.Not(has(lit(""))),
                 z3.ForAll([i], owner(i)),
                 z3.ForAll([k], z3.Implies(has(k), at(ident(k) - 1) == k), patterns=[has(k)]))
    # the two results of loading it back: the same keys have the same ids, and no others are known
    dom2, val2 = z3.Const("lm_dom2", dom.sort()), z3.Const("lm_val2", val.sort())
    X.lemma("records of a saved dictionary are not empty", z3.Implies(z3.And(hyp, 0 <= i, i < nx - 1), z3.Not(at(i) == lit(""))))
    X.lemma("records of a saved dictionary are different", z3.Implies(z3.And(hyp, 0 <= i, i < j, j < nx - 1), z3.Not(at(i) == at(j))))
    has2, id2 = (lambda q: z3.Select(dom2, q)), (lambda q: z3.Select(val2, q))
    back = z3.And(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < nx - 1), z3.And(has2(at(i)), id2(at(i)) == i + 1)), patterns=[at(i)]),
                  z3.ForAll([k], z3.Implies(has2(k), z3.And(id2(k) >= 1, id2(k) <= nx - 1, at(id2(k) - 1) == k)), patterns=[has2(k)]))
    X.lemma("a dictionary saved and loaded again is the same", z3.Implies(z3.And(hyp, back), z3.And(has2(k) == has(k), z3.Implies(has(k), id2(k) == ident(k)))))
    return [dc.put, dc.get, dc.table, save, load, empty, rget]
