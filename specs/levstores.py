"""The stores on disk (LevFormulaDb, LevCrawlDb) over the documented behaviour of LevelDB: a map from byte strings to byte
strings, iterated in the order of the keys. Records are parcels (specs/parcel.py)."""
import z3
from sx import *
from cast import I
from memstores import start, row_call, GH, LIM
TU = '''
#include "mws/dbc/LevFormulaDb.cpp"
#include "mws/dbc/LevCrawlDb.cpp"
'''
HEAP = ["DB", "Iterator"]
U64 = 1 << 64


def contracts(X):
    so, lib = X.so, X.lib
    I_, B_ = z3.IntSort(), z3.BoolSort()
    STR = lib.strlit("x").sort()
    X.opaque["queryCallback"] = row_call
    F = lambda nm, *s: lib.fn(nm, *s)
    lt, cat, dec, undec = F("slt", STR, STR, B_), F("sconcat", STR, STR, STR), F("to_string", I_, STR), F("to_string_inv", STR, I_)
    DOM, VAL = z3.ArraySort(STR, B_), z3.ArraySort(STR, STR)
    # ---- the keys of a database in their order
    nkeys, keyat, posof, lower = z3.Function("nkeys", DOM, I_), z3.Function("keyat", DOM, I_, STR), z3.Function("posof", DOM, STR, I_), z3.Function("lower", DOM, STR, I_)
    d, s, t, u = z3.Const("dd", DOM), z3.Const("ss", STR), z3.Const("tt", STR), z3.Const("uu", STR)
    i, j, m, n = z3.Int("oi"), z3.Int("oj"), z3.Int("om"), z3.Int("on")
    bang, top = lib.strlit("!"), lib.strlit("\xff")
    pref = lambda f: cat(dec(f), bang)
    last = lambda f: cat(pref(f), top)
    fkey = lambda f, c: cat(pref(f), dec(c))
    kid, kcnt = z3.Function("key_formula", STR, I_), z3.Function("key_counter", STR, I_)
    inr = lambda q: z3.And(0 <= q, q < nkeys(d))
    X.axioms += [
        z3.ForAll([d], nkeys(d) >= 0, patterns=[nkeys(d)]),
        z3.ForAll([d, i], z3.Implies(inr(i), z3.And(z3.Select(d, keyat(d, i)), posof(d, keyat(d, i)) == i)), patterns=[keyat(d, i)]),
        z3.ForAll([d, s], z3.Implies(z3.Select(d, s), z3.And(inr(posof(d, s)), keyat(d, posof(d, s)) == s)), patterns=[posof(d, s)]),
        z3.ForAll([d, i, j], z3.Implies(z3.And(0 <= i, i < j, j < nkeys(d)), lt(keyat(d, i), keyat(d, j))), patterns=[z3.MultiPattern(keyat(d, i), keyat(d, j))]),
        z3.ForAll([d, s], z3.And(0 <= lower(d, s), lower(d, s) <= nkeys(d)), patterns=[lower(d, s)]),
        z3.ForAll([d, s, i], z3.Implies(z3.And(0 <= i, i < nkeys(d)), (i < lower(d, s)) == lt(keyat(d, i), s)), patterns=[z3.MultiPattern(lower(d, s), keyat(d, i))]),
        # the order of byte strings
        z3.ForAll([s], z3.Not(lt(s, s)), patterns=[lt(s, s)]),
        z3.ForAll([s, t, u], z3.Implies(z3.And(lt(s, t), lt(t, u)), lt(s, u)), patterns=[z3.MultiPattern(lt(s, t), lt(t, u))]),
        z3.ForAll([s, t], z3.Or(lt(s, t), lt(t, s), s == t), patterns=[lt(s, t)]),
        # keys of formulas: decimal numbers with ! between them
        z3.ForAll([m], undec(dec(m)) == m, patterns=[dec(m)]),
        z3.ForAll([m, n], z3.And(kid(fkey(m, n)) == m, kcnt(fkey(m, n)) == n), patterns=[fkey(m, n)]),
        z3.ForAll([m, n], z3.And(lt(pref(m), fkey(m, n)), lt(fkey(m, n), last(m))), patterns=[fkey(m, n)]),
        z3.ForAll([m, n, i], z3.Implies(m != i, z3.Or(lt(fkey(m, n), pref(i)), lt(last(i), fkey(m, n)))), patterns=[z3.MultiPattern(fkey(m, n), pref(i))]),
    ]
    # ---- parcels: what the encoder holds after encoding strings one after the other (proved in specs/parcel.py)
    PS = z3.ArraySort(I_, STR)
    parcel, pitem, pcount = z3.Function("parcel", PS, I_, STR), z3.Function("parcel_item", STR, I_, STR), z3.Function("parcel_count", STR, I_)
    a = z3.Const("pa", PS)
    X.axioms += [z3.ForAll([a, n], pcount(parcel(a, n)) == n, patterns=[parcel(a, n)]),
                 z3.ForAll([a, n, i], z3.Implies(z3.And(0 <= i, i < n), pitem(parcel(a, n), i) == z3.Select(a, i)), patterns=[pitem(parcel(a, n), i)])]
    W = 8

    GD = ["dom", "val", "itpos", "iterr", "werr", "psum", "parr", "pn", "dsrc", "dpos"]

    def setup(S):
        g = S.st.ghost
        g["dom"], g["val"], g["itpos"], g["iterr"] = z3.Const("db_dom", DOM), z3.Const("db_val", VAL), z3.IntVal(-1), z3.Const("read_error", B_)
        g["parr"], g["pn"], g["psum"], g["dsrc"], g["dpos"], g["itdb"] = z3.K(I_, lib.strlit("")), z3.IntVal(0), z3.IntVal(0), lib.strlit(""), z3.IntVal(0), z3.Const("db_dom", DOM)
        start(X, S)

    def put_g(st, **kw):
        for q, v in kw.items():
            st.ghost[q] = v
            st.wrote(("ghost", q))
    tr = dict(trusted=True, verify=False)
    STATUS, SLICE = Ty("rec", "Status", []), Ty("rec", "Slice", [])

    def slice_str(st, v):
        p = v
        if isinstance(v, Place):
            v = X.read(st, v)
        if isinstance(v, StructV):
            dta = v.f["data_"]
            if isinstance(dta, CStr):
                return dta.s
        raise Unsupported("slice")

    def status(st, n, ok):
        """a Status; its ok() is the given formula"""
        return StructV(X.u.ty(n) if not isinstance(n, Ty) else n, {"state_": z3.If(ok, z3.IntVal(0), z3.IntVal(1))})

    def mdl(f):
        return lambda X_, st, this, args, fr, n: f(st, this, [X.rv(st, q) if not isinstance(q, Place) else q for q in args], n)

    def newit(st, this, args, n):
        put_g(st, itpos=z3.IntVal(-1), itdb=st.ghost["dom"])
        r = fresh("iterator", I_)
        st.assume(r > 0)
        st.assume(z3.Not(z3.Select(st.alloc, r)))
        st.alloc = z3.Store(st.alloc, r, z3.BoolVal(True))
        st.wrote(("alloc",))
        return [(st, r)]
    db = lambda st: st.ghost["itdb"]

    def broken(st):
        """the iterator may meet a read error: then it is no longer valid and its status tells"""
        return z3.And(st.ghost["iterr"], st.ghost["itpos"] >= errpos)
    errpos = z3.Int("error_at")
    valid = lambda st: z3.And(st.ghost["itpos"] >= 0, st.ghost["itpos"] < nkeys(db(st)), z3.Not(broken(st)))

    def at_valid(st, n):
        X.check(st, valid(st), "the iterator is valid when it is used", n)
    from cast import Ty as T_

    def key(st, this, args, n):
        at_valid(st, n)
        return [(st, mkslice(n, keyat(db(st), st.ghost["itpos"])))]

    def mkslice(n, s_):
        return StructV(X.u.ty(n), {"data_": CStr(s_), "size_": lib.slen(s_)})

    def value(st, this, args, n):
        at_valid(st, n)
        return [(st, mkslice(n, z3.Select(st.ghost["val"], keyat(db(st), st.ghost["itpos"]))))]

    def nxt(st, this, args, n):
        at_valid(st, n)
        put_g(st, itpos=st.ghost["itpos"] + 1)
        return [(st, VOID)]

    def dbput(st, this, args, n):
        g = st.ghost
        k_, v_ = slice_str(st, args[1]), slice_str(st, args[2])
        ok = fresh("written", B_)
        put_g(st, dom=z3.If(ok, z3.Store(g["dom"], k_, z3.BoolVal(True)), g["dom"]), val=z3.If(ok, z3.Store(g["val"], k_, v_), g["val"]))
        return [(st, status(st, n, ok))]

    def dbget(st, this, args, n):
        g = st.ghost
        k_ = slice_str(st, args[1])
        ok = fresh("read", B_)
        st.assume(z3.Implies(ok, z3.Select(g["dom"], k_)))
        st.assume(z3.Implies(z3.Not(ok), z3.Or(z3.Not(z3.Select(g["dom"], k_)), g["iterr"])))
        p = X.rv(st, args[2])
        p = p.place if isinstance(p, PtrP) else p
        X.write(st, p, z3.If(ok, z3.Select(g["val"], k_), fresh("garbage", STR)))
        return [(st, status(st, n, ok))]
    models = [("leveldb::DB::NewIterator", newit), ("leveldb::Iterator::Seek", lambda st, this, args, n: (put_g(st, itpos=lower(db(st), slice_str(st, args[0]))), [(st, VOID)])[1]),
              ("leveldb::Iterator::SeekToFirst", lambda st, this, args, n: (put_g(st, itpos=z3.IntVal(0)), [(st, VOID)])[1]),
              ("leveldb::Iterator::Valid", lambda st, this, args, n: [(st, valid(st))]), ("leveldb::Iterator::Next", nxt), ("leveldb::Iterator::key", key), ("leveldb::Iterator::value", value),
              ("leveldb::Iterator::status", lambda st, this, args, n: [(st, status(st, n, z3.Not(broken(st))))]), ("leveldb::DB::Put", dbput), ("leveldb::DB::Get", dbget),
              ("leveldb::Status::ok", lambda st, this, args, n: [(st, X.read(st, this.f("state_", I(64, True))) == 0)]),
              ("leveldb::Status::ToString", lambda st, this, args, n: [(st, fresh("text", STR))]),
              ("leveldb::Slice::ToString", lambda st, this, args, n: [(st, slice_str(st, this))]),
              ("leveldb::Slice::data", lambda st, this, args, n: [(st, CStr(slice_str(st, this)))]),
              ("leveldb::Slice::size", lambda st, this, args, n: [(st, lib.slen(slice_str(st, this)))])]

    # ---- parcels
    def p_reset(st, this, args, n):
        put_g(st, psum=z3.IntVal(0))
        return [(st, VOID)]

    def strings(st, v):
        v = X.read(st, v) if isinstance(v, Place) else v
        return [v.f["xmlId"], v.f["xpath"]] if isinstance(v, StructV) else [v]

    def reserve(st, this, args, n):
        put_g(st, psum=st.ghost["psum"] + sum([W + lib.slen(q) for q in strings(st, args[0])]))
        return [(st, VOID)]

    def newenc(st, this, args, n):
        put_g(st, parr=z3.K(I_, lib.strlit("")), pn=z3.IntVal(0))
        return [(st, VOID)]

    def encode(st, this, args, n):
        for q in strings(st, args[0]):
            st.ghost["psum"] = st.ghost["psum"] - W - lib.slen(q)
            X.check(st, st.ghost["psum"] >= 0, "precondition of ParcelEncoder::encode: room was reserved for it", n, kind="pre")
            put_g(st, psum=st.ghost["psum"], parr=z3.Store(st.ghost["parr"], st.ghost["pn"], q), pn=st.ghost["pn"] + 1)
        return [(st, VOID)]

    def encdata(st, this, args, n):
        X.check(st, st.ghost["psum"] == 0, "precondition of ParcelEncoder::getData: exactly what was reserved was encoded", n, kind="pre")
        r = parcel(st.ghost["parr"], st.ghost["pn"])
        return [(st, CStr(r))]

    def encsize(st, this, args, n):
        X.check(st, st.ghost["psum"] == 0, "precondition of ParcelEncoder::getSize: exactly what was reserved was encoded", n, kind="pre")
        r = parcel(st.ghost["parr"], st.ghost["pn"])
        return [(st, lib.slen(r))]

    def newdec(st, this, args, n):
        dta, sz = X.rv(st, args[0]), X.rv(st, args[1])
        X.check(st, sz == lib.slen(dta.s), "the decoder gets all bytes of the record", n, kind="pre")
        put_g(st, dsrc=dta.s, dpos=z3.IntVal(0))
        return [(st, VOID)]

    def decode(st, this, args, n):
        p = X.rv(st, args[0])
        p = p.place if isinstance(p, PtrP) else p
        g = st.ghost
        v = X.read(st, p)
        k_ = 2 if isinstance(v, StructV) else 1
        X.check(st, g["dpos"] + k_ <= pcount(g["dsrc"]), "the record holds what is read from it", n)
        st.assume(g["dpos"] + k_ <= pcount(g["dsrc"]))
        if isinstance(v, StructV):
            X.write(st, p, StructV(v.ty, dict(v.f, xmlId=pitem(g["dsrc"], g["dpos"]), xpath=pitem(g["dsrc"], g["dpos"] + 1))))
            put_g(st, dpos=g["dpos"] + 2)
        else:
            X.write(st, p, pitem(g["dsrc"], g["dpos"]))
            put_g(st, dpos=g["dpos"] + 1)
        return [(st, VOID)]
    models += [("ParcelAllocator::ParcelAllocator", p_reset), ("ParcelAllocator::reserve", reserve), ("ParcelEncoder::ParcelEncoder", newenc), ("ParcelEncoder::encode", encode),
               ("ParcelEncoder::getData", encdata), ("ParcelEncoder::getSize", encsize), ("ParcelDecoder::ParcelDecoder", newdec), ("ParcelDecoder::decode", decode)]

    # ---- numbers
    def strtoul(X_, st, this, args, fr, n):
        v = X.rv(st, args[0])
        b = X.rv(st, args[2])
        if not isinstance(v, CStr) or not (z3.is_int_value(b) and b.as_long() in (0, 10)):
            raise Unsupported("strtoul")
        r = fresh("number", I_)
        st.assume(z3.And(r >= 0, r < U64))
        k_ = z3.Int("nk")
        c = undec(v.s)
        st.assume(z3.Implies(z3.And(dec(c) == v.s, c >= 0, c < U64), r == c))
        return [(st, r)]
    X.models["strtoul"] = X.models["strtoull"] = strtoul
    cs = [Contract(nm, model=mdl(f), **tr) for nm, f in models]
    # ---- formula occurrences: the keys of one formula stand together, in a fixed order
    sfind, schar, ssub, slen = F("sfind", STR, STR, I_), F("schar", I_, STR), F("ssub", STR, I_, I_, STR), F("slen", STR, I_)
    ex = schar(z3.IntVal(ord("!")))
    tail = lambda f, c: ssub(fkey(f, c), slen(dec(f)), slen(fkey(f, c)) - slen(dec(f)))
    X.axioms += [z3.ForAll([m, n], z3.And(slen(fkey(m, n)) == slen(dec(m)) + 1 + slen(dec(n)), slen(dec(m)) >= 1, slen(dec(n)) >= 1, sfind(fkey(m, n), ex) == slen(dec(m)),
                                          ssub(tail(m, n), 1, slen(tail(m, n)) - 1) == dec(n), slen(tail(m, n)) == 1 + slen(dec(n))), patterns=[fkey(m, n)])]
    G = lambda S, q: S.st.ghost[q]

    def dbinv(S):
        """every record of the database is an occurrence that was added: key of formula and counter, value of three strings"""
        D, V = G(S, "dom"), G(S, "val")
        v = z3.Select(V, s)
        return {"every record is an occurrence": z3.ForAll([s], z3.Implies(z3.Select(D, s), z3.And(s == fkey(kid(s), kcnt(s)), kid(s) >= 0, kcnt(s) >= 1, kcnt(s) < U64, pcount(v) == 3,
                                                                                               pitem(v, 0) == dec(undec(pitem(v, 0))), undec(pitem(v, 0)) >= 0, undec(pitem(v, 0)) < LIM)), patterns=[z3.Select(D, s)])}

    def bounded(S, c):
        return z3.ForAll([s], z3.Implies(z3.Select(G(S, "dom"), s), kcnt(s) <= c), patterns=[z3.Select(G(S, "dom"), s)])
    cnt = lambda S: S.fld("mCounter")
    last_c = Contract("getLastCounter", setup=setup, pre=lambda S: dict(dbinv(S), **{"an open database": S["database"] > 0}),
                      mods=lambda S: [S.deref("lastCounter"), ("ghost", "itpos"), ("ghost", "itdb"), ("alloc",)],
                      post=lambda S: {"success or failure": z3.Or(S.ret == 0, S.ret == -1),
                                      "no record has a higher counter": z3.Implies(S.ret == 0, z3.And(bounded(S, X.read(S.st, S.deref("lastCounter"))), z3.Or(X.read(S.st, S.deref("lastCounter")) == 0, z3.Exists([s], z3.And(z3.Select(G(S, "dom"), s), kcnt(s) == X.read(S.st, S.deref("lastCounter"))))), X.read(S.st, S.deref("lastCounter")) >= 0)),
                                      "below 2^64": z3.Implies(S.ret == 0, X.read(S.st, S.deref("lastCounter")) < U64)},
                      loops=[Loop(inv=lambda S: {"position": z3.And(G(S, "itpos") >= 0, S["it"] > 0, G(S, "itpos") <= nkeys(G(S, "itdb")), G(S, "itdb") == G(S, "dom")),
                                                 "no record so far has a higher counter": z3.And(X.read(S.st, S.deref("lastCounter")) >= 0, X.read(S.st, S.deref("lastCounter")) < U64, z3.Or(X.read(S.st, S.deref("lastCounter")) == 0, z3.Exists([s], z3.And(z3.Select(G(S, "dom"), s), kcnt(s) == X.read(S.st, S.deref("lastCounter"))))), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < G(S, "itpos")), kcnt(keyat(G(S, "dom"), i)) <= X.read(S.st, S.deref("lastCounter"))), patterns=[keyat(G(S, "dom"), i)]))},
                                  ghost=["itpos"])])
    field = lambda v, nm: [v.sort().accessor(0, q) for q in range(v.sort().constructor(0).arity()) if v.sort().accessor(0, q).name().endswith(nm)][0](v)

    def ins_pre(S):
        return dict(dbinv(S), **{"an open database": S.fld("mDatabase") > 0, "no record has a higher counter, unless nothing was added yet": z3.And(cnt(S) >= 0, z3.Or(cnt(S) == 0, bounded(S, cnt(S)))), "fewer than 2^64 - 1 occurrences": z3.And(cnt(S) < U64 - 1, bounded(S, U64 - 2))})

    def ins_post(S):
        D0, V0, D, V = G(S.pre, "dom"), G(S.pre, "val"), G(S, "dom"), G(S, "val")
        key_ = fkey(S.pre["formulaId"], cnt(S))
        path = S.pre.z("formulaPath")
        v = z3.Select(V, key_)
        return dict(dbinv(S), **{"success or failure": z3.Or(S.ret == 0, S.ret == -1),
            "success: a new occurrence of this formula": z3.Implies(S.ret == 0, z3.And(z3.Not(z3.Select(D0, key_)), z3.Select(D, key_), pitem(v, 0) == dec(S.pre["crawlId"]), pitem(v, 1) == field(path, "xmlId"), pitem(v, 2) == field(path, "xpath"))),
            "no other record changes": z3.ForAll([s], z3.Implies(s != key_, z3.And(z3.Select(D, s) == z3.Select(D0, s), z3.Select(V, s) == z3.Select(V0, s))), patterns=[z3.Select(D, s)]),
            "failure: nothing changes": z3.Implies(S.ret == -1, z3.And(D == D0, V == V0)),
            "no record has a higher counter": z3.Or(cnt(S) == 0, bounded(S, cnt(S)))})
    GM = ["dom", "val", "itpos", "itdb", "parr", "pn", "psum", "dsrc", "dpos"]
    ghosts = lambda: [("ghost", q) for q in GM]
    insert = Contract("LevFormulaDb::insertFormula", setup=setup, pre=ins_pre, post=ins_post, mods=lambda S: [S.fp(S.this, "mCounter"), ("alloc",)] + ghosts())

    def row(S0, f, k_):
        D, V = G(S0, "dom"), G(S0, "val")
        v = z3.Select(V, keyat(D, lower(D, pref(f)) + k_))
        return undec(pitem(v, 0)), pitem(v, 1), pitem(v, 2)
    count = lambda S0, f: lower(G(S0, "dom"), last(f)) - lower(G(S0, "dom"), pref(f))

    def handed(S, f, frm, upto):
        c, x, p = row(S.pre, f, frm + i)
        g = S.st.ghost
        return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < upto), z3.And(z3.Select(g["crawl"], i) == c, z3.Select(g["xml"], i) == x, z3.Select(g["xp"], i) == p)), patterns=[z3.Select(g["crawl"], i), z3.Select(g["xml"], i), z3.Select(g["xp"], i)])

    def window(S0):
        n_ = count(S0, S0["formulaId"])
        left = z3.If(n_ > S0["limitMin"], n_ - S0["limitMin"], 0)
        return z3.If(left < S0["limitSize"], left, S0["limitSize"])

    def q_post(S):
        g, S0 = S.st.ghost, S.pre
        return {"success or failure": z3.Or(S.ret == 0, S.ret == -1),
                "success: exactly the occurrences of the window": z3.Implies(S.ret == 0, z3.And(g["rows"] == window(S0), z3.Not(g["stopped"]))),
                "failure only if the callback asked to stop or reading failed": z3.Implies(S.ret != 0, z3.Or(g["stopped"], g["iterr"])),
                "never more": g["rows"] <= window(S0),
                "in their order, from limitMin on": handed(S, S0["formulaId"], S0["limitMin"], g["rows"])}
    base = lambda S: lower(G(S.pre, "dom"), pref(S.pre["formulaId"]))
    same_db = lambda S: z3.And(G(S, "itdb") == G(S.pre, "dom"), G(S, "dom") == G(S.pre, "dom"), G(S, "val") == G(S.pre, "val"), S["it"] > 0, z3.Not(G(S, "stopped")))
    skip_inv = lambda S: {"position": z3.And(same_db(S), S["i"] >= 0, S["i"] <= S.pre["limitMin"], G(S, "itpos") == base(S) + S["i"], G(S, "itpos") <= nkeys(G(S, "itdb")), S["fmId"] == pref(S.pre["formulaId"])), "nothing handed out": G(S, "rows") == 0}

    def row_inv(S):
        w = window(S.pre)
        return {"the bound of the keys": z3.And(same_db(S), S["maxKey"] == last(S.pre["formulaId"])),
                "position": z3.And(G(S, "itpos") == base(S) + S.pre["limitMin"] + G(S, "rows"), S["i"] == G(S, "rows"), G(S, "rows") >= 0, G(S, "rows") <= w, G(S, "itpos") <= nkeys(G(S, "itdb"))),
                "in their order, from limitMin on": handed(S, S.pre["formulaId"], S.pre["limitMin"], G(S, "rows"))}
    query = Contract("LevFormulaDb::queryFormula", setup=setup, pre=lambda S: dict(dbinv(S), **{"an open database": S.fld("mDatabase") > 0}), post=q_post,
                     mods=lambda S: [("alloc",)] + ghosts() + [("ghost", q) for q in GH],
                     loops=[Loop(inv=skip_inv, ghost=["itpos"]), Loop(inv=row_inv, ghost=["itpos", "dsrc", "dpos"] + GH)])

    # lemma: the occurrences of a formula, as counted above, are all records with its key and only those
    f = z3.Int("lf")
    X.lemma("the records of a formula stand together", z3.ForAll([d, f, s], z3.Implies(z3.And(z3.Select(d, s), s == fkey(kid(s), kcnt(s)), keyat(d, posof(d, s)) == s, 0 <= posof(d, s), posof(d, s) < nkeys(d)),
            (kid(s) == f) == z3.And(lower(d, pref(f)) <= posof(d, s), posof(d, s) < lower(d, last(f))))))

    # ---- crawl records
    cid = undec

    def cinv(S):
        D, V = G(S, "dom"), G(S, "val")
        return {"every record has a positive number as its key": z3.ForAll([s], z3.Implies(z3.Select(D, s), z3.And(s == dec(cid(s)), cid(s) >= 1, cid(s) < LIM - 1, pcount(z3.Select(V, s)) == 1)), patterns=[z3.Select(D, s)]),
                "an open database": S.fld("mDatabase") > 0}
    cbound = lambda S, c: z3.ForAll([s], z3.Implies(z3.Select(G(S, "dom"), s), cid(s) <= c), patterns=[z3.Select(G(S, "dom"), s)])
    last_id = Contract("getLastCrawlId", setup=setup, pre=lambda S: {k_: v for k_, v in list(cinv_db(S).items())}, mods=lambda S: [("ghost", "itpos"), ("ghost", "itdb"), ("alloc",)],
                       post=lambda S: {"no record has a higher id": z3.And(cbound(S, S.ret), S.ret >= 0, S.ret < LIM - 1)}, throws=lambda S: {"only if reading failed": G(S, "iterr")},
                       loops=[Loop(inv=lambda S: {"position": z3.And(G(S, "itpos") >= 0, S["it"] > 0, G(S, "itpos") <= nkeys(G(S, "itdb")), G(S, "itdb") == G(S, "dom")),
                                                  "no record so far has a higher id": z3.And(S["lastCrawlId"] >= 0, S["lastCrawlId"] < LIM - 1, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < G(S, "itpos")), cid(keyat(G(S, "dom"), i)) <= S["lastCrawlId"]), patterns=[keyat(G(S, "dom"), i)]))}, ghost=["itpos"])])

    def cinv_db(S):
        D, V = G(S, "dom"), G(S, "val")
        return {"every record has a positive number as its key": z3.ForAll([s], z3.Implies(z3.Select(D, s), z3.And(s == dec(cid(s)), cid(s) >= 1, cid(s) < LIM - 1, pcount(z3.Select(V, s)) == 1)), patterns=[z3.Select(D, s)]),
                "an open database": S["database"] > 0}
    nid = lambda S: S.fld("mNextCrawlId")

    def put_post(S):
        D0, V0, D, V = G(S.pre, "dom"), G(S.pre, "val"), G(S, "dom"), G(S, "val")
        k_ = dec(S.ret)
        return {"a new id": z3.And(S.ret >= 1, z3.Not(z3.Select(D0, k_))), "the record is stored under it": z3.And(z3.Select(D, k_), pcount(z3.Select(V, k_)) == 1, pitem(z3.Select(V, k_), 0) == S.pre.z("crawlData")),
                "no other record changes": z3.ForAll([s], z3.Implies(s != k_, z3.And(z3.Select(D, s) == z3.Select(D0, s), z3.Select(V, s) == z3.Select(V0, s))), patterns=[z3.Select(D, s)]),
                "no record has a higher id": cbound(S, nid(S))}
    put = Contract("LevCrawlDb::putData", setup=setup, pre=lambda S: dict(cinv(S), **{"no record has a higher id, unless nothing was added yet": z3.And(nid(S) >= 0, z3.Or(nid(S) == 0, cbound(S, nid(S)))), "fewer than 2^32 records": nid(S) < LIM - 1}),
                   post=put_post, mods=lambda S: [S.fp(S.this, "mNextCrawlId"), ("alloc",)] + ghosts(),
                   throws=lambda S: {"then nothing was stored": z3.And(G(S, "dom") == G(S.pre, "dom"), G(S, "val") == G(S.pre, "val")), "no record has a higher id, unless nothing was added yet": z3.Or(nid(S) == 0, cbound(S, nid(S)))})
    got = Contract("LevCrawlDb::getData", setup=setup, pre=cinv, mods=lambda S: ghosts(),
                   post=lambda S: {"the record put under this id": z3.And(z3.Select(G(S.pre, "dom"), dec(S.pre["crawlId"])), S.ret == pitem(z3.Select(G(S.pre, "val"), dec(S.pre["crawlId"])), 0))},
                   throws=lambda S: {"only for an id without a record, or if reading failed": z3.Or(z3.Not(z3.Select(G(S.pre, "dom"), dec(S.pre["crawlId"]))), G(S, "iterr"))})
    return cs + [last_c, insert, query, last_id, put, got]
