"""Stored records (Parcelable.cpp, FormulaPath.hpp): layout in bytes, bounds, round trip."""
import z3
from sx import *
from cast import I
TU = '''
#include <assert.h>
#include "common/types/Parcelable.cpp"
#include "mws/types/FormulaPath.hpp"
void vp_use(mws::types::FormulaPath& p, common::types::ParcelEncoder* e, common::types::ParcelDecoder* d) { p.writeToParcel(e); p.readFromParcel(d); p.getParcelableSize(); mws::types::FormulaPath q(p.xmlId, p.xpath); }
'''
HEAP = []
CH = I(8, True)
W = 8           # sizeof(size_t)
LIM = 1 << 62


def u64(X, mem, at):
    """the 64-bit number that the 8 bytes at an address stand for"""
    I_ = z3.IntSort()
    f = X.lib.fn("U64", *([I_] * 9))
    return f(*[z3.Select(mem, at + j) for j in range(W)])


def memcpy_model(X, st, this, args, fr, n):
    I_ = z3.IntSort()
    lib = X.lib
    d, s, k = [X.rv(st, a) for a in args]
    f, gs = lib.fn("U64", *([I_] * 9)), [lib.fn("U64_byte%d" % j, I_, I_) for j in range(W)]
    if isinstance(d, BPtr):
        mem, size, et = st.blocks[d.block]
        X.check(st, z3.And(d.off >= 0, k >= 0, d.off + k <= size), "memcpy writes inside the buffer", n)
        j = z3.Int("mj")
        if isinstance(s, PtrP):
            k = z3.simplify(k)
            if not (z3.is_int_value(k) and k.as_long() == W):
                raise Unsupported("memcpy of part of a number")
            v = X.read(st, s.place)
            st.assume(f(*[g(v) for g in gs]) == v)
            for q in range(W):
                mem = z3.Store(mem, d.off + q, gs[q](v))
            st.blocks[d.block] = (mem, size, et)
        elif isinstance(s, CStr):
            X.check(st, k <= lib.slen(s.s) + 1, "memcpy reads inside the string", n)
            m2 = fresh("cpy", mem.sort())
            st.assume(z3.ForAll([j], z3.Select(m2, j) == z3.If(z3.And(j >= d.off, j < d.off + k), lib.sat(s.s, j - d.off), z3.Select(mem, j)), patterns=[z3.Select(m2, j)]))
            st.blocks[d.block] = (m2, size, et)
        else:
            raise Unsupported("memcpy from " + type(s).__name__)
        st.wrote(("block", d.block))
        return [(st, d)]
    if isinstance(d, PtrP) and isinstance(s, BPtr):
        k = z3.simplify(k)
        if not (z3.is_int_value(k) and k.as_long() == W):
            raise Unsupported("memcpy of part of a number")
        mem, size, et = st.blocks[s.block]
        X.check(st, z3.And(s.off >= 0, s.off + W <= size), "memcpy reads inside the buffer", n)
        v = u64(X, mem, s.off)
        st.assume(z3.And(v >= 0, v < (1 << 64)))
        X.write(st, d.place, v)
        return [(st, d)]
    raise Unsupported("memcpy to " + type(d).__name__)


def block_string(X, st, p, k):
    lib = X.lib
    mem, size, et = st.blocks[p.block]
    X.check(st, z3.And(p.off >= 0, k >= 0, p.off + k <= size), "string(ptr,n) reads inside the buffer")
    r = fresh("bstr", vals.Str)
    j = z3.Int("bj")
    st.assume(lib.slen(r) == k)
    st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), lib.sat(r, j) == z3.Select(mem, p.off + j)), patterns=[lib.sat(r, j)]))
    return r


def contracts(X):
    so, lib = X.so, X.lib
    I_ = z3.IntSort()
    STR = lib.strlit("x").sort()
    X.models["memcpy"] = memcpy_model
    X.block_string = lambda st, p, k: block_string(X, st, p, k)
    # the record: the strings it holds, and where each starts
    item = z3.Function("item", I_, STR)
    pos = z3.Function("pos", I_, I_)
    i, j = z3.Int("pi"), z3.Int("pj")
    X.axioms += [pos(z3.IntVal(0)) == 0,
                 z3.ForAll([i], z3.Implies(i >= 0, z3.And(pos(i + 1) == pos(i) + W + lib.slen(item(i)), lib.slen(item(i)) >= 0, lib.slen(item(i)) < LIM, pos(i) >= 0)), patterns=[item(i)])]
    size = lambda s: W + lib.slen(s)

    def layout(mem, n):
        """the first n strings of the record stand in memory"""
        return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(
            pos(i) >= 0, pos(i) + W + lib.slen(item(i)) <= pos(n), u64(X, mem, pos(i)) == lib.slen(item(i)),
            z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < lib.slen(item(i))), z3.Select(mem, pos(i) + W + j) == lib.sat(item(i), j)), patterns=[z3.Select(mem, pos(i) + W + j)]))), patterns=[item(i)])

    def same(a, b):
        return z3.And(lib.slen(a) == lib.slen(b), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < lib.slen(b)), lib.sat(a, j) == lib.sat(b, j)), patterns=[lib.sat(a, j)]))

    # ---- sizes
    msize = lambda S: S.fld("mSize")
    reserve = Contract("ParcelAllocator::reserve", sig="const std::string", pre=lambda S: {"sizes below 2^62": z3.And(msize(S) >= 0, msize(S) + size(S.z("str")) < LIM)},
                       mods=lambda S: [S.fp(S.this, "mSize")], post=lambda S: {"room for the string and its length": msize(S) == msize(S.pre) + size(S.pre.z("str"))})
    reserve0 = Contract("ParcelAllocator::ParcelAllocator", mods=lambda S: [S.fp(S.this, "mSize")], post=lambda S: {"nothing reserved": msize(S) == 0})
    getsize = Contract("ParcelAllocator::getSize", post=lambda S: {"what was reserved": S.ret == msize(S)})
    psize = lambda S, p: size(S.rd(p, "xmlId")) + size(S.rd(p, "xpath"))
    fsize = Contract("FormulaPath::getParcelableSize", pre=lambda S: {"sizes below 2^62": psize(S, S.this) < LIM}, post=lambda S: {"room for both strings": S.ret == psize(S.pre, S.pre.this)})

    # ---- encoder: the object and its buffer
    BUF = "parcel"

    def buffer(S, data, curr):
        st = S.st
        st.blocks[BUF] = (z3.Const("buf", z3.ArraySort(I_, I_)), z3.Int("buf_size"), CH)
        X.write(st, data, BPtr(BUF, z3.IntVal(0), CH))
        X.write(st, curr, BPtr(BUF, z3.Int("curr0"), CH))
        st.ghost["k"] = z3.Int("k0")

    def enc_setup(S):
        t = S.this
        buffer(S, S.fp(t, "mData"), S.fp(t, "mCurr"))

    def dec_setup(S):
        enc_setup(S)

    def obj(S, p):
        data, curr = X.read(S.st, S.fp(p, "mData")), X.read(S.st, S.fp(p, "mCurr"))
        if not isinstance(data, BPtr) or not isinstance(curr, BPtr) or curr.block != data.block:
            raise Unsupported("parcel pointers")
        return data, curr, S.st.blocks[data.block]

    def einv(S, p, k):
        data, curr, (mem, n, _) = obj(S, p)
        return {"the buffer has the announced size": z3.And(data.off == 0, S.rd(p, "mSize") == n, n >= 0, n < LIM),
                "position after the strings so far": z3.And(k >= 0, curr.off == pos(k)),
                "the strings so far stand in the buffer": layout(mem, k)}

    def dinv(S, p, k, n):
        data, curr, (mem, sz, _) = obj(S, p)
        return {"the buffer has the announced size": z3.And(data.off == 0, S.rd(p, "mSize") == sz, sz < LIM, curr.off >= 0, curr.off <= sz)}

    K = lambda S: S.st.ghost["k"]

    def step(S, m=1):
        S.st.ghost["k"] = K(S) + m
        S.st.wrote(("ghost", "k"))

    def encs_post(S):
        k = K(S.pre)
        return dict(einv(S, S.this, k + 1), **{"announced size as before": S.rd(S.this, "mSize") == S.pre.rd(S.pre.this, "mSize")})
    encs = Contract("ParcelEncoder::encode", sig="const std::string", setup=enc_setup,
                    pre=lambda S: dict(einv(S, S.this, K(S)), **{"it is the next string of the record": S.z("str") == item(K(S)), "room was reserved for it": pos(K(S) + 1) <= S.rd(S.this, "mSize")}),
                    post=encs_post, mods=lambda S: [S.fp(S.this, "mCurr"), ("block", BUF)])

    class At:
        """a view of the callee's object at a call"""
        def __init__(self, st, this):
            self.st, self.this = st, this

        def fp(self, p, *path):
            return View.fp(View(X, self.st, X.root_frame), p, *path)

        def rd(self, p, *path):
            return X.read(self.st, self.fp(p, *path))

    def enc_model(X_, st, this, args, fr, n):
        """the contract of encode(string), for the next string of the record"""
        S = At(st, this)
        k, s = K(S), X.read(st, args[0])
        for a, b in dict(einv(S, this, k), **{"it is the next string of the record": s == item(k), "room was reserved for it": pos(k + 1) <= S.rd(this, "mSize")}).items():
            X.check(st, b, "precondition of ParcelEncoder::encode: " + a, n, kind="pre")
        data, curr, (mem, sz, et) = obj(S, this)
        st.blocks[data.block] = (fresh("blk", mem.sort()), sz, et)
        st.wrote(("block", data.block))
        X.write(st, S.fp(this, "mCurr"), BPtr(data.block, fresh("curr", I_), CH))
        for b in einv(S, this, k + 1).values():
            st.assume(b)
        step(S)
        return [(st, VOID)]

    def dec_model(X_, st, this, args, fr, n):
        """the contract of decode(string)"""
        S = At(st, this)
        for a, b in dinv(S, this, None, None).items():
            X.check(st, b, "precondition of ParcelDecoder::decode: " + a, n, kind="pre")
        data, curr, (mem, sz, et) = obj(S, this)
        o0, k, N = curr.off, K(S), st.ghost["N"]
        bad = st.copy()
        bad.assume(z3.Or(sz - o0 < W, u64(X, mem, o0) > sz - o0 - W))
        X.pending.append(bad)
        r, o1 = fresh("decoded", STR), fresh("curr", I_)
        p = X.rv(st, args[0])
        X.write(st, p.place if isinstance(p, PtrP) else p, r)
        X.write(st, S.fp(this, "mCurr"), BPtr(data.block, o1, CH))
        for b in dinv(S, this, None, None).values():
            st.assume(b)
        st.assume(z3.Implies(z3.And(layout(mem, N), 0 <= k, k < N, pos(N) <= sz, o0 == pos(k)), z3.And(same(r, item(k)), o1 == pos(k + 1))))
        step(S)
        return [(st, VOID)]
    encs.model = enc_model
    getdata = Contract("ParcelEncoder::getData", setup=enc_setup, pre=lambda S: dict(einv(S, S.this, K(S)), **{"all announced strings were encoded": pos(K(S)) == S.rd(S.this, "mSize")}),
                       post=lambda S: {"the buffer from its start": z3.And(z3.BoolVal(isinstance(S.ret, BPtr) and S.ret.block == BUF), S.ret.off == 0)})
    getlen = Contract("ParcelEncoder::getSize", setup=enc_setup, pre=lambda S: dict(einv(S, S.this, K(S)), **{"all announced strings were encoded": pos(K(S)) == S.rd(S.this, "mSize")}),
                      post=lambda S: {"the announced size": S.ret == S.rd(S.this, "mSize")})

    def newenc_post(S):
        data, curr = X.read(S.st, S.fp(S.this, "mData")), X.read(S.st, S.fp(S.this, "mCurr"))
        mem, n, _ = S.st.blocks[data.block]
        return {"an empty buffer of the reserved size": z3.And(data.off == 0, curr.off == 0, z3.BoolVal(curr.block == data.block), n == S.pre.rd(S.pre.pl("allocator"), "mSize"), S.rd(S.this, "mSize") == n)}
    newenc = Contract("ParcelEncoder::ParcelEncoder", nparams=1, sig="ParcelAllocator", post=newenc_post, mods="any")

    # ---- decoder
    def decs_pre(S):
        return dinv(S, S.this, None, None)

    def curr_off(S):
        return X.read(S.st, S.fp(S.this, "mCurr")).off

    def decs_post(S):
        k, n = z3.Int("pk"), z3.Int("pn")
        mem = S.pre.st.blocks[BUF][0]
        o0, o1 = curr_off(S.pre), curr_off(S)
        r = X.read(S.st, S.deref("str"))
        sz = S.rd(S.this, "mSize")
        hyp = z3.And(layout(mem, n), 0 <= k, k < n, pos(n) <= sz, o0 == pos(k))
        return dict(dinv(S, S.this, None, None), **{
            "the length comes first, then as many bytes": z3.And(lib.slen(r) == u64(X, mem, o0), o1 == o0 + W + lib.slen(r)),
            "the string is those bytes": z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < lib.slen(r)), lib.sat(r, j) == z3.Select(mem, o0 + W + j)), patterns=[lib.sat(r, j)]),
            "in an encoded record: the next string, then the position after it": z3.Implies(z3.And(hyp, pos(k + 1) == pos(k) + W + lib.slen(item(k))), z3.And(same(r, item(k)), o1 == pos(k + 1)))})

    def decs_throws(S):
        mem, sz, _ = S.pre.st.blocks[BUF]
        o0 = curr_off(S.pre)
        k, n = z3.Int("pk"), z3.Int("pn")
        return {"only if fewer bytes are left than announced": z3.Or(sz - o0 < W, u64(X, mem, o0) > sz - o0 - W)}
    decs = Contract("ParcelDecoder::decode", sig="std::string", setup=dec_setup, pre=decs_pre, post=decs_post, throws=decs_throws,
                    mods=lambda S: [S.fp(S.this, "mCurr"), S.deref("str")])
    decs.model = dec_model

    # ---- formula paths: both strings, in the same order when written and read
    def path_setup(name):
        def f(S):
            e = S.deref(name)
            buffer(S, S.fp(e, "mData"), S.fp(e, "mCurr"))
            S.st.ghost["N"] = z3.Int("N")
        return f
    E = lambda S: S.deref("encoder")
    write = Contract("FormulaPath::writeToParcel", setup=path_setup("encoder"), mods="any",
                     pre=lambda S: dict(einv(S, E(S), K(S)), **{"its strings are the next ones of the record": z3.And(S.fld("xmlId") == item(K(S)), S.fld("xpath") == item(K(S) + 1), item(K(S) + 2) == item(K(S) + 2)), "room was reserved": pos(K(S) + 2) <= S.rd(E(S), "mSize")}),
                     post=lambda S: dict(einv(S, E(S), K(S.pre) + 2), **{"exactly its two strings were written": K(S) == K(S.pre) + 2}))
    D = lambda S: S.deref("decoder")
    read = Contract("FormulaPath::readFromParcel", setup=path_setup("decoder"), mods="any",
                    pre=lambda S: dict(dinv(S, D(S), None, None), **{"in an encoded record": z3.And(layout(S.st.blocks[BUF][0], S.g("N")), 0 <= K(S), K(S) + 2 <= S.g("N"), pos(S.g("N")) <= S.rd(D(S), "mSize"), X.read(S.st, S.fp(D(S), "mCurr")).off == pos(K(S)))}),
                    post=lambda S: {"the two strings that were written": z3.And(same(S.fld("xmlId"), item(K(S.pre))), same(S.fld("xpath"), item(K(S.pre) + 1))),
                                    "position after them": X.read(S.st, S.fp(D(S), "mCurr")).off == pos(K(S.pre) + 2)})
    newdec = Contract("ParcelDecoder::ParcelDecoder", nparams=2, params={"data": lambda X_, st, fr, ty: (st.blocks.__setitem__(BUF, (z3.Const("buf", z3.ArraySort(I_, I_)), z3.Int("buf_size"), CH)), BPtr(BUF, z3.IntVal(0), CH))[1]},
                      mods="any", post=lambda S: {"at the start of the data": z3.And(curr_off(S) == 0, X.read(S.st, S.fp(S.this, "mData")).off == 0, S.rd(S.this, "mSize") == S.pre["size"])})
    return [reserve, reserve0, getsize, fsize, encs, getdata, getlen, newenc, decs, newdec, write, read]
