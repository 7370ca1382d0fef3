"""CRC of the index image: the checksum of a byte string is the fold of one byte step; feeding it piecewise is the same as feeding it whole."""
import z3
from sx import *
from vals import BPtr
TU = '''
#include "third_party/common/crc32/crc32.c"
'''
LANG = "c"
M32 = (1 << 32) - 1
U8 = Ty("int", None)


def contracts(X):
    I_ = z3.IntSort()
    BYTES = z3.ArraySort(I_, I_)
    step = z3.Function("crc_step", I_, I_, I_)                 # one byte
    fold = z3.Function("crc_fold", BYTES, I_, I_, I_, I_)      # (bytes, first, count, state) -> state
    m, a, n, c, b = z3.Const("cf_m", BYTES), z3.Int("cf_a"), z3.Int("cf_n"), z3.Int("cf_c"), z3.Int("cf_b")
    X.axioms += [z3.ForAll([m, a, c], fold(m, a, 0, c) == c, patterns=[fold(m, a, 0, c)]),
                 z3.ForAll([m, a, n, c], z3.Implies(n > 0, fold(m, a, n, c) == step(fold(m, a, n - 1, c), z3.Select(m, a + n - 1))), patterns=[fold(m, a, n, c)])]
    inv32 = lambda x: z3.BV2Int(z3.Int2BV(x, 32) ^ z3.Int2BV(z3.IntVal(M32), 32))

    def buf(X, st, fr, ty):
        k = ("blk", "crcbuf")
        u8 = I(8, False)
        st.blocks[k] = (z3.Const("buf_mem", BYTES), z3.Int("buf_size"), u8)
        i = z3.Int("bb")
        st.assume(z3.ForAll([i], z3.And(z3.Select(z3.Const("buf_mem", BYTES), i) >= 0, z3.Select(z3.Const("buf_mem", BYTES), i) < 256), patterns=[z3.Select(z3.Const("buf_mem", BYTES), i)]))
        return BPtr(k, z3.IntVal(0), u8)

    def pre(S):
        # the step function is, by definition, what one byte does: crc32_tab[(c ^ b) & 0xff] ^ (c >> 8)
        tab = S.X.read(S.st, S.X.gplace("crc32_tab"))
        x8 = z3.BV2Int(z3.Int2BV(c, 32) ^ z3.Int2BV(b, 32))
        t = z3.Select(tab, x8 % 256)
        S.st.assume(z3.ForAll([c, b], step(c, b) == z3.BV2Int(z3.Int2BV(t, 32) ^ z3.Int2BV(c / 256, 32)), patterns=[step(c, b)]))
        return {"the buffer has the given size": z3.And(S["size"] >= 0, S["size"] == z3.Int("buf_size"))}

    def post(S):
        return {"fold of the byte step over exactly the given bytes": S.ret == inv32(fold(z3.Const("buf_mem", BYTES), z3.IntVal(0), S.pre["size"], inv32(S.pre["crc"])))}

    def inv(S):
        k = S.raw("p").off
        return {"bytes left": z3.And(k >= 0, S["size"] >= 0, S["size"] + k == S.pre["size"]),
                "state after the bytes read": S["crc"] == fold(z3.Const("buf_mem", BYTES), z3.IntVal(0), k, inv32(S.pre["crc"]))}
    # running checksum over consecutive records = checksum of the concatenation (induction on the second count)
    a2, n1, n2 = z3.Int("cl_a"), z3.Int("cl_n1"), z3.Int("cl_n2")
    whole = lambda k: fold(m, a2, n1 + k, c) == fold(m, a2 + n1, k, fold(m, a2, n1, c))
    X.lemma("piecewise checksum, base", z3.ForAll([m, a2, n1, c], z3.Implies(n1 >= 0, whole(z3.IntVal(0)))))
    X.lemma("piecewise checksum, step", z3.Implies(z3.And(n1 >= 0, n2 >= 0, whole(n2)), whole(n2 + 1)))
    return [Contract("crc32", pre=pre, post=post, params={"buf": buf}, loops=[Loop(inv=inv)])]
