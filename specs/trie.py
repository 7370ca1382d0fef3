"""In-memory formula trie: insertion and lookup of encoded expressions."""
import z3
from sx import *
import vectormap
from vectormap import TU, HEAP, TOK, VM


class Trie:
    def __init__(self, X):
        self.X, self.vm = X, X.vm
        self.nodety = Ty("rec", "TmpIndexNode")

    def data(self, H, r):
        """children vector of node r in heap array H"""
        return self.vm.data(z3.Select(H, r))

    def child(self, H, r, k):
        """Child of r under token k (0 when there is none)."""
        d = self.data(H, r)
        return self.vm.get(d, k)

    def posf(self, a, n, k):
        return self.vm.posf(a, n, k)

    def H(self, S):
        return S.heap("TmpIndexNode", "children")

    def wf(self, H, alloc, cap=(1 << 31) - 2):
        r, i = z3.Ints("wf_r wf_i")
        d = self.data(H, r)
        v = self.vm.val(d, i)
        return z3.And(
            z3.ForAll([r], z3.Implies(z3.Select(alloc, r), z3.And(self.vm.sorted(d), self.vm.len(d) >= 0, self.vm.len(d) < cap)),
                      patterns=[z3.Select(H, r)]),
            z3.ForAll([r, i], z3.Implies(z3.And(z3.Select(alloc, r), 0 <= i, i < self.vm.len(d)),
                                         z3.And(v > 0, z3.Select(alloc, v))), patterns=[z3.Select(self.X.so.vec_arr(d), i)]))


def contracts(X):
    cs = vectormap.contracts(X)
    T = Trie(X)
    vm = T.vm
    so = X.so
    toky = so.of(TOK)
    tokv = lambda S: S.deref("encodedFormula") if False else None

    def seq(S):
        v = S.z("encodedFormula")
        return so.vec_arr(v), so.vec_len(v)

    def pre(S):
        H = T.H(S)
        root = S.fld("mRoot")
        arr, n = seq(S)
        nid = S.glob("TmpLeafNode::nextId")
        return {"the expression is not empty": n > 0,
                "expressions have fewer than 2^31 tokens": n < (1 << 31),
                "the trie is well formed": z3.And(root > 0, z3.Select(S.alloc, root), T.wf(H, S.alloc)),
                "null is not an object": z3.Not(z3.Select(S.alloc, 0)),
                "fewer than 2^32-1 distinct expressions": nid < (1 << 32) - 1}

    def setup(S):
        S.st.ghost["path"] = z3.Const("path0", z3.ArraySort(z3.IntSort(), z3.IntSort()))
        S.st.ghost["pos"] = z3.Const("pos0", z3.ArraySort(z3.IntSort(), z3.IntSort()))
        S.st.ghost["brk"] = z3.IntVal(-1)
        S.st.ghost["Hs"] = T.H(S)
        S.st.ghost["As"] = S.alloc

    def body(S):
        st = S.st
        cur, i = S["currentNode"], S.k
        H = T.H(S)
        arr, n = seq(S)
        st.ghost["path"] = z3.Store(st.ghost["path"], i, cur)
        st.ghost["pos"] = z3.Store(st.ghost["pos"], cur, i)
        st.ghost["brk"] = z3.If(z3.And(st.ghost["brk"] == -1, T.child(H, cur, z3.Select(arr, i)) == 0), i, st.ghost["brk"])
        st.ghost["Hs"] = H
        st.ghost["As"] = S.alloc
        for g in ("path", "pos", "brk", "Hs", "As"):
            st.wrote(("ghost", g))

    def leave(S):
        S.st.ghost["Hs"] = T.H(S)
        S.st.ghost["As"] = S.alloc
        S.st.wrote(("ghost", "Hs"))
        S.st.wrote(("ghost", "As"))

    def edges(S, i, cur, path, pos, brk):
        """H is H0 plus the missing part of the path up to node number i (= cur)."""
        H, H0 = T.H(S), T.H(S.pre)
        a0 = S.pre.alloc
        arr, n = seq(S.pre)
        j, r = z3.Ints("pj pr")
        k = z3.Const("pk", toky)
        at = lambda q: z3.Select(path, q)
        e = lambda q: z3.Select(arr, q)
        old_same = z3.ForAll([r, k], z3.Implies(z3.And(z3.Select(a0, r), z3.Or(brk < 0, r != at(brk), k != e(brk))),
                                                T.child(H, r, k) == T.child(H0, r, k)),
                             patterns=[T.posf(so.vec_arr(T.data(H, r)), so.vec_len(T.data(H, r)), k)])
        newn = z3.ForAll([r, k], z3.Implies(z3.And(z3.Select(S.alloc, r), z3.Not(z3.Select(a0, r)), T.child(H, r, k) != 0),
                                            z3.And(z3.Select(pos, r) >= 0, z3.Select(pos, r) < i, r == at(z3.Select(pos, r)), k == e(z3.Select(pos, r)))),
                         patterns=[T.posf(so.vec_arr(T.data(H, r)), so.vec_len(T.data(H, r)), k)])
        path_ok = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), z3.And(
            at(j) > 0, z3.Select(S.alloc, at(j)), T.child(H, at(j), e(j)) == z3.If(j + 1 == i, cur, at(j + 1)))), patterns=[at(j)])
        return old_same, newn, path_ok

    def inv(S):
        i, cur = S.k, S["currentNode"]
        H, H0 = T.H(S), T.H(S.pre)
        a0, a = S.pre.alloc, S.alloc
        root = S.pre.fld("mRoot")
        arr, n = seq(S.pre)
        path, pos, brk = S.g("path"), S.g("pos"), S.g("brk")
        r = z3.Int("ir")
        old_same, newn, path_ok = edges(S, i, cur, path, pos, brk)
        at = lambda q: z3.Select(path, q)
        k = z3.Const("ik", toky)
        Hs, As = S.g("Hs"), S.g("As")
        return {
            "a step never removes or redirects an edge": z3.ForAll([r, k], z3.Implies(z3.And(z3.Select(As, r), T.child(Hs, r, k) != 0), T.child(H, r, k) == T.child(Hs, r, k)),
                patterns=[T.posf(so.vec_arr(T.data(Hs, r)), so.vec_len(T.data(Hs, r)), k)]),
            "the last edge leads to the current node": z3.Implies(i > 0, T.child(H, at(i - 1), z3.Select(arr, i - 1)) == cur),
            "cursor": z3.And(0 <= i, i <= n - 1),
            "current node": z3.And(cur > 0, z3.Select(a, cur), at(0) == z3.If(i == 0, at(0), root), z3.Implies(i == 0, cur == root)),
            "null is not an object": z3.Not(z3.Select(a, 0)),
            "the trie is well formed": T.wf(H, a, (1 << 31) - 1),
            "room for one more child": z3.Implies(brk == -1, T.wf(H, a)),
            "allocation only grows": z3.ForAll([r], z3.Implies(z3.Select(a0, r), z3.Select(a, r)), patterns=[z3.Select(a0, r)]),
            "the path taken spells the prefix": path_ok,
            "old edges are kept and only the missing one is added": old_same,
            "new nodes lie on the path only": newn,
            "break point": z3.And(brk >= -1, brk < i, z3.Implies(brk >= 0, z3.And(
                z3.Select(a0, at(brk)), T.child(H0, at(brk), z3.Select(arr, brk)) == 0,
                z3.Not(z3.Select(a0, cur)), vm.len(T.data(H, cur)) == 0))),
            "nothing is created while the prefix exists": z3.Implies(brk == -1, z3.And(z3.Select(a0, cur))),
        }

    def post(S):
        H, H0 = T.H(S), T.H(S.pre)
        a0, a = S.pre.alloc, S.alloc
        root = S.pre.fld("mRoot")
        arr, n = seq(S.pre)
        path, pos, brk = S.g("path"), S.g("pos"), S.g("brk")
        last = S["currentNode"]
        ret = S.ret
        path = z3.Store(path, n - 1, last)
        pos = z3.Store(pos, last, n - 1)
        lastnew = T.child(H0, last, z3.Select(arr, n - 1)) == 0
        brk = z3.If(z3.And(brk == -1, lastnew), n - 1, brk)
        old_same, newn, path_ok = edges(S, n, ret, path, pos, brk)
        absent = brk >= 0
        id0, id1 = S.pre.heap("TmpLeafNode", "id"), S.heap("TmpLeafNode", "id")
        s0, s1 = S.pre.heap("TmpLeafNode", "solutions"), S.heap("TmpLeafNode", "solutions")
        nid0, nid1 = S.pre.glob("TmpLeafNode::nextId"), S.glob("TmpLeafNode::nextId")
        r = z3.Int("fr")
        at = lambda q: z3.Select(path, q)
        k = z3.Const("ik", toky)
        Hs, As = S.g("Hs"), S.g("As")
        return {
            "the last step never removes or redirects an edge": z3.ForAll([r, k], z3.Implies(z3.And(z3.Select(As, r), T.child(Hs, r, k) != 0), T.child(H, r, k) == T.child(Hs, r, k)),
                patterns=[T.posf(so.vec_arr(T.data(Hs, r)), so.vec_len(T.data(Hs, r)), k)]),
            "the last edge leads to the returned leaf": T.child(H, at(n - 1), z3.Select(arr, n - 1)) == ret,
            "the trie stays well formed": T.wf(H, a, (1 << 31) - 1),
            "looking the expression up now reaches the returned leaf": z3.And(ret > 0, at(0) == root, path_ok),
            "every edge for other expressions is unchanged": old_same,
            "nodes created lie on the path of this expression only": newn,
            "the leaf is created only when the expression was absent": z3.If(
                absent, z3.And(z3.Not(z3.Select(a0, ret)), z3.Select(a0, at(brk)), T.child(H0, at(brk), z3.Select(arr, brk)) == 0),
                z3.Select(a0, ret)),
            "a new expression gets the next, never used id; a known one keeps its": z3.If(
                absent, z3.And(nid1 == nid0 + 1, z3.Select(id1, ret) == nid0 + 1), nid1 == nid0),
            "a new expression starts with zero hits": z3.Implies(absent, z3.Select(s1, ret) == 0),
            "ids and hits of existing expressions are untouched": z3.ForAll([r], z3.Implies(z3.Select(a0, r), z3.And(
                z3.Select(id1, r) == z3.Select(id0, r), z3.Select(s1, r) == z3.Select(s0, r))))}
    ins = Contract("mws::index::TmpIndex::insertData", pre=pre, setup=setup, post=post,
                   mods=lambda S: [("heap", "TmpIndexNode", "children"), ("heap", "TmpLeafNode", "id"), ("heap", "TmpLeafNode", "solutions"),
                                   ("glob", "mws::index::TmpLeafNode::nextId"), ("ghost", "path"), ("ghost", "pos"), ("ghost", "brk"), ("ghost", "Hs"), ("ghost", "As"), ("alloc",)],
                   loops=[Loop(inv=inv, dec=lambda S: seq(S.pre)[1] - S.k, bodyghost=body, exitghost=leave, ghost=("path", "pos", "brk", "Hs", "As"), chain=True)], chain=True)

    def gc_post(S):
        d = T.data(T.H(S.pre), S.pre["node"])
        return {"the child under that token, or null when there is none": S.ret == vm.get(d, S.pre.z("token"))}
    node_pre = lambda S: {"node is an object": z3.And(S["node"] > 0, z3.Select(S.alloc, S["node"])),
                          "children are strictly ordered by key": z3.And(vm.sorted(T.data(T.H(S), S["node"])), vm.len(T.data(T.H(S), S["node"])) >= 0,
                                                                         vm.len(T.data(T.H(S), S["node"])) < (1 << 31) - 1)}
    getchild = Contract("mws::index::TmpIndexAccessor::getChild", pre=node_pre, post=gc_post)
    getid = Contract("mws::index::TmpIndexAccessor::getFormulaId",
                     pre=lambda S: {"node is a leaf": z3.And(S["node"] > 0, z3.Select(S.alloc, S["node"]))},
                     post=lambda S: {"the id given at creation": S.ret == z3.Select(S.pre.heap("TmpLeafNode", "id"), S.pre["node"])})
    gethits = Contract("mws::index::TmpIndexAccessor::getHitsCount",
                       pre=lambda S: {"node is a leaf": z3.And(S["node"] > 0, z3.Select(S.alloc, S["node"]))},
                       post=lambda S: {"the number of occurrences counted": S.ret == z3.Select(S.pre.heap("TmpLeafNode", "solutions"), S.pre["node"])})
    return cs + [ins, getchild, getid, gethits]
