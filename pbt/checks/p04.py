"""P04 the symmetry operators are the point group"""
from hypothesis import strategies as st
import numpy as np
from ..core import Property, expect, sut
from ..field import vec
from ..util import same_vec, pure
from .. import gen, sym, geom as G
from ..gen import ICO, DODE

import pyqcstrc.ico2.symmetry as isy
import pyqcstrc.dode2.symmetry as dsy

P = Property("P04", "Symmetry operations are the point group",
             rule="a case is non-trivial when the operation is not the identity and the vector is not fixed by it",
             assumptions=["vectors and centres with components up to 10**5 and denominators up to 6"])


def ops(S):
    r = sut(isy.icosasymop) if S is ICO else sut(dsy.dodesymop)
    out = []
    for m in r:
        a = np.asarray(m)
        expect(a.shape == (6, 6), "a symmetry operation has shape %s", a.shape)
        expect((a == np.round(a)).all(), "a symmetry operation is not integer: %s", a.tolist())
        out.append(tuple(tuple(int(x) for x in row) for row in a))
    return out


def v6():
    t = st.one_of(gen.triple(3, 2, 2), gen.triple(9, 9, 4), gen.triple(10 ** 5, 10 ** 5, 6), st.just([0, 0, 1]))
    return st.lists(t, min_size=6, max_size=6)


def make(S, Y, tag):
    F, A = S.F, gen.arr
    n = 120 if S is ICO else 24

    @P.sub(tag + "_group", fixed=True, examples=[["all"]])
    def whole(case):
        o = ops(S)
        expect(len(o) == n, "%s: %d operations instead of %d", tag, len(o), n)
        expect(len(set(o)) == n, "%s: only %d of the %d operations are different", tag, len(set(o)), n)
        ref = sym.group(S)
        for i, m in enumerate(o):
            expect(m in ref, "%s: operation %d %s is not a symmetry of the lattice and of both spaces", tag, i, m)
        expect(o[0] == tuple(tuple(int(i == j) for j in range(6)) for i in range(6)), "%s: operation 0 is not the identity", tag)
        return "all"

    @P.sub(tag + "_apply", st.tuples(st.integers(0, n - 1), st.integers(0, n - 1), v6(), v6()).map(list), quick=2000, thorough=20000)
    def apply(case):
        i, j, v, c = case
        raw = sut(isy.icosasymop) if S is ICO else sut(dsy.dodesymop)
        o = ops(S)
        expect(len(o) == n, "%s: %d operations instead of %d", tag, len(o), n)
        V, C = vec(F, v), vec(F, c)
        d = G.sub(V, C)
        # acting around a centre
        ref = sym.act(o[i], V, C, F)
        w = pure(Y.symop_vec, raw[i], A(v), A(c))
        same_vec(F, w, ref, tag + ".symop_vec")
        W = vec(F, w)
        # lengths about the centre are kept in both spaces
        e = G.sub(W, C)
        for nm, pr in (("physical", S._par), ("internal", S._perp)):
            expect(G.dot(pr(e), pr(e)) == G.dot(pr(d), pr(d)), "%s: operation %d changes a length in %s space", tag, i, nm)
        # composition stays in the list
        ab = tuple(tuple(sum(o[i][r][k] * o[j][k][q] for k in range(6)) for q in range(6)) for r in range(6))
        expect(ab in set(o), "%s: product of operations %d and %d is not an operation", tag, i, j)
        w2 = pure(Y.symop_vec, raw[i], sut(Y.symop_vec, raw[j], A(v), A(c)), A(c))
        same_vec(F, w2, sym.act(ab, V, C, F), tag + ": two operations in turn")
        return "moved" if ref != V else "-fixed"

    @P.sub(tag + "_containers", st.tuples(
        st.integers(0, n - 1), gen.crowd(st.integers(1, 5).flatmap(lambda k: st.lists(st.lists(v6(), min_size=k, max_size=k), min_size=1, max_size=5))),
        v6(), st.sampled_from([2, 3, 4, 4])).map(list), quick=1000, thorough=10000)
    def containers(case):
        """a vector, a set of vectors, a set of cells: every member moves as on its own"""
        i, o, c, nd = case
        raw = sut(isy.icosasymop) if S is ICO else sut(dsy.dodesymop)
        m = ops(S)[i]
        C = vec(F, c)
        img = [[sym.act(m, vec(F, v), C, F) for v in t] for t in o]
        if nd == 2:
            same_vec(F, pure(Y.symop_obj, raw[i], A(o[0][0]), A(c)), img[0][0], tag + ".symop_obj (vector)")
        elif nd == 3:
            r = pure(Y.symop_obj, raw[i], A(o[0]), A(c))
            expect(np.shape(r) == (len(o[0]), 6, 3), "%s.symop_obj shape %s", tag, np.shape(r))
            for a, b in zip(r, img[0]):
                same_vec(F, a, b, tag + ".symop_obj (set of vectors)")
        else:
            r = pure(Y.symop_obj, raw[i], A(o), A(c))
            expect(np.shape(r) == (len(o), len(o[0]), 6, 3), "%s.symop_obj shape %s", tag, np.shape(r))
            for t, u in zip(r, img):
                for a, b in zip(t, u):
                    same_vec(F, a, b, tag + ".symop_obj (set of cells)")
        # back again, by the inverse operation
        inv = tuple(zip(*m)) if S is ICO else None
        if inv in ops(S) and nd == 4:
            back = pure(Y.symop_obj, raw[ops(S).index(inv)], r, A(c))
            for t, u in zip(back, o):
                for a, b in zip(t, u):
                    same_vec(F, a, vec(F, b), tag + ": an operation and its inverse")
        return "moved" if any(x != vec(F, y) for t, u in zip(img, o) for x, y in zip(t, u)) else "-fixed"


make(ICO, isy, "ico")
make(DODE, dsy, "dode")
