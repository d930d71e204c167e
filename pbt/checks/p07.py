"""P07 exact volume / area of occupation domains"""
from hypothesis import strategies as st
import numpy as np
from ..core import Property, expect, sut
from ..field import vec, from_triple
from ..util import pure, same_num
from .. import gen, geom as G
from ..gen import ICO, DODE

import pyqcstrc.ico2.occupation_domain as iod
import pyqcstrc.dode2.occupation_domain as dod
import pyqcstrc.ico2.utils as iut
import pyqcstrc.dode2.utils as dut

P = Property("P07", "Exact volume and area",
             rule="a case is non-trivial when the exact volume (area) is not zero",
             assumptions=["vertices with components up to 10**4 (denominators up to 2) or up to 9 (denominators up to 4)"])


def vs(S):
    z = st.lists(gen.triple(9, 9, 4), min_size=6, max_size=6)
    h = st.one_of(st.lists(gen.triple(9, 6, 1), min_size=6, max_size=6), st.lists(gen.triple(10 ** 4, 10 ** 4, 2), min_size=6, max_size=6))
    if S is DODE:
        flat = lambda v: v[:5] + [[0, 0, 1]]
        return st.one_of(gen.vec6d(2, (1, 2)), z.map(flat), h.map(flat))
    return st.one_of(gen.vec6(2, (1, 2)), st.sampled_from(gen.ICO_VERTS), z, h)


def make(S, O, U, tag):
    F, A, k = S.F, gen.arr, S.k

    @P.sub(tag + "_exact", st.tuples(gen.crowd(st.lists(st.lists(vs(S), min_size=k, max_size=k), min_size=1, max_size=6)),
                                     st.sampled_from([3, 4, 4, 5])).map(list), quick=3000, thorough=40000)
    def exact(case):
        o, nd = case
        if nd == 3:
            ref = S.meas(o[0])
            r = pure(O.volume, A(o[0]))
        else:
            ref = G.total(F, [S.meas(c) for c in o])
            r = pure(O.volume, A(o)) if nd == 4 else pure(O.volume, A([o, o]))
            if nd == 5:
                ref = ref * 2
        same_num(F, r, ref, tag + ".volume")
        return "ndim %d" % nd if ref else "-flat"

    @P.sub(tag + "_relations", st.tuples(gen.convex_obj(S, 2, gen.cell(S, 2, (1, 2))), st.permutations(list(range(k))),
                                         S.vs(2, (1, 2)), st.integers(0, 119 if S is ICO else 23)).map(list),
           quick=400, thorough=6000)
    def relations(case):
        o, perm, s, i = case
        whole = G.total(F, [S.meas(c) for c in o])
        same_num(F, pure(O.volume, A(o)), whole, tag + ": volume of a subdivided cell")
        q = [[c[j] for j in perm] for c in o[::-1]]
        same_num(F, pure(O.volume, A(q)), whole, tag + ": volume after reordering vertices and cells")
        same_num(F, pure(O.volume, sut(O.shift, A(o), A(s))), whole, tag + ": volume after a shift")
        same_num(F, pure(O.volume, sut(O.symmetric_0, A(o), A(s), i)), whole, tag + ": volume after a symmetry operation")
        if len(o) == 1 and i < 3:
            n = 120 if S is ICO else 24
            same_num(F, pure(O.volume, sut(O.symmetric, A(o), A(s))), whole * n, tag + ": volume of the symmetric domain")
        u = [[[[3 * x for x in t] for t in v] for v in c] for c in o]
        same_num(F, pure(O.volume, A(u)), whole, tag + ": volume from unreduced coordinates")
        return "subdivided" if len(o) > 1 else "single"

    @P.sub(tag + "_cell", st.lists(st.lists(st.one_of(gen.triple(9, 9, 4), gen.triple(2, 1, 2), gen.triple(10 ** 4, 10 ** 4, 2)), min_size=3, max_size=3), min_size=k, max_size=k),
           quick=2500, thorough=40000)
    def cell(case):
        t = [vec(F, p) for p in case]
        if S is ICO:
            ref = G.tet_vol(t)
            r = pure(U.tetrahedron_volume, A(case))
        else:
            case = [p[:2] + [[0, 0, 1]] for p in case]
            ref = G.tri_area2d([p[:2] for p in t])
            r = pure(U.triangle_area, A(case))
        same_num(F, r, ref, tag + ": measure of a cell given in internal space")
        return "cell" if ref else "-flat"


make(ICO, iod, iut, "ico")
make(DODE, dod, dut, "dode")
