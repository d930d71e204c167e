"""P03 projections and numerical values agree with the exact coordinates"""
from math import sqrt
from hypothesis import strategies as st
import numpy as np
from ..core import Property, expect
from ..field import Tau, Sin, vec, from_triple
from ..util import same_num, same_vec, close, close_vec, pure
from .. import gen, geom as G
from ..gen import ICO, DODE

import pyqcstrc.ico2.math1 as im
import pyqcstrc.dode2.math1 as dm
import pyqcstrc.ico2.numericalc as inm
import pyqcstrc.dode2.numericalc as dnm

P = Property("P03", "Projections and numerical values",
             rule="a case is non-trivial when at least two components of the 6D vector are non-zero and one is irrational or fractional",
             assumptions=["components up to 10**6 with denominators up to 6",
                          "floating-point results are compared to 1e-11 (areas, volumes: 1e-9) relative to the size of the integers of the operands"])


def v6():
    t = st.one_of(gen.triple(3, 2, 2), gen.triple(9, 9, 4), gen.triple(40, 40, 6), gen.triple(10 ** 6, 10 ** 6, 6), st.just([0, 0, 1]), st.sampled_from([[1, 1, -2], [2, 0, -1]]))
    return st.lists(t, min_size=6, max_size=6)


def lab(v):
    n = [x for x in v if x[0] or x[1]]
    return "generic" if len(n) >= 2 and any(x[1] or x[0] % x[2] for x in n) else "-simple"


TIGHT = 1e-11


def size(t):
    """size of the integers a number is made of: sets the rounding error of its floating-point value"""
    return (abs(t[0]) + 2 * abs(t[1])) / abs(t[2]) + 0.0


def fl(v):
    return [float(x) for x in v]


def make(S, M, N, tag):
    F, A = S.F, gen.arr

    @P.sub(tag + "_exact", v6(), quick=2500, thorough=60000)
    def exact(v):
        x = vec(F, v)
        r = pure(M.projection, A(v))
        expect(r is not None and np.shape(r) == (2, 3, 3), "%s.projection has shape %s", tag, np.shape(r))
        same_vec(F, r[0], S._par(x), tag + ".projection, physical part")
        same_vec(F, r[1], S._perp(x), tag + ".projection, internal part")
        same_vec(F, pure(M.projection3, A(v)), S._perp(x), tag + ".projection3")
        return lab(v)

    if S is ICO:
        @P.sub(tag + "_lift", st.tuples(v6(), st.integers(-3, 3)).map(list), quick=1500, thorough=30000)
        def lift(case):
            v = case[0]
            w = vec(F, v)
            r = vec(F, pure(M.projection_perp, A(v)))
            expect(S._perp(r) == S._perp(w), "ico.projection_perp(%s) has internal part %s, not %s", v, S._perp(r), S._perp(w))
            expect(not any(bool(c) for c in S._par(r)), "ico.projection_perp(%s) has physical part %s, not 0", v, S._par(r))
            return lab(v)

    @P.sub(tag + "_numeric", gen.crowd(st.lists(v6(), min_size=1, max_size=4)), quick=1500, thorough=30000)
    def numeric(vs):
        xs = [vec(F, v) for v in vs]
        v, x = vs[0], xs[0]
        sc = max(size(c) for y in vs for c in y)
        close(pure(N.numeric_value, A(v[0])), float(x[0]), tag + ".numeric_value", tol=TIGHT, scale=size(v[0]))
        close_vec(pure(N.numerical_vector, A(v)), fl(x), tag + ".numerical_vector", tol=TIGHT, scale=sc)
        r = pure(N.numerical_vectors, A(vs))
        expect(np.shape(r) == (len(vs), 6), "%s.numerical_vectors has shape %s", tag, np.shape(r))
        for a, b in zip(r, xs):
            close_vec(a, fl(b), tag + ".numerical_vectors", tol=TIGHT, scale=sc)
        close(pure(N.length_numerical, A(v)), sqrt(sum(float(c) ** 2 for c in x)), tag + ".length_numerical", tol=TIGHT, scale=sc)
        # numerical projections
        f = np.array(fl(x))
        full = fl(S._par(x)) + fl(S._perp(x))
        close_vec(pure(N.projection_numerical, f), full, tag + ".projection_numerical", tol=TIGHT, scale=sc)
        close_vec(pure(N.projection3_numerical, f), full[3:], tag + ".projection3_numerical", tol=TIGHT, scale=sc)
        close_vec(pure(N.get_internal_component_numerical, A(v)), full[3:], tag + ".get_internal_component_numerical", tol=TIGHT, scale=sc)
        fs = np.array([fl(y) for y in xs])
        r1 = pure(N.projection_sets_numerical, fs)
        r2 = pure(N.projection3_sets_numerical, fs)
        r3 = pure(N.get_internal_component_sets_numerical, A(vs))
        expect(len(r1) == len(vs) and len(r2) == len(vs) and len(r3) == len(vs), "%s: a set projection lost vectors", tag)
        for y, a, b, c in zip(xs, r1, r2, r3):
            full = fl(S._par(y)) + fl(S._perp(y))
            close_vec(a, full, tag + ".projection_sets_numerical", tol=TIGHT, scale=sc)
            close_vec(b, full[3:], tag + ".projection3_sets_numerical", tol=TIGHT, scale=sc)
            close_vec(c, full[3:], tag + ".get_internal_component_sets_numerical", tol=TIGHT, scale=sc)
        return lab(v)

    @P.sub(tag + "_area", st.lists(st.lists(gen.triple(9, 9, 4), min_size=3, max_size=3), min_size=3, max_size=3), quick=1000, thorough=20000)
    def area(case):
        t = [vec(F, p) for p in case]
        n = G.cross(G.sub(t[1], t[0]), G.sub(t[2], t[0]))
        ref = sqrt(max(0.0, float(G.dot(n, n)))) / 2
        sc = 100 * max(1.0, max(abs(float(c)) for p in t for c in p) ** 2)
        close(pure(N.triangle_area, A(case)), ref, tag + ".triangle_area", scale=sc)
        close(pure(N.triangle_area_numerical, np.array([fl(p) for p in t])), ref, tag + ".triangle_area_numerical", scale=sc)
        f = [fl(p) for p in t]
        if hasattr(N, "inner_product_numerical"):
            close(N.inner_product_numerical(np.array(f[0]), np.array(f[1])), float(G.dot(t[0], t[1])), tag + ".inner_product_numerical", scale=sc)
        return "area" if ref > 1e-6 else "-flat"

    @P.sub(tag + "_volume_numeric", gen.crowd(st.lists(st.lists(gen.vec6(3, (1, 2, 3)), min_size=S.k, max_size=S.k), min_size=1, max_size=3)),
           quick=600, thorough=12000)
    def volume_numeric(case):
        if S is DODE:
            case = [[v[:5] + [[0, 0, 1]] for v in c] for c in case]
        ref = [float(S.meas(c)) for c in case]
        one = N.tetrahedron_volume_6d_numerical if S is ICO else N.triangle_volume_6d_numerical
        for c, r in zip(case, ref):
            close(pure(one, A(c)), r, tag + " numerical measure of a cell", scale=1e3)
        close(pure(N.obj_volume_6d_numerical, A(case)), sum(ref), tag + ".obj_volume_6d_numerical", scale=1e3)
        if S is ICO:
            o = np.array([[fl(p) for p in S.pts(c)] for c in case])
            close(pure(N.obj_volume_numerical, o), sum(ref), tag + ".obj_volume_numerical", scale=1e3)
            close(pure(N.tetrahedron_volume_numerical, o[0]), ref[0], tag + ".tetrahedron_volume_numerical", scale=1e3)
        return "volume" if sum(ref) > 1e-6 else "-flat"


make(ICO, im, inm, "ico")
make(DODE, dm, dnm, "dode")
