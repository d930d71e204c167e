"""P23 similarity transformation (dodecagonal)"""
import numpy as np
from hypothesis import strategies as st
from ..core import Property, expect, need
from ..field import vec
from ..util import pure, obj_shape, as_num, same_vec
from ..region import judge, same_region
from .. import gen, sym, geom as G

import pyqcstrc.dode2.symmetry as dsy
import pyqcstrc.dode2.occupation_domain as dod
import pyqcstrc.dode2.two_occupation_domains as dtw
import pyqcstrc.dode2.math1 as dm

P = Property("P23", "Similarity transformations are exact similarities",
             rule="a case is non-trivial when the exponent is not zero",
             assumptions=["exponents from -45 to 45 (-6 to 6 for domains)", "components up to 9, denominators up to 4"])
S, F, A = gen.DODE, gen.DODE.F, gen.arr
ROOT3 = F(0, 2, 1)
UP, DOWN = F(2) + ROOT3, F(2) - ROOT3


def power(x, m):
    r = F(1)
    for _ in range(abs(m)):
        r = r * x
    return r if m >= 0 else F(1) / r


def exps(m):
    return st.one_of(st.integers(-3, 3), st.integers(-m, m))


def vs():
    return st.one_of(gen.vec6d(2, (1, 2)), st.lists(gen.triple(9, 9, 4), min_size=6, max_size=6))


def xy(p):
    return p[:2]


@P.sub("vectors", st.tuples(vs(), vs(), exps(45), exps(6)).map(list), quick=3000, thorough=40000)
def vectors(case):
    u, v, m, k = case
    f = need(dsy, "similarity_vec")
    U, V = vec(F, u), vec(F, v)
    ru, rv = pure(f, A(u), m), pure(f, A(v), m)
    Ru, Rv = vec(F, ru.tolist()), vec(F, rv.tolist())
    w = "similarity, exponent %d" % m
    expect(Ru[4:] == U[4:] and Rv[4:] == V[4:], "%s changes a coordinate along the periodic axis", w)
    for proj, fac, name in ((S._par, power(UP, m), "physical"), (S._perp, power(DOWN, m), "internal")):
        a, b, c, d = xy(proj(U)), xy(proj(V)), xy(proj(Ru)), xy(proj(Rv))
        expect(G.dot(c, c) == G.dot(a, a) * fac, "%s: squared length in %s space is not scaled by (2%s3^0.5)^m", w, name,
               "+" if name == "physical" else "-")
        expect(G.dot(c, d) == G.dot(a, b) * fac, "%s: an angle in %s space changes", w, name)
        expect(G.cross2(c, d) == G.cross2(a, b) * fac, "%s: orientation in %s space changes", w, name)
    back = pure(f, ru, -m)
    expect(vec(F, back.tolist()) == U, "%s followed by exponent %d does not give the vector back", w, -m)
    expect(vec(F, pure(f, pure(f, A(u), m), k).tolist()) == vec(F, pure(f, A(u), m + k).tolist()),
           "exponent %d then %d is not exponent %d", m, k, m + k)
    if m == 0:
        expect(Ru == U, "exponent 0 changes a vector")
    same_vec(F, ru.tolist(), Ru, w)
    return "scaled" if m else "-identity"


@P.sub("lattice", st.integers(-45, 45), quick=300, thorough=800)
def lattice(m):
    M = np.asarray(pure(need(dsy, "similarity"), m))
    expect(M.shape == (6, 6), "similarity(%d) has shape %s", m, M.shape)
    I = [[int(round(float(x))) for x in r] for r in M.tolist()]
    expect(all(float(M[i][j]) == I[i][j] for i in range(6) for j in range(6)), "similarity(%d) is not an integer matrix", m)
    for i in range(6):
        e = [[int(i == j), 0, 1] for j in range(6)]
        col = tuple(F(I[r][i]) for r in range(6))
        expect(vec(F, pure(dsy.similarity_vec, A(e), m).tolist()) == col, "similarity(%d) and its action on a vector differ", m)
    return "matrix" if m else "-identity"


@P.sub("domains", st.tuples(gen.any_obj(S), exps(6)).map(list), quick=600, thorough=8000)
def domains(case):
    o, m = case
    w = "similarity of a domain, exponent %d" % m
    r = obj_shape(pure(need(dod, "similarity"), A(o), m), 3, w)
    expect(len(r) == len(o), "%s: %d triangles from %d", w, len(r), len(o))
    for a, b in zip(r, o):
        for x, y in zip(a, b):
            expect(vec(F, x) == vec(F, pure(dsy.similarity_vec, A(y), m).tolist()), "%s: a vertex is not the image of the vertex", w)
    for a, b in zip(pure(dsy.similarity_triangle, A(o[0]), m).tolist(), r[0]):
        expect(vec(F, a) == vec(F, b), "%s: image of a single triangle differs", w)
    fac = power(DOWN, m)
    ar = as_num(F, pure(dod.volume, A(r)), "area")
    a0 = as_num(F, pure(dod.volume, A(o)), "area")
    expect(ar == a0 * fac, "%s: the area is not scaled by (2-3^0.5)^m", w)
    return "scaled" if m else "-identity"


@P.sub("intersection", st.tuples(gen.pair_cells(S), st.sampled_from((-2, -1, 1, 2))).map(list), quick=120, thorough=3000)
def intersection(case):
    (a, b), m = case
    sa, sb = (pure(dod.similarity, A(x), m) for x in (a, b))

    def fn():
        r0 = obj_shape(pure(dtw.intersection, A(a), A(b)), 3, "intersection")
        r1 = obj_shape(pure(dtw.intersection, sa, sb), 3, "intersection of similar domains")
        expect(bool(r0) == bool(r1), "intersection of similar domains: %d cells against %d", len(r1), len(r0))
        if not r0:
            return "-apart"
        same_region(S, r1, pure(dod.similarity, A(r0), m).tolist(), "intersection of similar domains")
        return "overlap"
    return judge(S, [(a, b), (sa.tolist(), sb.tolist())], fn)
