"""P02 exact vector and matrix operations"""
from hypothesis import strategies as st
import numpy as np
from ..core import Property, expect
from ..field import Tau, Sin, vec, from_triple
from ..util import same_num, same_vec, same_mat, pure
from .. import gen, geom as G

import pyqcstrc.ico2.math1 as im
import pyqcstrc.dode2.math1 as dm

P = Property("P02", "Exact vector and matrix operations",
             rule="a case is non-trivial when at least one component of each operand is irrational and non-zero",
             assumptions=["components up to 10**6 with denominators up to 6 (matrix powers: entries up to 2), so that the exact results fit in 64 bits, the "
                          "type of the arrays returned"])


def tr():
    return st.one_of(gen.triple(5, 5, 4), gen.triple(40, 40, 6), gen.triple(10 ** 6, 10 ** 6, 6), st.sampled_from([[0, 0, 1], [1, 0, 1], [0, 2, -3], [3, 0, -2]]))


def vecs(n):
    return st.lists(tr(), min_size=n, max_size=n)


def mat(n, m):
    return st.lists(vecs(m), min_size=n, max_size=n)


def irr(*xs):
    def f(x):
        if isinstance(x[0], int):
            return x[1] != 0
        return any(f(y) for y in x)
    return "irrational" if all(f(x) for x in xs) else "-rational"


def make(F, M, tag):
    V = lambda v: vec(F, v)
    A = gen.arr

    @P.sub(tag + "_vector", st.integers(1, 7).flatmap(lambda n: st.tuples(vecs(n), vecs(n), tr())).map(list),
           quick=1500, thorough=40000)
    def vector(case):
        u, v, c = case
        U, W, C = V(u), V(v), from_triple(F, c)
        same_vec(F, pure(M.add_vectors, A(u), A(v)), G.add(U, W), tag + ".add_vectors")
        same_vec(F, pure(M.sub_vectors, A(u), A(v)), G.sub(U, W), tag + ".sub_vectors")
        same_vec(F, pure(M.mul_vector, A(u), A(c)), G.scal(U, C), tag + ".mul_vector")
        same_num(F, pure(M.inner_product, A(u), A(v)), G.dot(U, W), tag + ".inner_product")
        if len(u) >= 3:
            same_vec(F, pure(M.outer_product, A(u[:3]), A(v[:3])), G.cross(U[:3], W[:3]), tag + ".outer_product")
        return irr(u, v)

    @P.sub(tag + "_sets", st.tuples(gen.crowd(st.integers(1, 3).flatmap(lambda k: st.integers(1, 3).flatmap(
        lambda n: st.lists(st.lists(vecs(6), min_size=k, max_size=k), min_size=n, max_size=n)))), tr()).map(list),
        quick=500, thorough=10000)
    def sets(case):
        o, c = case
        C = from_triple(F, c)
        r = pure(M.mul_vectors, A(o[0]), A(c))
        same_mat(F, r, [G.scal(V(v), C) for v in o[0]], tag + ".mul_vectors")
        r = pure(M.mul_vectors, A(o), A(c))
        expect(r is not None and len(r) == len(o), "%s.mul_vectors on a set of cells: %s", tag, None if r is None else len(r))
        for i in range(len(o)):
            same_mat(F, r[i], [G.scal(V(v), C) for v in o[i]], "%s.mul_vectors[%d]" % (tag, i))
        return irr(o, c)

    @P.sub(tag + "_matrix", st.tuples(st.integers(1, 4), st.integers(1, 4), st.integers(1, 4)).flatmap(
        lambda s: st.tuples(mat(s[0], s[1]), mat(s[1], s[2]), vecs(s[1]),
                            st.lists(st.lists(st.integers(-9, 9), min_size=s[1], max_size=s[1]),
                                     min_size=s[0], max_size=s[0]))).map(list), quick=800, thorough=20000)
    def matrix(case):
        m1, m2, v, im1 = case
        a, b, w = [V(r) for r in m1], [V(r) for r in m2], V(v)
        cols = list(zip(*b))
        same_mat(F, pure(M.dot_product, A(m1), A(m2)), [[G.dot(r, c) for c in cols] for r in a], tag + ".dot_product (matrix x matrix)")
        same_vec(F, pure(M.dot_product, A(m1), A(v)), [G.dot(r, w) for r in a], tag + ".dot_product (matrix x vector)")
        same_num(F, pure(M.dot_product, A(m1[0]), A(v)), G.dot(a[0], w), tag + ".dot_product (vector x vector)")
        ai = [tuple(F(x) for x in r) for r in im1]
        same_vec(F, pure(M.dot_product_1, A(im1), A(v)), [G.dot(r, w) for r in ai], tag + ".dot_product_1 (matrix x vector)")
        same_mat(F, pure(M.dot_product_1, A(im1), A(m2)), [[G.dot(r, c) for c in cols] for r in ai],
                 tag + ".dot_product_1 (matrix x matrix)")
        return irr(m1, m2, v)

    @P.sub(tag + "_det", st.lists(st.lists(st.one_of(gen.triple(9, 9, 4), gen.triple(2, 2, 1), gen.triple(10 ** 4, 10 ** 4, 4), st.just([0, 0, 1])), min_size=3, max_size=3), min_size=3, max_size=3),
           quick=1500, thorough=30000)
    def det(case):
        r = pure(M.det_matrix, A(case))
        a = [V(x) for x in case]
        same_num(F, r, G.det3(*a), tag + ".det_matrix")
        return irr(case)

    @P.sub(tag + "_centroid", gen.crowd(st.tuples(st.integers(1, 5), st.integers(2, 4)).flatmap(lambda s: st.lists(
        st.lists(st.lists(st.one_of(gen.triple(9, 9, 4), gen.triple(10 ** 4, 10 ** 4, 4)), min_size=6, max_size=6), min_size=s[1], max_size=s[1]),
        min_size=s[0], max_size=s[0]))), quick=800, thorough=15000)
    def centroid(case):
        cs = []
        for c in case:
            t = [V(v) for v in c]
            ref = tuple(G.total(F, [v[i] for v in t]) / len(t) for i in range(6))
            cs.append(ref)
            same_vec(F, pure(M.centroid, A(c)), ref, tag + ".centroid")
        ref = tuple(G.total(F, [v[i] for v in cs]) / len(cs) for i in range(6))
        same_vec(F, pure(M.centroid_obj, A(case)), ref, tag + ".centroid_obj")
        return irr(case)

    @P.sub(tag + "_power", st.integers(1, 4).flatmap(lambda n: st.tuples(
        st.lists(st.lists(st.integers(-2, 2), min_size=n, max_size=n), min_size=n, max_size=n), st.integers(-4, 6))).map(list),
        quick=800, thorough=15000)
    def power(case):
        from fractions import Fraction
        m, n = case
        k = len(m)
        b = [[Fraction(x) for x in r] for r in m]
        if n < 0:
            d = _inv(b)
            if d is None:
                return "-singular"
            b = d
        ref = [[Fraction(int(i == j)) for j in range(k)] for i in range(k)]
        for _ in range(abs(n)):
            ref = [[sum(ref[i][q] * b[q][j] for q in range(k)) for j in range(k)] for i in range(k)]
        r = np.asarray(pure(M.matrixpow, A(m), n), dtype=float)
        expect(r.shape == (k, k), "%s.matrixpow has shape %s", tag, r.shape)
        sc = max(1.0, max(abs(float(x)) for row in b for x in row)) ** max(1, abs(n)) * k ** abs(n)
        for i in range(k):
            for j in range(k):
                expect(abs(r[i, j] - float(ref[i][j])) <= 1e-9 * sc, "%s.matrixpow(%s,%d)[%d,%d]=%r, exact %s", tag, m, n, i, j,
                       r[i, j], ref[i][j])
        return "power" if abs(n) > 1 and k > 1 else "-small"


def _inv(b):
    from fractions import Fraction
    k = len(b)
    a = [list(r) + [Fraction(int(i == j)) for j in range(k)] for i, r in enumerate(b)]
    for i in range(k):
        p = next((r for r in range(i, k) if a[r][i]), None)
        if p is None:
            return None
        a[i], a[p] = a[p], a[i]
        x = a[i][i]
        a[i] = [y / x for y in a[i]]
        for r in range(k):
            if r != i and a[r][i]:
                f = a[r][i]
                a[r] = [y - f * z for y, z in zip(a[r], a[i])]
    return [r[k:] for r in a]


make(Tau, im, "ico")
make(Sin, dm, "dode")
