"""P24 the Cython packages compute exactly"""
import importlib
from hypothesis import strategies as st
import numpy as np
from ..core import Property, expect
from ..field import Tau, Sin, vec, from_triple, canonical
from ..util import same_num, same_vec, same_mat, pure, close, close_vec
from .. import gen, legacy, geom as G
from ..gen import ICO, DODE

P = Property("P24", "Cython packages compute exactly",
             rule="a case is non-trivial when at least one operand has an irrational part",
             assumptions=["scalars with integers up to 10**5, vector components up to 30 with denominators up to 4, so that the "
                          "intermediate integers stay below 2**53",
                          "the packages are compiled from /repo/src_cython by the check itself"])


def setup():
    for p in ("dode", "ico"):
        legacy.build(p)


P.setup = setup


def mod(name):
    return importlib.import_module("pyqcstrc." + name)


def num():
    def t(n):
        return st.tuples(st.integers(-n, n), st.integers(-n, n), st.integers(1, n)).map(list)
    return st.one_of(t(3), t(12), t(100), t(10 ** 4), t(10 ** 5),
                     st.tuples(st.integers(-5, 5), st.integers(-5, 5), st.integers(-6, -1)).map(list),
                     st.tuples(st.integers(-9, 9), st.just(0), st.integers(1, 9)).map(list),
                     st.tuples(st.just(0), st.integers(-9, 9), st.integers(1, 9)).map(list))


def pair():
    same = st.tuples(num(), st.sampled_from([1, -1]), st.integers(1, 3)).map(
        lambda t: [t[0], [t[1] * t[2] * t[0][0], t[1] * t[2] * t[0][1], t[2] * t[0][2]]])
    return st.one_of(st.tuples(num(), num()).map(list), st.tuples(num(), num()).map(list), same)


def comps(n):
    return st.lists(st.one_of(gen.triple(5, 5, 4), gen.triple(30, 30, 4), st.sampled_from([[0, 0, 1], [1, 0, 1]])), min_size=n, max_size=n)


def make(S, mname, uname, nname, tag):
    F, A = S.F, gen.arr
    V = lambda v: vec(F, v)

    @P.sub(tag + "_numbers", pair(), quick=12000, thorough=200000)
    def numbers(case):
        a, b = case
        M = mod(mname)
        x, y = from_triple(F, a), from_triple(F, b)
        for op, ref in (("add", x + y), ("sub", x - y), ("mul", x * y), ("div", x / y if y else None)):
            if ref is None:
                continue
            r = pure(getattr(M, op), *(a + b), _what="%s.%s" % (tag, op))
            expect(r is not None and len(r) == 3, "%s.%s(%s,%s) returned %s", tag, op, a, b, r)
            t = tuple(int(v) for v in r)
            expect(t[2] != 0 and from_triple(F, t) == ref, "%s.%s(%s,%s)=%s, exact value %s", tag, op, a, b, t, ref)
            expect(canonical(t), "%s.%s(%s,%s)=%s is not in lowest terms", tag, op, a, b, t)
        return "irrational" if a[1] or b[1] else "-rational"

    @P.sub(tag + "_vectors", st.tuples(comps(6), comps(6), gen.triple(9, 9, 4), comps(3)).map(list), quick=1200, thorough=20000)
    def vectors(case):
        u, v, c, w = case
        M = mod(mname)
        U, W, C = V(u), V(v), from_triple(F, c)
        same_vec(F, pure(M.add_vectors, A(u), A(v)), G.add(U, W), tag + ".add_vectors")
        if tag == "dode":
            same_vec(F, pure(M.sub_vectors, A(u), A(v)), G.sub(U, W), tag + ".sub_vectors")
        same_vec(F, np.asarray(pure(M.mul_vector, A(u), c)).reshape(6, 3), G.scal(U, C), tag + ".mul_vector")
        got = np.asarray(pure(M.mul_vectors, A([u, v]), c))
        expect(got.size == 36, "%s.mul_vectors of two vectors has %d numbers", tag, got.size)
        same_mat(F, got.reshape(2, 6, 3), [G.scal(U, C), G.scal(W, C)], tag + ".mul_vectors")
        same_vec(F, pure(M.outer_product, A(u[:3]), A(v[:3])), G.cross(U[:3], W[:3]), tag + ".outer_product")
        same_num(F, pure(M.dot_product, *([A(x) for x in u[:3]] + [A(x) for x in v[:3]])), G.dot(U[:3], W[:3]), tag + ".dot_product")
        if tag == "ico":
            same_num(F, pure(M.inner_product, A(u[:3]), A(v[:3])), G.dot(U[:3], W[:3]), tag + ".inner_product")
        small = [[x % 7 - 3 for x in t[:2]] + [t[2]] for t in u + w]
        m = [small[0:3], small[3:6], small[6:9]]
        same_num(F, pure(M.det_matrix, A(m[0]), A(m[1]), A(m[2])), G.det3(*[V(x) for x in m]), tag + ".det_matrix")
        return "irrational" if any(t[1] for t in u + v) else "-rational"

    @P.sub(tag + "_projection", comps(6), quick=1500, thorough=25000)
    def projection(case):
        M, N = mod(mname), mod(nname)
        par, perp = S.par(case), S.perp3(case)
        h = [A(x) for x in case]
        same_vec(F, pure(M.projection, *h), par + perp, tag + ".projection")
        same_vec(F, pure(M.projection3, *h), perp, tag + ".projection3")
        fl = [float(x) for x in V(case)]
        ref = [float(x) for x in par + perp]
        sc = 10 * max([1.0] + [abs(x) for x in fl])
        if tag == "ico":
            if hasattr(M, "projection_perp"):
                # the part of the vector that lies in internal space, as a 6D vector: same projections, none left outside
                r = np.asarray(pure(M.projection_perp, *h)).reshape(6, 3).tolist()
                q = V(r)
                expect(S._perp(q) == perp, "ico.projection_perp changes the internal component")
                expect(not any(bool(x) for x in S._par(q)), "ico.projection_perp leaves a component in external space")
            close_vec(pure(N.projection_numerical, *fl), ref, "ico.projection_numerical", 1e-9, sc)
            close_vec(pure(N.projection3_numerical, *fl), ref[3:], "ico.projection3_numerical", 1e-9, sc)
        else:
            close_vec(pure(N.projection_numerical, A(case)), ref, "dode.projection_numerical", 1e-9, sc)
            close_vec(pure(N.projection_1_numerical, *fl), ref, "dode.projection_1_numerical", 1e-9, sc)
            close_vec(pure(N.get_internal_component_numerical, A(case)), ref[3:], "dode.get_internal_component_numerical", 1e-9, sc)
        return "irrational" if any(t[1] for t in case) else "-rational"

    @P.sub(tag + "_measure", gen.crowd(st.lists(st.lists(S.vs(3, (1, 1, 2)), min_size=S.k, max_size=S.k), min_size=1, max_size=4)),
           quick=500, thorough=8000)
    def measure(case):
        U = mod(uname)
        one, tot = (U.tetrahedron_volume_6d, U.obj_volume_6d) if tag == "ico" else (U.triangle_area_6d, U.obj_area_6d)
        r = F(0)
        for c in case:
            m = S.meas(c)
            r = r + m
            same_num(F, pure(one, A(c)), m, tag + " measure of one cell")
        same_num(F, pure(tot, A(case)), r, tag + " measure of a domain")
        if tag == "ico":
            same_num(F, pure(mod("ico.occupation_domain").volume, A(case)), r, "ico volume")
            close(pure(mod(nname).obj_volume_6d_numerical, A(case)), float(r), "ico numerical volume", 1e-8, 10)
            for c in case:
                t = [V(v) for v in c]
                same_vec(F, pure(mod(mname).centroid, A(c)), tuple(G.total(F, [v[i] for v in t]) / 4 for i in range(6)), "ico.centroid")
                flat = not S.meas(c)
                e = [G.sub(S.perp(v), S.perp(c[0])) for v in c[1:3]]
                if any(bool(x) for x in G.cross(*e)):
                    expect(bool(pure(mod(mname).coplanar_check, A(c))) == flat, "ico.coplanar_check is wrong for %s", c)
        return "domain" if r else "-flat"


make(ICO, "ico.math1", "ico.utils", "ico.numericalc", "ico")
make(DODE, "dode.math12", "dode.utils12", "dode.numericalc12", "dode")
