"""P25 the Cython packages move domains exactly"""
from collections import Counter
from hypothesis import strategies as st
import numpy as np
from ..core import Property, expect
from ..field import vec
from ..util import pure, same_mat
from .. import gen, legacy, sym, geom as G
from ..gen import ICO, DODE
from .p24 import setup, mod

P = Property("P25", "Cython packages move domains exactly",
             rule="a case is non-trivial when the result differs from what was given",
             assumptions=["vertices and centres with components up to 9 and denominators up to 4; icosahedral vertices are given relative "
                          "to the centre, dodecagonal ones in absolute coordinates, as the two packages define them",
                          "sites for the dodecagonal site symmetry have rational coordinates in [0,1)"], setup=setup)

ZERO = [[0, 0, 1]] * 6


def vs(S):
    free = st.lists(gen.triple(9, 9, 4), min_size=6, max_size=6)
    if S is ICO:
        return st.one_of(gen.vec6(2, (1, 2)), st.sampled_from(gen.ICO_VERTS), free)
    return st.one_of(gen.vec6d(2, (1, 2)), free)


def mat(x):
    return tuple(tuple(int(v) for v in r) for r in x)


def make(S, tag, symname):
    F, A, k = S.F, gen.arr, S.k
    cells = gen.crowd(st.lists(st.lists(vs(S), min_size=k, max_size=k), min_size=1, max_size=2), sizes=(12, 33), odds=20)
    key = lambda c: tuple(vec(F, v) for v in c)

    def img(m, t, C):
        if S is ICO:
            return tuple(G.add(sym.apply(m, vec(F, v), F), C) for v in t)
        return tuple(sym.act(m, vec(F, v), C, F) for v in t)

    @P.sub(tag + "_shift", st.tuples(cells, vs(S)).map(list), quick=600, thorough=8000)
    def shift(case):
        o, s = case
        r = pure(mod(tag + ".occupation_domain").shift, A(o), A(s))
        if any(not S.meas(c) for c in o) and np.shape(r) != (len(o), k, 6, 3):
            return "-flat"
        expect(np.shape(r) == (len(o), k, 6, 3), "%s.shift returned shape %s", tag, np.shape(r))
        for a, c in zip(r.tolist(), o):
            same_mat(F, a, [G.add(vec(F, v), vec(F, s)) for v in c], tag + ".shift")
        return "moved" if any(t[0] or t[1] for t in s) else "-not moved"

    @P.sub(tag + "_orbit", st.tuples(cells, st.one_of(st.just(ZERO), vs(S)), st.booleans()).map(list),
           quick=200 if S is ICO else 800, thorough=2500 if S is ICO else 8000)
    def orbit(case):
        o, c, single = case
        C = vec(F, c)
        Y = mod(symname)
        gen_all = Y.generator_obj_symmetric_tetrahedron if S is ICO else Y.generator_obj_symmetric_triangle
        flat = [v for t in (o[:1] if single else o) for v in t]
        use = o[:1] if single else o
        r = pure(gen_all, A(flat), A(c))
        n = len(sym.group(S))
        expect(np.shape(r) == (n * len(use), k, 6, 3), "%s orbit has shape %s", tag, np.shape(r))
        ref = Counter(img(m, t, C) for m in sym.group(S) for t in use)
        expect(Counter(key(t) for t in r.tolist()) == ref, "%s: the orbit is not the set of images under the point group", tag)
        if S is ICO:
            r = pure(mod("ico.occupation_domain").symmetric, A(o[0]) if single else A(o), A(c))
            expect(Counter(key(t) for t in np.asarray(r).tolist()) == ref, "ico.symmetric is not the orbit")
        return "orbit" if len(set(ref)) > 1 else "-invariant"

    @P.sub(tag + "_one", st.tuples(st.lists(vs(S), min_size=k, max_size=k), st.one_of(st.just(ZERO), vs(S)),
                                   st.lists(st.integers(0, len(sym.group(S)) - 1), min_size=1, max_size=3)).map(list),
           quick=600, thorough=8000)
    def one(case):
        t, c, idx = case
        C = vec(F, c)
        Y = mod(symname)
        ops = pure(Y.dodesymop) if S is DODE else None
        g0 = Y.generator_obj_symmetric_tetrahedron_0 if S is ICO else Y.generator_obj_symmetric_triangle_0
        gs = Y.generator_obj_symmetric_tetrahedron_specific_symop if S is ICO else Y.generator_obj_symmetric_triangle_specific_symop
        if S is DODE:
            expect({mat(m) for m in ops} == sym.group(S) and len(ops) == 24, "the dodecagonal operations are not the 24 of the point group")
            for i in idx:
                r = pure(g0, A(t), A(c), i)
                expect(np.shape(r) == (1, k, 6, 3) and key(r.tolist()[0]) == img(mat(ops[i]), t, C), "dode: wrong image under operation %d", i)
            r = pure(gs, A(t), A(c), [ops[i] for i in idx])
            expect([key(x) for x in r.tolist()] == [img(mat(ops[i]), t, C) for i in idx], "dode: wrong images under selected operations")
        else:
            imgs = {img(m, t, C) for m in sym.group(S)}
            for i in idx:
                r = pure(g0, A(t), A(c), i)
                expect(np.shape(r) == (1, k, 6, 3) and key(r.tolist()[0]) in imgs, "ico: operation %d does not give an image", i)
            ms = sorted(sym.group(S))
            r = pure(gs, A(t), A(c), [np.array(ms[i]) for i in idx])
            expect([key(x) for x in r.tolist()] == [img(ms[i], t, C) for i in idx], "ico: wrong images under selected operations")
        return "images"

    @P.sub(tag + "_equivalent", vs(S), quick=200 if S is ICO else 500, thorough=2500)
    def equivalent(v):
        Y = mod(symname)
        ref = {sym.apply(m, vec(F, v), F) for m in sym.group(S)}
        r = pure(Y.generator_equivalent_vec, A(v)) if S is ICO else pure(Y.generator_equivalent_vec, A(v), A(ZERO))
        got = [vec(F, x) for x in np.asarray(r).tolist()]
        if S is ICO:
            expect({S._perp(x) for x in got} == {S._perp(x) for x in ref}, "ico: equivalent vectors: %d, expected %d", len(got), len(ref))
        else:
            expect(set(got) == ref and len(got) == len(ref), "dode: equivalent vectors: %d, expected %d", len(got), len(ref))
        return "orbit" if len(ref) > 1 else "-fixed"


make(ICO, "ico", "ico.symmetry")
make(DODE, "dode", "dode.symmetry12")

SITE = st.lists(st.sampled_from([[0, 0, 1], [0, 0, 1], [1, 0, 2], [1, 0, 2], [1, 0, 3], [2, 0, 3], [1, 0, 4]]), min_size=4, max_size=4).map(
    lambda v: v + [[0, 0, 1], [0, 0, 1]])


def stabiliser(site):
    """operations m with m*site - site in the lattice"""
    F = DODE.F
    s = vec(F, site)
    out = []
    for m in sym.dode_group():
        d = G.sub(sym.apply(m, s, F), s)
        if all(x.triple()[1] == 0 and x.triple()[2] == 1 for x in d[:4]):
            out.append(m)
    return frozenset(out)


@P.sub("dode_site", st.tuples(SITE, st.lists(vs(DODE), min_size=3, max_size=3)).map(list), quick=300, thorough=4000)
def dode_site(case):
    site, t = case
    F = DODE.F
    O, Y = mod("dode.occupation_domain"), mod("dode.symmetry12")
    ops = [mat(m) for m in Y.dodesymop()]
    ref = stabiliser(site)
    r = pure(O.site_symmetry, gen.arr(site))
    expect(r is not None and len(r) == 2, "dode.site_symmetry returned %s", r)
    H, reps = r
    expect(len(H) == len(set(H)) and {ops[i] for i in H} == ref, "dode.site_symmetry gives %d operations, the site has %d", len(H), len(ref))
    expect(len(reps) * len(H) == 24, "dode.site_symmetry gives %d coset representatives for a site group of %d", len(reps), len(H))
    cos = set()
    for i in reps:
        cos.add(frozenset(mmul(ops[i], ops[h]) for h in H))
    expect(len(cos) == len(reps) and len(frozenset().union(*cos)) == 24, "dode.site_symmetry: the representatives do not give every coset once")
    C = vec(F, site)
    r = pure(O.symmetric, gen.arr([t]), gen.arr(site))
    want = Counter(tuple(sym.act(m, vec(F, v), C, F) for v in t) for m in ref)
    expect(np.shape(r) == (len(ref), 3, 6, 3) and Counter(tuple(vec(F, v) for v in c) for c in r.tolist()) == want,
           "dode.symmetric is not the orbit of the unit under the site group")
    return "order %d" % len(ref) if 1 < len(ref) < 24 else ("-order 24" if len(ref) == 24 else "general")


def mmul(a, b):
    return tuple(tuple(sum(a[i][k] * b[k][j] for k in range(6)) for j in range(6)) for i in range(6))


@P.sub("dode_similarity", st.tuples(st.lists(st.lists(vs(DODE), min_size=3, max_size=3), min_size=1, max_size=2),
                                    st.integers(-4, 4), st.booleans()).map(list), quick=500, thorough=6000)
def dode_similarity(case):
    o, m, flat = case
    F = DODE.F
    O = mod("dode.occupation_domain")
    arg = gen.arr([v for c in o for v in c]) if flat else gen.arr(o)
    r = pure(O.similarity, arg, m)
    expect(np.shape(r) == (len(o), 3, 6, 3), "dode.similarity returned shape %s", np.shape(r))
    # external components grow by sqrt(2+sqrt(3)) per step, internal ones shrink by it (up to the rotation of the matrix):
    # exact on squared distances
    f = F(2, 2) if m >= 0 else F(2, -2)            # 2+sqrt(3) = 2+2s
    g = F(2, -2) if m >= 0 else F(2, 2)
    for c, d in zip(o, r.tolist()):
        for i in range(3):
            for j in range(i):
                for proj, fac in ((lambda v: DODE._par(vec(F, v))[:2], f), (lambda v: DODE._perp(vec(F, v))[:2], g)):
                    a, b = G.sub(proj(c[i]), proj(c[j])), G.sub(proj(d[i]), proj(d[j]))
                    w = G.dot(a, a)
                    for _ in range(abs(m)):
                        w = w * fac
                    expect(G.dot(b, b) == w, "dode.similarity of order %d does not scale every distance by the same factor", m)
    back = pure(O.similarity, gen.arr(r.tolist()), -m)
    for c, d in zip(o, np.asarray(back).tolist()):
        expect([vec(F, v) for v in c] == [vec(F, v) for v in d], "dode.similarity of order %d and back is not the identity", m)
    return "scaled" if m else "-identity"
