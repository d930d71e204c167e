"""P05 symmetric occupation domains are exact orbits"""
from collections import Counter
from hypothesis import strategies as st
import numpy as np
from ..core import Property, expect, sut
from ..field import vec
from ..util import pure
from .. import gen, sym, geom as G
from ..gen import ICO, DODE

import pyqcstrc.ico2.occupation_domain as iod
import pyqcstrc.dode2.occupation_domain as dod
import pyqcstrc.ico2.symmetry as isy
import pyqcstrc.dode2.symmetry as dsy

P = Property("P05", "Symmetric domains are exact orbits",
             rule="a case is non-trivial when the domain is not invariant under the whole group",
             assumptions=["vertices and centres with components up to 10**4 and denominators up to 4, also on and very near symmetry axes and mirrors"])


AXES = {}


def near_axis(S):
    """vectors that are on a symmetry axis or mirror (invariant under some operation), or off it by little"""
    if S.name not in AXES:
        out = []
        for m in sorted(sym.group(S)):
            for i in range(4):
                e = [S.F(int(i == j)) for j in range(6)]
                w = [x + y for x, y in zip(e, sym.apply(m, e, S.F))]
                if any(w):
                    out.append([list(x.triple()) for x in w])
        AXES[S.name] = list({str(v): v for v in out}.values())

    def mk(t):
        v, f, e, d = t
        return S.lin([S.F(*f), S.F(*e)], [v, d])
    return st.tuples(st.sampled_from(AXES[S.name]), st.sampled_from([[1, 0, 1], [1, 0, 2], [0, 1, 1]]),
                     st.one_of(st.sampled_from(gen.SMALL[S.name] + [[0, 0, 1]] * 2), st.sampled_from(gen.TINY[S.name])), S.vs(1, (1,))).map(mk)


def vs(S):
    if S is ICO:
        return st.one_of(gen.vec6(2, (1, 2)), near_axis(S), st.sampled_from(gen.ICO_VERTS), st.lists(gen.triple(9, 9, 4), min_size=6, max_size=6),
                         st.lists(gen.triple(10 ** 4, 10 ** 4, 4), min_size=6, max_size=6))
    return st.one_of(gen.vec6d(2, (1, 2)), near_axis(S), st.lists(gen.triple(9, 9, 4), min_size=6, max_size=6),
                         st.lists(gen.triple(10 ** 4, 10 ** 4, 4), min_size=6, max_size=6))


def centre(S):
    return st.one_of(st.just([[0, 0, 1]] * 6), vs(S))


def make(S, O, Y, tag):
    F, A, k = S.F, gen.arr, S.k
    n = 120 if S is ICO else 24
    N = 10 if S is ICO else 50

    def doubled(o, c, how, q):
        """also domains that hold a cell twice, or two cells that are images of each other"""
        t = o[0]
        if how == 1:
            o = o + [t]
        elif how == 2:
            o = o + [t[1:] + t[:1]]
        elif how == 3:
            m = sorted(sym.group(S))[q]
            o = o + [[[list(x.triple()) for x in sym.act(m, vec(F, v), vec(F, c), F)] for v in t]]
        return o

    def cellkey(c):
        return tuple(vec(F, v) for v in c)

    @P.sub(tag + "_symmetric", st.tuples(st.one_of(st.lists(st.lists(vs(S), min_size=k, max_size=k), min_size=1, max_size=2),
                                                   st.lists(st.lists(vs(S), min_size=k, max_size=k), min_size=1, max_size=4)),
                                         centre(S), st.booleans(), st.integers(0, 6), st.integers(0, n - 1)).map(
                                             lambda x: [doubled(x[0], x[1], x[3], x[4]), x[1], x[2]]), quick=16 * N, thorough=200 * N)
    def symmetric(case):
        o, c, single = case
        arg = A(o[0]) if single else A(o)
        cells = o[:1] if single else o
        r = pure(O.symmetric, arg, A(c))
        expect(r is not None and np.shape(r) == (n * len(cells), k, 6, 3), "%s.symmetric returned shape %s for %d cells", tag,
               np.shape(r), len(cells))
        C = vec(F, c)
        ref = Counter()
        for m in sym.group(S):
            for t in cells:
                ref[tuple(sym.act(m, vec(F, v), C, F) for v in t)] += 1
        got = Counter(cellkey(t) for t in r.tolist())
        bad = (got - ref)
        expect(not bad, "%s.symmetric: %d cells are not images of the given ones under the point group about the centre", tag,
               sum(bad.values()))
        return "orbit" if len(ref) > 1 else "-invariant"

    @P.sub(tag + "_one", st.tuples(st.lists(st.lists(vs(S), min_size=k, max_size=k), min_size=1, max_size=4),
                                   centre(S), st.integers(0, n - 1), st.lists(st.integers(0, n - 1), min_size=1, max_size=4)).map(list),
           quick=60 * N, thorough=600 * N)
    def one(case):
        o, c, i, idx = case
        C = vec(F, c)
        raw = sut(isy.icosasymop) if S is ICO else sut(dsy.dodesymop)

        def img(q, t):
            m = tuple(tuple(int(x) for x in row) for row in raw[q])
            return tuple(sym.act(m, vec(F, v), C, F) for v in t)
        r = pure(O.symmetric_0, A(o), A(c), i)
        expect(r is not None and np.shape(r) == (len(o), k, 6, 3), "%s.symmetric_0 returned shape %s", tag, np.shape(r))
        for a, t in zip(r.tolist(), o):
            expect(cellkey(a) == img(i, t), "%s.symmetric_0 with operation %d is not the image of the cell", tag, i)
        r = pure(O.symmetric_0, A(o[0]), A(c), i)
        expect(r is not None and cellkey(r.tolist()) == img(i, o[0]), "%s.symmetric_0 of a single cell is not its image", tag)
        f = getattr(Y, "generator_obj_symmetric_tetrahedron_specific_symop" if S is ICO else
                    "generator_obj_symmetric_triangle_specific_symop", None)
        if f is not None:
            r = pure(f, A(o[0]), A(c), idx)
            expect(np.shape(r) == (len(idx), k, 6, 3), "%s selected operations: shape %s", tag, np.shape(r))
            for q, a in zip(idx, r.tolist()):
                expect(cellkey(a) == img(q, o[0]), "%s: image under selected operation %d is wrong", tag, q)
        return "moved" if img(i, o[0]) != cellkey(o[0]) else "-fixed"

    @P.sub(tag + "_equivalent", st.tuples(st.one_of(st.lists(vs(S), min_size=1, max_size=2), st.lists(vs(S), min_size=1, max_size=4)), centre(S)).map(list), quick=12 * N, thorough=150 * N)
    def equivalent(case):
        v, c = case
        C = vec(F, c)
        ref = {sym.act(m, vec(F, x), C, F) for m in sym.group(S) for x in v}
        r = pure(Y.generator_equivalent_vec, A(v), A(c))
        got = [vec(F, x) for x in np.asarray(r).tolist()]
        expect(len(set(got)) == len(got), "%s: equivalent vectors contain duplicates", tag)
        expect(set(got) == ref, "%s: %d equivalent vectors, %d expected (%d in common)", tag, len(got), len(ref), len(set(got) & ref))
        r = pure(Y.generator_equivalent_vectors, A(v), A(c))
        got = [S._perp(vec(F, x)) for x in np.asarray(r).tolist()]
        refp = {S._perp(x) for x in ref}
        expect(len(set(got)) == len(got), "%s: vectors equivalent in internal space contain duplicates", tag)
        expect(set(got) == refp, "%s: %d vectors equivalent in internal space, %d expected", tag, len(got), len(refp))
        return "orbit" if len(ref) > 1 else "-fixed point"


make(ICO, iod, isy, "ico")
make(DODE, dod, dsy, "dode")
