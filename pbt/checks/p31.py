"""P31 the Cython packages cut out asymmetric units, simplify and merge without changing the region"""
import numpy as np
from hypothesis import strategies as st
from ..core import Property, expect
from ..util import pure
from .. import gen, region, geom as G
from ..gen import ICO, DODE
from . import p16, p17, p19
from .p24 import setup, mod
from .p28 import crossing_size, crossing_size3, strain, strains, LIMIT
from .p29 import domains

P = Property("P31", "Cython packages: asymmetric unit, simplification, merging",
             rule="a case is non-trivial when the domain has at least two cells (simplification, merging), the unit holds a part of the domain but not all of it, "
                  "or the segments cross",
             assumptions=["cells without volume in the result do not count", "cells meet face to face",
                          "crossings whose parameters need integers above 100 (dodecagonal; 2**48 for the products they are found from) or 1000 (icosahedral) are not judged: the 64-bit integers of the "
                          "packages overflow not far beyond", "dodecagonal asymmetric parts: domains of one triangle, because the package joins the outline of "
                          "cells that meet side to side"], setup=setup)
A = gen.arr


def proper(S, r):
    r = np.asarray(r)
    return [] if r.size == 1 else [c for c in r.tolist() if S.meas(c)]


@P.sub("simplification", domains(ICO), quick=250, thorough=3000)
def simplification(o):
    r = pure(mod("ico.occupation_domain").simplification, A(o))
    n = region.same_region(ICO, A(proper(ICO, r)), o, "ico simplification")
    if len(o) == 1:
        return "-single"
    return "simpler" if n < len(o) else "as it was"


P.sub("hand", p17.hand(ICO), quick=500, thorough=6000)(lambda c: p17.run_hand(ICO, mod("ico.occupation_domain"), c))


@st.composite
def sector(draw, S, one=False):
    o = draw(domains(S))
    if one:
        o = o[:1]
    h = S.F(1, 0, 2)
    pos = draw(st.sampled_from(o[0] + [[[0, 0, 1]] * 6, S.lin([h, h], o[0][:2]), S.lin([h, h], o[0][1:3]), S.lin([h, h], o[0][::2][:2]), S.lin([h, h * h, h * h], o[0][:3]), S.lin([h, h, h, -h], o[0][:3] + o[0][:1])]))
    if draw(st.integers(0, 4)) == 0:
        vs = draw(st.lists(S.vs(1, (1,)), min_size=S.k - 1, max_size=S.k - 1))
    else:
        e = [S.lin([S.F(1), S.F(-1)], [v, pos]) for v in draw(st.permutations(o[0])) if v != pos][:S.k - 1]
        pure = draw(st.booleans())              # the unit is bounded by lines through the vertices
        w = st.lists(st.sampled_from([0] if pure else [0, 0, 0, 0, 1, 1, -1]), min_size=S.k - 1, max_size=S.k - 1)
        vs = []
        for i in range(S.k - 1):
            x = [S.F(y) for y in draw(w)]
            x[i] = S.F(draw(st.sampled_from([1, 1, 2])))
            vs.append(S.lin(x, e))
    return dict(obj=o, pos=pos, vecs=vs)


def cone(S, c, n):
    return [c["pos"]] + [S.lin([S.F(1), S.F(n)], [c["pos"], v]) for v in c["vecs"]]


@P.sub("ico_asym", sector(ICO), quick=500, thorough=6000)
def ico_asym(c):
    S = ICO
    t = cone(S, c, 5)
    if abs(float(S.meas(t))) < 0.02 or crossing_size3(c["obj"], [t]) > 1000:
        return "-not judged"
    r = pure(mod("ico.occupation_domain").asymmetric, A(c["obj"]), A(c["pos"]), A(c["vecs"]))

    def f():
        got = proper(S, r)
        ref, n = region.check_intersection(S, A(got) if got else None, c["obj"], [t], "ico asymmetric part")
        return "-empty" if not ref else "part" if ref < S.cells(c["obj"]).measure() else "-all"
    return region.judge(S, [(c["obj"], [t])], f)


@P.sub("dode_asym", sector(DODE, True), quick=5000, thorough=20000)
def dode_asym(c):
    S = DODE
    t = cone(S, c, 10)
    if abs(float(S.meas(t))) < 0.02 or crossing_size(c["obj"], [t]) > 100:
        return "-not judged"
    p = list(S.pts(c["obj"][0]))
    if strains(c["obj"], [t]) > LIMIT:
        return "-not judged"
    for n, d in G.tri_halfplanes(S.pts(t)):
        p = G.clip_polygon(p, n, d)
        if len(p) < 3:
            return "-empty"
    p = G.hull2d(list(dict.fromkeys(p)))
    if len(p) < 3:
        return "-empty"

    def f():
        r = pure(mod("dode.occupation_domain").asymmetric, A(c["obj"]), A(c["pos"]), A(c["vecs"]))
        p16.same_set(p16.back(S, r, 2, "dode asymmetric part"), [frozenset([p[i - 1], p[i]]) for i in range(len(p))], "outline of the dode asymmetric part")
        return "sides %d" % len(p)
    return region.judge(S, [(c["obj"], [t])], f)


@st.composite
def crossing(draw):
    """two segments that (mostly) cross at small fractions"""
    S = DODE
    a, b, c = draw(gen.cell(S, 2, (1, 2)))
    e = S.F(draw(st.integers(1, 5)), 0, 6)
    f = S.F(*draw(st.sampled_from([[2, 0, 1], [3, 0, 1], [4, 0, 3], [0, 2, 1], [3, 0, 2], [6, 0, 5]])))
    d = S.lin([S.F(1) - f, f * (S.F(1) - e), f * e], [c, a, b])
    return dict(s1=[S.lin([S.F(1)], [v]) for v in draw(st.permutations([a, b]))], s2=[S.lin([S.F(1)], [v]) for v in draw(st.permutations([c, d]))])


@P.sub("dode_segments", st.one_of(crossing(), crossing(), crossing(), p19.two_segments(DODE)), quick=1500, thorough=20000)
def dode_segments(c):
    S = DODE
    kind, q = p19.ref_segseg(S.pts(c["s1"]), S.pts(c["s2"]))
    if kind != "hit" or crossing_size([c["s1"] + c["s1"][:1]], [c["s2"] + c["s2"][:1]]) > 100 or strain(S.pts(c["s1"]), S.pts(c["s2"])) > LIMIT:
        return "-miss" if kind != "hit" else "-not judged"
    r = pure(mod("dode.occupation_domain").intersection_two_segments, A(c["s1"]), A(c["s2"]))
    expect(np.shape(r) == (6, 3), "two segments that cross: %s", np.shape(r))
    expect(S.perp(r.tolist()) == q, "the point of intersection is not exact: %s", r.tolist())
    return "hit"
