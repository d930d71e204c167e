"""P29 the Cython packages find surfaces, edges, outlines and duplicates exactly"""
from collections import Counter
from itertools import combinations
import numpy as np
from hypothesis import strategies as st
from ..core import Property, expect
from ..field import vec
from ..util import pure, same_vec
from .. import gen, geom as G
from ..gen import ICO, DODE
from . import p16, p18
from .p16 import back, same_set, once, edges_of, fans, wedge, orbit_part, verts_kept
from .p24 import setup, mod

P = Property("P29", "Cython packages: surfaces, edges, outlines, duplicates",
             rule="a case is non-trivial when the domain has at least two cells, or a list holds a duplicate",
             assumptions=["cells meet face to face", "vertices that coincide in internal space are given by the same 6D coordinates",
                          "components of size up to 20 (the packages use 64-bit integers)"], setup=setup)
A = gen.arr


def small(S, o, m=20):
    return all(abs(x) <= m for c in o for v in c for t in v for x in t)


def domains(S):
    return st.one_of(fans(S), wedge(S), orbit_part(S)).map(lambda o: [[S.lin([S.F(1)], [v]) for v in c] for c in o]).filter(lambda o: small(S, o))


@P.sub("ico_surface", domains(ICO), quick=700, thorough=9000)
def ico_surface(o):
    S, O, U = ICO, mod("ico.occupation_domain"), mod("ico.utils")
    cells = [tuple(S.pts(c)) for c in o]
    tris = once(frozenset(t) for c in cells for t in combinations(c, 3))
    r = pure(O.gen_surface, A(o))
    same_set(back(S, r, 3, "ico surface"), tris, "ico surface")
    verts_kept(r, o, "ico surface")
    e = pure(O.generate_edges, A(o))
    same_set(back(S, e, 2, "ico edges of the surface"), set(edges_of(tris)), "ico edges of the surface")
    verts_kept(e, o, "ico edges")
    e = pure(U.generator_obj_edge, A(o), 0)
    same_set(back(S, e, 2, "ico edges of the cells"), set(edges_of(cells)), "ico edges of the cells")
    return "-single" if len(o) == 1 else "domain"


@P.sub("dode_outline", domains(DODE), quick=900, thorough=9000)
def dode_outline(o):
    S, O = DODE, mod("dode.occupation_domain")
    cells = [tuple(S.pts(c)) for c in o]
    raw = once(edges_of(cells))
    r = pure(O.outline, A(o))
    same_set(back(S, r, 2, "dode outline"), raw, "dode outline")
    verts_kept(r, o, "dode outline")
    _, edges, merged = p16.border(S, o)
    r = pure(O.outline1, A(o))
    same_set(back(S, r, 2, "dode outline with straight pieces joined"), edges, "dode outline with straight pieces joined")
    verts_kept(r, o, "dode outline with straight pieces joined")
    pos = o[0][0]
    r = pure(O.triangulation, A(o), A(pos)).tolist()
    q = S.perp(pos)
    expect(len(r) == len(edges), "dode triangulation: %d triangles for an outline of %d edges", len(r), len(edges))
    expect(all(str(t[0]) == str(pos) for t in r), "dode triangulation: a triangle does not start at the given position")
    expect({frozenset(S.perp(v) for v in t[1:]) for t in r} == set(edges), "dode triangulation: the triangles do not end at the outline")
    return "-single" if len(o) == 1 else ("merged" if merged else "domain")


def lists_of(S):
    return p18.lists(S).map(lambda c: c["l"]).filter(lambda l: small(S, [l], 10 ** 4))


def run_lists(S, l):
    U = mod("ico.utils" if S is ICO else "dode.utils12")
    # the packages compare coordinates as written
    r = pure(U.remove_doubling_dim3, A(l)).tolist()
    low = [S.lin([S.F(1)], [v]) for v in l]
    ref = {str(v) for v in low}
    r = pure(U.remove_doubling_dim3, A(low)).tolist()
    expect(Counter(str(v) for v in r) == Counter(ref), "%s: list without duplicates has %d vectors, %d expected", S.name, len(r), len(ref))
    pts = {S.perp3(v) for v in low}
    r = pure(U.remove_doubling_dim3_in_perp_space, A(low)).tolist()
    expect(all(str(v) in ref for v in r), "%s: a vector was invented", S.name)
    got = [S.perp3(v) for v in r]
    expect(len(got) == len(set(got)) and set(got) == pts, "%s: %d distinct positions in internal space, %d expected", S.name, len(got), len(pts))
    if len(low) % 2 == 0:
        pairs = [low[:len(low) // 2], low[len(low) // 2:]]
        r = pure(U.remove_doubling_dim4_in_perp_space, A(pairs)).tolist()
        expect({S.perp3(v) for v in r} == pts and len(r) == len(pts), "%s: %d distinct positions in internal space (set of cells), %d expected", S.name, len(r), len(pts))
        r = pure(U.remove_doubling_dim4, A(pairs)).tolist()
        expect(Counter(str(v) for v in r) == Counter(ref), "%s: set of cells without duplicates has %d vectors, %d expected", S.name, len(r), len(ref))
    if S is ICO:
        m = pure(U.middle_position, A(low[0]), A(low[-1])).tolist()
        same_vec(S.F, m, [(p + q) * S.F(1, 0, 2) for p, q in zip(vec(S.F, low[0]), vec(S.F, low[-1]))], "ico middle position")
    return "duplicates" if len(pts) < len(low) else "-distinct"


@P.sub("ico_pairs", p18.pairs(ICO).filter(lambda c: len(c[0]) in (2, 3) and small(ICO, c, 10 ** 4)), quick=1000, thorough=12000)
def ico_pairs(c):
    S, U = ICO, mod("ico.utils")
    a, b = ([S.lin([S.F(1)], [v]) for v in x] for x in c)
    pa, pb = {S.perp3(v) for v in a}, {S.perp3(v) for v in b}
    if len(a) == 2:
        r = [pure(U.equivalent_edge, A(a), A(b))]
    else:
        r = [pure(f, A(a).reshape(54), A(b).reshape(54)) for f in (U.equivalent_triangle, U.equivalent_triangle_1)]
    for x in r:
        expect((x == 0) == (pa == pb), "ico: items with %d vertices, %d in common: equivalent = %s", len(a), len(pa & pb), x == 0)
    return "%d of %d" % (len(pa & pb), len(a)) if pa & pb else "-apart"


for S, tag in ((ICO, "ico"), (DODE, "dode")):
    def mk(S=S):
        return lambda l: run_lists(S, l)
    P.sub(tag + "_lists", lists_of(S), quick=1200, thorough=15000)(mk())
