"""P21 asymmetric part of a domain (icosahedral)"""
from hypothesis import strategies as st, assume
from ..core import Property, expect
from ..util import pure
from ..region import check_intersection, judge, same_region
from .. import gen, geom as G, sym
from ..field import vec
from .p16 import asym_rays, orbit, RATIO

import pyqcstrc.ico2.occupation_domain as oi

P = Property("P21", "Asymmetric part",
             rule="a case is non-trivial when the domain has a part inside the sector and a part outside",
             assumptions=["domains are sets of interior-disjoint tetrahedra", "the domain lies within five times the given vectors"])
A = gen.arr
S = gen.ICO
ONE = S.F(1)


def cone(pos, vecs):
    """the sector as one cell, as documented: position, position + 5*vectors"""
    z = [[0, 0, 1]] * 6
    return [S.lin([ONE, S.F(0)], [pos, z])] + [S.lin([ONE, S.F(5)], [pos, v]) for v in vecs]


@st.composite
def cases(draw):
    vecs = draw(st.one_of(st.just(asym_rays(S)), gen.cell(S, 1, (1, 2)).map(lambda c: c[:3])))
    z = [[0, 0, 1]] * 6
    assume(abs(float(S.meas([z] + list(vecs)))) > 1e-2)
    pos = draw(st.one_of(st.just(z), S.vs(1, (1, 2))))
    base = draw(st.integers(0, 4))
    if base == 0:
        o = draw(gen.any_obj(S, 1, gen.cell(S, 1, (1, 2))))
    elif base == 1:                       # cells around the position
        c = draw(gen.cell(S, 1, (1, 2)))
        o = [[pos] + [S.lin([ONE, ONE], [pos, v]) for v in c[1:]]]
        assume(abs(float(S.meas(o[0]))) > 1e-2)
        o = gen.subdivide(S, o[0], draw(st.lists(st.tuples(st.integers(0, 3), st.just(0), st.integers(0, 3), st.integers(0, 3)), max_size=1)))
    elif base == 2:                       # inside the sector, or reaching out of it with one vertex
        W = [S.F(0), S.F(1, 0, 2), S.F(1), S.F(1, 0, 3)]
        c = [[draw(st.sampled_from(W)) for _ in range(3)] for _ in range(4)]
        if draw(st.integers(0, 2)) == 0:
            c[0][draw(st.integers(0, 2))] = S.F(-1, 0, 2)
        o = [[S.lin([ONE] + w, [pos] + list(vecs)) for w in c]]
        assume(abs(float(S.meas(o[0]))) > 1e-3)
    else:                                 # from the sector itself
        t = [pos] + [S.lin([ONE, ONE], [pos, v]) for v in vecs]
        o = [draw(gen.related_cell(S, t))]
    if draw(st.booleans()):               # elsewhere, of another size
        ft = draw(gen.placing(S))
        o, ((pos,),) = gen.place(S, o, ft), gen.place(S, [[pos]], ft)
        vecs = [S.lin([S.F(*ft[0])], [v]) for v in vecs]
    return dict(o=o, pos=pos, vecs=vecs)


@P.sub("parts", cases(), quick=1800, thorough=15000)
def parts(c):
    t = cone(c["pos"], c["vecs"])
    # within reach: every vertex on the near side of the face opposite to the position
    p = S.pts(t)
    f = p[1:]
    n = G.cross(G.sub(f[1], f[0]), G.sub(f[2], f[0]))
    s0 = (G.dot(n, G.sub(p[0], f[0]))).sign()
    reach = all((G.dot(n, G.sub(q, f[0])) * s0).sign() >= 0 for cell in c["o"] for q in S.pts(cell))
    if not reach:
        return "-beyond reach"

    def fn():
        r = pure(oi.asymmetric, A(c["o"]), A(c["pos"]), A(c["vecs"]))
        ref, n = check_intersection(S, r, c["o"], [t], "asymmetric part")
        if not ref:
            return "-outside"
        return "-whole" if ref == S.cells(c["o"]).measure() else "part"
    return judge(S, [(c["o"], [t])], fn)


@st.composite
def orbits(draw):
    r = [S.F(*draw(st.sampled_from(RATIO["ico2"]))) for _ in range(3)]
    z = [[0, 0, 1]] * 6
    pos = draw(st.one_of(st.just(z), S.vs(1, (1, 2))))
    cell = [list(pos)] + [S.lin([ONE, x], [pos, v]) for x, v in zip(r, asym_rays(S))]
    return dict(cell=cell, pos=pos)


@P.sub("of_symmetric_domain", orbits(), quick=8, thorough=160)
def of_symmetric(c):
    sy = pure(oi.symmetric, A([c["cell"]]), A(c["pos"]))
    r = pure(oi.asymmetric, sy, A(c["pos"]), A(asym_rays(S)))
    same_region(S, r, [c["cell"]], "asymmetric part of a symmetric domain")
    return "orbit"
