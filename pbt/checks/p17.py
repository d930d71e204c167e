"""P17 simplification, convex hull, merging by hand"""
import os
import numpy as np
from hypothesis import strategies as st, assume
from ..core import Property, expect, scratch
from ..util import pure, obj_shape
from ..region import same_region, check_cells
from .. import gen, geom as G
from . import p16

import pyqcstrc.ico2.occupation_domain as oi
import pyqcstrc.dode2.occupation_domain as odd
import pyqcstrc.ico2.utils as ui
import pyqcstrc.dode2.utils as ud

P = Property("P17", "Simplification",
             rule="a case is non-trivial when the domain has at least two cells (or the vertex list at least five points); class 'convex' or 'not convex'",
             assumptions=["cells meet face to face", "vertices that coincide in internal space are given by the same 6D coordinates"])
A = gen.arr


def hull_measure(S, pts):
    return G.hull_volume(S.F, pts) if S is gen.ICO else G.hull_area(S.F, pts)


def run(S, od, u, o):
    pts = list(dict.fromkeys(p for c in o for p in S.pts(c)))
    C = S.cells(o)
    m, h = C.measure(), hull_measure(S, pts)
    r = pure(od.simplification, A(o))
    same_region(S, r, o, S.name + " simplification")
    n = len(np.asarray(r))
    p16.verts_kept(r, o, S.name + " simplification")
    if m == h and len(o) > 1:
        corners = {p for e in p16.border(S, o)[1] for p in e}
        used = {p for c in np.asarray(r).tolist() for p in S.pts(c)}
        expect(used == corners, "%s simplification of a convex domain uses %d vertices, it has %d corners", S.name, len(used), len(corners))
    if m != h:
        expect(n == len(o), "%s simplification of a domain that is not convex has %d cells instead of the %d given", S.name, n, len(o))
    r = obj_shape(pure(u.generate_convex_hull, A(o)), S.k, "convex hull")
    R = check_cells(S, r, S.name + " convex hull")
    expect(R.measure() == h, "%s: the convex hull has measure %s instead of %s", S.name, float(R.measure()), float(h))
    p16.verts_kept(r, o, S.name + " convex hull")
    if len(o) == 1:
        return "-single"
    return "convex" if m == h else "not convex"


for S, od, u, q in ((gen.ICO, oi, ui, 250), (gen.DODE, odd, ud, 400)):
    def mk(S=S, od=od, u=u):
        return lambda case: run(S, od, u, case)
    P.sub(S.name, gen.placed(S, p16.fans(S)), quick=q, thorough=q * 12)(mk())
    P.sub(S.name + "_wedge", gen.placed(S, p16.wedge(S)), quick=q, thorough=q * 12)(mk())
    P.sub(S.name + "_orbit", gen.placed(S, p16.orbit_part(S)), quick=q // 2, thorough=q * 6)(mk())


# --- merging by hand ---------------------------------------------------------

@st.composite
def hand(draw, S):
    o = draw(gen.placed(S, gen.convex_obj(S, 4, gen.cell(S, 2, (1, 2)), True)))
    o = [list(draw(st.permutations(c))) for c in o]
    n = len({p for c in o for p in S.pts(c)})
    ml = draw(st.lists(st.lists(st.integers(1, n), min_size=S.k, max_size=min(n, 7), unique=True), min_size=1, max_size=3))
    return dict(obj=o, lists=ml)


def run_hand(S, od, c):
    o = c["obj"]
    pts = {p for cell in o for p in S.pts(cell)}
    with scratch() as d:
        v = pure(od.simple_hand_step1, A(o), d, "tmp")
        with open(os.path.join(d, "tmp.xyz"), encoding="utf-8") as f:
            ln = f.read().split("\n")
        expect(os.listdir(d) == ["tmp.xyz"], "%s: other files written: %s", S.name, os.listdir(d))
    expect(np.shape(v) == (len(pts), 6, 3), "%s: vertex list has shape %s for %d vertices", S.name, np.shape(v), len(pts))
    vl = v.tolist()
    expect({S.perp(x) for x in vl} == pts, "%s: the vertex list does not hold the vertices of the domain", S.name)
    p16.verts_kept([vl], o, S.name + " vertex list")
    expect(int(ln[0]) == len(vl), "%s: %s points announced, %d vertices", S.name, ln[0], len(vl))
    rows = [x for x in ln[2:] if x.strip()]
    expect(len(rows) == len(vl), "%s: %d rows for %d vertices", S.name, len(rows), len(vl))
    for row, x in zip(rows, vl):
        w = row.split()
        expect(all(abs(float(a) - float(b)) < 2e-6 for a, b in zip(w[1:4], S.perp3(x))), "%s: row %s for vertex %s", S.name, row, x)
        expect([int(t) for t in row.split("#")[-1].split()] == [t for q in x for t in q], "%s: row %s for vertex %s", S.name, row, x)
    lists = []
    for l in c["lists"]:
        h = hull_measure(S, [S.perp(vl[i - 1]) for i in l])
        if float(h) > 1e-3:
            lists.append((l, h))
    if not lists:
        return "-flat"
    r = obj_shape(pure(od.simple_hand_step2, v, [l for l, _ in lists]), S.k, S.name + " merging by hand")
    left = r
    for l, h in lists:
        # cells come list by list; take as many as fill the hull of this list
        m, cells = S.F(0), []
        vs = [vl[i - 1] for i in l]
        while left and m != h:
            cells.append(left[0])
            m = m + S.meas(left[0])
            left = left[1:]
            expect((h - m).sign() >= 0, "%s: the cells for %s have more than the measure of their hull %s", S.name, l, float(h))
        expect(m == h, "%s: the cells for %s measure %s instead of %s", S.name, l, float(m), float(h))
        expect(all(x in vs for cc in cells for x in cc), "%s: a cell for %s uses other vertices", S.name, l)
        check_cells(S, cells, S.name + " merged cells")
    expect(not left, "%s: cells for no list", S.name)
    return "lists %d" % len(lists)


for S, od, q in ((gen.ICO, oi, 600), (gen.DODE, odd, 1000)):
    def mk2(S=S, od=od):
        return lambda case: run_hand(S, od, case)
    P.sub(S.name + "_hand", hand(S), quick=q, thorough=q * 12)(mk2())
