"""P27 the Cython packages write and read domains without loss"""
import os
import re
import numpy as np
from hypothesis import strategies as st
from ..core import Property, expect, sut, scratch
from ..util import pure, as_num
from .. import gen
from ..gen import ICO, DODE
from .p13 import check_points, nontrivial, NAMES
from .p24 import setup, mod

P = Property("P27", "Cython packages: XYZ round trip",
             rule="a case is non-trivial when at least two vertices with a non-zero irrational part are written",
             assumptions=["components with numerators up to 9 and denominators up to 4"], setup=setup)
A = gen.arr


def obj(S, k, n):
    free = st.lists(st.tuples(st.integers(-9, 9), st.integers(-9, 9), st.integers(1, 4)).map(list), min_size=6, max_size=6)
    v = st.one_of(S.vs(2, (1, 2)), free)
    return st.lists(st.lists(v, min_size=k, max_size=k), min_size=1, max_size=n)


@st.composite
def case(draw, S):
    kind = draw(st.sampled_from(["cell", "cell", "edge", "vertex"] + (["triangle"] if S is ICO else [])))
    k = dict(cell=S.k, edge=2, triangle=3, vertex=1)[kind]
    o = draw(gen.crowd(obj(S, k, 9)))
    if kind == "vertex":
        o = [x[0] for x in o]
    return dict(kind=kind, obj=o, name=draw(NAMES), via=draw(st.booleans()), sub=draw(st.booleans()),
                before=draw(st.one_of(st.none(), obj(S, S.k, 4))))


def numbers(S, txt, cells, total_word, cell_word):
    """exact total and per-cell measures quoted in the file"""
    m = re.search(total_word + r" = (-?\d+) (-?\d+) (-?\d+) \(\s*(-?[\d.]+)\)", txt)
    expect(m, "no %s in the XYZ file", total_word)
    tot = S.F(0)
    for c in cells:
        tot = tot + S.meas(c)
    expect(as_num(S.F, [int(x) for x in m.groups()[:3]], total_word) == tot, "%s in the XYZ file is wrong", total_word)
    expect(abs(float(m.group(4)) - float(tot)) < 2e-6 * max(1, abs(float(tot))), "%s in the XYZ file is wrong", total_word)
    each = re.findall(r"(\d+)-the %s, (-?\d+) (-?\d+) (-?\d+) \(\s*(-?[\d.]+)\)" % cell_word, txt)
    expect(sorted(int(e[0]) for e in each) == list(range(len(cells))), "the XYZ file lists %d cell measures for %d cells", len(each), len(cells))
    for e in each:
        expect(as_num(S.F, [int(x) for x in e[1:4]], "measure") == S.meas(cells[int(e[0])]), "the measure of cell %s in the XYZ file is wrong", e[0])


def run(S, c):
    M = mod("ico.occupation_domain" if S is ICO else "dode.occupation_domain")
    kind, o = c["kind"], A(c["obj"])
    vs = c["obj"] if kind == "vertex" else [v for e in c["obj"] for v in e]
    sel = {"cell": "tetrahedron" if S is ICO else "triangle"}.get(kind, kind)
    with scratch() as d:
        path = os.path.join(d, "new", "dir") if c["sub"] else d
        if not c["via"]:
            os.makedirs(path, exist_ok=True)
        if c["before"] is not None:
            os.makedirs(path, exist_ok=True)
            sut(M.write_xyz, A(c["before"]), path, c["name"])
        kw = dict(select=sel) if S is ICO else {}
        if c["via"]:
            pure(M.write, o, path, c["name"], "xyz", **kw)
        else:
            pure(M.write_xyz, o, path, c["name"], **kw)
        expect(os.listdir(path) == [c["name"] + ".xyz"], "%s: export of a set of %s wrote %s", S.name, kind, os.listdir(path))
        rest = check_points(S, os.path.join(path, c["name"] + ".xyz"), vs)
        if kind == "cell":
            big = max(abs(x) for v in vs for t in v for x in t[:2])
            den = max(t[2] for v in vs for t in v)
            if len(c["obj"]) <= 4 and big * den <= 12:      # larger ones exceed 64 bits on the way
                numbers(S, "\n".join(rest), c["obj"], "volume" if S is ICO else "area", sel)
            back = sut(M.read_xyz, path, c["name"])
            expect(np.shape(back) == o.shape and (np.asarray(back) == o).all(), "%s: the domain read back differs", S.name)
        elif kind == "edge" and S is DODE:
            back = sut(M.read_xyz, path, c["name"], "edge")
            expect(np.shape(back) == o.shape and (np.asarray(back) == o).all(), "%s: the edges read back differ", S.name)
        back = np.asarray(sut(M.read_xyz, path, c["name"], "vertex"))
        expect(back.size == len(vs) * 18 and (back.reshape(len(vs), 6, 3) == A(vs)).all(), "%s: the vertices read back differ", S.name)
    return nontrivial(vs) + " " + kind


for S in (ICO, DODE):
    P.sub(S.name.rstrip("2") + "_xyz", case(S), quick=1500, thorough=20000)(lambda c, S=S: run(S, c))
