"""P13 XYZ export and import"""
import os
import re
import numpy as np
from hypothesis import strategies as st
from ..core import Property, expect, sut, scratch
from ..util import pure, as_num
from .. import gen

import pyqcstrc.ico2.occupation_domain as oi
import pyqcstrc.dode2.occupation_domain as odd

P = Property("P13", "XYZ round trip",
             rule="a case is non-trivial when at least two vertices with a non-zero irrational part are written",
             assumptions=["components are fractions with numerators up to 10**5, denominators up to 12; up to 150 cells"])
A = gen.arr
CELLNAME = {"ico2": "tetrahedron", "dode2": "triangle"}


def atoms(path):
    """plain XYZ reader: number of points, comment, element x y z ..."""
    with open(path, encoding="utf-8") as f:
        lines = f.read().split("\n")
    n = int(lines[0].split()[0])
    pts = []
    for ln in lines[2:2 + n]:
        w = ln.split()
        expect(len(w) >= 4, "XYZ file announces %d points but line %r is no point", n, ln)
        pts.append([float(x) for x in w[1:4]])
    return n, pts, lines[2 + n:]


def check_points(S, path, vs):
    n, pts, rest = atoms(path)
    expect(n == len(vs), "%s XYZ file announces %d points instead of %d", S.name, n, len(vs))
    expect(len(pts) == n, "%s XYZ file announces %d points and holds %d", S.name, n, len(pts))
    for p, v in zip(pts, vs):
        for x, y in zip(p, S.perp3(v)):
            expect(abs(x - float(y)) < 2e-6 + 1e-10 * max((abs(t[0]) + 2 * abs(t[1])) / abs(t[2]) for t in v), "%s XYZ file: coordinate %s instead of %s", S.name, x, float(y))
    return rest


def nontrivial(vs):
    k = sum(1 for v in vs if any(t[1] for t in v))
    return "irrational" if k >= 2 else "-rational"


NAMES = st.sampled_from(["tmp", "od", "a.b", "strt_asymmetric", "x-1"])


def obj(S, k, n=3):
    big = st.lists(st.tuples(st.integers(-40, 40), st.integers(-40, 40), st.integers(1, 12)).map(list), min_size=6, max_size=6)
    huge = st.lists(st.one_of(gen.triple(10 ** 3, 10 ** 3, 12), gen.triple(10 ** 5, 10 ** 5, 2), st.just([0, 0, 1])), min_size=6, max_size=6)
    v = st.one_of(S.vs(2, (1, 2)), big, S.vs(2, (1, 2)), big, huge)
    return st.lists(st.lists(v, min_size=k, max_size=k), min_size=1, max_size=n)


@st.composite
def cells_case(draw, S):
    o = draw(obj(S, S.k, 12))
    if draw(st.integers(0, 24)) == 0:           # many cells
        vs = [v for c in o for v in c]
        m = len(vs)
        a, b = draw(st.integers(1, 50)), draw(st.integers(0, 50))
        o = [[vs[(a * i * i + b * j + i) % m] for j in range(S.k)] for i in range(draw(st.integers(13, 150)))]
    return dict(obj=o, name=draw(NAMES), via=draw(st.sampled_from(["write", "write_xyz"])),
                sub=draw(st.booleans()), before=draw(st.one_of(st.none(), obj(S, S.k, 4))))


def run_cells(S, mod, c):
    with scratch() as d:
        path = os.path.join(d, "new", "dir") if c["sub"] else d
        o = A(c["obj"])
        if c["via"] == "write_xyz" and c["sub"]:
            os.makedirs(path)
        if c["before"] is not None:               # an older, possibly longer, file of that name
            os.makedirs(path, exist_ok=True)
            sut(mod.write_xyz, A(c["before"]), path, c["name"])
        if c["via"] == "write":
            pure(mod.write, o, path, c["name"], "xyz")
        else:
            pure(mod.write_xyz, o, path, c["name"])
        fn = os.path.join(path, c["name"] + ".xyz")
        expect(os.path.exists(fn), "%s: no file %s", S.name, c["name"])
        vs = [v for cell in c["obj"] for v in cell]
        rest = check_points(S, fn, vs)
        back = sut(mod.read_xyz, path, c["name"])
        expect(np.shape(back) == o.shape and (np.asarray(back) == o).all(), "%s: the domain read back differs", S.name)
        bv = sut(mod.read_xyz, path, c["name"], "vertex")
        expect(np.shape(bv) == (len(vs), 6, 3) and (np.asarray(bv).reshape(o.shape) == o).all(),
               "%s: the vertices read back differ", S.name)
        if S is gen.ICO:
            tot = S.F(0)
            for cell in c["obj"]:
                tot = tot + S.meas(cell)
            txt = "\n".join(rest)
            m = re.search(r"volume = (-?\d+) (-?\d+) (-?\d+) \(\s*(-?[\d.]+)\)", txt)
            expect(m, "no volume in the XYZ file")
            expect(as_num(S.F, [int(x) for x in m.groups()[:3]], "volume") == tot, "volume in the XYZ file is wrong")
            expect(abs(float(m.group(4)) - float(tot)) < 2e-6 * max(1, abs(float(tot))), "volume in the XYZ file is wrong")
            each = re.findall(r"(\d+)-the tetrahedron, (-?\d+) (-?\d+) (-?\d+) \(\s*(-?[\d.]+)\)", txt)
            expect(len(each) == len(c["obj"]), "XYZ file lists %d cell volumes", len(each))
            for e in each:
                ref = S.meas(c["obj"][int(e[0])])
                expect(as_num(S.F, [int(x) for x in e[1:4]], "cell volume") == ref,
                       "volume of tetrahedron %s in the XYZ file is wrong", e[0])
        left = sorted(os.listdir(path))
        expect(left == [c["name"] + ".xyz"] or (c["sub"] is False and set(left) <= {c["name"] + ".xyz"}),
               "export left other files: %s", left)
    return nontrivial(vs)


@st.composite
def parts_case(draw, S):
    kinds = ["edge", "vertex"] + (["triangle"] if S is gen.ICO else [])
    kind = draw(st.sampled_from(kinds))
    k = dict(edge=2, triangle=3, vertex=1)[kind]
    o = draw(obj(S, k, 8))
    if kind == "vertex":
        o = [x[0] for x in o]
    return dict(kind=kind, obj=o, name=draw(NAMES), via=draw(st.sampled_from(["write", "write_xyz"])))


def run_parts(S, mod, c):
    with scratch() as d:
        o = A(c["obj"])
        if c["via"] == "write":
            pure(mod.write, o, path=d, basename=c["name"], format="xyz", select=c["kind"])
        else:
            pure(mod.write_xyz, o, path=d, basename=c["name"], select=c["kind"])
        vs = c["obj"] if c["kind"] == "vertex" else [v for e in c["obj"] for v in e]
        fn = os.path.join(d, c["name"] + ".xyz")
        expect(os.path.exists(fn), "%s: no file written for a set of %s", S.name, c["kind"])
        check_points(S, fn, vs)
        bv = sut(mod.read_xyz, d, c["name"], "vertex")
        expect(np.shape(bv) == (len(vs), 6, 3) and (np.asarray(bv).ravel() == A(vs).ravel()).all(),
               "%s: the vertices read back from a set of %s differ", S.name, c["kind"])
    return (nontrivial(vs) + " " + c["kind"])


for S, mod in ((gen.ICO, oi), (gen.DODE, odd)):
    def mk(f, *a):
        return lambda case: f(*a, case)
    P.sub(S.name + "_cells", cells_case(S), quick=1500, thorough=20000)(mk(run_cells, S, mod))
    P.sub(S.name + "_parts", parts_case(S), quick=1200, thorough=15000)(mk(run_parts, S, mod))


# the documented interchange files: a sequence of saves and loads in one directory behaves like a dictionary
@st.composite
def history(draw, S):
    steps = []
    for _ in range(draw(st.integers(2, 7))):
        if draw(st.integers(0, 2)):
            steps.append(["save", draw(st.sampled_from(["a", "b", "c"])), draw(obj(S, S.k, 3))])
        else:
            steps.append(["load", draw(st.sampled_from(["a", "b", "c"])), None])
    return steps


def run_history(S, mod, steps):
    model = {}
    loads = 0
    with scratch() as d:
        for op, name, o in steps + [["load", n, None] for n in ("a", "b", "c")]:
            if op == "save":
                sut(mod.write, A(o), d, name, "xyz")
                model[name] = o
            elif name in model:
                r = sut(mod.read_xyz, d, name)
                expect(np.asarray(r).tolist() == model[name], "%s: file %s does not hold what was last saved to it", S.name, name)
                loads += 1
    return "loads %d" % min(loads, 5) if len(model) > 1 else "-one file"


for S, mod in ((gen.ICO, oi), (gen.DODE, odd)):
    P.sub(S.name + "_history", history(S), quick=500, thorough=6000)(mk(run_history, S, mod))
