"""P14 VESTA export"""
import os
import re
from itertools import combinations
import numpy as np
from hypothesis import strategies as st
from ..core import Property, expect, sut, scratch
from ..util import pure
from .. import gen, geom as G

import pyqcstrc.ico2.occupation_domain as oi
import pyqcstrc.dode2.occupation_domain as odd

P = Property("P14", "VESTA export",
             rule="a case is non-trivial when the domain has at least two cells (edges) that share a vertex",
             assumptions=["domains are conforming subdivisions of a cell or parts of them", "coordinates compared to the six decimals written"])
A = gen.arr
COL = dict(r=[255, 0, 0], b=[0, 0, 255], k=[127, 127, 127], p=[255, 0, 255], l=[0, 255, 0], y=[255, 255, 0], c=[0, 255, 255],
           s=[192, 192, 192])
NAMED = dict(red="r", blue="b", black="k", pink="p", lime="l", yellow="y", cyan="c", silver="s")
COLS = sorted(COL) + sorted(NAMED)
TOL = 2e-6


def parse(path):
    """list of molecules: dict(atoms={label: xyz}, order=[labels], bonds=[(l1,l2,lo,hi,rgb)], loose=rgb or None)"""
    with open(path) as f:
        txt = f.read()
    expect(txt.startswith("#VESTA_FORMAT_VERSION"), "the VESTA file does not start with its version line")
    expect(txt.rstrip() and "STYLE" in txt and "ATOMT" in txt, "the VESTA file is not complete")
    out = []
    for block in re.split(r"(?m)^\s*MOLECULE\s*$", txt)[1:]:
        mol = dict(atoms={}, order=[], bonds=[], loose=None, reach=None, THERI=[], SITET=[])
        sec = None
        for ln in block.split("\n"):
            w = ln.split()
            if w and re.match(r"^[A-Z][A-Z0-9]{4,}$", w[0]) and not re.match(r"^[A-Z]\d+$", w[0]):
                sec = w[0]
                continue
            if sec == "STRUC" and len(w) >= 7 and not _num(w[1]):
                expect(w[2] not in mol["atoms"], "VESTA file: two points are called %s", w[2])
                mol["atoms"][w[2]] = [float(x) for x in w[4:7]]
                mol["order"].append(w[2])
            if sec == "SBOND" and len(w) >= 12 and not _num(w[1]):
                rgb = [int(x) for x in w[-3:]]
                if w[1] == "Xx":
                    expect(mol["loose"] is None, "VESTA file: a cell has two bond entries")
                    mol["loose"] = rgb
                    mol["reach"] = (float(w[3]), float(w[4]))
                else:
                    mol["bonds"].append((w[1], w[2], float(w[3]), float(w[4]), rgb))
            if sec in ("THERI", "SITET") and len(w) >= 3 and not _num(w[1]):
                mol[sec].append(w[1])
        for sec in ("THERI", "SITET"):
            expect(mol[sec] == mol["order"], "VESTA file: section %s lists the points %s instead of %s", sec, mol[sec], mol["order"])
        out.append(mol)
    return out


def _num(x):
    try:
        float(x)
        return True
    except ValueError:
        return False


def near(p, q):
    return all(abs(x - float(y)) <= TOL for x, y in zip(p, q))


def match_points(mol, pts, what):
    """labels -> index into pts (distinct exact points); one to one"""
    expect(len(mol["atoms"]) == len(pts), "%s: %d points written, %d expected", what, len(mol["atoms"]), len(pts))
    m = {}
    for lab, xyz in mol["atoms"].items():
        c = [i for i, p in enumerate(pts) if near(xyz, p)]
        expect(c, "%s: %s is at %s, which is no vertex", what, lab, xyz)
        m[lab] = c[0]
    expect(len(set(m.values())) == len(pts), "%s: a vertex is missing", what)
    return m


def separated(pts):
    f = [[float(x) for x in p] for p in pts]
    return all(max(abs(a - b) for a, b in zip(p, q)) > 1e-4 for p, q in combinations(f, 2))


def uniq(seq):
    return list(dict.fromkeys(seq))


@st.composite
def cases(draw, S):
    sel = draw(st.sampled_from(["normal", "normal", "simple", "simple", "podatm", "egdes"]))
    o = draw(gen.placed(S, gen.any_obj(S, 3, gen.cell(S, 2, (1, 2)), True)))
    o = [list(draw(st.permutations(c))) for c in o]
    o = draw(gen.crowd(st.just(o), sizes=(17, 33, 60), odds=40))
    if sel == "egdes":
        es = []
        seen = set()
        for c in o:
            for a, b in combinations(c, 2):
                k = frozenset([S.perp3(a), S.perp3(b)])
                if k not in seen:
                    seen.add(k)
                    es.append([a, b])
        n = draw(st.integers(1, min(7, len(es))))
        o = list(draw(st.permutations(es)))[:n]
    return dict(obj=o, select=sel, color=draw(st.one_of(st.sampled_from(COLS), st.lists(st.integers(0, 255), min_size=3, max_size=3))), write=draw(st.booleans()), old=draw(st.booleans()),
                sub=draw(st.booleans()))


def run(S, mod, c, export=None):
    """export: how to call the package under test when it is not one of the two Python packages"""
    o, sel = c["obj"], c["select"]
    rgb = c["color"] if isinstance(c["color"], list) else COL[NAMED.get(c["color"], c["color"])]
    allp = [S.perp3(v) for cell in o for v in cell]
    pts = uniq(allp)
    if not separated(pts):
        return "-points too close"
    with scratch() as d:
        path = os.path.join(d, "sub") if c["sub"] else d
        if c["old"]:
            os.makedirs(path, exist_ok=True)
            with open(os.path.join(path, "x.vesta"), "w") as f:
                f.write("old\n" * 3000)
        if export:
            r, reach = export(mod, A(o), path, c)
        viawrite = c["write"] and (sel == "normal" or S is gen.DODE and sel != "podatm")
        if export:
            pass
        elif viawrite:
            kw = {} if S is gen.ICO else dict(select=sel)
            r = pure(mod.write, A(o), path=path, basename="x", format="vesta", color=c["color"], **kw)
        else:
            r = pure(mod.write_vesta, A(o), path=path, basename="x", color=c["color"], select=sel)
        what = "%s VESTA export (%s)" % (S.name, sel)
        fn = os.path.join(path, "x.vesta")
        expect(os.path.exists(fn), "%s: no file", what)
        mols = parse(fn)
        expect(os.listdir(path) == ["x.vesta"], "%s left other files: %s", what, os.listdir(path))
    if sel == "normal":
        expect(len(mols) == len(o), "%s: %d objects written for %d cells", what, len(mols), len(o))
        left = [[S.perp3(v) for v in cell] for cell in o]
        for mol in mols:
            xs = [mol["atoms"][k] for k in mol["order"]]
            longest = max(sum((a - b) ** 2 for a, b in zip(x, y)) ** 0.5 for x, y in combinations(xs, 2))
            expect(mol["reach"] and mol["reach"][0] <= 1e-3 and mol["reach"][1] + 1e-2 >= min(longest, reach if export else 9.9),
                   "%s: edges of length %s are drawn only within %s", what, longest, mol["reach"])
            for i, cell in enumerate(left):
                if len(xs) == len(cell) and all(any(near(x, p) for x in xs) for p in cell):
                    left.pop(i)
                    break
            else:
                expect(False, "%s: an object with vertices %s is none of the cells", what, xs)
            expect(mol["loose"] == rgb, "%s: colour %s instead of %s", what, mol["loose"], rgb)
    else:
        expect(len(mols) == 1, "%s: %d objects written instead of one", what, len(mols))
        mol = mols[0]
        m = match_points(mol, pts, what)
        edges = {frozenset([S.perp3(a), S.perp3(b)]) for cell in o for a, b in combinations(cell, 2)}
        got = []
        for a, b, lo, hi, col in mol["bonds"]:
            expect(a in m and b in m, "%s: a bond joins %s and %s, which are not written", what, a, b)
            p, q = pts[m[a]], pts[m[b]]
            got.append(frozenset([p, q]))
            e = G.sub(p, q)
            dist = float(G.dot(e, e)) ** 0.5
            expect(lo - 1e-3 <= dist <= hi + 1e-3 and hi - lo < 0.1, "%s: bond %s-%s has length %s, written %s..%s", what, a, b, dist, lo, hi)
            expect(col == rgb, "%s: colour %s instead of %s", what, col, rgb)
        expect(len(set(got)) == len(got), "%s: an edge is written twice", what)
        expect(set(got) == edges, "%s: %d edges written, %d expected, %d in common", what, len(got), len(edges), len(set(got) & edges))
        if sel == "podatm":
            expect(np.shape(r) == (len(pts), 6, 3), "%s returns shape %s for %d vertices", what, np.shape(r), len(pts))
            for lab, v in zip(mol["order"], r.tolist()):
                expect(near(mol["atoms"][lab], S.perp3(v)), "%s: returned vertices do not follow the order of the file", what)
    if sel != "podatm":
        expect(r == 0, "%s returned %s", what, r)
    return sel if len(pts) < len(allp) else "-single"


for S, mod in ((gen.ICO, oi), (gen.DODE, odd)):
    def mk(S=S, mod=mod):
        return lambda case: run(S, mod, case)
    P.sub(S.name, cases(S), quick=2500, thorough=25000)(mk())
