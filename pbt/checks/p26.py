"""P26 generated dodecagonal structures are the cut of the lattice"""
import itertools
import math
import os
from hypothesis import strategies as st
import numpy as np
from ..core import Property, expect, scratch
from ..field import vec
from ..util import pure
from .. import gen, geom as G
from ..gen import DODE
from .p24 import setup, mod

P = Property("P26", "Generated dodecagonal structures are the cut of the lattice",
             rule="a case is non-trivial when at least one lattice point is selected and at least one is not",
             assumptions=["lattice points closer than 1e-3 to the border of a domain on its outer side, or 1e-9 on its inner side, may go "
                          "either way", "origin shifts have no third internal component", "nmax up to 3 (quick) or 4"], setup=setup)

S3 = math.sqrt(3) / 2


def par(h):
    return (S3 * h[0] + h[1] - 0.5 * h[3], -0.5 * h[0] + h[2] + S3 * h[3], h[4])


def perp(h):
    return (-S3 * h[0] + h[1] - 0.5 * h[3], -0.5 * h[0] + h[2] - S3 * h[3])


def perp_ph(h, u):
    p, q = perp(h), par(h)
    if not u:
        return p
    return (p[0] + u[0][0] * q[0] + u[1][0] * q[1], p[1] + u[0][1] * q[0] + u[1][1] * q[1])


def fl(v):
    return [float(x) for x in vec(DODE.F, v)]


def where(tris, p):
    """1 inside, -1 outside, 0 too close to tell"""
    best = -1
    for t in tris:
        d = []
        for i in range(3):
            a, b, c = t[i], t[(i + 1) % 3], t[(i + 2) % 3]
            L = math.hypot(b[0] - a[0], b[1] - a[1])
            s = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
            d.append(((b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])) / L * (1 if s > 0 else -1))
        m = min(d)
        if m > 1e-9:
            return 1
        if m > -1e-3:
            best = 0
    return best


def phason():
    v = st.sampled_from([0.0, 0.0, 0.01, -0.02, 0.05, 0.1, -0.07])
    return st.one_of(st.none(), st.none(), st.lists(st.lists(v, min_size=2, max_size=2), min_size=2, max_size=2))


SH = st.one_of(st.just([0.0] * 4), st.lists(st.sampled_from([0.0, 0.0017825, 0.25, -0.1376, 0.39877, 0.5]), min_size=4, max_size=4))
UNIT = [[0, 0, 1]] * 6, [[0, -2, 3], [0, 2, 3]] + [[0, 0, 1]] * 4, [[0, -2, 3], [0, 2, 3], [3, -4, 3], [-3, 4, 3], [0, 0, 1], [0, 0, 1]]


@st.composite
def cases(draw, nmaxes):
    n = draw(st.integers(1, 2))
    objs = [draw(st.lists(st.one_of(gen.cell(DODE, 1, (1, 2), 0.05), st.just([list(v) for v in UNIT])), min_size=1, max_size=2)) for _ in range(n)]
    pos = [draw(gen.vec6d(1, (1, 2))) for _ in range(n)]
    esh = [draw(st.one_of(st.just([[0, 0, 1]] * 6), gen.vec6d(1, (1, 2)))) for _ in range(n)]
    return [objs, pos, esh, draw(phason()), draw(st.sampled_from(nmaxes)), draw(SH) + [draw(st.sampled_from([0.0, 0.5])), 0.0]]


def reference(case):
    """(must, may): dicts (i,h) -> position"""
    objs, pos, esh, u, nmax, shift = case
    if u is not None and not any(x for r in u for x in r):
        u = None
    tr = [[[perp(fl(v)) for v in t] for t in o] for o in objs]
    off = [tuple(a + b for a, b in zip(par(fl(p)), par(fl(e)))) for p, e in zip(pos, esh)]
    s = perp_ph(shift, u)
    must, may, out = {}, {}, 0
    for h in itertools.product(range(-nmax, nmax + 1), repeat=4):
        q = perp_ph(h + (0, 0), u)
        p = (q[0] - s[0], q[1] - s[1])
        e = par(h + (0, 0))
        for i, t in enumerate(tr):
            w = where(t, p)
            if w < 0:
                out += 1
                continue
            (must if w > 0 else may)[(i, h)] = tuple(a - b for a, b in zip(e, off[i]))
    return must, may, out


def compare(rows, must, may, what):
    """rows: (i, h, position)"""
    seen = set()
    for i, h, x in rows:
        k = (i, h)
        ref = must.get(k) or may.get(k)
        expect(ref is not None, "%s: lattice point %s is not inside domain %d", what, h, i)
        expect(k not in seen, "%s: lattice point %s of domain %d is given twice", what, h, i)
        seen.add(k)
        expect(all(abs(a - b) < 1e-8 for a, b in zip(x, ref)), "%s: atom of lattice point %s lies at %s, expected %s", what, h, x, ref)
    for k in must:
        expect(k in seen, "%s: lattice point %s is inside domain %d but missing", what, k[1], k[0])


@P.sub("points", lambda: cases([1, 2, 2]), quick=320, thorough=3000)
def points(case):
    objs, pos, esh, u, nmax, shift = case
    A = gen.arr
    must, may, out = reference(case)
    M = np.array(u if u is not None else [[0.0]], dtype=float)
    if u is not None and not M.any():
        M = np.array([[0.0]])
    r = pure(mod("dode.strc12").strc, [A(o) for o in objs], [A(p) for p in pos], M, nmax, [A(e) for e in esh], list(shift), 0)
    rows = [(int(round(x[3])), tuple(int(round(y)) for y in x[4:8]), tuple(x[:3])) for x in np.asarray(r).reshape(-1, 8).tolist()]
    compare(rows, must, may, "strc")
    return ("phason" if u else "plain") if must and out else "-nothing selected"


@P.sub("files", lambda: cases([1, 2, 3]), quick=120, thorough=1500)
def files(case):
    objs, pos, esh, u, nmax, shift = case
    A = gen.arr
    must, may, out = reference(case)
    M = np.array(u if u is not None else [[0.0]], dtype=float)
    O = mod("dode.occupation_domain")
    names = ["Al", "Mn"][:len(objs)]
    with scratch() as d:
        for opt in (1, 0):
            pure(O.qcstrc, [A(o) for o in objs], [A(p) for p in pos], d, "s%d" % opt, names, M, nmax, [A(e) for e in esh], list(shift), 0, opt)
            f = os.path.join(d, "s%d.xyz" % opt)
            expect(os.path.exists(f), "qcstrc wrote no file")
            L = open(f).read().split("\n")
            n = int(L[0].split()[0])
            body = [x for x in L[2:] if x.strip()]
            expect(len(body) == n, "the file announces %d atoms and has %d", n, len(body))
            if opt == 1:
                rows = []
                for x in body:
                    w = x.split()
                    i = names.index(w[0])
                    h = tuple(int(y) for y in w[5:9])
                    got = tuple(float(y) for y in w[1:4])
                    ref = must.get((i, h)) or may.get((i, h))
                    if ref is not None and all(abs(a - b) < 1e-6 for a, b in zip(got, ref)):
                        got = ref
                    rows.append((i, h, got))
                compare(rows, must, may, "qcstrc file")
                first = sorted((x.split()[0],) + tuple(x.split()[1:4]) for x in body)
            else:
                expect(sorted(tuple(x.split()) for x in body) == first, "the two kinds of file do not have the same atoms")
    return ("phason" if u else "plain") if must and out else "-nothing selected"


@P.sub("inside", st.tuples(st.lists(gen.cell(DODE, 2, (1, 2), 0.05), min_size=1, max_size=3),
                           st.lists(st.tuples(st.floats(-4, 4), st.floats(-4, 4)).map(list), min_size=4, max_size=12), phason()).map(list),
       quick=800, thorough=10000)
def inside(case):
    o, pts, u = case
    N = mod("dode.numericalc12")
    tr = [[perp(fl(v)) for v in t] for t in o]
    # some of the points inside for sure
    for t in tr:
        pts = pts + [[sum(p[i] for p in t) / 3 for i in range(2)]]
    n = 0
    for p in pts:
        w = where(tr, p)
        r = pure(N.inout_occupation_domain_numerical, gen.arr(o), np.array([p[0], p[1], 0.0]), 0)
        if w:
            n += w > 0
            expect((r == 0) == (w > 0), "point %s of internal space is %s the domain, not found so", p, "inside" if w > 0 else "outside")
        if u:
            tp = [[perp_ph(fl(v), u) for v in t] for t in o]
            if all(abs((t[1][0] - t[0][0]) * (t[2][1] - t[0][1]) - (t[1][1] - t[0][1]) * (t[2][0] - t[0][0])) > 0.05 for t in tp):
                w = where(tp, p)
                r = pure(N.inout_occupation_domain_phason_numerical, gen.arr(o), np.array([p[0], p[1], 0.0]), np.array(u), 0)
                if w:
                    expect((r == 0) == (w > 0), "point %s is %s the strained domain, not found so", p, "inside" if w > 0 else "outside")
    return "points" if 0 < n < len(pts) else "-one side"
