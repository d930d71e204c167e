"""P15 pod / atm files"""
import os
import re
from collections import Counter
import numpy as np
from hypothesis import strategies as st
from ..core import Property, expect, sut, scratch
from ..util import pure
from .. import gen, geom as G
from ..field import vec

import pyqcstrc.ico2.occupation_domain as oi
import pyqcstrc.dode2.occupation_domain as odd

P = Property("P15", "pod and atm files",
             rule="a case is non-trivial when at least two cells are written, or when there is no common vertex to write them from",
             assumptions=["vertices of one domain that coincide in internal space are given by the same 6D coordinates",
                          "coordinates compared to the decimals written (3 for the position, 6 for vertices)"])
A = gen.arr


def nums(ln):
    return [float(x) for x in re.sub(r"^[a-z0-9]*=", "", ln).replace("v=1.0", "").split()]


def fl(S, v):
    return [float(x) for x in vec(S.F, v)]


def near(p, q, tol):
    return len(p) == len(q) and all(abs(a - b) <= tol for a, b in zip(p, q))


def pods(txt):
    """[(serial, announced vertices, [ej], nth count, [indices])]"""
    out = []
    for ln in txt.split("\n"):
        m = re.match(r"^(\d+) (\d+) \d+ '", ln)
        if m:
            out.append([int(m.group(1)), int(m.group(2)), [], None, None])
        elif ln.startswith("ej="):
            expect(out, "a vertex is written before the first domain")
            out[-1][2].append(nums(ln))
        elif ln.startswith("nth="):
            w = [int(x) for x in ln[4:].split()]
            out[-1][3], out[-1][4] = w[0], w[1:]
    return out


# --- from a domain with a common vertex -------------------------------------

@st.composite
def fan(draw, S):
    """cells around one vertex (a subdivided cell cut by edge midpoints of the opposite side keeps the apex), or not"""
    a = draw(gen.cell(S, 2, (1, 2)))
    kind = draw(st.sampled_from(["fan", "fan", "centre", "any"]))
    if kind == "centre":
        o = gen.subdivide(S, a, [(0, 1, 0, 0)])
    else:
        i0 = draw(st.integers(0, S.k - 1))
        ops = draw(st.lists(st.tuples(st.integers(0, 5), st.just(0), st.integers(0, S.k - 1), st.integers(0, S.k - 1)),
                            min_size=1 if kind == "fan" else 3, max_size=4 if kind == "fan" else 7))
        o = [a]
        for idx, _, i, j in ops:
            t = o[idx % len(o)]
            if kind == "fan":
                rest = [q for q in range(S.k) if t[q] != a[i0]]
                i, j = rest[i % len(rest)], rest[j % len(rest)]
            if i == j:
                continue
            m = S.lin([S.F(1, 0, 2)] * 2, [t[i], t[j]])
            new = []
            for u in o:
                if t[i] in u and t[j] in u:
                    u1, u2 = list(u), list(u)
                    u1[u.index(t[i])] = m
                    u2[u.index(t[j])] = m
                    new += [u1, u2]
                else:
                    new.append(u)
            o = new
    if draw(st.booleans()) and len(o) > 1:
        o = o[1:]
    o = draw(gen.placed(S, st.just(o)))
    o = [list(draw(st.permutations(c))) for c in o]
    return dict(obj=o, serial=draw(st.integers(1, 12)), sub=draw(st.booleans()))


def run_fan(S, mod, c):
    o = c["obj"]
    common = [v for v in o[0] if all(v in cell for cell in o)]
    allv = []
    for cell in o:
        for v in cell:
            if v not in allv:
                allv.append(v)
    with scratch() as d:
        path = os.path.join(d, "s") if c["sub"] else d
        r = pure(mod.obj2podatm, A(o), serial_number=c["serial"], path=path, basename="x")
        fa, fp = os.path.join(path, "x.atm"), os.path.join(path, "x.pod")
        if not common:
            expect(r == 1, "%s: a domain without common vertex was accepted (%s)", S.name, r)
            expect(not os.path.exists(fa) and not os.path.exists(fp), "%s: files for a domain without common vertex", S.name)
            return "no common vertex"
        expect(r == 0, "%s: pod/atm export of a domain with a common vertex returned %s", S.name, r)
        with open(fa, encoding="utf-8") as f:
            atm = f.read()
        with open(fp, encoding="utf-8") as f:
            pod = f.read()
    x = [nums(ln) for ln in atm.split("\n") if ln.startswith("x=")]
    expect(len(x) == 1, "%s: atm file holds %d positions", S.name, len(x))
    apex = [v for v in common if near(x[0], fl(S, v), 6e-4)]
    expect(apex, "%s: position %s in the atm file is not a vertex common to all cells", S.name, x[0])
    expect(re.match(r"^%d\b" % c["serial"], atm), "%s: atm file does not start with the serial number", S.name)
    ps = pods(pod)
    expect(len(ps) == 1, "%s: pod file holds %d domains", S.name, len(ps))
    ser, n, ej, _, idx = ps[0]
    expect(ser == c["serial"], "%s: serial number %d in the pod file", S.name, ser)
    expect(n == len(ej) == len(allv) - 1, "%s: pod file announces %d vertices, lists %d, domain has %d besides the common one", S.name,
           n, len(ej), len(allv) - 1)
    expect(idx is not None and len(idx) == len(o) * (S.k - 1), "%s: pod file holds %s indices for %d cells", S.name,
           None if idx is None else len(idx), len(o))
    which = []
    for e in ej:
        w = [v for v in allv if near(e, fl(S, v), 2e-6)]
        expect(w, "%s: vertex %s in the pod file is no vertex of the domain", S.name, e)
        which.append(w[0])
    ok = False
    for ap in apex:
        got = Counter()
        for q in range(0, len(idx), S.k - 1):
            t = idx[q:q + S.k - 1]
            expect(all(1 <= i <= len(which) for i in t), "%s: index out of range in the pod file: %s", S.name, t)
            got[frozenset(map(str, [which[i - 1] for i in t] + [ap]))] += 1
        ok = ok or got == Counter(frozenset(map(str, cell)) for cell in o)
    expect(ok, "%s: the cells listed in the pod file are not those of the domain", S.name)
    return "cells %d" % min(len(o), 5) if len(o) > 1 else "-one cell"


for S, mod in ((gen.ICO, oi), (gen.DODE, odd)):
    def mk(S=S, mod=mod):
        return lambda case: run_fan(S, mod, case)
    P.sub(S.name + "_fan", fan(S), quick=1500, thorough=20000)(mk())


# --- from vertices and lists of tetrahedra (icosahedral) ---------------------

@st.composite
def lists(draw):
    n = draw(st.integers(4, 9))
    vs = draw(st.lists(gen.vec6(2, (1, 2, 3)), min_size=n, max_size=n, unique_by=str))
    vs = draw(gen.crowd(st.just(vs), sizes=(17, 40, 120)))
    vs = list({str(v): v for v in vs}.values())
    n = len(vs)
    vl = []
    for _ in range(draw(st.integers(1, 3 if n < 10 else 12))):
        m = draw(st.integers(1, 4 if n < 10 else 12))
        l = [draw(st.integers(1, n))]
        for _ in range(m):
            l += draw(st.lists(st.integers(1, n), min_size=3, max_size=3, unique=True))
        vl.append(l)
    sh = draw(st.one_of(st.just([0.0] * 6), st.lists(st.sampled_from([0.0, 0.5, -0.25, 1.0]), min_size=6, max_size=6)))
    return dict(v=vs, vlist=vl, pos=draw(gen.vec6(1, (1, 2))), shift=sh, sub=draw(st.booleans()))


@P.sub("ico2_lists", lists(), quick=1500, thorough=20000)
def run_ico2(c):
    return run_lists(oi, c)


def run_lists(mod, c):
    S = gen.ICO
    with scratch() as d:
        path = os.path.join(d, "s") if c["sub"] else d
        kw = {} if not any(c["shift"]) else dict(shift=c["shift"])
        r = pure(mod.write_podatm, A(c["v"]), A(c["pos"]), c["vlist"], path=path, basename="x", **kw)
        expect(r == 0, "pod/atm export returned %s", r)
        with open(os.path.join(path, "x.atm"), encoding="utf-8") as f:
            atm = f.read()
        with open(os.path.join(path, "x.pod"), encoding="utf-8") as f:
            pod = f.read()
    x = [nums(ln) for ln in atm.split("\n") if ln.startswith("x=")]
    xi = [nums(ln) for ln in atm.split("\n") if ln.startswith("xi=")]
    n = len(c["vlist"])
    expect(len(x) == n and len(xi) == n, "atm file holds %d/%d entries for %d domains", len(x), len(xi), n)
    ps = pods(pod)
    expect(len(ps) == n, "pod file holds %d domains instead of %d", len(ps), n)
    m = re.search(r"io=(\d+)", pod)
    expect(m and int(m.group(1)) == n, "pod file announces %s domains instead of %d", m and m.group(1), n)
    for l, a, b, (ser, cnt, ej, nth, idx), k in zip(c["vlist"], x, xi, ps, range(n)):
        v0 = fl(S, c["v"][l[0] - 1])
        expect(near(a, fl(S, c["pos"]), 6e-4), "position %s in the atm file", a)
        expect(near(b, [p + q for p, q in zip(v0, c["shift"])], 2e-6), "centre %s in the atm file instead of %s + %s", b, v0, c["shift"])
        expect(ser == k + 1, "domain %d has serial number %d", k + 1, ser)
        expect(cnt == len(ej) == len(set(l[1:])), "domain %d: %d vertices announced, %d listed, %d used", k + 1, cnt, len(ej), len(set(l[1:])))
        expect(nth == (len(l) - 1) // 3, "domain %d: %s tetrahedra announced instead of %d", k + 1, nth, (len(l) - 1) // 3)
        expect(len(idx) == len(l) - 1, "domain %d: %d indices for %d", k + 1, len(idx), len(l) - 1)
        for i, j in zip(idx, l[1:]):
            expect(1 <= i <= len(ej), "domain %d: index %d out of range", k + 1, i)
            w = [p - q for p, q in zip(fl(S, c["v"][j - 1]), v0)]
            expect(near(ej[i - 1], w, 2e-6), "domain %d: vertex %d is at %s from the centre instead of %s", k + 1, j, ej[i - 1], w)
    return "lists"
