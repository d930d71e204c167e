"""exact comparison of a returned set of cells with the reference region"""
import numpy as np
from .core import expect, sut
from .util import obj_shape
from . import geom as G


def cells_of(S, o):
    return S.cells(o)


def check_cells(S, got, what, overlap=True):
    """returned cells are proper and do not overlap; returns Cells"""
    for c in got:
        expect(bool(S.meas(c)), "%s contains a flat cell %s", what, c)
    R = S.cells(got)
    if overlap and len(got) > 1:
        ov = R.self_overlap()
        expect(not ov, "%s: returned cells overlap by %s", what, float(ov))
    return R


def check_intersection(S, res, o1, o2, what, ref=None):
    """res is exactly the common part of o1 and o2 (both interior-disjoint cells)"""
    A, B = S.cells(o1), S.cells(o2)
    if ref is None:
        ref = A.common(B)
    got = obj_shape(res, S.k, what)
    if not got:
        expect(not ref, "%s is empty, the common part has measure %s", what, float(ref))
        return ref, 0
    R = check_cells(S, got, what)
    tot = R.measure()
    expect(tot == ref, "%s has measure %s (%s), the common part has %s (%s)", what, float(tot), tot, float(ref), ref)
    for i, c in enumerate(R.s):
        m = R.meas1(i)
        expect(A.common1(c) == m, "%s: a returned cell is not inside the first domain", what)
        expect(B.common1(c) == m, "%s: a returned cell is not inside the second domain", what)
    return ref, len(got)


def same_region(S, res, o, what):
    """res covers exactly the region of o"""
    got = obj_shape(res, S.k, what)
    A = S.cells(o)
    ref = A.measure()
    if not got:
        expect(not ref, "%s is empty", what)
        return 0
    R = check_cells(S, got, what)
    tot = R.measure()
    expect(tot == ref, "%s has measure %s, not %s", what, float(tot), float(ref))
    for i, c in enumerate(R.s):
        expect(A.common1(c) == R.meas1(i), "%s: a returned cell leaves the domain", what)
    return len(got)


# --- cells that nearly touch ---------------------------------------------------------

def _bary(p, t):
    """barycentric coordinates (floats) of p in the simplex t"""
    m = np.array([x - t[0] for x in t[1:]]).T
    w = np.linalg.solve(m, p - t[0])
    return np.concatenate([[1 - w.sum()], w])


def clear(S, a, b, lo=1e-9, hi=1e-4):
    """no vertex of one cell, and no point where an edge of one crosses a face (side) of the other, is closer than the
    library's tolerance to a boundary without being on it"""
    from itertools import combinations
    A, B = (np.array([[float(x) for x in p] for p in S.pts(c)]) for c in (a, b))

    def fine(w):
        return not ((np.abs(w) > lo) & (np.abs(w) < hi)).any() and not ((np.abs(1 - w) > lo) & (np.abs(1 - w) < hi)).any()
    pts = list(A) + list(B)
    k = S.k
    for X, Y in ((A, B), (B, A)):
        for i, j in combinations(range(k), 2):
            d = X[j] - X[i]
            for f in combinations(range(k), k - 1):
                base = [Y[q] - Y[f[0]] for q in f[1:]]
                m = np.array([d] + [-v for v in base]).T
                n = np.prod([np.linalg.norm(c) for c in m.T])
                det = np.linalg.det(m)
                if abs(det) < lo * n:
                    continue
                if abs(det) < hi * n:
                    return False
                w = np.linalg.solve(m, Y[f[0]] - X[i])
                if not fine(np.append(w, w[1:].sum())):
                    return False
                if (w > -hi).all() and w[0] < 1 + hi and w[1:].sum() < 1 + hi:
                    pts.append(X[i] + w[0] * d)
    return all(fine(_bary(p, t)) for p in pts for t in (A, B))


def judge(S, pairs, fn, overflow=False):
    """runs fn; a wrong answer for domains of which some cells come closer to each other than floating-point tolerances can
    decide, or have a very small common part (and, with overflow, an answer beyond 64-bit integers) is set aside; pairs: the pairs of domains that fn intersects"""
    from .core import Violation
    try:
        return fn()
    except Violation as e:
        if overflow and ("Python int too large" in str(e) or "OverflowError" in str(e)):
            return "-beyond 64 bits"
        tiny = 1e-8 if S.k == 4 else 1e-6
        if not all(clear(S, a, b) and not 0 < float(S.cells([a]).common(S.cells([b]))) < tiny for o1, o2 in pairs for a in o1 for b in o2):
            return "-within the tolerance"
        raise


def near_case(S, run, case):
    """a pair of domains whose cells may nearly touch"""
    if not all(clear(S, a, b) for a in case[0] for b in case[1]):
        return "-within the tolerance"
    return judge(S, [case], lambda: run(case), True)
