"""Exact reference geometry (independent of the library).

Points are tuples of field numbers.  Everything is decided with exact signs.
"""
from .core import OracleError
from .field import Tau, Sin

# --------------------------------------------------------------------------
# vectors

def add(p, q): return tuple(x + y for x, y in zip(p, q))
def sub(p, q): return tuple(x - y for x, y in zip(p, q))
def scal(p, s): return tuple(x * s for x in p)
def dot(p, q):
    r = p[0] * q[0]
    for x, y in zip(p[1:], q[1:]):
        r = r + x * y
    return r
def cross(p, q):
    return (p[1] * q[2] - p[2] * q[1], p[2] * q[0] - p[0] * q[2], p[0] * q[1] - p[1] * q[0])
def cross2(p, q): return p[0] * q[1] - p[1] * q[0]
def det3(a, b, c): return dot(a, cross(b, c))


# --------------------------------------------------------------------------
# projections of 6D coordinates, from the published definitions

def ico_par(v):
    t = Tau(0, 1)
    return ((v[0] - v[4]) + t * (v[1] + v[2]),
            (v[3] + v[5]) + t * (v[0] + v[4]),
            (v[1] - v[2]) - t * (v[3] - v[5]))


def ico_perp(v):
    t = Tau(0, 1)
    return (t * (v[0] - v[4]) - (v[1] + v[2]),
            t * (v[3] + v[5]) - (v[0] + v[4]),
            (v[3] - v[5]) + t * (v[1] - v[2]))


def dode_par(v):
    s = Sin(0, 1)
    h = Sin(1, 0, 2)
    return (s * v[0] + v[1] - h * v[3], v[2] + s * v[3] - h * v[0], v[4])


def dode_perp(v):
    s = Sin(0, 1)
    h = Sin(1, 0, 2)
    return (v[1] - s * v[0] - h * v[3], v[2] - h * v[0] - s * v[3], v[5])


# --------------------------------------------------------------------------
# measures

def tet_vol(t):
    """exact |det|/6"""
    a, b, c = sub(t[1], t[0]), sub(t[2], t[0]), sub(t[3], t[0])
    return abs(det3(a, b, c)) / 6


def tri_area2d(t):
    return abs(cross2(sub(t[1], t[0]), sub(t[2], t[0]))) / 2


def total(F, it):
    r = F(0)
    for x in it:
        r = r + x
    return r


# --------------------------------------------------------------------------
# convex clipping

def tet_halfspaces(t):
    """list of (normal, offset, ...) with inside: dot(n,x) <= d"""
    hs = []
    for i in range(4):
        f = [t[j] for j in range(4) if j != i]
        n = cross(sub(f[1], f[0]), sub(f[2], f[0]))
        d = dot(n, f[0])
        s = (dot(n, t[i]) - d).sign()
        if s == 0:
            raise ValueError("degenerate tetrahedron")
        if s > 0:
            n = tuple(-x for x in n)
            d = -d
        hs.append((n, d))
    return hs


def in_tet(p, t, hs=None):
    """1 strictly inside, 0 on boundary, -1 outside"""
    if hs is None:
        hs = tet_halfspaces(t)
    r = 1
    for n, d in hs:
        s = (d - dot(n, p)).sign()
        if s < 0:
            return -1
        if s == 0:
            r = 0
    return r


def tri_halfplanes(t):
    """2D triangle, vertices (x,y)"""
    hs = []
    for i in range(3):
        a, b = t[(i + 1) % 3], t[(i + 2) % 3]
        e = sub(b, a)
        n = (e[1], -e[0])
        d = dot(n, a)
        s = (dot(n, t[i]) - d).sign()
        if s == 0:
            raise ValueError("degenerate triangle")
        if s > 0:
            n = (-n[0], -n[1])
            d = -d
        hs.append((n, d))
    return hs


def in_tri(p, t, hs=None):
    if hs is None:
        hs = tri_halfplanes(t)
    r = 1
    for n, d in hs:
        s = (d - dot(n, p)).sign()
        if s < 0:
            return -1
        if s == 0:
            r = 0
    return r


def clip_polygon(poly, n, d):
    """clip an ordered convex polygon (any dimension) by dot(n,x) <= d"""
    m = len(poly)
    if m == 0:
        return poly
    ev = [dot(n, p) - d for p in poly]
    sg = [e.sign() for e in ev]
    if all(s <= 0 for s in sg):
        return poly
    out = []
    for i in range(m):
        j = (i + 1) % m
        if sg[i] <= 0:
            out.append(poly[i])
        if sg[i] * sg[j] < 0:
            t = ev[i] / (ev[i] - ev[j])
            out.append(add(poly[i], scal(sub(poly[j], poly[i]), t)))
    return out


def poly_area2d(poly):
    if len(poly) < 3:
        return None
    p0 = poly[0]
    r = None
    for i in range(1, len(poly) - 1):
        c = cross2(sub(poly[i], p0), sub(poly[i + 1], p0))
        r = c if r is None else r + c
    return abs(r) / 2


class Polytope:
    """convex polytope as list of ordered faces"""

    def __init__(self, faces):
        self.faces = faces

    @classmethod
    def from_tet(cls, t):
        return cls([[t[0], t[1], t[2]], [t[0], t[1], t[3]], [t[0], t[2], t[3]], [t[1], t[2], t[3]]])

    def clip(self, n, d):
        pts = {}
        anyout = False
        for f in self.faces:
            for p in f:
                if p not in pts:
                    s = (dot(n, p) - d).sign()
                    pts[p] = s
                    if s > 0:
                        anyout = True
        if not anyout:
            return self
        if all(s >= 0 for s in pts.values()):
            return Polytope([])
        faces = []
        cap = {}
        ncap = 0
        for f in self.faces:
            g = clip_polygon(f, n, d)
            if len(g) >= 3:
                faces.append(g)
                on = [p for p in g if not (dot(n, p) - d)]
                if len(on) == 2:
                    cap.setdefault(on[0], []).append(on[1])
                    cap.setdefault(on[1], []).append(on[0])
        # cap polygon: order by walking the on-plane edges
        if cap:
            start = next(iter(cap))
            loop = [start]
            prev, cur = None, start
            while True:
                nxt = [q for q in cap[cur] if q != prev]
                if not nxt:
                    break
                q = nxt[0]
                if q == start:
                    break
                loop.append(q)
                prev, cur = cur, q
                if len(loop) > len(cap):
                    raise OracleError("cap walk failed")
            if len(loop) >= 3:
                faces.append(loop)
        return Polytope(faces)

    def vertices(self):
        s = {}
        for f in self.faces:
            for p in f:
                s[p] = 1
        return list(s)

    def volume(self, F):
        if len(self.faces) < 4:
            return F(0)
        p = self.faces[0][0]
        r = F(0)
        for f in self.faces:
            if p in f:
                continue
            q0 = sub(f[0], p)
            for i in range(1, len(f) - 1):
                r = r + abs(det3(q0, sub(f[i], p), sub(f[i + 1], p)))
        return r / 6


def _bbox(t):
    f = [[float(x) for x in p] for p in t]
    k = len(f[0])
    return [min(p[i] for p in f) for i in range(k)], [max(p[i] for p in f) for i in range(k)]


def bbox_apart(b1, b2, eps=1e-7):
    for i in range(len(b1[0])):
        if b1[1][i] < b2[0][i] - eps or b2[1][i] < b1[0][i] - eps:
            return True
    return False


def tet_tet_vol(F, t1, t2, hs2=None):
    p = Polytope.from_tet(t1)
    for n, d in (hs2 or tet_halfspaces(t2)):
        p = p.clip(n, d)
        if not p.faces:
            return F(0)
    return p.volume(F)


def tri_tri_area(F, t1, t2, hs2=None):
    p = list(t1)
    for n, d in (hs2 or tri_halfplanes(t2)):
        p = clip_polygon(p, n, d)
        if len(p) < 3:
            return F(0)
    a = poly_area2d(p)
    return a if a is not None else F(0)


class Cells:
    """A region given as interior-disjoint simplices (tets in 3D or triangles in 2D)."""

    def __init__(self, F, simplices):
        self.F = F
        self.s = [tuple(map(tuple, t)) for t in simplices]
        self.dim = len(self.s[0]) - 1 if self.s else 3
        self.box = [_bbox(t) for t in self.s]
        self._hs = [None] * len(self.s)

    def hs(self, i):
        if self._hs[i] is None:
            self._hs[i] = tet_halfspaces(self.s[i]) if self.dim == 3 else tri_halfplanes(self.s[i])
        return self._hs[i]

    def meas1(self, i):
        return tet_vol(self.s[i]) if self.dim == 3 else tri_area2d(self.s[i])

    def measure(self):
        return total(self.F, (self.meas1(i) for i in range(len(self.s))))

    def common1(self, t, box=None):
        """exact measure of (simplex t) ∩ self"""
        box = box or _bbox(t)
        r = self.F(0)
        for i in range(len(self.s)):
            if bbox_apart(box, self.box[i]):
                continue
            f = tet_tet_vol if self.dim == 3 else tri_tri_area
            r = r + f(self.F, t, self.s[i], self.hs(i))
        return r

    def common(self, other):
        return total(self.F, (self.common1(t, b) for t, b in zip(other.s, other.box)))

    def self_overlap(self):
        """measure of pairwise overlaps (0 iff interior-disjoint)"""
        r = self.F(0)
        f = tet_tet_vol if self.dim == 3 else tri_tri_area
        for i in range(len(self.s)):
            for j in range(i):
                if not bbox_apart(self.box[i], self.box[j]):
                    r = r + f(self.F, self.s[i], self.s[j], self.hs(j))
        return r

    def locate(self, p):
        """1 if strictly in one simplex, 0 on some boundary, -1 outside all"""
        best = -1
        fp = [float(x) for x in p]
        for i in range(len(self.s)):
            b = self.box[i]
            if any(fp[k] < b[0][k] - 1e-7 or fp[k] > b[1][k] + 1e-7 for k in range(self.dim)):
                continue
            r = (in_tet if self.dim == 3 else in_tri)(p, self.s[i], self.hs(i))
            if r > best:
                best = r
            if best == 1:
                break
        return best


# --------------------------------------------------------------------------
# exact convex hull measure (small point sets)

def hull_volume(F, pts):
    """exact volume of the convex hull of 3D points: brute-force facet planes"""
    pts = list(dict.fromkeys(pts))
    n = len(pts)
    if n < 4:
        return F(0)
    planes = {}
    from itertools import combinations
    ref = None
    for i, j, k in combinations(range(n), 3):
        nv = cross(sub(pts[j], pts[i]), sub(pts[k], pts[i]))
        if not any(bool(x) for x in nv):
            continue
        d = dot(nv, pts[i])
        sg = [(dot(nv, p) - d).sign() for p in pts]
        if all(s <= 0 for s in sg) or all(s >= 0 for s in sg):
            on = frozenset(q for q in range(n) if sg[q] == 0)
            if len(on) == n:
                return F(0)
            planes.setdefault(on, nv)
    apex = pts[0]
    r = F(0)
    for on, nv in planes.items():
        if 0 in on:
            continue
        face = _order_planar([pts[q] for q in on], nv)
        q0 = sub(face[0], apex)
        for i in range(1, len(face) - 1):
            r = r + abs(det3(q0, sub(face[i], apex), sub(face[i + 1], apex)))
    return r / 6


def _order_planar(face, nv):
    """2D convex hull (Andrew monotone chain) in the plane, exact"""
    k = max(range(3), key=lambda i: abs(float(nv[i])))
    ax = [i for i in range(3) if i != k]
    return hull2d(face, ax)


def hull2d(pts, ax=(0, 1)):
    from functools import cmp_to_key

    def cmp(p, q):
        s = (p[ax[0]] - q[ax[0]]).sign()
        return s if s else (p[ax[1]] - q[ax[1]]).sign()
    pts = sorted(pts, key=cmp_to_key(cmp))
    if len(pts) < 3:
        return pts

    def half(seq):
        out = []
        for p in seq:
            while len(out) >= 2:
                a, b = out[-2], out[-1]
                c = (b[ax[0]] - a[ax[0]]) * (p[ax[1]] - a[ax[1]]) - (b[ax[1]] - a[ax[1]]) * (p[ax[0]] - a[ax[0]])
                if c.sign() <= 0:
                    out.pop()
                else:
                    break
            out.append(p)
        return out
    lo, up = half(pts), half(pts[::-1])
    return lo[:-1] + up[:-1]


def hull_area(F, pts):
    h = hull2d(list(dict.fromkeys(pts)))
    if len(h) < 3:
        return F(0)
    return poly_area2d(h)
