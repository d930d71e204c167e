"""Exact arithmetic in the two quadratic fields the library computes in.

A library number is an integer triple (a, b, c) standing for (a + b*w)/c with
w = (1+sqrt(5))/2 in the icosahedral package and w = sqrt(3)/2 in the dodecagonal
one.  Everything below is independent of the library and exact: it uses Python's
unbounded integers only, and signs are decided by comparing squares.
"""
from math import gcd, sqrt


class _Num:
    __slots__ = ("a", "b", "d")

    def __init__(self, a, b=0, d=1):
        if d != 1:
            if d == 0:
                raise ZeroDivisionError
            g = gcd(gcd(a, b), d)
            if d < 0:
                g = -g
            if g != 1:
                a //= g
                b //= g
                d //= g
        self.a = a
        self.b = b
        self.d = d

    # --- field description, overridden -------------------------------------
    # w*w = P + Q*w with P = PN/PD
    PN, PD, Q = 1, 1, 1
    W = (1 + sqrt(5)) / 2

    @classmethod
    def of(cls, x):
        return x if isinstance(x, _Num) else cls(int(x))

    def __add__(self, o):
        if o.__class__ is not self.__class__:
            o = self.of(o)
        if self.d == o.d:
            return self.__class__(self.a + o.a, self.b + o.b, self.d)
        return self.__class__(self.a * o.d + o.a * self.d, self.b * o.d + o.b * self.d, self.d * o.d)

    __radd__ = __add__

    def __neg__(self):
        r = object.__new__(self.__class__)
        r.a, r.b, r.d = -self.a, -self.b, self.d
        return r

    def __sub__(self, o):
        if o.__class__ is not self.__class__:
            o = self.of(o)
        if self.d == o.d:
            return self.__class__(self.a - o.a, self.b - o.b, self.d)
        return self.__class__(self.a * o.d - o.a * self.d, self.b * o.d - o.b * self.d, self.d * o.d)

    def __rsub__(self, o):
        return self.of(o) - self

    def __mul__(self, o):
        if o.__class__ is not self.__class__:
            o = self.of(o)
        bb = self.b * o.b
        pd = self.PD
        return self.__class__(pd * self.a * o.a + self.PN * bb,
                              pd * (self.a * o.b + self.b * o.a + self.Q * bb),
                              pd * self.d * o.d)

    __rmul__ = __mul__

    def inv(self):
        # conj(w) = Q - w ; norm = a^2 + Q a b - P b^2
        a, b = self.a, self.b
        n = self.PD * (a * a + self.Q * a * b) - self.PN * b * b
        return self.__class__(self.d * self.PD * (a + self.Q * b), -self.d * self.PD * b, n)

    def __truediv__(self, o):
        if o.__class__ is not self.__class__:
            o = self.of(o)
        return self * o.inv()

    def __rtruediv__(self, o):
        return self.of(o) / self

    def sign(self):
        a, b = self._disc()
        if a >= 0 and b >= 0:
            return 1 if (a or b) else 0
        if a <= 0 and b <= 0:
            return -1
        l, r = a * a, b * b * self.ROOT
        if a > 0:
            return 1 if l > r else (-1 if l < r else 0)
        return 1 if r > l else (-1 if r < l else 0)

    def __bool__(self):
        return bool(self.a or self.b)

    def __eq__(self, o):
        if o.__class__ is not self.__class__:
            o = self.of(o)
        return self.a == o.a and self.b == o.b and self.d == o.d

    def __hash__(self):
        return hash((self.a, self.b, self.d))

    def __lt__(self, o):
        return (self - o).sign() < 0

    def __le__(self, o):
        return (self - o).sign() <= 0

    def __gt__(self, o):
        return (self - o).sign() > 0

    def __ge__(self, o):
        return (self - o).sign() >= 0

    def __abs__(self):
        return -self if self.sign() < 0 else self

    def __float__(self):
        # exact to double rounding even under cancellation
        a, b = self._disc()
        s = self.ROOT
        if a == 0 or b == 0 or (a > 0) == (b > 0):
            v = a + b * sqrt(s)
        else:
            v = (a * a - b * b * s) / (a - b * sqrt(s))
        return v / (self.SCALE * self.d)

    def triple(self):
        return (self.a, self.b, self.d)

    def __repr__(self):
        return "(%d%+dw)/%d" % (self.a, self.b, self.d)


class Tau(_Num):
    """(a+b*tau)/d, tau=(1+sqrt5)/2"""
    __slots__ = ()
    PN, PD, Q = 1, 1, 1
    ROOT, SCALE = 5, 2
    W = (1 + sqrt(5)) / 2

    def _disc(self):            # a + b tau = ((2a+b) + b sqrt5)/2
        return 2 * self.a + self.b, self.b


class Sin(_Num):
    """(a+b*s)/d, s=sqrt(3)/2"""
    __slots__ = ()
    PN, PD, Q = 3, 4, 0
    ROOT, SCALE = 3, 2
    W = sqrt(3) / 2

    def _disc(self):            # a + b s = (2a + b sqrt3)/2
        return 2 * self.a, self.b


def from_triple(F, t):
    return F(int(t[0]), int(t[1]), int(t[2]))


def vec(F, arr):
    return tuple(F(int(t[0]), int(t[1]), int(t[2])) for t in arr)


def canonical(t):
    """lowest terms with positive denominator"""
    a, b, c = (int(x) for x in t)
    return c > 0 and gcd(gcd(a, b), c) == 1
