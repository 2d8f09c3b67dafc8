"""The part of galois that the repository's scripts use: binary fields, their arrays, BCH codes."""
import numpy
from numpy import ndarray, _plain


def _mulmod(a, b, p, m):
    r = 0
    while b:
        if b & 1:
            r ^= a
        b >>= 1
        a <<= 1
        if a >> m:
            a ^= p
    return r


def _gcd(a, b):
    while b:
        while a and a.bit_length() >= b.bit_length():
            a ^= b << (a.bit_length() - b.bit_length())
        a, b = b, a
    return a


def _irreducible(p, m):
    x = 2
    for i in range(1, m // 2 + 1):
        x = _mulmod(x, x, p, m)
        if _gcd(p, x ^ 2) != 1:
            return False
    return True


def _primitive(p, m):
    """Order of x modulo p (irreducible) is 2^m - 1."""
    q, n = 2**m - 1, 2**m - 1
    fs, d = [], 2
    while d * d <= q:
        if q % d == 0:
            fs.append(d)
            while q % d == 0:
                q //= d
        d += 1
    if q > 1:
        fs.append(q)

    def pw(e):
        r, b = 1, 2
        while e:
            if e & 1:
                r = _mulmod(r, b, p, m)
            b = _mulmod(b, b, p, m)
            e >>= 1
        return r

    return all(pw(n // f) != 1 for f in fs)


_P = {}


def _poly(m):
    if m not in _P:
        if m == 1:
            _P[m] = 3
        else:
            _P[m] = next(p for p in range(2**m + 1, 2 ** (m + 1), 2) if _irreducible(p, m) and (m > 16 or _primitive(p, m)))
    return _P[m]


_F = {}


def GF(q, m=1):
    n = m * (q.bit_length() - 1)
    if q != 1 << q.bit_length() - 1:
        raise ValueError("only fields of characteristic 2")
    if n in _F:
        return _F[n]

    class Element(int):
        """One element; its arithmetic is that of the field."""

        def __add__(self, o):
            return FieldArray([self])._both(o, FieldArray._add)

        __radd__ = __sub__ = __rsub__ = __add__

        def __mul__(self, o):
            return FieldArray([self])._both(o, FieldArray._mul)

        __rmul__ = __mul__

        def __pow__(self, e):
            return (FieldArray([self]) ** e)[0]

        def vector(self):
            return GF(2, 1)([int(self) >> (n - 1 - i) & 1 for i in range(n)])

    class FieldArray(ndarray):
        degree = n
        order = 2**n

        def __init__(self, data):
            super().__init__(data)
            if any(not 0 <= int(x) < 2**n for x in ndarray.flatten(ndarray(self.data)).data):
                raise ValueError("array elements must be in the field")

        def _add(self, a, b):
            return int(a) ^ int(b)

        def _mul(self, a, b):
            a, b = int(a), int(b)
            if a < 2 or b < 2:
                return a * b
            return _mulmod(a, b, _poly(n), n)

        def _both(self, o, f):
            if isinstance(o, ndarray):
                return FieldArray(o._zip(self.data[0], lambda a, b: f(self, a, b)))
            return Element(f(self, self.data[0], o))

        def _one(self, x):
            return Element(x)

        def _pow(self, a, e):
            r = 1
            for b in bin(e)[2:]:
                r = self._mul(r, r)
                if b == "1":
                    r = self._mul(r, a)
            return r

        def __sub__(self, o):
            return self + o

        __rsub__ = __sub__

        @classmethod
        def Zeros(cls, s):
            return cls(numpy.zeros(s))

        @classmethod
        def Ones(cls, s):
            return cls(numpy.ones(s))

        @classmethod
        def Identity(cls, s):
            return cls(numpy.eye(s))

        @classmethod
        def Range(cls, a, b, c=1):
            return cls(range(a, b, c))

        @classmethod
        def Vandermonde(cls, a, rows, cols):
            p = [cls([1])[0]]
            for _ in range(rows - 1):
                p.append(p[-1] * a)
            return cls([[x**j for j in range(cols)] for x in p])

        @classmethod
        def Vector(cls, v):
            d = _plain(v)
            one = not isinstance(d[0], list)
            rows = [d] if one else d
            if any(len(r) != n for r in rows):
                raise ValueError("vector of another length than the degree")
            out = [int("".join(str(int(b)) for b in r), 2) for r in rows]
            return Element(out[0]) if one else cls(out)

        def vector(self):
            def go(x):
                if isinstance(x, list):
                    return [go(y) for y in x]
                return [int(x) >> (n - 1 - i) & 1 for i in range(n)]

            return GF(2, 1)(go(self.data))

    _F[n] = FieldArray
    return FieldArray


GF2 = GF(2, 1)


class BCH:
    """Systematic narrow-sense primitive binary code of length n and dimension k."""

    def __init__(self, n, k, field=None):
        m = n.bit_length()
        if n != 2**m - 1:
            raise ValueError(f"no primitive BCH code of length {n}")
        p = _poly(m)
        roots, g, t = set(), 1, 0
        while n - len(roots) > k:
            t += 1
            c, x = [], (2 * t - 1) % n
            while x not in roots:
                roots.add(x)
                c.append(x)
                x = 2 * x % n
            # Minimal polynomial of the class, coefficients in the field, constant first.
            f = [1]
            for e in c:
                a = 1
                for _ in range(e):
                    a = _mulmod(a, 2, p, m)
                f = [(f[i - 1] if i else 0) ^ (_mulmod(f[i], a, p, m) if i < len(f) else 0) for i in range(len(f) + 1)]
            b = sum(v << i for i, v in enumerate(f))
            assert all(v in (0, 1) for v in f)
            r = 0
            for i in range(b.bit_length()):
                if b >> i & 1:
                    r ^= g << i
            g = r
        if n - len(roots) != k or k < 1:
            raise ValueError(f"the code BCH({n}, {k}) does not exist")
        rows = []
        for i in range(k):
            a = 1 << (n - 1 - i)
            w = a
            while a.bit_length() > n - k:
                a ^= g << (a.bit_length() - (n - k) - 1)
            w ^= a
            rows.append([w >> (n - 1 - j) & 1 for j in range(n)])
        self.n, self.k, self.t, self.d = n, k, t, 2 * t + 1
        self.G = GF2(rows)
