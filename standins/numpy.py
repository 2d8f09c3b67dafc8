"""The part of numpy that the repository's scripts use, on plain lists."""
import math

log2 = math.log2
ceil = math.ceil
floor = math.floor


class ndarray:
    field = None

    def __init__(self, data):
        self.data = [x.data if isinstance(x, ndarray) else x for x in (data.data if isinstance(data, ndarray) else list(data))]
        self.data = [_plain(x) for x in self.data]

    @property
    def shape(self):
        s, d = [], self.data
        while isinstance(d, list):
            s.append(len(d))
            d = d[0] if d else None
        return tuple(s)

    def _like(self, data):
        return type(self)(data)

    def _add(self, a, b):
        return a + b

    def _mul(self, a, b):
        return a * b

    def _zip(self, other, f):
        o = other.data if isinstance(other, ndarray) else other

        def go(a, b):
            if isinstance(a, list):
                if isinstance(b, list):
                    if len(a) != len(b):
                        raise ValueError("operands could not be broadcast together")
                    return [go(x, y) for x, y in zip(a, b)]
                return [go(x, b) for x in a]
            if isinstance(b, list):
                return [go(a, y) for y in b]
            return f(a, b)

        return go(self.data, o)

    def __add__(self, o):
        return self._like(self._zip(o, self._add))

    __radd__ = __add__

    def __iadd__(self, o):
        # In place, as numpy does it.
        self.data[:] = self._zip(o, self._add)
        return self

    def __sub__(self, o):
        return self._like(self._zip(o, lambda a, b: a - b))

    def __mul__(self, o):
        return self._like(self._zip(o, self._mul))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._like(self._zip(o, lambda a, b: a / b))

    def __rsub__(self, o):
        return self._like(self._zip(o, lambda a, b: b - a))

    def __floordiv__(self, o):
        return self._like(self._zip(o, lambda a, b: a // b))

    def __mod__(self, o):
        return ndarray(self._zip(o, lambda a, b: int(a) % b))

    def _pow(self, a, e):
        return a**e

    def __pow__(self, e):
        return self._like(self._zip(e, self._pow))

    def __matmul__(self, o):
        return matmul(self, o)

    def __len__(self):
        return len(self.data)

    def _one(self, x):
        return x

    def _wrap(self, x):
        return self._like(x) if isinstance(x, list) else self._one(x)

    def __getitem__(self, i):
        if isinstance(i, tuple):
            rows = self.data[i[0]]
            if len(i) == 1:
                return self._wrap(rows)
            if isinstance(i[0], slice):
                return self._like([r[i[1]] for r in rows])
            return self._wrap(rows[i[1]])
        if isinstance(i, (list, ndarray)):
            return self._like([self.data[j] for j in i])
        return self._wrap(self.data[i])

    def __setitem__(self, i, v):
        v = _plain(v)
        if not isinstance(i, tuple):
            if isinstance(i, slice):
                at = range(*i.indices(len(self.data)))
                self.data[i] = v if isinstance(v, list) else [v] * len(at)
            else:
                self.data[i] = v
        elif isinstance(i[0], slice):
            at = range(*i[0].indices(len(self.data)))
            for n, r in enumerate(at):
                self.data[r][i[1]] = v[n] if isinstance(v, list) else v
        elif isinstance(i[1], slice):
            at = range(*i[1].indices(len(self.data[i[0]])))
            self.data[i[0]][i[1]] = v if isinstance(v, list) else [v] * len(at)
        else:
            self.data[i[0]][i[1]] = v

    def __iter__(self):
        return iter([self._wrap(x) for x in self.data])

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        return len(self.flatten().data)

    def copy(self):
        return self._like(_plain(self.data))

    def astype(self, t=None):
        return ndarray(_plain(self.data))

    def view(self, t=None):
        return t(_plain(self.data)) if isinstance(t, type) and issubclass(t, ndarray) else self

    def ravel(self):
        return self.flatten()

    def reshape(self, *s):
        s = list(s[0]) if len(s) == 1 and isinstance(s[0], (tuple, list)) else list(s)
        d = self.flatten().data
        if -1 in s:
            k = 1
            for x in s:
                k *= x if x != -1 else 1
            s[s.index(-1)] = len(d) // k
        for n in reversed(s[1:]):
            d = [d[i : i + n] for i in range(0, len(d), n)]
        return self._like(d)

    def __eq__(self, o):
        return self.data == (o.data if isinstance(o, ndarray) else o)

    def item(self, *i):
        return self.flatten().data[i[0] if i else 0]

    def tolist(self):
        return self.data

    def sum(self, axis=None):
        def add(xs):
            r = 0
            for x in xs:
                r = self._add(r, x)
            return r

        if axis is None or self.ndim == 1:
            return self._one(add(self.flatten().data))
        return self._like([add(r) for r in (self.data if axis in (1, -1) else zip(*self.data))])

    def flatten(self):
        out = []

        def go(x):
            for y in x:
                go(y) if isinstance(y, list) else out.append(y)

        go(self.data)
        return self._like(out)

    def transpose(self):
        if len(self.shape) < 2:
            return self
        return self._like([list(c) for c in zip(*self.data)])

    @property
    def T(self):
        return self.transpose()


def _plain(x):
    if isinstance(x, ndarray):
        return x.data
    if isinstance(x, (list, tuple, range, map)):
        return [_plain(y) for y in x]
    return x


def _kind(*xs):
    for x in xs:
        if isinstance(x, ndarray) and type(x) is not ndarray:
            return type(x)
        if isinstance(x, (list, tuple)):
            k = _kind(*x)
            if k is not ndarray:
                return k
    return ndarray


def array(x, dtype=None):
    return ndarray(x)


asarray = array
int64 = int32 = int8 = uint8 = int_ = int


def full(n, v, dtype=None):
    if not isinstance(n, (tuple, list)):
        return ndarray([v] * n)
    return ndarray([v] * n[0] if len(n) == 1 else [[v] * n[1] for _ in range(n[0])])


def zeros(n, dtype=None):
    return full(n, 0)


def ones(n, dtype=None):
    return full(n, 1)


def eye(n, m=None, dtype=None):
    return ndarray([[int(i == j) for j in range(n if m is None else m)] for i in range(n)])


identity = eye


def arange(a, b=None, c=1, dtype=None):
    return ndarray(range(a, b, c) if b is not None else range(a))


def transpose(m):
    return (m if isinstance(m, ndarray) else ndarray(m)).transpose()


def ravel(m):
    return (m if isinstance(m, ndarray) else ndarray(m)).flatten()


def sum(m, axis=None):
    return (m if isinstance(m, ndarray) else ndarray(m)).sum(axis)


def power(a, e):
    return a**e


def concatenate(parts, axis=0):
    kind = _kind(*parts)
    ds = [_plain(p) for p in parts]
    if axis == 0:
        return kind([r for d in ds for r in d])
    return kind([[x for d in ds for x in d[i]] for i in range(len(ds[0]))])


def hstack(parts):
    parts = list(parts)
    return concatenate(parts, 1 if isinstance(_plain(parts[0])[0], list) else 0)


def vstack(parts):
    parts = list(parts)
    return _kind(*parts)([r for p in map(_plain, parts) for r in (p if isinstance(p[0], list) else [p])])


def stack(parts, axis=0):
    parts = list(parts)
    m = _kind(*parts)([_plain(p) for p in parts])
    return m if axis == 0 else m.transpose()


def column_stack(parts):
    return hstack([p if isinstance(_plain(p)[0], list) else stack([p]).transpose() for p in parts])


def matmul(a, b):
    kind = _kind(a, b)
    x, y = _plain(a), _plain(b)
    if not isinstance(y[0], list):
        r = matmul(a, kind([[v] for v in y]))
        return r.flatten() if isinstance(x[0], list) else r[0]
    flat = not isinstance(x[0], list)
    if flat:
        x = [x]
    if any(len(r) != len(y) for r in x):
        raise ValueError("matmul: mismatch in its core dimension")
    k = kind([])
    out = []
    for r in x:
        acc = [0] * len(y[0])
        for c, row in zip(r, y):
            if c:
                acc = [k._add(s, k._mul(c, v)) for s, v in zip(acc, row)]
        out.append(acc)
    return kind(out[0] if flat else out)


dot = matmul


def savetxt(path, m, fmt="%.18e", delimiter=" "):
    with open(path, "w") as f:
        for r in _plain(m):
            f.write(delimiter.join(fmt % x for x in (r if isinstance(r, list) else [r])) + "\n")
