"""Generators of series, rates and tau requests (all randomness from the seed)."""
import array, itertools, random
from fractions import Fraction
import numpy as np

RATES = [1.0, 1, 2.0, 0.5, 10.0, 0.1, 4, 1000.0, 3.0, 7.3, 0.01, 1.0 / 86400, np.float64(2.5), 2.4e8, 10 ** 7, 3e-8]


def ints(rng, n, kind=None):
    kind = kind or rng.choice(["white", "walk", "ramp", "jump", "alt", "const", "spike", "quad", "offset", "small", "cubic", "zeros", "big", "counter", "period", "period", "exact", "steps"])
    A = rng.choice([1, 2, 5, 50, 1000])
    if kind == "white":
        return [rng.randint(-A, A) for _ in range(n)]
    if kind == "small":
        return [rng.choice([0, 0, 0, 1, -1]) for _ in range(n)]
    if kind == "walk":
        v, out = 0, []
        for _ in range(n):
            v += rng.randint(-A, A)
            out.append(v)
        return out
    if kind == "ramp":
        a, b = rng.randint(-9, 9), rng.randint(-99, 99)
        return [a * i + b + rng.randint(-1, 1) for i in range(n)]
    if kind == "quad":
        a, b = rng.randint(-3, 3), rng.randint(-9, 9)
        return [a * i * i + b * i + rng.randint(-A, A) for i in range(n)]
    if kind == "cubic":
        return [(i * i * i) // 50 - i + rng.randint(-2, 2) for i in range(n)]
    if kind == "jump":
        p = rng.randrange(n)
        return [(A * 7 if i >= p else 0) + rng.randint(-1, 1) for i in range(n)]
    if kind == "alt":
        return [A * (-1) ** i + (i % 3) for i in range(n)]
    if kind == "const":
        return [A] * n
    if kind == "zeros":
        return [0] * n
    if kind == "spike":
        v = [0] * n
        for _ in range(rng.randint(1, 3)):
            v[rng.randrange(n)] = rng.choice([-A, A])
        return v
    if kind == "big":          # integer phase in small units: squares exceed 64 bits
        A = rng.choice([10 ** 10, 10 ** 12, 3 * 10 ** 9])
        return [rng.randint(-A, A) for _ in range(n)]
    if kind == "counter":      # unsigned counter readings, not monotonic
        A = rng.choice([100, 255, 60000, 4 * 10 ** 9])
        return [rng.randint(0, A) for _ in range(n)]
    if kind == "period":       # exactly periodic: zero deviations at the multiples of the period
        p = rng.choice([2, 2, 3, 4, 5, 6, 8])
        w = [rng.randint(-A, A) for _ in range(p)]
        return [w[i % p] for i in range(n)]
    if kind == "exact":        # a polynomial without noise, sometimes with one late disturbance
        a, b, c = rng.choice([0, 0, 1, -2]), rng.randint(-9, 9), rng.randint(-9, 9)
        v = [a * i * i + b * i + c for i in range(n)]
        if rng.random() < 0.5:
            v[rng.choice([0, n // 2, n - 1])] += A
        return v
    if kind == "steps":
        p = rng.choice([2, 3, 4, 7, 10])
        return [A * (i // p) for i in range(n)]
    if kind == "offset":
        o = rng.choice([10 ** 5, -10 ** 6])
        return [o + rng.randint(-A, A) for _ in range(n)]
    raise KeyError(kind)


def floats(rng, n):
    k = rng.choice(["gauss", "walk", "scaled", "sine"])
    s = rng.choice([1.0, 1e-9, 1e-13, 1e6, 0.1, 1e-18, 1e-25, 1e14])
    if k == "gauss":
        return [rng.gauss(0, 1) * s for _ in range(n)]
    if k == "walk":
        v, o = 0.0, []
        for _ in range(n):
            v += rng.gauss(0, 1) * s
            o.append(v)
        return o
    if k == "scaled":
        return [i * s for i in ints(rng, n)]
    import math
    w = rng.uniform(0.01, 3)
    return [s * (math.sin(w * i) + 0.1 * rng.random()) for i in range(n)]


def values(rng, n, floaty=0.3):
    return floats(rng, n) if rng.random() < floaty else ints(rng, n)


CONTAINERS = ["list", "farray", "iarray", "tuple", "strided", "readonly", "reversed", "flist", "narrow", "other"]
OTHER = ["mixed", "fractions", "object", "longdouble", "bigend", "array", "scalars", "memory", "column", "subclass"]


class Sub(np.ndarray):
    """an array subclass without behaviour of its own"""


def other(rng, vals):
    """less common sequences of numbers with exactly these values"""
    k = rng.choice(OTHER)
    if k == "mixed":
        return [rng.choice([float, np.float64, (lambda v: v), (lambda v: np.int64(v) if v == int(v) and abs(v) < 1 << 60 else np.float64(v))])(v) for v in vals]
    if k == "fractions":
        return [Fraction(v) for v in vals]
    if k == "object":
        return np.array([Fraction(v) if i % 3 else v for i, v in enumerate(vals)], dtype=object)
    a = np.array(vals, dtype=float)
    if k == "longdouble":
        return a.astype(np.longdouble)
    if k == "bigend":
        return a.astype(">f8")
    if k == "array":
        return array.array("d", a)
    if k == "scalars":
        return [np.float64(v) for v in a]
    if k == "memory":
        return np.frombuffer(a.tobytes(), dtype=float)
    if k == "column":
        b = np.full((len(a), 3), 5.0)
        b[:, 1] = a
        return b[:, 1]
    return a.view(Sub)


def narrow(rng, vals):
    """an array of any numeric type that holds the values exactly (small signed and unsigned integers, single precision)"""
    lo, hi = min(vals), max(vals)
    ok = [t for t in ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64")
          if np.iinfo(t).min <= lo and hi <= np.iinfo(t).max]
    if max(abs(lo), abs(hi)) <= 1 << 24:
        ok.append("float32")
    if max(abs(lo), abs(hi)) <= 1 << 11:
        ok.append("float16")
    return np.array(vals, dtype=rng.choice(ok))


def wide(rng, n):
    """n values of a narrow number type using its whole range: differences and sums do not fit in the type"""
    t = rng.choice(["int8", "int16", "int32", "uint8", "uint8", "uint16", "uint32", "int64", "uint64", "float16", "float32"])
    if t[0] == "f":
        top = 60000 if t == "float16" else 3e7
        return np.array([rng.uniform(-top, top) for _ in range(n)], dtype=t)
    lo, hi = int(np.iinfo(t).min), int(np.iinfo(t).max)
    if t[-2:] == "64":
        lo, hi = max(lo, -(1 << 45)), 1 << 45           # (exact as doubles)
    pick = rng.choice([lambda: rng.randint(lo, hi), lambda: rng.choice([lo, hi, (lo + hi) // 2]),
                       lambda: rng.randint(hi - (hi - lo) // 8, hi)])
    return np.array([pick() for _ in range(n)], dtype=t)


def contain(rng, vals, kind=None, tuples=True):
    kind = kind or rng.choice(CONTAINERS)
    allint = all(isinstance(v, int) for v in vals)
    if kind == "tuple" and not tuples:
        kind = "list"
    if kind == "list":
        return list(vals)
    if kind == "flist":
        return [float(v) for v in vals]
    if kind == "tuple":
        return tuple(vals)
    if kind == "narrow" and allint:
        return narrow(rng, vals)
    if kind == "other" and tuples and all(v == v for v in vals):
        return other(rng, vals)
    if kind == "iarray" and allint:
        return np.array(vals, dtype=np.int64)
    a = np.array(vals, dtype=float)
    if kind == "strided":
        b = np.full(2 * len(a) + 1, 7.0)
        b[1::2] = a
        return b[1::2]
    if kind == "reversed":
        return np.array(a[::-1])[::-1]
    if kind == "readonly":
        a.setflags(write=False)
    return a


def taus(rng, n, rate, maxk=8):
    """a tau request; explicit lists are dirty: unsorted, duplicated, out of range, off-grid"""
    k = rng.choice(["all", "octave", "decade", "log10", None, "list", "list", "list", "arr", "ints", "ints", "single", "empty", "tuple", "wild", "wild"])
    if k == "empty":
        return []
    if k in ("all", "octave", "decade", "log10", None):
        return k
    t0 = 1.0 / float(rate)
    ms = [rng.randint(1, max(1, n // rng.choice([1, 2, 3, 4]))) for _ in range(rng.randint(1, maxk))]
    l = [m * t0 for m in ms]
    for _ in range(rng.randint(0, 3)):
        l.append(rng.choice([0.0, -t0, n * t0, (n + 3) * t0, (rng.randint(1, n) + rng.choice([0.2, -0.3, 0.4])) * t0,
                             l[0], l[0] * (1 + 1e-13), (n - 1) * t0, 0.3 * t0]))
    rng.shuffle(l)
    if k == "arr":
        return np.array(l)
    if k == "ints":         # whole seconds, any integer type
        hi = int(n * t0)
        if hi >= 1:
            l = [rng.randint(1, hi) for _ in ms] + rng.choice([[], [0], [hi + 1], [-1]])
            lo_, hi_ = min(l), max(l)
            ts = [t for t in ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64")
                  if np.iinfo(t).min <= lo_ and hi_ <= np.iinfo(t).max]
            return list(l) if rng.random() < 0.4 else np.array(l, dtype=rng.choice(ts))
    if k == "single":
        return np.array(l, dtype=np.float32)
    if k == "tuple":
        return tuple(l)
    if k == "wild":         # not-a-number entries, numpy scalars, fractions
        l = [rng.choice([float, np.float64, Fraction])(v) for v in l] + rng.choice([[], [float("nan")], [float("inf"), -float("inf")], [np.float64("nan"), 1e300]])
        rng.shuffle(l)
    return l


def exhaustive(alphabet, n):
    return itertools.product(alphabet, repeat=n)
