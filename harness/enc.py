"""Encoding of Python/numpy values into the JSON the TLA+ modules read."""
import math
from fractions import Fraction


def limbs(n):
    if n == 0:
        return [0]
    out = [1 if n > 0 else -1]
    n = abs(n)
    while n:
        n, r = divmod(n, 10000)
        out.append(r)
    return out


def rat(v):
    """exact rational of an int / Fraction / float; tagged 1-tuples for nan and inf;
    anything that is not a real number is tagged with its type name"""
    if isinstance(v, Fraction):
        return [limbs(v.numerator), limbs(v.denominator)]
    if isinstance(v, bool):
        return ["bool"]
    if isinstance(v, int):
        return [limbs(v), [1, 1]]
    try:
        if hasattr(v, "shape") and v.shape != ():
            return ["array"]
        if hasattr(v, "imag") and not isinstance(v, (int, float)) and getattr(v, "imag", 0) != 0:
            return ["complex"]
        v = float(v)
    except Exception:
        return ["notnum"]
    if math.isnan(v):
        return ["nan"]
    if math.isinf(v):
        return ["inf" if v > 0 else "-inf"]
    n, d = v.as_integer_ratio()
    return [limbs(n), limbs(d)]


def rats(seq):
    return [rat(v) for v in seq]


def series(vals):
    """a finite series of doubles/ints as integers times a unit (exact)"""
    fr = [Fraction(v) if isinstance(v, int) else Fraction(*float(v).as_integer_ratio()) for v in vals]
    den = 1
    for f in fr:
        if f.denominator > den:
            den = f.denominator          # denominators are powers of two
    ks = [f.numerator * (den // f.denominator) for f in fr]
    g = 0
    for k in ks:
        g = math.gcd(g, k)
    g = g or 1
    ks = [k // g for k in ks]
    u = Fraction(g, den)
    if max([abs(k) for k in ks] or [0]) < 2 ** 31:
        return {"k": ks, "big": False, "u": rat(u)}
    return {"k": [limbs(k) for k in ks], "big": True, "u": rat(u)}
