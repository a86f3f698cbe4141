"""Drivers: power spectrum <-> deviation conversions."""
import math, random
from fractions import Fraction
from calls import *
import gen


def two(ok, r):
    if not ok:
        return {"ok": False, "exc": r}
    try:
        t, a = r
        return {"ok": True, "tau": col(t), "ad": col(a)}
    except Exception:
        return {"ok": False, "exc": "malformed"}


def refusal(f, want, note):
    ok, r = guarded(f)
    return {"op": "refuse", "want": want, "note": note, "out": {"ok": ok} if ok else {"ok": False, "exc": r}}


DFS = [1.0, 1, 2, 0.5, 0.1, 1e-3, 0.3, 7.7, 1.0 / 3, 100.0, 1e-6, 10, np.float64(0.7), np.int64(3)]


def poly(rng, n):
    """a positive cubic on 0..n-1 with dyadic coefficients, exactly representable values"""
    k = rng.choice(["const", "lin", "quad", "cubic", "cubic"])
    q = lambda lo, hi: rng.randint(lo, hi) / 4.0
    c = [q(4, 60), 0.0, 0.0, 0.0]
    if k != "const":
        c[1] = q(-1, 12)
    if k in ("quad", "cubic"):
        c[2] = q(0, 8)
    if k == "cubic":
        c[3] = q(0, 6)
    v = [c[0] + c[1] * i + c[2] * i * i + c[3] * i ** 3 for i in range(n)]
    d = 1 - min(min(v), 0)
    c[0] += d
    s = rng.choice([1.0, 1.0, 2.0 ** -80, 2.0 ** 30])
    c = [x * s for x in c]
    return c, np.array([(c[0] + c[1] * i + c[2] * i * i + c[3] * i ** 3) for i in range(n)])


def c21(rng, tier):
    ev = []
    k = 5 if tier == "thorough" else 1
    for j in range(160 * k):
        n = rng.choice([4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 21, 32, 33]) if j % 3 else rng.randint(4, 60)
        df = rng.choice(DFS)
        kind = rng.choice(["adev", "mdev", "Adev", "MDEV", "a", "m"]) if j % 4 == 0 else rng.choice(["adev", "mdev"])
        base = rng.choice([2, 2, 10, 1, 0, 1.5, 3, 2.0, 1.2])
        c, S = poly(rng, n)
        how = rng.choice(["step", "vector", "vector0"])
        if how == "step":
            f = df
        else:
            f = np.arange(n) * float(df)
        true_df = f[1] - f[0] if isinstance(f, np.ndarray) else df
        omit = {}
        if j % 7 == 0:
            f, true_df = None, 1
        kw = {} if f is None else {"f": f}
        if not (kind == "adev" and j % 2):
            kw["kind"] = kind
        if not (base == 2 and j % 2):
            kw["base"] = base
        e = {"op": "p2a", "fn": "psd2allan", "n": n, "df": rat(Fraction(true_df) if isinstance(true_df, int) else float(true_df)), "base": rat(base), "c": rats(c),
             "kind": "adev" if kind[0].lower() == "a" else "mdev", "note": how}
        e["out"] = two(*guarded(lambda: at.psd2allan(S, **kw)))
        e["w"] = n * 60
        ev.append(e)
    for n in list(range(4, 40 if k == 1 else 200)):                   # every small length, odd steps
        df = rng.choice([0.1, 0.3, 1 / 3.0, 1e-3, 0.7, rng.uniform(0.01, 10)])
        S = np.array([rng.uniform(0.5, 2) for _ in range(n)])
        base = rng.choice([2, 1, 10])
        e = {"op": "p2a", "fn": "psd2allan", "n": n, "df": rat(df), "base": rat(base), "c": [], "kind": "adev", "note": "lengths"}
        e["out"] = two(*guarded(lambda: at.psd2allan(S, f=df, base=base)))
        ev.append(e)
    for j in range(50 * k):                                            # any spectrum: lines, steps, power laws, zeros, integers
        n = rng.randint(4, 9) if j % 3 == 0 else rng.randint(4, 36)
        shape = rng.choice(["noise", "line", "step", "pow", "ints", "alt"])
        if shape == "noise":
            S = np.array([rng.uniform(0.5, 2) for _ in range(n)])
        elif shape == "line":
            S = np.array([1.0] * n)
            S[rng.randrange(n)] = rng.choice([2.0, 1.5, 0.9])
        elif shape == "step":
            S = np.array([1.0 if i < n // 2 else 2.0 for i in range(n)])
        elif shape == "pow":
            a = rng.choice([-2, -1, 1, 2])
            S = np.array([float(i + 1) ** a for i in range(n)])
        elif shape == "ints":
            S = np.array([rng.randint(20, 60) for _ in range(n)])
        else:
            S = np.array([3.0 + (i % 2) for i in range(n)])
        S = S * rng.choice([1, 1e-24, 3e5]) if shape != "ints" else S
        df, base, kind = rng.choice(DFS), rng.choice([2, 1, 10, 3]), rng.choice(["adev", "mdev"])
        f = df if j % 2 else np.arange(n) * float(df)
        true_df = f[1] - f[0] if isinstance(f, np.ndarray) else df
        e = {"op": "p2a", "fn": "psd2allan", "n": n, "df": rat(Fraction(int(true_df)) if isinstance(true_df, (int, np.int64)) else float(true_df)),
             "base": rat(base), "c": [], "S": rats([float(v) for v in S]), "kind": kind, "note": shape}
        e["out"] = two(*guarded(lambda: at.psd2allan(S, f=f, kind=kind, base=base)))
        e["w"] = n * 90
        ev.append(e)
    for e in ev:
        e.setdefault("S", [])
    for n in [1600, 2048, 3001] + ([] if k == 1 else [5000, 8192, 20001]):     # long spectra, few averaging times
        for kind in ("adev", "mdev"):
            df, base = rng.choice(DFS), rng.choice([10, 7, 40])
            c, S = poly(rng, n)
            e = {"op": "p2a", "fn": "psd2allan", "S": [], "n": n, "df": rat(Fraction(df) if isinstance(df, int) else float(df)), "base": rat(base), "c": rats(c),
                 "kind": kind, "note": "long"}
            e["out"] = two(*guarded(lambda: at.psd2allan(S, f=df, kind=kind, base=base)))
            e["w"] = n * 60
            ev.append(e)
    for j in range(25 * k):
        n = rng.randint(4, 300)
        df = rng.choice(DFS)
        kind = rng.choice(["adev", "mdev"])
        S1 = np.array([abs(rng.gauss(0, 1)) + 4 for _ in range(n)])
        S2 = np.array([rng.uniform(3, 9) + (i % 3) * 0.2 for i in range(n)])
        k1, k2 = rng.choice([1.0, 0.5, 3.0, 1e-6]), rng.choice([1.0, 2.0, 0.25])
        o = {q: two(*guarded(lambda: at.psd2allan(S, f=df, kind=kind))) for q, S in (("a", S1), ("b", S2), ("s", k1 * S1 + k2 * S2))}
        ev.append({"op": "p2alin", "fn": "psd2allan", "k1": rat(k1), "k2": rat(k2), "out": o, "note": kind})
    for S in ([1.0] * 8, (1.0, 2.0, 3.0, 4.0, 5.0), 3.0, None):
        ev.append(refusal(lambda: at.psd2allan(S), "ValueError", "psd2allan %r" % (S,)))
    return {"TracePsd": ev}


def four(ok, r):
    if not ok:
        return {"ok": False, "exc": r}
    try:
        f, sy, h, al = r
        return {"ok": True, "f": col(f), "sy": col(sy), "h": col(h), "al": col(al)}
    except Exception:
        return {"ok": False, "exc": "malformed"}


def a2p(a, t, vt="adev", tol=None, note="", as_array=True):
    kw = {}
    if vt != "adev" or len(a) % 2:
        kw["vartype"] = vt
    if tol is not None:
        kw["mu_tol"] = tol
    wrap = np.array if as_array else list
    e = {"op": "a2p", "fn": "adev2psd_piecewise_approx", "a": rats(a), "t": rats(t), "vt": vt.lower() if vt.lower() in ("adev", "hdev") else vt,
         "tol": rat(1e-5 if tol is None else tol), "note": note}
    e["out"] = four(*guarded(lambda: at.allantools.adev2psd_piecewise_approx(wrap(a), wrap(t), **kw)))
    e["w"] = 3000 * len(a)
    return e


def curve(rng, mus, ratio=None, rep=None):
    """deviations with the given local slopes, rep[i] steps per slope"""
    t, a = [10 ** rng.uniform(-3, 3)], [10 ** rng.uniform(-15, 0)]
    for mu in mus:
        for _ in range(rng.choice([1, 1, 2, 3]) if rep is None else rep):
            r = ratio or rng.uniform(1.5, 20)
            t.append(t[-1] * r)
            a.append(a[-1] * r ** (mu / 2.0))
    return a, t


def slopes(rng, n, hi, lo=-1.5):
    out = []
    while len(out) < n:
        m = rng.choice([rng.uniform(lo, hi - 0.05), rng.choice([-1.0, 0.0, 1.0, -0.5, 0.5])])
        if not out or abs(m - out[-1]) > 0.05:
            out.append(m)
    return out


def c22(rng, tier):
    ev = []
    k = 5 if tier == "thorough" else 1
    fn = at.allantools.adev2psd_piecewise_approx
    for j in range(70 * k):
        vt = rng.choice(["adev", "hdev", "adev", "ADEV", "Hdev"])
        hi = 2.0 if vt.lower() == "adev" else 4.0
        mus = slopes(rng, rng.randint(1, 5), hi, -1.5 if j % 3 else -1.99)
        a, t = curve(rng, mus)
        ev.append(a2p(a, t, vt, None, "curve", as_array=j % 2 == 0))
    for j in range(12 * k):                                  # merging tolerance
        mus = [-1.0, -1.0 + rng.choice([0.01, 0.02]), 0.3, 0.31, 0.32, -0.5]
        a, t = curve(rng, mus, rep=1)
        ev.append(a2p(a, t, "adev", rng.choice([0.05, 0.015, 1e-3]), "merge"))
    for j in range(16 * k):                                  # slopes that differ by about the tolerance, at every slope
        tol = rng.choice([None, 1e-3, 1e-6])
        m0, d = rng.choice([-1.9, -1.5, 1.5, 1.8, 0.0, rng.uniform(-1.9, 1.8)]), rng.choice([-1, 1]) * (tol or 1e-5)
        a, t = curve(rng, [m0, m0 + d * rng.choice([0.6, 0.9, 0.98, 1.02, 1.1, 1.25, 1.5, 1.8])], ratio=rng.choice([None, 10.0]), rep=rng.choice([1, 1, 2]))
        ev.append(a2p(a, t, rng.choice(["adev", "hdev"]), tol, "nearly equal slopes"))
    for j in range(14 * k):                                  # exactly on a textbook slope, two and more points
        mu = rng.choice([-1, 0, 1])
        r = 4
        t = [float(rng.choice([1, 2, 0.25])) * r ** i for i in range(rng.randint(2, 6))]
        a = [2.0 ** (mu * i) * 1e-9 for i in range(len(t))]
        ev.append(a2p(a, t, rng.choice(["adev", "hdev"]), None, "textbook"))
    # scaling laws, also where the quadrature is poor
    for j in range(40 * k):
        vt = rng.choice(["adev", "hdev"])
        mus = slopes(rng, rng.randint(1, 4), 2.0 if vt == "adev" else 4.0, -1.99)
        a, t = curve(rng, mus)
        c, s = 2.0 ** rng.randint(-6, 6), 2.0 ** rng.randint(-8, 8)
        o = {"a": four(*guarded(lambda: fn(a, t, vartype=vt))), "b": four(*guarded(lambda: fn([c * v for v in a], [s * v for v in t], vartype=vt)))}
        ev.append({"op": "a2pscale", "fn": "adev2psd_piecewise_approx", "c": rat(c), "s": rat(s), "out": o, "note": str(mus)})
    # refusals and limits
    for j in range(6 * k):
        a, t = curve(rng, slopes(rng, 3, 2.0))
        i = rng.randrange(len(a))
        bad = [(a[:-1], t), (a, t[:-1]), (a[:1], t[:1]), ([], []), (a[:i] + [0.0] + a[i + 1:], t), (a[:i] + [-1e-9] + a[i + 1:], t),
               (a, t[::-1]), (a, t[:1] + t[:1] + t[2:]), (a, [-t[0]] + t[1:]), (a, [0.0] + t[1:])]
        for x, y in bad:
            ev.append(a2p(x, y, rng.choice(["adev", "hdev"]), None, "bad"))
        for vt in ("mdev", "", "oadev"):
            ev.append(a2p(a, t, vt, None, "bad"))
        for mus, vt in (([-2.2], "adev"), ([0.5, -2.05, 0.1], "adev"), ([2.1], "adev"), ([1.0, 2.5], "adev"), ([-2.3], "hdev"), ([4.2], "hdev"), ([0.1, 2.5], "hdev"), ([3.9], "hdev")):
            a2, t2 = curve(rng, mus)
            ev.append(a2p(a2, t2, vt, None, "slope limit"))
        ev.append(refusal(lambda: fn(np.array([a, a]), np.array([t, t])), "ValueError", "2-d"))
    ev.append(a2p([1.0, 10 ** -0.95], [1.0, 10.0], "adev", None, "quadrature"))
    ev.append(a2p([1.0, 10 ** -0.95], [1.0, 10.0], "hdev", None, "quadrature"))
    # the reverse direction
    g = at.allantools.psd_piecewise_to_adev

    def p2d(h, al, f, t, note="", arr=True):
        w = np.array if arr else list
        e = {"op": "p2d", "fn": "psd_piecewise_to_adev", "h": rats(h), "al": rats(al), "f": rats(f), "t": rats(t), "note": note}
        ok, r = guarded(lambda: g(w(h), w(al), w(f), w(t)))
        e["out"] = {"ok": True, "dev": col(r)} if ok else {"ok": False, "exc": r}
        e["w"] = 4000 * len(h) * len(t)
        ev.append(e)
    for j in range(60 * k):
        ns = rng.choice([1, 2, 2, 3, 4])
        al = [rng.choice([round(rng.uniform(-2.9, 1.9), 2), rng.choice([-2, -1, 0, 1])]) for _ in range(ns)]
        al[0] = max(al[0], -2.9)
        al[-1] = rng.choice([-2.0, -1.0, 0.0, 0.9, 0.97, round(rng.uniform(-2.9, 0.95), 2)])
        h = [10 ** rng.uniform(-2, 2) * rng.choice([1, 1e-20] if j % 4 == 0 else [1]) for _ in range(ns)]
        f = sorted(10 ** rng.uniform(-3, 1) for _ in range(ns - 1))
        top = max(f + [0.1])
        t = sorted(rng.uniform(0.001, 1) * rng.choice([1, 13, 1e3, 1e6]) / top for _ in range(rng.randint(1, 3)))
        p2d(h, al, f, t, "spectrum", arr=j % 2 == 0)
    for j in range(10 * k):                                  # a split segment, continuous spectra
        al = rng.choice([-2.0, -1.0, 0.0, -0.5])
        f0 = 10 ** rng.uniform(-2, 0)
        p2d([2.0, 2.0], [al, al], [f0], [rng.uniform(0.1, 2) / f0], "split")
    p2d([1.0], [0.9], [], [1.0], "quadrature")
    return {"TracePsd": ev}
