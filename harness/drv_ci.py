"""Drivers: degrees of freedom, confidence intervals, noise identification."""
import math, random
from calls import *
import gen
import allantools.ci as ci

NONE = ["none"]


def num(f, *a, **k):
    ok, r = guarded(lambda: f(*a, **k))
    return {"ok": True, "v": rat(r)} if ok else {"ok": False, "exc": r}


# ------------------------------------------------------------------ C16
def edf(fn, N, m, a, d=0, over=False, mod=False, note="", pos=False):
    e = {"op": "edf", "fn": fn, "N": int(N), "m": int(m), "a": a if isinstance(a, int) and -50 < a < 50 else 99, "d": d, "over": over, "mod": mod,
         "note": note or str(a)}
    if fn == "edf_greenhall":
        e["out"] = num(ci.edf_greenhall, a, d, m, N, over, mod) if pos else \
            num(ci.edf_greenhall, alpha=a, d=d, m=m, N=N, overlapping=over, modified=mod)
    else:
        e["out"] = num(getattr(ci, fn), N, m, a)
    return e


def c16(rng, tier):
    ev = []
    k = 5 if tier == "thorough" else 1
    # simple, total and modified total: small grid plus random
    grid = [(N, m) for N in (5, 6, 7, 10, 31, 100, 1000) for m in (1, 2, 3, 4, 10, 40) if m < N and N > 3]
    grid += [(N, m) for N, m in ((rng.randint(5, 10 ** rng.randint(2, 7)), rng.randint(1, 10 ** rng.randint(0, 4))) for _ in range(60 * k)) if m < N]
    for fn in ("edf_simple", "edf_totdev", "edf_mtotdev"):
        for N, m in grid:
            for a in (2, 1, 0, -1, -2):
                ev.append(edf(fn, N, m, a))
        for a in (3, -3, -4, 5, -17, 10):
            N, m = rng.choice(grid)
            ev.append(edf(fn, N, m, a))
    for a in (None, "wf", 0.5):
        ev.append(edf("edf_simple", 100, 3, a))
    # Greenhall & Riley
    seen = set()

    def gh(a, d, m, N, over, mod):
        L = (m if mod else 1) + m * d
        key = (a, d, m, N, over, mod)
        if N < L or key in seen:
            return
        seen.add(key)
        J = min(1 + ((m if over else 1) * (N - L)) // m, (d + 1) * (m if over else 1))
        e = edf("edf_greenhall", N, m, a, d, over, mod, pos=len(ev) % 3 == 0)
        e["w"] = 40 * min(J, 100)
        ev.append(e)
    combos = [(a, d, o, md) for a in range(-4, 3) for d in (1, 2, 3) for o in (False, True) for md in (False, True)]
    for a, d, o, md in combos:
        ms = [1, 2, rng.randint(3, 24), rng.choice([25, 26, 33, 34, 50, 51]), rng.choice([60, 101, 200, 1000])]
        for m in ms:
            L = (m if md else 1) + m * d
            S = m if o else 1
            # M about 1, 100, (d+1) S, many
            for M in rng.sample([1, 2, 99, 100, 101, (d + 1) * S, (d + 1) * S + 1, 5 * S, 40 * S + 3, d * S, d * S + 1, rng.randint(2, 200)], 3 if k == 1 else 8):
                gh(a, d, m, L + (M - 1) * m // S + rng.randint(0, 1), o, md)
    # exact thresholds of the case selection
    for a, d, o, md in rng.sample(combos, 24 * min(k, 3)):
        S0 = 100 // (d + 1)
        for m in (S0, S0 + 1):
            L = (m if md else 1) + m * d
            for N in (L + 98, L + 99, L + 100, L + (d + 1) * m, L + (d + 1) * m - 1, L + (d + 1) * m - 2, L + 10 * m):
                if rng.random() < 0.4 or k > 1:
                    gh(a, d, m, N, o, md)
    # not covered: alpha out of range, too few differences
    for a, d in [(3, 2), (3, 3), (4, 2), (-5, 3), (-6, 3), (-3, 2), (-4, 2), (-1, 1), (-2, 1), (3, 1)]:
        for m in (1, 20, 60):
            for o in (False, True):
                for md in (False, True):
                    gh(a, d, m, 40 * m + 500, o, md)
    # the plain sum, eqn (13)
    for a in range(-4, 3):
        for d in (1, 2, 3):
            if a + 2 * d <= 1:
                continue
            for m in (1, 2, rng.randint(3, 12), rng.randint(13, 40)):
                S = rng.choice([1, m] + [q for q in range(1, m + 1) if m % q == 0])
                F = rng.choice([1, m] + [q for q in range(1, m + 1) if m % q == 0])
                N = m // F + m * d + rng.choice([0, 1, m - 1, m, 2 * m + 1, rng.randint(0, 30) * m // S, rng.randint(1, 300)])
                M = 1 + S * (N - m // F - m * d) // m
                J = min(M, (d + 1) * S)
                if J > 130:
                    continue
                e = {"op": "edf", "fn": "edf_greenhall_simple", "N": N, "m": m, "a": a, "d": d, "S": S, "F": F, "over": False, "mod": False, "note": "", "w": 40 * J}
                e["out"] = num(ci.edf_greenhall_simple, a, d, m, S, F, N) if rng.random() < 0.5 else num(ci.edf_greenhall_simple, alpha=a, d=d, m=m, S=S, F=F, N=N)
                ev.append(e)
    # its building blocks (7), (8) and (9), at small, ordinary and large arguments
    for fn in ("greenhall_sw", "greenhall_sx", "greenhall_sz"):
        if not hasattr(ci, fn):
            continue
        for a in range(-4, 3):
            for j in range(14 * k):
                t = [0.0, 1.0, rng.uniform(0, 0.02), rng.uniform(0, 1e-4), -rng.uniform(0.02, 4), rng.uniform(0, 1), rng.uniform(1, 60)][j % 7] if j < 14 \
                    else rng.choice([-1, 1]) * 10 ** rng.uniform(-5, 2)
                d = rng.choice([1, 2, 3]) if fn == "greenhall_sz" else 0
                F = float("inf") if fn != "greenhall_sw" and a <= 0 and rng.random() < 0.3 else rng.choice([1, 2, 7.0, rng.randint(2, 40)])
                ar = {"greenhall_sw": (t, a), "greenhall_sx": (t, F, a), "greenhall_sz": (t, F, a, d)}[fn]
                ev.append({"op": "part", "fn": fn, "t": rat(t), "a": a, "d": d, "F": ["inf"] if F == float("inf") else rat(F),
                           "out": num(getattr(ci, fn), *ar)})
    return {"TraceCi": ev}


# ------------------------------------------------------------------ C17
def civ(d, nu, c, note="", kw=False):
    e = {"op": "ci", "d": rat(d), "nu": rat(nu), "c": NONE if c is None else rat(c), "note": note}
    if c is None:
        ok, r = guarded(lambda: ci.confidence_interval(d, nu))
    else:
        ok, r = guarded(lambda: ci.confidence_interval(dev=d, edf=nu, ci=c) if kw else ci.confidence_interval(d, nu, c))
    e["out"] = pair(ok, r)
    e["w"] = 200 + int(20 * float(nu))
    return e


def pair(ok, r):
    if not ok:
        return {"ok": False, "exc": r}
    try:
        lo, hi = r
        return {"ok": True, "lo": rat(lo), "hi": rat(hi)}
    except Exception:
        return {"ok": False, "exc": "malformed"}


def noise(rng, n, kind=None):
    """phase-like series of different slopes"""
    kind = kind if kind is not None else rng.choice([0, 1, 2, 3, "half", "sine", "int"])
    w = [rng.gauss(0, 1) for _ in range(n)]
    if kind == "half":
        o, s = [], 0.0
        for v in w:
            s = 0.7 * s + v
            o.append(s)
        return o
    if kind == "sine":
        f = rng.uniform(0.05, 2.5)
        return [math.sin(f * i) + 0.05 * w[i] for i in range(n)]
    if kind == "int":
        return [rng.randint(-20, 20) for i in range(n)]
    for _ in range(kind):
        s, o = 0.0, []
        for v in w:
            s += v
            o.append(s)
        w = o
    return w


def pipe(x, dev, m, fn, c=None, note="", dt="phase"):
    vals = [float(v) for v in x]
    e = {"op": "pipe", "fn": fn, "ser": series(vals), "m": m, "d": rat(dev), "c": NONE if c is None else rat(c), "dt": dt, "note": note}
    kw = {} if c is None else {"ci": c}
    if dt != "phase" or note != "defaults":
        kw["data_type"] = dt
    if fn != "adev" or note != "defaults":
        kw["dev_type"] = fn
    e["out"] = pair(*guarded(lambda: ci.confidence_interval_noiseID(np.array(vals), dev, m, **kw)))
    e["w"] = 6000 + len(vals) * 10
    return e


def graderr(v, gaps, rate, taus, noise_t, c, dt="phase"):
    x = np.array(v, dtype=float)
    for i in gaps:
        x[i] = float("nan")
    n = len(x) + (1 if dt == "freq" else 0)
    e = {"op": "graderr", "fn": "gradev", "ser": {"n": n}, "gaps": sorted(gaps), "rate": rat(rate), "data": rats(x), "taus": str(taus), "dt": dt,
         "noise": noise_t or "wp", "c": rat(0.9 if c is None else c)}
    kw = {}
    if c is not None:
        kw["ci"] = c
    if noise_t:
        kw["noisetype"] = noise_t
    ok, r = guarded(lambda: at.gradev(x, rate=rate, data_type=dt, taus=taus, **kw))
    try:
        e["out"] = {"ok": True, "tau": col(r[0]), "dev": col(r[1]), "errlo": col(r[2][0]), "errhi": col(r[2][1])} if ok else {"ok": False, "exc": r}
    except Exception:
        e["out"] = {"ok": False, "exc": "malformed"}
    e["w"] = 2000
    return e


LEVELS = [0.5, 0.6, 0.68268949213708585, 0.9, 0.95, 0.99, 0.999]


def c17(rng, tier):
    k = 5 if tier == "thorough" else 1
    ev = []
    for nu in [0.5, 0.8, 1, 1.0, 1.5, 2, 2.31, 3, 5, 9.99, 17, 30, 99, 300.5, 1000]:
        for c in LEVELS + [None]:
            ev.append(civ(rng.choice([1, 1.0, 2e-13, 3.7, 1e6]), nu, c, kw=rng.random() < 0.5))
    for _ in range(150 * k):
        ev.append(civ(10 ** rng.uniform(-18, 4), rng.choice([rng.uniform(0.5, 10), 10 ** rng.uniform(0, 3.3), float(rng.randint(1, 400))]),
                      rng.choice([rng.uniform(0.5, 0.9999), rng.choice(LEVELS), None])))
    for fn in ("adev", "oadev", "mdev", "tdev", "hdev", "ohdev"):
        for j in range(20 * k):
            n = rng.randint(60, 330) if j < 17 * k else rng.randint(900, 4000)
            m = rng.choice([1, 1, 2, 3, 4, 5, 7, 9, 30]) if n < 400 else rng.choice([1, 2, 10, 20, n // 40])
            if n // m < 34 and j % 8:
                m = max(1, n // 45)
            q = n // (6 if fn in ("mdev", "tdev", "hdev", "ohdev") else 4)
            if m > q:
                m = q
            x = noise(rng, n, rng.choice([0, 1, 2, 3, "half", "sine"]))
            if j % 3 == 1:
                a, b = rng.uniform(-1, 1), rng.uniform(-0.1, 0.1)
                x = [v + 5 + a * i + b * i * i for i, v in enumerate(x)]
            sc = rng.choice([1.0, 1e-9])
            x = [v * sc for v in x]
            ev.append(pipe(x, rng.choice([1.0, 10 ** rng.uniform(-14, 2)]), m, fn, rng.choice([None, 0.9, 0.5, 0.95, rng.uniform(0.5, 0.99)]),
                           "defaults" if j % 4 == 0 else "", "freq" if j % 3 == 0 else "phase"))
    for fn in ("totdev", "theo1", "mtie"):
        x = noise(rng, 120, 0)
        ok, r = guarded(lambda: ci.confidence_interval_noiseID(np.array(x), 1.0, 1, dev_type=fn))
        ev.append({"op": "refuse", "want": "any", "note": "noiseID " + fn, "out": {"ok": ok} if ok else {"ok": False, "exc": r}})
    for nt in ("wp", "fp", "wf", "ff", "rf", "other", None):
        for j in range(6 * k):
            n = rng.randint(8, 90)
            x = noise(rng, n, rng.choice([0, 1, 2, "int"]))
            gaps = set() if j % 2 else {rng.randrange(n) for _ in range(rng.randint(1, n // 4))}
            rate = rng.choice(gen.RATES)
            dt = "freq" if not gaps and j % 3 == 0 else "phase"
            ev.append(graderr(x, gaps, rate, rng.choice(["all", "octave", [1 / float(rate), 2 / float(rate), 5 / float(rate)]]), nt,
                              rng.choice([None, 0.5, 0.683, 0.95, rng.uniform(0.5, 0.99)]), dt))
    return {"TraceCi": ev}


# ------------------------------------------------------------------ C18
def nid(x, m, dt, dmin, dmax, note="", rng=None):
    vals = [float(v) for v in x]
    arr = np.array(vals) if rng is None else gen.contain(rng, list(x), rng.choice(["farray", "list", "strided", "readonly"] + (["narrow", "narrow", "iarray"] if all(isinstance(v, int) for v in x) else [])))
    e = {"op": "nid", "ser": series(vals), "m": m, "dt": dt, "dmin": dmin, "dmax": dmax, "note": note}
    kw = {}
    if not (dmin == 0 and dmax == 2 and note == "defaults"):
        kw = {"dmin": dmin, "dmax": dmax}
    if not (dt == "phase" and note == "defaults"):
        kw["data_type"] = dt
    ok, r = guarded(lambda: ci.autocorr_noise_id(arr, m, **kw))
    try:
        e["out"] = {"ok": True, "ai": rat(r[0]), "alpha": rat(r[1]), "d": rat(r[2]), "rho": rat(r[3])} if ok else {"ok": False, "exc": r}
        if ok and len(r) != 4:
            e["out"] = {"ok": False, "exc": "malformed"}
    except Exception:
        e["out"] = {"ok": False, "exc": "malformed"}
    e["w"] = 6000
    return e


def c18(rng, tier):
    k = 5 if tier == "thorough" else 1
    ev = []
    for j in range(180 * k):
        dt = rng.choice(["phase", "freq"])
        m = rng.choice([1, 1, 2, 3, 4, 5, 8, 13]) if j % 10 else rng.choice([16, 30, 64, 100])
        n = rng.choice([rng.randint(30, 60), rng.randint(60, 150)]) * m + rng.randint(0, max(0, m - 1))
        if j % 12 == 0:
            n = 30 * m - rng.randint(1, m + 3)
        if j % 12 == 1:
            n = 30 * m + rng.choice([0, 1, m - 1, -m + 1])
        if j % 23 == 5:
            m, n = rng.choice([1, 3]), rng.randint(600, 1500)
        x = noise(rng, n, "int" if j % 7 == 3 else None)
        t = rng.random()
        if t < 0.5:
            a, b, c = rng.uniform(-3, 3), rng.uniform(-1, 1), (rng.uniform(-0.02, 0.02) if dt == "phase" or t < 0.1 else 0)
            x = [v + a + b * i + c * i * i for i, v in enumerate(x)]
        s = rng.choice([1, 1.0, 1e-12, 1e3])
        if s != 1:
            x = [v * s for v in x]
        dmin, dmax = rng.choice([(0, 2), (0, 2), (0, 3), (1, 2), (2, 2), (0, 0), (1, 3), (0, 1), (3, 3)])
        ev.append(nid(x, m, dt, dmin, dmax, "defaults" if (dt, dmin, dmax) == ("phase", 0, 2) and j % 2 else "", rng))
    for j in range(50 * k):
        x = [float(v) for v in noise(rng, rng.choice([2, 3, 1000, rng.randint(4, 200)]))]
        ok_x = gen.contain(rng, x, rng.choice(["list", "farray", "strided"]))
        e = {"op": "acf", "ser": series(x)}
        e["out"] = num(ci.lag1_acf, ok_x)
        ev.append(e)
        x = [float(v) for v in noise(rng, rng.randint(4, 120))]
        if j % 2:
            x = [v + 3 + 0.5 * i - 0.01 * i * i for i, v in enumerate(x)]
        deg = rng.choice([0, 1, 2])
        e = {"op": "detrend", "ser": series(x), "deg": deg}
        ok, r = guarded(lambda: ci.detrend(np.array(x)) if deg == 1 and j % 2 else ci.detrend(np.array(x), deg=deg))
        e["out"] = {"ok": True, "v": col(r)} if ok else {"ok": False, "exc": r}
        ev.append(e)
    for fn in ("rn", "b1"):
        for j in range(40 * k):
            m = rng.choice([1, 2, 3, 4, 5, 8]) if j % 8 else rng.choice([16, 37, 100])
            n = rng.randint(5 * m + 2, 5 * m + 150) if j % 9 else rng.randint(6 * m, 6 * m + 1500)
            x = noise(rng, n)
            sc = rng.choice([1.0, 1e-9])
            x = [float(v) * sc for v in x]
            rate = rng.choice(gen.RATES)
            e = {"op": "ratio", "fn": fn, "ser": series(x), "m": m, "rate": rat(rate)}
            e["out"] = num(getattr(ci, fn), np.array(x), m, rate)
            ev.append(e)
    for af in [1, 2, 3, 10, 64, 1000, rng.randint(4, 60), rng.randint(60, 5000), rng.randint(5000, 10 ** 6)]:
        for b in range(-4, 1):
            ev.append({"op": "theory", "fn": "rn_theory", "n": af, "b": b, "out": num(ci.rn_theory, af, b)})
            ev.append({"op": "theory", "fn": "rn_boundary", "n": af, "b": b, "out": num(ci.rn_boundary, af, b)})
    for N in [2, 3, 10, 101, 1000, 4096, rng.randint(4, 200), rng.randint(200, 5000), rng.randint(5000, 10 ** 5), rng.randint(10 ** 5, 10 ** 6)]:
        for mu in range(-5, 6):
            ev.append({"op": "theory", "fn": "b1_theory", "n": N, "b": mu, "out": num(ci.b1_theory, N, mu)})
        for b in range(-5, 1):
            ev.append({"op": "theory", "fn": "b1_boundary", "n": N, "b": b, "out": num(ci.b1_boundary, b, N)})
    for b in range(-6, 1):
        ev.append({"op": "theory", "fn": "b_to_mu", "n": 1, "b": b, "out": num(ci.b_to_mu, b)})
    for b in (1, -7):
        ok, r = guarded(lambda: ci.b_to_mu(b))
        ev.append({"op": "refuse", "want": "any", "note": "b_to_mu %d" % b, "out": {"ok": ok} if ok else {"ok": False, "exc": r}})
    return {"TraceCi": ev}
