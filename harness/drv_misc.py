"""Drivers: tau selection, result contract, conversions, kernels, gradev, gcodev, hat, relations."""
import functools, math, random
from calls import *
import gen

ALLFN = ["adev", "oadev", "mdev", "tdev", "pdev", "hdev", "ohdev", "totdev", "mtotdev", "ttotdev", "htotdev", "theo1",
         "mtie", "tierms"]
PLAIN = {"adev", "oadev", "mdev", "pdev", "hdev", "ohdev", "totdev", "mtotdev", "theo1"}      # deviation ~ phase/tau
TIMEFN = {"tdev", "ttotdev", "mtie", "tierms"}                                                # deviation ~ phase
NONE = ["none"]


def nums(vals):
    return [int(v) if isinstance(v, (int, np.integer)) else float(v) for v in list(vals)]


# ------------------------------------------------------------------ averaging factors
def taugen(data, rate, taus, even, mx, note=""):
    n = len(data)
    kw = {}
    if even:
        kw["even"] = True
    if mx is not None:
        kw["maximum_m"] = mx
    before = list(data)
    e = {"op": "taugen", "n": n, "rate": rat(rate), "req": req(taus), "even": bool(even), "max": rat(mx) if mx is not None else NONE,
         "note": note}
    ok, r = guarded(lambda: at.tau_generator(data, rate, taus, **kw))
    if not ok:
        e["out"] = {"ok": False, "exc": r}
    else:
        try:
            same = len(r[0]) == n and all(a == b for a, b in zip(r[0], before))
            e["out"] = {"ok": True, "ms": col(r[1]), "tau": col(r[2]), "same": bool(same)}
        except Exception:
            e["out"] = {"ok": False, "exc": "malformed"}
    return e


def taured(ms, rate, n, note=""):
    e = {"op": "taured", "ms": [int(m) for m in ms], "rate": rat(rate), "n": n, "note": note}
    ok, r = guarded(lambda: at.tau_reduction(ms, rate, n))
    try:
        e["out"] = {"ok": True, "ms": col(r[0]), "tau": col(r[1])} if ok else {"ok": False, "exc": r}
    except Exception:
        e["out"] = {"ok": False, "exc": "malformed"}
    return e


def c05(rng, tier):
    k = 4 if tier == "thorough" else 1
    ev = []
    # every length for every keyword
    for n in list(range(2, 70 if k == 1 else 160)) + [99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 999, 1000, 1001, 1023, 1024, 1025]:
        data = [0.0] * n
        for kw in ("all", "octave", "decade", "log10", None):
            if kw == "all" and n > 130:
                continue
            rate = rng.choice(gen.RATES)
            even = rng.random() < 0.25
            mx = rng.choice([None, None, n / 3.0, n // 3, n - 1, n, n + 5, rng.randint(1, n), float(rng.randint(1, n)) + 0.5])
            ev.append(taugen(rng.choice([list, np.array])(data), rate, kw, even, mx, "keyword"))
    # long records
    for n in [2047, 2048, 4096, 5000, 8191, 9999, 10000, 10001, 16384, 20000, 65535, 65536, 100000][0 if k > 1 else rng.randint(0, 1)::1 if k > 1 else 2]:
        for kw in ("octave", "decade", "log10", "all"):
            if kw == "all" and n > 20000 * k:
                continue
            ev.append(taugen(np.zeros(n), rng.choice(gen.RATES), kw, rng.random() < 0.25, rng.choice([None, n / 3.0, rng.randint(1, n)]), "long"))
        rate = rng.choice(gen.RATES)
        ev.append(taugen(np.zeros(n), rate, [rng.randint(1, n + 5) / float(rate) for _ in range(40)], False, None, "long"))
    for n in [rng.randint(30, 2000) for _ in range(6)] + [rng.randint(2000, 200000) for _ in range(10)]:
        ev.append(taugen(np.zeros(n), rng.choice(gen.RATES), "log10", rng.random() < 0.25, rng.choice([None, None, n / 3.0, rng.randint(1, n)]), "long"))
    for n in (rng.choice([262144, 262145, 300000]), rng.choice([10 ** 6, 1048576, 1048577, 10 ** 6 + 1])):
        z = np.zeros(n)
        for kw in ("octave", "decade", None, "log10"):
            ev.append(taugen(z, rng.choice(gen.RATES), kw, rng.random() < 0.25, rng.choice([None, n / 3.0, rng.randint(1, n)]), "very long"))
        rate = rng.choice(gen.RATES)
        ev.append(taugen(z, rate, [rng.randint(1, n + 5) / float(rate) for _ in range(40)], False, None, "very long"))
    # dirty lists
    for j in range(260 * k):
        n = rng.randint(2, 400)
        rate = rng.choice(gen.RATES)
        t = gen.taus(rng, n, rate, 14)
        if isinstance(t, str):
            t = None
        ev.append(taugen(np.zeros(n), rate, t, rng.random() < 0.3, rng.choice([None, n / 3.0, rng.randint(1, n)]), "list"))
    # lists whose products tau*rate fall just below / above integers
    for j in range(60 * k):
        rate = rng.choice([0.1, 0.3, 7.3, 1e6, 1.0 / 86400, 1e-3, 3.0, 49.0, 1e4 / 3])
        n = rng.randint(50, 2000)
        l = [m * (1.0 / rate) for m in rng.sample(range(1, n + 3), 20)] + [m / rate for m in rng.sample(range(1, n), 10)]
        rng.shuffle(l)
        ev.append(taugen(np.zeros(n), rate, rng.choice([list, np.array])(l), False, None, "products"))
    # thinning
    for j in range(50 * k):
        top = rng.choice([30, 100, 300, 1000])
        ms = list(range(1, top)) if j % 3 else sorted(rng.sample(range(1, top * 3), min(top, 60)))
        ev.append(taured(rng.choice([list, np.array])(ms), rng.choice(gen.RATES), rng.choice([1, 2, 3, 5, 7, 10, 20, 100]), "thin"))
    # through the statistics
    for j in range(90 * k):
        fn = rng.choice(ALLFN + ["theo1", "mtotdev", "htotdev", "ttotdev"])
        n = rng.randint(8, 26 if fn in ("mtotdev", "ttotdev", "htotdev", "theo1") else 60)
        rate = rng.choice(gen.RATES)
        ev.append(stat_event(fn, gen.contain(rng, gen.ints(rng, n)), rate, rng.choice(["phase", "freq"]),
                             gen.taus(rng, n, rate, 12), "stat"))
    return ev


# ------------------------------------------------------------------ result contract
def refuse(f, want, note):
    ok, r = guarded(f)
    return {"op": "refuse", "want": want, "note": note, "out": {"ok": ok} if ok else {"ok": False, "exc": r}}


def c06(rng, tier):
    k = 3 if tier == "thorough" else 1
    ev = []
    for n in range(2, 13):
        for fn in ALLFN:
            for dt in ("phase", "freq"):
                for rep in range(k):
                    rate = rng.choice(gen.RATES)
                    v = gen.contain(rng, gen.ints(rng, n))
                    for t in ("all", rng.choice(["octave", "decade", None])):
                        ev.append(stat_event(fn, v, rate, dt, t, "small"))
                # only one factor: the largest one with an estimate, the next, ...
                for m in range(max(1, n // 3 - 1), n + 1):
                    if rng.random() < 0.25 * k:
                        rate = rng.choice(gen.RATES)
                        ev.append(stat_event(fn, gen.ints(rng, n), rate, dt, [m / float(rate)], "edge"))
    for fn in ALLFN:
        cap = 22 if fn in ("mtotdev", "ttotdev", "htotdev", "theo1") else 70
        for j in range(10 * k):
            n = rng.randint(10, cap)
            rate = rng.choice(gen.RATES)
            ev.append(stat_event(fn, gen.contain(rng, gen.values(rng, n)), rate, rng.choice(["phase", "freq"]),
                                 rng.choice(["all", [1.0 / rate], [(n - 1.0) / rate, 0.0], gen.taus(rng, n, rate)]), "contract"))
    for n in range(3, 12):
        for j in range(2 * k):
            ev.append(gradev(gen.ints(rng, n), set(rng.sample(range(n), rng.randint(0, n // 2))), rng.choice(gen.RATES), "all"))
            ev.append(gcodev(gen.ints(rng, n), gen.ints(rng, n), rng.choice(gen.RATES), rng.choice(["phase", "freq"]), "all"))
    # deviations that are exactly zero at some or all averaging factors are estimates like any other
    for j in range(36 * k):
        n = rng.randint(12, 48)
        p = rng.choice([1, 2, 3, 4, 6])
        kind = rng.choice(["const", "zeros", "period", "period", "ramp", "step", "lastjump", "firstjump"])
        w = [rng.randint(-9, 9) for _ in range(p)]
        v = {"const": [7] * n, "zeros": [0] * n, "period": [w[i % p] for i in range(n)], "ramp": [3 * i - 8 for i in range(n)],
             "step": [i // p for i in range(n)], "lastjump": [0] * (n - 1) + [4], "firstjump": [4] + [0] * (n - 1)}[kind]
        rate = rng.choice(gen.RATES)
        t = rng.choice(["all", "octave", [m / float(rate) for m in range(1, n)]])
        for fn in ALLFN[j % 2::2]:
            ev.append(stat_event(fn, gen.contain(rng, v), rate, rng.choice(["phase", "freq"]), t, "degenerate"))
        ev.append(gradev(v, gap_set(rng, n) if j % 3 == 0 else set(), rate, t))
        ev.append(gcodev(v, v[::-1], rate, rng.choice(["phase", "freq"]), t))
    # missing points inside the record change values, not rows
    for fn in ALLFN:
        for j in range(8 * k):
            n = rng.randint(5, 24 if fn in ("mtotdev", "ttotdev", "htotdev", "theo1") else 60)
            rate, dt, t = rng.choice(gen.RATES), rng.choice(["phase", "freq"]), rng.choice(["all", "octave", gen.taus(rng, n, 1.0)])
            x = np.array(gen.ints(rng, n), dtype=float)
            x[rng.sample(range(1, n - 1), rng.choice([1, 1, 2, max(1, n // 3)]))] = rng.choice([np.nan, np.nan, np.nan, np.inf])
            e = {"op": "rows", "fn": fn, "dt": dt, "rate": rat(rate), "n": n, "req": req(t), "note": "gaps"}
            e["out"] = out4(guarded(lambda: getattr(at, fn)(x if j % 2 else list(x), rate=rate, data_type=dt, taus=t)))
            ev.append(e)
    # refusals
    for fn in ALLFN + ["gradev"]:
        f = getattr(at, fn)
        for n in (5, 40):
            for dt in ("phase", "freq"):
                for t in ("all", None, [1.0]):
                    ev.append(refuse(lambda: f(np.arange(n) ** 2.0, rate=0, data_type=dt, taus=t), "any", fn + " rate 0 " + dt))
                    ev.append(refuse(lambda: f(np.arange(n) ** 2.0, rate=0.0, data_type=dt, taus=t), "any", fn + " rate 0.0 " + dt))
            for dt in ("foo", "Phase", "frequency", "", None, 3, "freqphase"):
                ev.append(refuse(lambda: f(np.arange(n) ** 2.0, rate=1.0, data_type=dt, taus=[1.0]), "any", "%s data_type=%r" % (fn, dt)))
    for dt in ("foo", "", None):
        ev.append(refuse(lambda: at.gcodev(np.arange(9.0), np.arange(9.0), data_type=dt), "any", "gcodev data_type=%r" % dt))
    ev.append(refuse(lambda: at.gcodev(np.arange(9.0), np.arange(9.0), rate=0), "any", "gcodev rate 0"))
    return ev


# ------------------------------------------------------------------ conversions
def conv(fn, raw, rate=1.0, **kw):
    """raw: list of floats, NaN allowed at the ends for trimming functions"""
    e = {"op": "conv", "fn": fn, "raw": rats(nums(raw)), "rate": rat(rate)}
    f = kw.pop("call")
    e.update(kw)
    ok, r = guarded(f)
    e["out"] = {"ok": True, "v": col(r)} if ok else {"ok": False, "exc": r}
    return e


def c07(rng, tier):
    k = 4 if tier == "thorough" else 1
    ev = []
    nan = float("nan")
    TWOPI = Fraction(*(2 * math.pi).as_integer_ratio())
    for j in range(110 * k):
        n = rng.choice([2, 3, 4, 5, rng.randint(6, 60), rng.randint(60, 400)])
        v = gen.values(rng, n, 0.5)
        rate = rng.choice(gen.RATES)
        lead, tail = rng.choice([0, 0, 1, 2, 5]), rng.choice([0, 0, 1, 3])
        x = [nan] * lead + [float(a) for a in v] + [nan] * tail
        if j % 4 == 3 and n > 3:                # gaps inside the record too
            for i in rng.sample(range(lead + 1, lead + n - 1), rng.randint(1, max(1, n // 8))):
                x[i] = nan
        xa = gen.contain(rng, x, rng.choice(["farray", "strided", "readonly", "reversed", "list"]))
        ev.append(conv("frequency2phase", list(xa), rate, call=lambda: at.frequency2phase(xa, rate)))
        ev.append(conv("trim_data", list(xa), call=lambda: at.trim_data(xa)))
        c = gen.contain(rng, v)
        ev.append(conv("phase2frequency", list(c), rate, call=lambda: at.phase2frequency(c, rate)))
        ev.append(conv("phase2frequency.frequency2phase", list(c), rate,
                       call=lambda: at.phase2frequency(at.frequency2phase(np.array(c, dtype=float), rate), rate)))
        ev.append(conv("frequency2phase.phase2frequency", list(c), rate,
                       call=lambda: at.frequency2phase(at.phase2frequency(np.array(c, dtype=float), rate), rate)))
        v0 = rng.choice([1.0, 10e6, 5e6, 0.5, 429228004229873.2])
        if getattr(c, "dtype", None) in (np.float16, np.float32):
            c = np.array(c, dtype=float)
        ev.append(conv("phase2radians", list(c), twopi=rat(TWOPI), v0=rat(v0), call=lambda: at.phase2radians(c, v0)))
        f0 = rng.choice([10e6, 1e3, 7.0, -3.0, 7, 100])
        fr = [f0 + a for a in gen.ints(rng, n, rng.choice(["white", "walk", "small"]))]
        if abs(sum(fr)) > 1:
            fc = gen.contain(rng, fr, "narrow" if isinstance(f0, int) and rng.random() < 0.7 else None)
            if rng.random() < 0.5:
                ev.append(conv("frequency2fractional", list(fc), mean=NONE, call=lambda: at.frequency2fractional(fc)))
            else:
                m = rng.choice([f0, f0 + 1.0, 10e6, 3, 1, 1.0])
                ev.append(conv("frequency2fractional", list(fc), mean=rat(m), call=lambda: at.frequency2fractional(fc, m)))
                ev.append(conv("frequency2fractional", list(fc), mean=rat(m),
                               call=lambda: at.frequency2fractional(fc, mean_frequency=m)))
    # number types in which the differences, sums or means do not fit
    for j in range(60 * k):
        c = gen.wide(rng, rng.choice([2, 3, 5, 9, 40, 150]))
        rate = rng.choice(gen.RATES)
        ev.append(conv("phase2frequency", list(c), rate, call=lambda: at.phase2frequency(c, rate)))
        ev.append(conv("frequency2phase", list(c), rate, call=lambda: at.frequency2phase(c, rate)))
        if abs(float(np.sum(c.astype(float)))) > 0.1 * float(np.sum(np.abs(c.astype(float)))):
            ev.append(conv("frequency2fractional", list(c), mean=NONE, call=lambda: at.frequency2fractional(c)))
            ev.append(conv("frequency2fractional", list(c), mean=rat(3.0), call=lambda: at.frequency2fractional(c, 3.0)))
    # duality: every statistic on frequency data = on the integrated phase (specification) and on the library's own phase
    for j in range(8 * k):
        for fn in ALLFN:
            n = rng.randint(6, 22 if fn in ("mtotdev", "ttotdev", "htotdev", "theo1") else 60)
            rate = rng.choice(gen.RATES)
            y = gen.values(rng, n)
            t = gen.taus(rng, n, rate)
            ev.append(stat_event(fn, gen.contain(rng, y), rate, "freq", t, "dual"))
            ya = np.array(y, dtype=float)
            ev.append(rel(fn, "dual", lambda: getattr(at, fn)(ya, rate=rate, data_type="freq", taus=t),
                          lambda: getattr(at, fn)(at.frequency2phase(ya, rate), rate=rate, data_type="phase", taus=t),
                          1, 1, fn, dual_scale(fn, ya, rate)))
            # leading / trailing gaps in the frequency record are trimmed
            if fn != "htotdev":
                yn = np.concatenate([[nan] * rng.randint(0, 2), ya, [nan] * rng.randint(1, 2)])
                ev.append(rel(fn, "trimmed", lambda: getattr(at, fn)(ya, rate=rate, data_type="freq", taus="all"),
                              lambda: getattr(at, fn)(yn, rate=rate, data_type="freq", taus="all"),
                              1, 1, fn, dual_scale(fn, ya, rate)))
    return ev


def dual_scale(fn, y, rate):
    """absolute rounding scale of the deviation (phase units; frequency units for htotdev)"""
    a = float(np.max(np.abs(y))) * len(y)
    return a if fn == "htotdev" else a / float(rate)


def rel(fn, note, fa, fb, st, sd, kind, scale):
    """kind: name of the statistic (decides whether tol is divided by tau)"""
    e = {"op": "rel", "fn": fn, "note": note, "st": rat(Fraction(st) if not isinstance(st, float) else st),
         "sd": rat(Fraction(sd) if not isinstance(sd, float) else sd),
         "pertau": kind in PLAIN, "tol": rat(Fraction(*float(scale).as_integer_ratio()) / 10 ** 10)}
    e["out"] = {"a": out4(guarded(fa)), "b": out4(guarded(fb))}
    return e


# ------------------------------------------------------------------ kernels, mtie fast
def kern(rng, fn, v, rate, m, stride=1):
    if not hasattr(at, fn):
        return None
    x = np.array(v, dtype=float)
    e = {"op": "kern", "fn": fn, "ser": series(nums(v)), "rate": rat(rate), "m": m, "stride": stride}
    if fn == "calc_hdev_phase":
        ok, r = guarded(lambda: at.calc_hdev_phase(x, rate, m, stride))
    elif fn == "calc_mtotdev_phase":
        ok, r = guarded(lambda: at.calc_mtotdev_phase(x, rate, m))
    else:
        ok, r = guarded(lambda: at.calc_htotdev_freq(x, m))
    try:
        e["out"] = {"ok": True, "dev": rat(r[0]), "err": rat(r[1]), "n": rat(r[2])} if ok else {"ok": False, "exc": r}
    except Exception:
        e["out"] = {"ok": False, "exc": "malformed"}
    return e


def kernels(rng, fn, count, nmax):
    out = []
    for _ in range(count):
        n = rng.randint(8, nmax)
        m = rng.randint(1, max(1, n // 4))
        stride = rng.choice([1, m, rng.randint(1, 5)]) if fn == "calc_hdev_phase" else 1
        e = kern(rng, fn, gen.values(rng, n), rng.choice(gen.RATES), m, stride)
        if e:
            out.append(e)
    return out


def fast(v, rate):
    e = {"op": "fast", "fn": "mtie_phase_fast", "ser": series(nums(v)), "rate": rat(rate)}
    e["out"] = out4(guarded(lambda: at.mtie_phase_fast(v, rate=rate)))
    return e


def fasts(rng, tier):
    out = []
    for n in list(range(2, 36)) + [63, 64, 65, 100, 127, 128, 200, 256, 300]:
        for _ in range(1 if tier == "quick" else 4):
            out.append(fast(gen.contain(rng, gen.values(rng, n)), rng.choice(gen.RATES)))
    return out


# ------------------------------------------------------------------ gradev
def gradev(v, gaps, rate, taus, dt="phase", kind=None, rng=random, **kw):
    x = np.array(v, dtype=float)
    v0 = list(v)
    for i in gaps:
        x[i] = float("nan")
        v0[i] = 0
    e = {"op": "gradev", "fn": "gradev", "dt": dt, "ser": series(nums(v0)), "gaps": sorted(i + 1 for i in gaps), "rate": rat(rate),
         "req": req(taus), "note": str(kw)}
    if isinstance(v, np.ndarray):           # as it is; the gaps of a narrow float series are its own
        data = v.copy()
        for i in gaps:
            data[i] = float("nan")
    else:
        data = gen.contain(rng, list(x), kind or "farray") if gaps else gen.contain(rng, v, kind) if rng.random() < 0.3 else x
    ok, r = guarded(lambda: at.gradev(data, rate=rate, data_type=dt, taus=taus, **kw))
    try:
        e["out"] = {"ok": True, "tau": col(r[0]), "dev": col(r[1]), "errlo": col(r[2][0]), "errhi": col(r[2][1]), "ns": col(r[3])} \
            if ok else {"ok": False, "exc": r}
        if ok and (len(r) != 4 or len(r[2]) != 2):
            e["out"] = {"ok": False, "exc": "malformed"}
    except Exception:
        e["out"] = {"ok": False, "exc": "malformed"}
    return e


def gap_set(rng, n):
    k = rng.choice(["none", "few", "block", "many", "lead", "tail", "periodic", "ends", "both"])
    if k == "none":
        return set()
    if k == "few":
        return set(rng.sample(range(n), min(n, rng.randint(1, 3))))
    if k == "block":
        a = rng.randrange(n)
        return set(range(a, min(n, a + rng.randint(1, max(1, n // 3)))))
    if k == "many":
        return {i for i in range(n) if rng.random() < rng.choice([0.3, 0.5, 0.7])}
    if k == "lead":
        return set(range(rng.randint(1, max(1, n // 4))))
    if k == "tail":
        return set(range(n - rng.randint(1, max(1, n // 4)), n))
    if k == "periodic":
        p = rng.randint(2, 6)
        return {i for i in range(n) if i % p == 0}
    if k == "ends":
        return {0, n - 1}
    return set(range(rng.randint(1, 2))) | {n // 2} | set(range(n - 1, n))


def c11(rng, tier):
    k = 4 if tier == "thorough" else 1
    ev = []
    # every gap pattern of short series
    for n in (4, 5, 6, 7) if k == 1 else (4, 5, 6, 7, 8, 9):
        v = [3, -1, 4, 1, -5, 9, 2, -6, 5, 3][:n]
        for mask in range(2 ** n):
            g = {i for i in range(n) if mask >> i & 1}
            if len(g) < n:
                ev.append(gradev(v, g, 1.0, "all"))
    for j in range(260 * k):
        n = rng.randint(5, 90)
        rate = rng.choice(gen.RATES)
        g = gap_set(rng, n)
        if len(g) >= n:
            continue
        kw = {}
        if rng.random() < 0.5:
            kw = {"ci": rng.choice([0.5, 0.683, 0.9, 0.99]), "noisetype": rng.choice(["wp", "fp", "wf", "ff", "rf", "xx"])}
        ev.append(gradev(gen.values(rng, n), g, rate, gen.taus(rng, n, rate), "phase",
                         rng.choice(["list", "farray", "strided", "readonly", "reversed"]), rng, **kw))
    for j in range(40 * k):
        n = rng.randint(5, 60)
        rate = rng.choice(gen.RATES)
        ev.append(gradev(gen.values(rng, n), set(), rate, gen.taus(rng, n, rate), "freq"))
    for j in range(24 * k):
        n = rng.randint(4, 60)
        v = gen.wide(rng, n)
        g = gap_set(rng, n) if v.dtype.kind == "f" else set()
        if len(g) < n:
            rate = rng.choice(gen.RATES)
            ev.append(gradev(v, g, rate, gen.taus(rng, n, rate), rng.choice(["phase", "phase", "freq"]) if not g else "phase"))
    for j in range(6 * k):
        n = rng.randint(500, 1500)
        g = gap_set(rng, n)
        if len(g) < n:
            ev.append(gradev(gen.values(rng, n), g, 1.0, [1, 2, 5, n // 5, n // 3, n // 2 - 1]))
    for n0 in (3000, 9000, 33000, 70000) if k == 1 else (3000, 9000, 33000, 70000, 140000, 270000):      # long records
        n = n0 + rng.randint(0, 99)
        g = gap_set(rng, n)
        if len(g) < n:
            rate = rng.choice(gen.RATES)
            e = gradev(gen.ints(rng, n, rng.choice(["walk", "white", "jump"])), g, rate, [m / float(rate) for m in (1, rng.randint(2, 60), rng.randint(61, n // 3))],
                       noisetype=rng.choice(["wp", "fp", "wf", "ff", "rf"]))
            e["w"] = n
            ev.append(e)
    # no gaps: identical to oadev
    for j in range(50 * k):
        n = rng.randint(5, 200)
        rate = rng.choice(gen.RATES)
        dt = rng.choice(["phase", "phase", "freq"])
        v = np.array(gen.values(rng, n), dtype=float)
        t = gen.taus(rng, n, rate)
        ev.append(pairtd("gradev=oadev", lambda: at.oadev(v, rate=rate, data_type=dt, taus=t),
                         lambda: at.gradev(v, rate=rate, data_type=dt, taus=t)))
    return ev


def pairtd(note, fa, fb):
    """tau, deviation and count columns of two calls agree"""
    def three(r):
        o = out4(r)
        if o["ok"]:
            o = {"ok": True, "tau": o["tau"], "dev": o["dev"], "err": o["dev"], "ns": o["ns"]}
        return o
    return {"op": "rel", "fn": "gradev", "note": note, "st": rat(1), "sd": rat(1), "pertau": False, "tol": rat(0),
            "out": {"a": three(guarded(fa)), "b": three(guarded(fb))}}


# ------------------------------------------------------------------ gcodev, hat
def gcodev(v, w, rate, dt, taus, rng=random, kinds=("farray", "farray")):
    e = {"op": "gcodev", "fn": "gcodev", "dt": dt, "ser": series(nums(v)), "ser2": series(nums(w)), "rate": rat(rate), "req": req(taus)}
    a, b = (gen.contain(rng, list(s), c) if c else s for s, c in zip((v, w), kinds))
    e["out"] = out4(guarded(lambda: at.gcodev(a, b, rate=rate, data_type=dt, taus=taus)))
    return e


class Caller(object):
    """a statistic without a name"""
    def __init__(self, f):
        self.f = f

    def __call__(self, *a, **k):
        return self.f(*a, **k)


def c12(rng, tier):
    k = 4 if tier == "thorough" else 1
    ev = []
    K = ["list", "farray", "tuple", "strided", "readonly", "reversed", "narrow", "iarray"]
    for j in range(150 * k):
        n = rng.randint(3, 70)
        rate = rng.choice(gen.RATES)
        dt = rng.choice(["phase", "phase", "freq"])
        v = gen.values(rng, n)
        w = list(v) if j % 7 == 0 else [-a for a in v] if j % 7 == 1 else gen.values(rng, n)
        t = gen.taus(rng, n, rate)
        ev.append(gcodev(v, w, rate, dt, t, rng, (rng.choice(K), rng.choice(K))))
        if j % 3 == 0:
            a, b = np.array(v, dtype=float), np.array(w, dtype=float)
            ev.append(rel("gcodev", "symmetry", lambda: at.gcodev(a, b, rate=rate, data_type=dt, taus=t),
                          lambda: at.gcodev(b, a, rate=rate, data_type=dt, taus=t), 1, 1, "x", 0))
            ev.append(rel("gcodev", "self", lambda: at.oadev(a, rate=rate, data_type=dt, taus=t),
                          lambda: at.gcodev(a, np.array(a), rate=rate, data_type=dt, taus=t), 1, 1, "x", 0))
    for j in range(24 * k):
        n = rng.randint(3, 40)
        rate = rng.choice(gen.RATES)
        ev.append(gcodev(gen.wide(rng, n), gen.wide(rng, n) if j % 3 else gen.ints(rng, n), rate, rng.choice(["phase", "freq"]),
                         gen.taus(rng, n, rate), rng, (None, None if j % 3 else "farray")))
    for j in range(8 * k):
        n = rng.randint(400, 1200)
        ev.append(gcodev(gen.values(rng, n), gen.values(rng, n), 1.0, "phase", [1, 2, 7, n // 4, n // 2 - 1]))
    for n0 in (3000, 9000, 33000, 70000) if k == 1 else (3000, 9000, 33000, 70000, 140000, 270000):
        n = n0 + rng.randint(0, 99)
        rate = rng.choice(gen.RATES)
        e = gcodev(gen.ints(rng, n, rng.choice(["walk", "white"])), gen.ints(rng, n, rng.choice(["walk", "white"])), rate, rng.choice(["phase", "freq"]),
                   [m / float(rate) for m in (1, rng.randint(2, 60), rng.randint(61, n // 3))])
        e["w"] = n
        ev.append(e)
    for j in range(120 * k):
        fn = rng.choice(["adev", "oadev", "mdev", "tdev", "hdev", "ohdev", "pdev", "totdev", "mtie", "tierms", "mtotdev", "oadev", "theo1", "ttotdev"])
        n = rng.randint(5, 18 if fn in ("mtotdev", "theo1", "ttotdev", "htotdev") else 45)
        if j % 12 == 11:
            fn, n = rng.choice(["adev", "oadev", "mdev", "hdev", "ohdev", "totdev"]), rng.choice([500, 2500, 9000])
        rate = rng.choice(gen.RATES)
        big = rng.choice([1, 1, 1, 30])
        A, B, C = (gen.ints(rng, n) for _ in range(3))
        if j % 2:   # consistent clocks
            ab = [a - big * b for a, b in zip(A, B)]
            bc = [big * b - c for b, c in zip(B, C)]
            ca = [c - a for a, c in zip(A, C)]
        else:       # arbitrary series, frequently negative variances
            ab, bc, ca = A, [5 * b for b in B], C
        t = gen.taus(rng, n, rate) if n < 400 else "decade"
        sc = rng.choice([1, 1, 1e-9, 0.1])
        if sc != 1:
            ab, bc, ca = ([sc * float(a) for a in s] for s in (ab, bc, ca))
        d = [gen.contain(rng, s, rng.choice(K)) for s in (ab, bc, ca)]
        e = {"op": "hat", "fn": fn, "ab": series(nums(ab)), "bc": series(nums(bc)), "ca": series(nums(ca)), "rate": rat(rate), "req": req(t)}
        f = getattr(at, fn)
        if j % 6 == 5:              # any function with the interface of a statistic will do
            f = rng.choice([functools.partial(f), Caller(f), lambda data, rate, data_type, taus, f=f: f(data, rate, data_type, taus)])
        if rng.random() < 0.5:
            e["out"] = out4(guarded(lambda: at.three_cornered_hat_phase(d[0], d[1], d[2], rate, t, f)))
        else:
            e["out"] = out4(guarded(lambda: at.three_cornered_hat_phase(phasedata_ab=d[0], phasedata_bc=d[1], phasedata_ca=d[2],
                                                                        rate=rate, taus=t, function=f)))
        ev.append(e)
    return ev


# ------------------------------------------------------------------ invariances
LIN = ["adev", "oadev", "mdev", "tdev", "pdev", "hdev", "ohdev", "totdev", "mtotdev", "ttotdev", "htotdev", "theo1"]
QUAD = ["hdev", "ohdev", "htotdev"]
REV = ["oadev", "ohdev", "mdev", "tdev", "totdev", "mtotdev", "ttotdev", "htotdev", "theo1", "mtie", "tierms"]


def c25(rng, tier):
    k = 4 if tier == "thorough" else 1
    ev = []

    def sz(fn):
        return rng.randint(6, 30 if fn in ("mtotdev", "ttotdev", "htotdev", "theo1") else 150)

    def call(fn, x, rate, t, dt="phase"):
        return lambda: getattr(at, fn)(x, rate=rate, data_type=dt, taus=t)

    for rep in range(12 * k):
        for fn in ALLFN:
            n = sz(fn)
            if rep % 6 == 5 and fn not in ("mtotdev", "ttotdev", "htotdev", "theo1"):
                n += 700 if fn == "pdev" else rng.choice([700, 3000, 11000]) if fn != "mtie" else 1500
            elif rep % 6 == 4 and fn in ("mtotdev", "ttotdev", "htotdev", "theo1"):
                n += rng.choice([60, 130, 250])
            rate = rng.choice(gen.RATES)
            x = np.array(gen.values(rng, n), dtype=float)
            M = float(np.max(np.abs(x))) or 1.0
            t = rng.choice(["octave", "decade"]) if n > 200 and fn not in ("mtotdev", "ttotdev", "htotdev", "mtie") else [m / float(rate) for m in (1, 2, 5, 20, n // 4, n // 3)] if n > 200 else gen.taus(rng, n, rate)
            i = np.arange(n)
            fr = float(rate) if fn == "htotdev" else 1.0      # its scale is that of the frequency

            def tr(note, y, cls=fn):
                ev.append(rel(fn, note, call(fn, x, rate, t), call(fn, y, rate, t), 1, 1, cls, fr * float(np.max(np.abs(y)) + M)))
            tr("constant", x + rng.choice([-1, 1]) * M * rng.uniform(0.1, 30))
            if fn in LIN:
                tr("linear", x + M * rng.uniform(-3, 3) * i + rng.uniform(-1, 1) * M)
            if fn in QUAD:
                tr("quadratic", x + M * rng.uniform(-0.5, 0.5) * i * i + M * rng.uniform(-2, 2) * i)
            if fn in REV:
                tr("reversed", np.array(x[::-1]))
                tr("negated-reversed", -x[::-1])
                ev.append(rel(fn, "reversed freq", call(fn, x, rate, t, "freq"), call(fn, x[::-1].copy(), rate, t, "freq"), 1, 1, fn,
                              dual_scale(fn, x, rate)))
            c = rng.choice([-1.0, 2.0, -0.25, 3.7, -1e-9, 1e5, 0.0, rng.uniform(-10, 10), 1e-20, -1e20, 3e-40, 1e30])
            for dt in ("phase", "freq"):
                y = c * x
                ev.append(rel(fn, "scaled " + dt, call(fn, x, rate, t, dt), call(fn, y, rate, t, dt), 1,
                              Fraction(*abs(c).as_integer_ratio()), fn, abs(c) * dual_scale(fn, x, rate) * (1 if dt == "freq" else float(rate) if fn != "htotdev" else rate)))
                # rate
                r2 = rng.choice(gen.RATES)
                q = Fraction(*float(r2).as_integer_ratio()) / Fraction(*float(rate).as_integer_ratio())
                if dt == "phase":
                    sd = 1 if fn in TIMEFN else q
                    sc = M * (float(r2) if fn == "htotdev" else 1.0)
                else:
                    sd = 1 / q if fn in TIMEFN else 1
                    sc = dual_scale(fn, x, r2)
                ms = sorted(set(rng.randint(1, max(1, n // 2)) for _ in range(6 if n < 150 else 3)))
                kwd = rng.choice([None, "octave", "decade", "l"]) if n < 150 or fn not in ("mtotdev", "ttotdev", "htotdev", "mtie") else "l"
                ta, tb = (([m / float(rate) for m in ms], [m / float(r2) for m in ms]) if kwd == "l" else (kwd, kwd))
                ev.append(rel(fn, "rate " + dt, call(fn, x, rate, ta, dt), call(fn, x, r2, tb, dt), 1 / q, sd, fn, sc * 10))
                if dt == "freq" and fn in LIN:
                    y = x + M * rng.uniform(-2, 2)
                    ev.append(rel(fn, "frequency offset", call(fn, x, rate, t, dt), call(fn, y, rate, t, dt), 1, 1, fn,
                                  dual_scale(fn, np.abs(x) + 3 * M, rate)))
                if dt == "freq" and fn in QUAD:
                    y = x + M * rng.uniform(-0.2, 0.2) * i
                    ev.append(rel(fn, "frequency drift", call(fn, x, rate, t, dt), call(fn, y, rate, t, dt), 1, 1, fn,
                                  dual_scale(fn, np.abs(x) + M * n, rate)))
    for rep in range(60 * k):
        n = rng.randint(4, 200)
        rate = rng.choice(gen.RATES)
        dt = rng.choice(["phase", "freq"])
        x = np.array(gen.values(rng, n), dtype=float)
        t0 = [1.0 / float(rate)]
        ev.append({"op": "coin", "fn": "tau0", "tol": rat(Fraction(*(float(np.max(np.abs(x))) * (float(rate) if dt == "phase" else n)).as_integer_ratio()) / 10 ** 10),
                   "out": [out4(guarded(call(f, x, rate, t0, dt))) for f in ("oadev", "adev", "mdev", "pdev")]})
        t = gen.taus(rng, n, rate)
        ev.append({"op": "tdevrel", "fn": "tdev", "out": {"t": out4(guarded(call("tdev", x, rate, t, dt))),
                                                          "m": out4(guarded(call("mdev", x, rate, t, dt)))}})
        ev.append({"op": "mono", "fn": "mtie", "out": out4(guarded(call("mtie", x, rate, "all" if n < 80 else "octave", dt)))})
    return ev
