"""Drivers: coloured noise generators, Noise objects, clock masks."""
import math, random
from calls import *
from drv_rt import generated
from drv_psd import refusal
import allantools.noise as noise
import allantools.mask as mask

SEEDS = [0, 1, 42, 12345, 2 ** 31 - 1, 7]


def draws(seed, k):
    np.random.seed(seed)
    return np.random.randn(k)


def seeded(seed, f):
    def g():
        np.random.seed(seed)
        return f()
    return g


def xout(f):
    """the result of f() and of a second identical call"""
    ok, r = guarded(f)
    if not ok:
        return {"ok": False, "exc": r}
    x = col(r)
    return {"ok": True, "x": x, "again": col(guarded(f)[1])}


def drop(rng, kw, defaults):
    """leave out arguments that equal their documented default, sometimes"""
    return {k: v for k, v in kw.items() if not (k in defaults and defaults[k] == v and rng.random() < 0.6)}


LEV = [1.0, 1, 2, 0.5, 1e-20, 3.7e4, 1.0 / 3]
FS = [1.0, 1, 10, 0.1, 1e6, 2.5, 1 / 86400.0]


def colour(rng, fn, n, b, fs, seed, pos=False):
    name = {"white": "b0", "brown": "b_minus2", "violet": "b2"}[fn]
    f = getattr(noise, fn)
    kw = drop(rng, {name: b, "fs": fs}, {name: 1, "fs": 1})
    e = {"op": "colour", "fn": fn, "n": int(n), "b": rat(b), "fs": rat(fs), "z": rats(draws(seed, int(n) + 2)[:int(n) + (1 if fn == "violet" else 0)]), "note": "seed %d" % seed}
    e["out"] = xout(seeded(seed, (lambda: f(n, b, fs)) if pos else (lambda: f(n, **kw))))
    e["w"] = int(n) * 20
    return e


def pink(rng, n, d, seed, pos):
    e = {"op": "pink", "fn": "pink", "n": int(n), "d": d, "z": rats(draws(seed, 3 * d + 2 * d * (int(n) // d + 1))), "note": "seed %d" % seed}
    e["out"] = xout(seeded(seed, (lambda: noise.pink(n, d)) if pos else (lambda: noise.pink(num_points=n, **drop(rng, {"depth": d}, {"depth": 80})))))
    e["w"] = int(n) * 300
    return e


def iterpink(rng, n, d, seed):
    def f():
        g = noise.iterpink(d)
        return [next(g) for _ in range(n)]
    e = {"op": "pink", "fn": "iterpink", "n": n, "d": d, "z": rats(draws(seed, 3 * d + 2 * d * (n // d + 1))), "note": "seed %d" % seed, "out": xout(seeded(seed, f)), "w": n * 300}
    return e


def pair(rng, seed):
    """two live generators and other draws in turn, within the first period of both"""
    da, db = rng.randint(4, 40), rng.randint(4, 40)
    order = [0] * rng.randint(1, da - 1) + [1] * rng.randint(1, db - 1)
    rng.shuffle(order)
    first = order[0]
    d = (da, db) if first == 0 else (db, da)         # in order of the first use

    def f():
        g, o = {}, {0: [], 1: []}
        for i in order:
            if i not in g:
                g[i] = noise.iterpink((da, db)[i])
            o[i].append(float(next(g[i])))
        return o
    z = draws(seed, 3 * (da + db))
    ok, r = guarded(seeded(seed, f))
    ok2, q = guarded(seeded(seed, f))
    ev = []
    for k, i in enumerate((first, 1 - first)):
        n, zz = order.count(i), z[3 * d[0] * k:][:3 * d[k]]
        out = {"ok": True, "x": col(r[i]), "again": col(q[i])} if ok and ok2 else {"ok": False, "exc": str(r)}
        ev.append({"op": "pink", "fn": "iterpink", "n": n, "d": d[k], "z": rats(zz), "note": "two generators, seed %d" % seed, "out": out, "w": n * 300})
    return ev


def welch(rng, x, fs, seg):
    style = rng.randrange(3)
    kw = drop(rng, {"f_sample": fs, "nr_segments": seg}, {"f_sample": 1.0, "nr_segments": 4})
    ok, r = guarded(lambda: noise.scipy_psd(x, fs, seg) if style == 0 else noise.scipy_psd(x, **kw))
    n = len(x)
    m = (n // seg) // 2
    ks = list(range(m + 1)) if n <= 30 else sorted({0, 1, m, m - 1} | {rng.randint(0, m) for _ in range(4)})
    e = {"op": "welch", "fn": "scipy_psd", "x": rats(list(x)), "fs": rat(fs), "seg": seg, "ks": ks, "note": "n=%d" % n, "w": n * 80 * len(ks)}
    ok2, o = guarded(lambda: {"ok": True, "f": col(r[0]), "p": col(r[1])}) if ok else (True, {"ok": False, "exc": r})
    e["out"] = o if ok2 else {"ok": False, "exc": "malformed"}
    return e


def period(rng, x, fs, pos=False):
    ok, r = guarded(lambda: noise.numpy_psd(x, fs) if pos else noise.numpy_psd(x, f_sample=fs))
    n = len(x)
    m = n // 2
    ks = list(range(m + 1)) if n <= 24 else sorted({0, 1, m, m - 1} | {rng.randint(0, m) for _ in range(6)})
    e = {"op": "period", "fn": "numpy_psd", "x": rats(list(x)), "fs": rat(fs), "ks": ks, "note": "n=%d" % n, "w": n * 30 * len(ks)}
    if ok:
        try:
            e["out"] = {"ok": True, "f": col(r[0]), "p": col(r[1])}
        except Exception:
            e["out"] = {"ok": False, "exc": "malformed"}
    else:
        e["out"] = {"ok": False, "exc": r}
    return e


def c19(rng, tier):
    k = 5 if tier == "thorough" else 1
    ev = []
    for fn in ("white", "brown", "violet"):
        for j in range(22 * k):
            n = rng.choice([1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 64, 65, 100, np.int64(9)]) if j % 2 else rng.randint(1, 300)
            ev.append(colour(rng, fn, n, rng.choice(LEV), rng.choice(FS), rng.choice(SEEDS + [rng.randint(0, 10 ** 6)]), j % 3 == 0))
        for n in (1000, 1023, rng.randint(2000, 6000), 2 ** 13 + rng.choice([-1, 0, 1])) + ((40000,) if k > 1 else ()):
            ev.append(colour(rng, fn, n, rng.choice(LEV), rng.choice(FS), rng.randint(0, 99)))
    for d in list(range(1, 20)) + [31, 32, 33, 63, 64, 65, 80, 80, 128]:
        for n in {rng.randint(1, 5), d, d + 1, 2 * d + rng.randint(0, 3), 3 * d + 1} if d < 20 else {d - 1, 2 * d + rng.randint(1, 9)}:
            ev.append(pink(rng, n, d, rng.choice(SEEDS + [rng.randint(0, 10 ** 6)]), rng.random() < 0.3))
    for n, d in ((rng.randint(600, 1500), 80), (rng.randint(1500, 2500), rng.choice([3, 10, 16, 50])), (rng.randint(1100, 1300), rng.choice([200, 256, 400]))):
        ev.append(pink(rng, n, d, rng.randint(0, 99), False))
    for j in range(12 * k):
        ev.append(iterpink(rng, rng.randint(1, 90), rng.choice([1, 2, 5, 8, 20, 20, 33]), rng.randint(0, 999)))
        ev += pair(rng, rng.randint(0, 999))
    big = [(2048, "gauss"), (rng.randint(2049, 5000), "gauss"), (rng.randint(2049, 5000), "offset"), (rng.randint(4500, 9000), "offset")]
    for n, kind in [(n, None) for n in list(range(1, 25)) + [rng.randint(25, 300) for _ in range(12 * k)] + [1000, 1001]] + big:
        kind = kind or rng.choice(["gauss", "ints", "sine", "scaled", "offset"])
        if kind == "gauss":
            x = np.array([rng.gauss(0, 1) for _ in range(n)])
        elif kind == "ints":
            x = np.array([rng.randint(-9, 9) for _ in range(n)])
        elif kind == "sine":
            x = np.array([math.sin(i * 1.3) + 0.5 for i in range(n)])
        elif kind == "offset":
            x = rng.choice([1e3, -1e5]) + np.array([rng.gauss(0, 1) for _ in range(n)])
        else:
            x = np.array([rng.gauss(0, 1) * 1e-9 for _ in range(n)])
        ev.append(period(rng, list(map(float, x)) if n % 4 == 0 else x, rng.choice(FS), n % 3 == 0))
        if n > 1 and n < 2000:
            seg = rng.choice([s for s in (1, 2, 3, 4, 4, 5, 8) if n // s > 1])
            ev.append(welch(rng, x, rng.choice(FS), seg))
    return {"TraceNoise": ev}


# ------------------------------------------------------------------ C20
def obs(o, i, ks=None):
    def f():
        n = int(o.nr)
        ts = col(o.time_series)
        kk = ks if ks is not None else (list(range(1, n + 1)) if n <= 40 else sorted({1, 2, n, n - 1, n // 2} | {random.Random(n).randint(1, n) for _ in range(10)}))
        return {"id": i, "ok": True, "nr": n, "qd": rat(o.qd), "b": rat(o.b), "ts": ts, "ks": kk}
    ok, r = guarded(f)
    return r if ok else {"id": i, "ok": False, "exc": r}


class Hist:
    def __init__(self):
        self.o, self.p, self.steps = {}, {}, []

    def args(self, kw):
        return {k: (int(v) if k == "nr" else rat(v)) for k, v in kw.items()}

    def new(self, i, kw, pos=False):
        ok, o = guarded(lambda: at.Noise(*[kw[k] for k in ("nr", "qd", "b")]) if pos else at.Noise(**kw))
        self.o[i] = o if ok else None
        self.p[i] = dict({"nr": 2, "qd": 1, "b": 0}, **kw)
        self.steps.append({"act": "new", "id": i, "args": self.args(kw), "out": [obs(o, i)] if ok else [{"id": i, "ok": False, "exc": o}]})

    def set(self, i, kw, pos=False):
        o = self.o[i]
        ok, r = guarded(lambda: o.set_input(*[kw[k] for k in ("nr", "qd", "b")]) if pos else o.set_input(**kw))
        self.p[i] = dict({"nr": 2, "qd": 1, "b": 0}, **kw)
        self.steps.append({"act": "set", "id": i, "args": self.args(kw), "out": [obs(o, i)] if ok else [{"id": i, "ok": False, "exc": r}]})

    def gen(self, i, seed, look=()):
        o = self.o[i]
        z = draws(seed, int(self.p[i]["nr"]))
        ok, r = guarded(seeded(seed, o.generateNoise))
        out = [obs(o, i)] if ok else [{"id": i, "ok": False, "exc": r}]
        self.steps.append({"act": "gen", "id": i, "z": rats(z), "out": out + [obs(self.o[j], j) for j in look if j != i]})

    def theory(self, i, fn, tau0, tau, pos=False):
        b = self.p[i]["b"]
        if b not in (0, -1, -2, -3, -4) and fn not in ("phase_psd_from_qd", "frequency_psd_from_qd"):
            return
        m = getattr(self.o[i], fn)
        if fn in ("c_avar", "c_mvar"):
            a = ()
        elif fn.endswith("psd_from_qd"):
            a = (tau0,)
        else:
            a = (tau0, tau)
        if fn in ("adev", "mdev") or pos or len(a) == 0:
            f = lambda: m(*a)
        elif tau0 == 1.0 and (len(a) == 1 or tau == 1.0):
            f = lambda: m()
        else:
            f = lambda: m(**dict(zip(("tau0", "tau"), a)))
        ok, r = guarded(f)
        b = obs(self.o[i], i)
        b["v"] = rat(r) if ok else [r]
        self.steps.append({"act": "theory", "id": i, "fn": fn, "tau0": rat(tau0), "tau": rat(tau), "out": [b]})

    def event(self, note):
        n = sum(int(self.p[i]["nr"]) for i in self.p)
        return {"op": "kasdin", "fn": "Noise", "note": note, "steps": self.steps, "w": 40 * n * len(self.steps)}


THEORY = ["phase_psd_from_qd", "frequency_psd_from_qd", "c_avar", "c_mvar", "adev_from_qd", "mdev_from_qd", "pdev_from_qd", "adev", "mdev"]


def c20(rng, tier):
    k = 5 if tier == "thorough" else 1
    ev = []
    for h in generated("noise"):
        r = Hist()
        for s in h:
            if s["act"] in ("new", "set"):
                a = s["args"]
                b = float(a["b"])
                kw = {"nr": a["nr"], "qd": float(a["qd"]), "b": int(b) if b == int(b) and rng.random() < 0.5 else b}
                pos = len(s["given"]) == 3 and rng.random() < 0.5
                kw = {q: kw[q] for q in s["given"]}
                (r.new if s["act"] == "new" else r.set)(s["id"], kw, pos)
            elif s["act"] == "gen":
                r.gen(s["id"], s["seed"], list(r.o))
            else:
                t0 = float(s["tau0"])
                r.theory(s["id"], s["fn"], t0, t0 * s["m"], rng.random() < 0.5)
        ev.append(r.event("generated"))
    for j in range(60 * k):                                   # lengths, all kinds of b
        r = Hist()
        n = rng.choice([1, 2, 3, 4, 5, 6, 8, 9, 15, 16, 17, 33, 64, 100, 127, 128, 200, 255, 256]) if j % 4 else rng.randint(1, 400)
        b = rng.choice([0, -1, -2, -3, -4, 0.0, -1.0, -0.5, -1.7, -2.5, -3.9, 1, 2, 0.7, round(rng.uniform(-4.5, 2), 2)])
        qd = rng.choice([1, 1.0, 2.0, 1e-20, 3e-9, 0.25, 1e4])
        r.new(1, {"nr": np.int64(n) if j % 5 == 0 else n, "qd": qd, "b": b})
        for s in range(rng.choice([1, 1, 2])):
            r.gen(1, rng.choice(SEEDS + [rng.randint(0, 10 ** 6)]))
        if b in (0, -1, -2, -3, -4):
            for fn in THEORY:
                t0 = rng.choice([1.0, 0.1, 16.0, 1e-3, 86400.0, 3])
                r.theory(1, fn, t0, t0 * rng.choice([1, 2, 7, 1000, 1.5]), rng.random() < 0.5)
        else:
            for fn in THEORY[:2]:
                r.theory(1, fn, rng.choice([1.0, 0.1, 16.0, 3.3]), 1.0, rng.random() < 0.5)
        ev.append(r.event("lengths"))
    for n in (1024, 2048, 1000, rng.randint(3000, 5000), 4096, rng.randint(10000, 14000)) + ((20000, 40000) if k > 1 else ()):
        r = Hist()
        r.new(1, {"nr": n, "qd": 2.0, "b": rng.choice([-1, -2, -3, -4, 0, -2.5])})
        r.gen(1, rng.randint(0, 10 ** 6))
        e = r.event("long")
        ev.append(e)
    return {"TraceNoise": ev}


# ------------------------------------------------------------------ C23
def tk(rng, nodes, h, al, n, dt, output, seed, ts=None, frac=0.5, outer=False, note=""):
    z = draws(seed, 2 * (n // 2))
    dur = (n + frac) * dt
    assert int(dur / dt) == n
    f = noise.timmer_koenig_from_psd
    wrap = rng.choice([np.array, list, tuple])
    a = (wrap(nodes), wrap(h), wrap(al), dur, dt)
    kw = {} if output == "phase" and rng.random() < 0.5 else {"output": output}
    if not outer:
        kw["seed"] = seed
    g = (lambda: f(*a, **kw))
    if outer:
        g = seeded(seed, g)
    if ts is None:
        ts = list(range(n)) if n <= 24 else sorted({0, 1, n - 1, n // 2} | {rng.randrange(n) for _ in range(6)})
    e = {"op": "tk", "fn": "timmer_koenig_from_psd", "nodes": rats(nodes), "h": rats(h), "al": rats(al), "n": n, "dt": rat(dt), "z": rats(z), "ts": ts, "output": output,
         "note": note + " seed %d" % seed, "out": xout(g), "w": n * 400 + n * len(ts) * 20}
    return e


def c23(rng, tier):
    k = 5 if tier == "thorough" else 1
    ev = []
    f = noise.timmer_koenig_from_psd
    for j in range(110 * k):
        n = rng.choice([4, 5, 6, 7, 8, 9, 10, 11, 15, 16, 17, 20, 21, 32, 33]) if j % 3 else rng.randint(4, 150)
        dt = rng.choice([1.0, 1, 0.5, 0.1, 10.0, 86400.0, 1e-3, 0.3])
        ns = rng.choice([1, 1, 2, 2, 3, 4, 5])
        f1, fn = 1.0 / ((n - 1) * dt), 1.0 / (2 * dt)
        grid = np.linspace(f1, fn, n // 2 + 1)
        while True:
            nodes = sorted(rng.choice([rng.uniform(f1, fn), rng.uniform(f1, fn), rng.uniform(0.1, 0.9) * f1, rng.uniform(1.1, 3) * fn]) for _ in range(ns - 1))
            if all(abs(v / g - 1) > 1e-9 for v in nodes for g in grid):
                break
        al = [rng.choice([-4.0, -2.0, -1.0, 0.0, 1.0, 2.0, -2, 0, 2, rng.uniform(-3, 2)]) for _ in range(ns)]
        sc = rng.choice([1.0, 1.0, 1e-24])
        h = [rng.uniform(0.2, 5) * sc for _ in range(ns)]
        ev.append(tk(rng, nodes, h, al, n, dt, rng.choice(["phase", "phase", "freq"]), rng.choice(SEEDS + [rng.randint(0, 10 ** 6)]), outer=j % 4 == 0, note="random"))
    # a single segment stated with and without nodes; several segments and no nodes is refused or the first segment (documented: single)
    for j in range(10 * k):
        n = rng.randint(4, 40)
        ev.append(tk(rng, [], [rng.uniform(1, 2)], [rng.choice([0.0, -1.0, 1.0])], n, rng.choice([1.0, 0.25]), "phase", rng.randint(0, 99), note="single"))
    # nodes exactly on grid frequencies: n = 2^p + 1, dt a power of two
    for j in range(20 * k):
        p = rng.choice([2, 3, 4, 5])
        n, dt = 2 ** p + 1, rng.choice([1.0, 0.5, 0.25, 4.0, 64.0])
        grid = [float(v) for v in np.linspace(1.0 / ((n - 1) * dt), 1.0 / (2 * dt), n // 2 + 1)]
        ex = [Fraction(1) / (Fraction(n - 1) * Fraction(dt)) + (Fraction(1) / (2 * Fraction(dt)) - Fraction(1) / (Fraction(n - 1) * Fraction(dt))) * Fraction(i, n // 2) for i in range(n // 2 + 1)]
        good = [i for i in range(n // 2 + 1) if Fraction(grid[i]) == ex[i]]
        ns = rng.randint(1, min(3, len(good)))
        nodes = [grid[i] for i in sorted(rng.sample(good, ns))]
        if any(abs(v - g) < 1e-9 * g and v != g for v in nodes for g in grid):
            continue
        h = [10.0 ** rng.uniform(-1, 1) for _ in range(ns + 1)]
        al = [rng.choice([-2.0, -1.0, 0.0, 1.0, 2.0]) for _ in range(ns + 1)]
        ev.append(tk(rng, nodes, h, al, n, dt, rng.choice(["phase", "freq"]), rng.randint(0, 999), note="on a node"))
    for n in (500, 501, 1024, 2 ** 12 + rng.choice([0, 1]), rng.randint(1100, 3000), 2 * rng.randint(2600, 6000) + 1) + ((20000,) if k > 1 else ()):
        ev.append(tk(rng, [0.1, 0.3], [1.0, 2.0, 3.0], [-1.0, 0.0, 2.0], n, 1.0, rng.choice(["phase", "freq"]), rng.randint(0, 999), ts=[0, 1, n // 3, n - 1], note="long"))
    bad = [dict(duration=0), dict(duration=-10.0), dict(timestep=0), dict(timestep=-1.0), dict(duration=3.5), dict(duration=0.5), dict(h=[1.0]), dict(alpha=[0.0]), dict(h=[1.0, 2.0, 3.0]),
           dict(f_nodes=[0.1, 0.2]), dict(f_nodes=[0.1, 0.2, 0.3]), dict(output="psd"), dict(output=""), dict(h=[1.0, 2.0, 3.0], alpha=[0.0, 1.0, 2.0]), dict(h=[1.0], alpha=[0.0]),
           dict(duration=8.0, timestep=2.1), dict(output="Freq2")]
    for kw in bad:
        a = dict(f_nodes=[0.1], h=[1.0, 2.0], alpha=[0.0, -1.0], duration=20.5, timestep=1.0)
        a.update(kw)
        ev.append(refusal(lambda: f(**a), "ValueError", "timmer_koenig %r" % (kw,)))
    return {"TraceNoise": ev}


# ------------------------------------------------------------------ C24
MASKS = ["prc_tdev", "prc_mtie", "eprtc_tdev", "eprtc_mtie", "prtcA_tdev", "prtcB_tdev", "prtcA_mtie", "prtcB_mtie"]
BREAKS = [1, 54.5, 100, 273, 500, 1000, 30000, 300000, 400000, 10000, 0.1]


def c24(rng, tier):
    k = 6 if tier == "thorough" else 1
    ev = []

    def one(fn, tau):
        ok, r = guarded(lambda: getattr(mask, fn)(tau))
        ev.append({"op": "mask", "fn": fn, "tau": rat(tau), "note": type(tau).__name__, "out": {"ok": True, "v": rat(r)} if ok else {"ok": False, "exc": r}})
    for fn in MASKS:
        for b in BREAKS:
            taus = [b, float(b), np.nextafter(b, 0), np.nextafter(b, 1e9), b * 0.999, b * 1.001, b - 1e-9 * b, np.float64(b)]
            if b == int(b):
                taus += [int(b) - 1, int(b) + 1, np.int64(b), np.int32(b + 1)]
            for t in taus:
                if t > 0:
                    one(fn, t)
        for j in range(60 * k):
            one(fn, rng.choice([10 ** rng.uniform(-3, 8), rng.randint(1, 10 ** rng.randint(1, 7)), rng.choice([1e-9, 1e12, 5e5, 54, 55, 272, 274, 2])]))
        for t in range(1, 40) if k == 1 else range(1, 2000):
            one(fn, t)
    return {"TraceMask": ev}
