"""Drivers for the real-time estimators: histories over several live objects."""
import json
from calls import *
import gen

CLS = {"oadev": "oadev_realtime", "ohdev": "ohdev_realtime", "tdev": "tdev_realtime"}


def generated(name):
    with open(os.environ["ALLAN_GEN"]) as f:
        return json.load(f)[name]


class Rt:
    def __init__(self):
        self.obj, self.kind, self.steps = {}, {}, []
        self.shared = [1, 3, 2]

    def new(self, i, kind, afs, tau0, auto=False, ppd=None):
        """afs None: documented default [1]; ppd None: documented default 4"""
        kw = {}
        if afs is not None:
            kw["afs"] = afs
        if tau0 != 1.0:
            kw["tau0"] = tau0
        if auto:
            kw["auto_afs"] = True
        if ppd is not None:
            kw["pts_per_decade"] = ppd
        ok, o = guarded(lambda: getattr(at, CLS[kind])(**kw))
        self.obj[i], self.kind[i] = (o if ok else None), kind
        self.steps.append({"act": "new", "id": i, "kind": kind, "afs": [int(a) for a in ([1] if afs is None else afs)],
                           "tau0": rat(tau0), "auto": auto, "ppd": 4 if ppd is None else ppd,
                           "out": [self.obs(i)] if ok else [{"id": i, "ok": False, "exc": o}]})

    def obs(self, i):
        o = self.obj[i]
        b = {"id": i, "ok": True, "hasm": self.kind[i] == "tdev"}
        ok, t = guarded(lambda: col(o.taus()))
        ok2, d = guarded(lambda: col(o.devs()))
        ok3, m = guarded(lambda: col(o.mdev())) if b["hasm"] else (True, [])
        if not (ok and ok2 and ok3):
            return {"id": i, "ok": False, "exc": [r for r in (t, d, m) if isinstance(r, str)][0]}
        b.update({"taus": t, "devs": d, "mdev": m})
        return b

    def feed(self, i, act, v, look=()):
        o = self.obj[i]
        if o is None:
            return
        ok, r = guarded(lambda: (o.add_phase if act == "phase" else o.add_frequency)(v))
        out = [self.obs(i)] if ok else [{"id": i, "ok": False, "exc": r}]
        out += [self.obs(j) for j in look if j != i and self.obj.get(j) is not None]
        self.steps.append({"act": act, "id": i, "v": rat(v), "out": out})

    def bulk(self, i, act, vs):
        """many points, one observation after the last"""
        o = self.obj[i]
        if o is None:
            return

        def add():
            f = o.add_phase if act == "phases" else o.add_frequency
            for v in vs:
                f(v)
        ok, r = guarded(add)
        self.steps.append({"act": act, "id": i, "v": rats(vs), "out": [self.obs(i)] if ok else [{"id": i, "ok": False, "exc": r}]})

    def event(self, note):
        return {"op": "realtime", "fn": "+".join(sorted(set(self.kind.values()))), "note": note, "steps": self.steps}


CFG = {"f1": ([1], False, None), "f21": ([2, 1], False, None), "f3": ([3], False, None), "f1245": (np.array([1, 2, 4, 5]), False, None),
       "fdef": (None, False, None), "fdup": ([2, 2, 1], False, None), "auto4": (None, True, None), "auto5": ([5, 1], True, 5),
       "auto3": (None, True, 3), "auto10": (None, True, 10), "auto1": ([1], True, 1), "auto4list": ([1, 2, 3], True, 4)}


def replay(h, rng, scale):
    r = Rt()
    for s in h:
        if s["act"] == "new":
            afs, auto, ppd = (r.shared, False, None) if s["cfg"] == "fshared" else CFG[s["cfg"]]
            r.new(s["id"], s["kind"], afs, float(s["tau0"]), auto, ppd)
        else:
            r.feed(s["id"], s["act"], s["v"] * scale, look=r.obj)
    return r.event("generated")


def stream(rng, auto, n, thin):
    r = Rt()
    k = rng.choice([1, 1, 1, 2, 3])
    tau0 = {}
    for i in range(1, k + 1):
        tau0[i] = rng.choice([1.0, 1.0, 0.1, 2.0, 1e-3, 86400.0, 0.3])
        kind = rng.choice(["oadev", "ohdev", "tdev"])
        if auto:
            r.new(i, kind, rng.choice([None, None, [1], [3, 4]]), tau0[i], True, rng.choice([None, 1, 2, 3, 4, 5, 8, 10]))
        else:
            afs = rng.choice([None, [1, 2, 4, 8], [rng.randint(1, max(1, n // 4)) for _ in range(rng.randint(1, 5))], np.array([1, 3, 10]),
                              list(range(1, 7)), [n // 3, 1], (1, 2)])
            r.new(i, kind, afs, tau0[i])
    mode = rng.choice(["phase", "freq", "mix", "mix2"])
    v = {i: gen.values(rng, n, 0.5) for i in r.obj}
    if rng.random() < 0.2:
        v = {i: gen.ints(rng, n, rng.choice(["period", "period", "exact", "steps"])) for i in r.obj}
    if mode == "mix2":
        v = {i: gen.ints(rng, n, "walk") for i in r.obj}
    for t in range(n):
        for i in r.obj:
            act = mode if mode in ("phase", "freq") else rng.choice(["phase", "freq"])
            x = v[i][t]
            if rng.random() < 0.4:
                x = gen.narrow(rng, [x])[0] if isinstance(x, int) else np.float64(x)
            r.feed(i, act, x)
            if t % thin and t < n - 3:
                r.steps[-1]["out"] = []
    return r.event(mode)


def plain(rng, kind, auto, n):
    """one object, a series with exact zeros among its terms, phase data (or its increments), seen at every point"""
    r = Rt()
    r.new(1, kind, None if auto else rng.choice([[1, 2, 3, 4], [4, 2, 6, 3], [3, 1]]), rng.choice([1.0, 0.1, 2.0]), auto,
          rng.choice([None, 2, 3, 4, 5, 8]) if auto else None)
    fr = rng.random() < 0.3
    for v in gen.ints(rng, n, rng.choice(["period", "period", "period", "exact", "steps", "spike", "zeros"])):
        r.feed(1, "freq" if fr else "phase", v)
    return r.event("plain")


def longrun(rng, auto, n, kind):
    """thousands of points; looked at around sizes at which something starts, and single points after some of them"""
    r = Rt()
    tau0 = rng.choice([1.0, 0.1, 2.0, 86400.0])
    ppd = rng.choice([None, 1, 2, 4, 5])
    if auto:
        r.new(1, kind, None, tau0, True, ppd)
        g = [int(round(10 ** (k / float(ppd or 4)))) for k in range(1, 40)]
        stops = [2 * m + 1 for m in g] + [3 * m + d for m in g for d in (0, 1)]
    else:
        afs = [1, rng.randint(2, 30), rng.randint(30, n // 8), rng.randint(n // 8, n // 3 - 2)]
        r.new(1, kind, rng.sample(afs, 4), tau0)
        stops = [c * m + d for m in afs for c, d in ((2, 1), (3, 0), (3, 1))]
    stops = [s for s in stops + [1000, 1024, 2048, 4096, 5000, 8192] if n // 20 < s < n]
    stops = sorted(set(rng.sample(stops, min(4, len(stops)))) | {n})
    fr = rng.random() < 0.4
    v = gen.ints(rng, n + 10, rng.choice(["walk", "white", "offset", "jump"])) if rng.random() < 0.7 else gen.floats(rng, n + 10)
    t = 0
    for s in stops:
        if s > t:
            r.bulk(1, "freqs" if fr else "phases", v[t:s])
            t = s
        if rng.random() < 0.5:
            r.feed(1, "phase", v[t])
            t += 1
    e = r.event("long")
    e["w"] = n * 200
    return e


def c09(rng, tier):
    k = 4 if tier == "thorough" else 1
    ev = [replay(h, rng, rng.choice([1, 1, 0.5, 1e-9, 1.1])) for h in generated("rt")]
    for j in range(60 * k):
        ev.append(stream(rng, False, rng.choice([5, 12, 30, 60]), 1))
    for j in range(24 * k):
        ev.append(plain(rng, ("oadev", "ohdev", "tdev")[j % 3], False, rng.randint(6, 30)))
    for j in range(6 * k):
        ev.append(stream(rng, False, rng.randint(200, 500), rng.randint(7, 20)))
    for j in range(6 * k):
        ev.append(longrun(rng, j % 3 == 0, rng.randint(1100, 5000), ("oadev", "ohdev", "tdev")[j % 3]))
    ev += [longrun(rng, False, rng.randint(5000, 20000), kind) for kind in ("oadev", "ohdev", "tdev")]
    return {"TraceRealtime": ev}


def c10(rng, tier):
    k = 4 if tier == "thorough" else 1
    ev = [replay(h, rng, rng.choice([1, 1, 0.5, 1e-9, 1.1])) for h in generated("rt")]
    for j in range(60 * k):
        ev.append(stream(rng, True, rng.choice([5, 12, 30, 60]), 1))
    for j in range(36 * k):
        ev.append(plain(rng, ("oadev", "ohdev", "tdev")[j % 3], True, rng.randint(12, 40)))
    for j in range(6 * k):
        ev.append(stream(rng, True, rng.randint(200, 500), rng.randint(7, 20)))
    for j in range(6 * k):
        ev.append(longrun(rng, True, rng.randint(1100, 5000), ("oadev", "ohdev", "tdev")[j % 3]))
    ev += [longrun(rng, True, rng.randint(5000, 20000), kind) for kind in ("oadev", "ohdev", "tdev")]
    return {"TraceRealtime": ev}
