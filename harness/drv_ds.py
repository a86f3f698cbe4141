"""Drivers for Dataset, write_results and Plot: replay generated histories."""
import copy, hashlib, io, json, os, re, shutil, tempfile
from decimal import Decimal
from calls import *
from drv_rt import generated

STATS = ["adev", "oadev", "mdev", "tdev", "pdev", "hdev", "ohdev", "totdev", "ttotdev", "mtotdev",
         "htotdev", "theo1", "mtie", "tierms", "gradev"]
RATES = {"1.0": 1.0, "2.0": 2.0, "0.1": 0.1, "49.0": 49.0, "7.3": 7.3, "3": 3, "1e6": 1e6, "0": 0}
HP = [[], [["note", "x"]], [["b", 2], ["a", "1 2"], ["c", None]], [["k", 1e-3], ["Lab", "NIST"]], [["z", [1, 2]]]]
KW = [{}, {"label": "one"}, {"marker": "o", "color": "#ff0000"}, {"linewidth": 3.5, "alpha": 0.5}, {"linestyle": "--", "label": "b b", "marker": "x"}]


def pool(rng):
    t = {"none": None, "all": "all", "octave": "octave", "decade": "decade", "l1": [1.0, 3.0, 2.0, 4.0], "l2": np.array([0.5, 20.0, 10.0, 2.0]),
         "far": [1e9], "l3": np.array([3, 1, 2, 2])}
    d = {"d1": [rng.randint(-9, 9) for _ in range(24)], "d2": np.array([rng.gauss(0, 1e-9) for _ in range(33)]),
         "d3": np.cumsum([rng.gauss(0, 1) for _ in range(16)]), "d4": [0.5, 0.25, 1.0, 3.0, 2.0], "d5": [float(rng.randint(0, 3)) for _ in range(41)]}
    d["d6"] = np.array([float("nan") if i in (5, 6, 17) else rng.gauss(0, 1) for i in range(30)])       # gaps
    d["d7"] = np.array([rng.randint(-30000, 30000) for _ in range(28)], dtype=np.int16)
    return d, t


def errcols(v):
    if isinstance(v, (list, tuple)) and len(v) == 2 and all(hasattr(x, "__len__") for x in v):
        return [col(v[0]), col(v[1])]
    return [col(v)]


def resrec(t, s, e, n):
    return {"taus": col(t), "stat": col(s), "err": errcols(e), "ns": col(n)}


def obs(d):
    o = d.out
    if o.get("stat_id") is None and o.get("taus") is None:
        return {"none": True}
    r = resrec(o["taus"], o["stat"], o["stat_err"], o["stat_n"])
    r.update({"none": False, "name": str(o["stat_id"])})
    return r


def lex(tok):
    m = re.match(r"^(-?)(\d+)(\.(\d*))?(e([+-]\d+))?$", tok)
    if not m:
        return {"tag": {"nan": "nan", "inf": "inf", "-inf": "-inf"}.get(tok, "text"), "s": tok}
    return {"tag": "num", "num": rat(Fraction(Decimal(tok))), "ip": len(m.group(2)), "fp": len(m.group(4) or ""), "point": m.group(3) is not None,
            "hasexp": m.group(5) is not None, "exp": int(m.group(6) or 0), "s": tok}


class Hist:
    saves = 0

    def __init__(self, rng, part, scratch):
        self.part, self.scratch, self.rng = part, scratch, rng
        self.data, self.taus = pool(rng)
        self.ds, self.gv, self.fresh, self.pl, self.axk = {}, {}, {}, {}, {}
        self.steps, self.fun, self.kept = [], {}, []

    def kwargs(self, g):
        kw, enc = {"data": self.data[g["data"]]}, {"data": g["data"]}
        if g["rate"]:
            kw["rate"], enc["rate"] = RATES[g["rate"]], g["rate"]
        if g["data_type"]:
            kw["data_type"], enc["data_type"] = g["data_type"], g["data_type"]
        if g["taus"]:
            kw["taus"], enc["taus"] = self.taus[g["taus"]], g["taus"]
        return kw, enc

    def all(self):
        return [obs(self.ds[k]) for k in sorted(self.ds)]

    def digest(self):
        return json.dumps([[k, str(self.ds[k].inp), obs(self.ds[k])] for k in sorted(self.ds)], sort_keys=True, default=str)

    def keptok(self):
        return all(json.dumps({k: repr(v) for k, v in r.items()}) == s for r, s in self.kept)

    def life(self, s):
        i, out = s["id"], {}
        if s["act"] == "new":
            kw, enc = ({}, {}) if s["bare"] else self.kwargs(s["given"])
            ok, v = guarded(lambda: at.Dataset(**kw))
            self.ds[i], self.gv[i], self.fresh[i] = v, (kw, enc), False
            st = {"act": "new", "id": i, "given": enc}
        elif s["act"] == "set":
            kw, enc = self.kwargs(s["given"])
            ok, v = guarded(lambda: self.ds[i].set_input(**kw))
            self.gv[i], self.fresh[i] = (kw, enc), False
            st = {"act": "set", "id": i, "given": enc}
        else:
            kw, enc = self.gv[i]
            name = s["name"]
            st = {"act": "compute", "id": i, "name": name}
            if self.part == "life" and name in STATS:
                key = "|".join([enc.get("data", "none"), enc.get("rate", "1.0"), enc.get("data_type", "phase"), enc.get("taus", "none"), name])
                if key not in self.fun:
                    a = {"data": None, "rate": 1.0, "data_type": "phase", "taus": None}
                    a.update(kw)
                    d = a.pop("data")
                    okf, f = guarded(lambda: getattr(at, name)(d, **a))
                    self.fun[key] = dict(resrec(*f), ok=True) if okf else {"ok": False, "exc": f}
            ok, v = guarded(lambda: self.ds[i].compute(name))
            if ok:
                self.fresh[i] = True
                if self.part == "life":
                    out["ret"] = resrec(v["taus"], v["stat"], v["stat_err"], v["stat_n"])
                self.kept.append((v, json.dumps({k: repr(x) for k, x in v.items()})))
        out["ok"] = ok
        if not ok:
            out["exc"] = v
        if self.part == "life":
            out["obs"], out["kept"] = self.all(), self.keptok()
        st["out"] = out
        self.steps.append(st)
        return ok

    def write(self, s):
        i = s["id"]
        if not self.fresh.get(i):
            return
        d = self.ds[i]
        path = os.path.join(self.scratch, "f%d.txt" % s["file"])
        if not os.path.exists(path) and self.rng.random() < 0.5:
            with open(path, "w") as f:
                f.write("# old\n" * 400)
        kw = {}
        if s["digits"]:
            kw["digits"] = s["digits"]
        if s["hp"]:
            kw["header_params"] = dict((k, v) for k, v in HP[s["hp"]])
        before, res = self.digest(), obs(d)
        rate = self.gv[i][0].get("rate", 1.0)
        ok, v = guarded(lambda: d.write_results(path, **kw))
        st = {"act": "write", "id": i, "digits": s["digits"], "params": [[str(k), str(x)] for k, x in HP[s["hp"]]], "version": str(at.__version__),
              "dtype": str(self.gv[i][0].get("data_type", "phase")), "rate": str(rate), "ratev": rat(rate), "res": res}
        if ok:
            with open(path) as f:
                text = f.read()
            lines = text.split("\n")
            head = [x for x in lines if x.startswith("#")]
            rest = lines[len(head):]
            st["out"] = {"ok": True, "head": head, "fields": rest[0].split() if rest else [], "rows": [[lex(t) for t in x.split()] for x in rest[1:-1]],
                         "whole": lines[:len(head)] == head and lines[-1] == "", "unchanged": self.digest() == before}
        else:
            st["out"] = {"ok": False, "exc": v}
        self.steps.append(st)

    def newplot(self, s):
        ok, v = guarded(lambda: at.Plot(no_display=True))
        if ok:
            self.pl[s["id"]] = v
        self.axk[s["id"]] = []
        self.steps.append({"act": "newplot", "id": s["id"], "out": {"ok": ok, "exc": "" if ok else v}})

    def axobs(self, p):
        from matplotlib.container import ErrorbarContainer
        from matplotlib.colors import to_hex
        ax, curves = p.ax, []
        cont = {id(c.lines[0]): c for c in ax.containers if isinstance(c, ErrorbarContainer) and c.lines[0] is not None}
        caps = {id(x) for c in ax.containers if isinstance(c, ErrorbarContainer) for x in c.lines[1]}
        for ln in ax.lines:
            if id(ln) in caps:
                continue
            c = cont.get(id(ln))
            lab = (c.get_label() if c is not None else ln.get_label()) or ""
            r = {"x": col(ln.get_xdata()), "y": col(ln.get_ydata()), "bars": c is not None, "lo": [], "hi": [],
                 "kw": {"label": str(lab), "marker": str(ln.get_marker()), "color": to_hex(ln.get_color()), "linewidth": str(ln.get_linewidth()),
                        "alpha": str(ln.get_alpha()), "linestyle": str(ln.get_linestyle())}}
            if c is not None:
                seg = [np.asarray(q) for b in c.lines[2] for q in b.get_segments()]
                r["lo"], r["hi"] = [col([f(q[:, 1]) if q.ndim == 2 and len(q) else float("nan") for q in seg]) for f in (min, max)]
            curves.append(r)

        def on(ticks):
            return all(t.gridline.get_visible() for t in ticks), any(t.gridline.get_visible() for t in ticks)
        mj = on([ax.xaxis.get_major_ticks(1)[0], ax.yaxis.get_major_ticks(1)[0]])
        mn = on([ax.xaxis.get_minor_ticks(1)[0], ax.yaxis.get_minor_ticks(1)[0]])
        return {"curves": curves, "xlabel": ax.get_xlabel(), "ylabel": ax.get_ylabel(), "xscale": ax.get_xscale(), "yscale": ax.get_yscale(),
                "major": mj[0] if mj[0] == mj[1] else "mixed", "minor": mn[1]}

    def plot(self, s):
        i, p = s["id"], self.pl.get(s["ax"])
        if p is None or self.ds[i].out.get("taus") is None:
            return
        d = self.ds[i]
        kw = dict(KW[s["kw"]])
        before, res = self.digest(), obs(d)
        args = dict(kw)
        if s["bars"] or self.rng.random() < 0.5:
            args["errorbars"] = s["bars"]
        if s["grid"] or self.rng.random() < 0.5:
            args["grid"] = s["grid"]
        ok, v = guarded(lambda: p.plot(d, **args))
        st = {"act": "plot", "id": i, "ax": s["ax"], "bars": s["bars"], "grid": s["grid"], "kw": {k: str(x) for k, x in kw.items()}, "res": res}
        st["out"] = {"ok": True, "axes": [self.axobs(self.pl[k]) for k in sorted(self.pl)], "unchanged": self.digest() == before} if ok \
            else {"ok": False, "exc": v}
        self.steps.append(st)


    def picture(self, src):
        import matplotlib.image as mi
        a = np.asarray(mi.imread(src, format="png"))
        return "%s %s" % (a.shape, hashlib.sha1(np.round(a * 255).astype(np.uint8).tobytes()).hexdigest()[:12])

    def pictures(self):
        r = []
        for k in sorted(self.pl):
            b = io.BytesIO()
            self.pl[k].fig.savefig(b, format="png")
            b.seek(0)
            r.append(self.picture(b))
        return r

    def save(self, s):
        p = self.pl.get(s["ax"])
        if p is None or Hist.saves >= (30 if os.environ.get("VERIF_TIER") != "thorough" else 200) or (len(self.pl) < 2 and self.rng.random() < 0.8):
            return
        Hist.saves += 1
        path = os.path.join(self.scratch, "p%d.png" % s["file"])
        okb, before = guarded(self.pictures)
        if not okb:
            return                                  # matplotlib cannot render these curves at all
        ok, v = guarded(lambda: p.save(path))
        st = {"act": "save", "ax": s["ax"]}
        if ok:
            ok, v = guarded(lambda: self.picture(path))
        st["out"] = {"ok": True, "file": v, "before": before, "after": self.pictures()} if ok else {"ok": False, "exc": v}
        self.steps.append(st)


def replay(h, rng, part):
    scratch = tempfile.mkdtemp(prefix="allands.")
    try:
        H = Hist(rng, part, scratch)
        for s in h:
            if s["act"] in ("new", "set", "compute"):
                ok = H.life(s)
                if not ok and s["act"] != "compute":
                    break
            else:
                getattr(H, s["act"])(s)
        e = {"op": "dataset", "fn": part, "part": part, "note": part, "steps": H.steps}
        if part == "life":
            e["fun"] = dict(H.fun, **{"-": {"ok": False, "exc": ""}})
        for p in H.pl.values():
            p.plt.close(p.fig)
        return e
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(part):
    return lambda rng, tier: {"TraceDataset": [replay(h, rng, part) for h in generated("ds") + (generated("long") if part == "plot" else [])]}
