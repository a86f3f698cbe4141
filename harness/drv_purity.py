"""Driver for call purity: generated call histories over a shared pool of caller objects; reference answers come from
a forked process in which the library has not been called yet."""
import os, random, hashlib, json, select, sys, io, contextlib, threading, warnings
from calls import *
import gen

NPTS = 40
RATE = [1.0, 0.5, 10.0, 2, 1.0 / 86400]
STATS = ["adev", "oadev", "mdev", "tdev", "pdev", "hdev", "ohdev", "totdev", "mtotdev", "ttotdev", "htotdev", "theo1", "mtie", "tierms"]


class Pool:
    """the caller's objects of one history; deterministic from the seed string and the versions of the value sets
    (a version is the same values in another order)"""
    def __init__(self, seed, vers=(0, 0, 0, 0)):
        rng = random.Random(seed)
        a = gen.ints(rng, NPTS, "walk")
        mid = a[4:-4]
        rng.shuffle(mid)
        b = a[:4] + mid + a[-4:]            # same length, ends, sum and extremes as a
        c = gen.ints(rng, NPTS, "white")
        d = list(reversed(a))
        self.vals = [a, b, c, d]
        self.data = {}
        for v in range(4):
            for c in range(8):
                self.data[v, c] = gen.contain(rng, list(self.vals[v]), ["list", "farray", "tuple", "strided", "reversed", "readonly", "iarray", "narrow"][c])
        nan = float("nan")
        self.gap = [np.array([nan, nan] + [float(x) for x in vs] + [nan]) for vs in self.vals]      # NaN at the ends
        for k, g in enumerate(self.gap):
            g[7 + k] = nan if k % 2 else g[7 + k]                                                    # and inside
        self.gapl = [list(g) for g in self.gap]
        self.reqs = []                      # in units of tau0, one set per rate
        for r in range(5):
            t0 = 1.0 / RATE[r]
            self.reqs.append([None, "all", [4 * t0, t0, 2 * t0, 4 * t0, 0.0, 99 * t0], np.array([q * t0 for q in [(3, 2, 7), (7, 2, 3), (2, 5, 3, 3), (99, 4, 1), (9, 6, 1, 0)][r]]), "decade"])
        self.pos = [sorted(abs(x) + 0.5 for x in self.vals[v][:4])[::-1] for v in range(4)]
        self.posa = [np.array(p) for p in self.pos]
        self.tx = [1.0, 3.0, 10.0, 40.0]
        self.txa = np.array(self.tx)
        self.h, self.al, self.fn = [1e-3, 2e-3, 5.0], [-1.0, 0.0, 2.0], [0.01, 0.3]
        self.ha = [np.array(x) for x in (self.h, self.al, self.fn)]
        self.ms = [np.arange(1, 60), list(range(1, 60))]
        self.psd = [np.abs(np.array(v, dtype=float)) + 1.0 for v in self.vals]
        self.f = np.arange(NPTS) * 0.25
        self.ver = [0] * 4
        for v in range(4):
            for _ in range(vers[v]):
                self.rewrite(v)

    def rewrite(self, v):
        """the caller writes other values into all objects of value set v, in place"""
        self.ver[v] += 1
        for c in range(8):
            self.turn(v, c)
        for o in (self.gap[v], self.gapl[v]):
            o[2:-1] = list(o[9:-1]) + list(o[2:9])
        for o in (self.pos[v], self.posa[v]):
            o[:] = [1.25 * x for x in o]
        self.psd[v][:] = np.roll(self.psd[v], 3)

    def turn(self, v, c):
        o = self.data[v, c]
        new = [o[(i + 11) % NPTS] for i in range(NPTS)]
        if isinstance(o, tuple):
            self.data[v, c] = tuple(new)
        elif isinstance(o, list):
            o[:] = new
        else:
            w = o.flags.writeable
            o.setflags(write=True)
            o[:] = np.array(new, dtype=o.dtype)
            o.setflags(write=w)

    def arrays(self):
        return [a for a in self.data.values() if isinstance(a, np.ndarray)] + self.gap + self.posa + self.psd + self.ha + \
            [self.txa, self.f, self.ms[0]] + [q for r in self.reqs for q in r if isinstance(q, np.ndarray)]

    def lists(self):
        return {id(x) for x in list(self.data.values()) + self.gapl + self.pos + [self.tx, self.h, self.al, self.fn] + self.ms
                + [q for r in self.reqs for q in r]}

    def digests(self):
        return [dig(o) for k in sorted(self.data) for o in [self.data[k]]] + \
            [dig(o) for o in (self.reqs, self.pos, self.posa, self.tx, self.txa, self.h, self.al, self.fn, self.ha, self.ms, self.psd, self.f, self.gap, self.gapl)]


def scribble(res, p):
    """the caller overwrites the arrays it was given, unless they are (views of) its own objects"""
    if isinstance(res, np.ndarray):
        if res.flags.writeable and res.dtype.kind in "fiu" and not any(np.shares_memory(res, a) for a in p.arrays()):
            res[...] = 77
    elif isinstance(res, (list, tuple)):
        for x in res:
            scribble(x, p)
        if isinstance(res, list) and id(res) not in p.lists():
            for i, x in enumerate(res):
                if isinstance(x, (int, float, np.number)):
                    res[i] = 77

def dig(o):
    h = hashlib.sha1()

    def go(x):
        if isinstance(x, np.ndarray):
            h.update(("A%s%s%s" % (x.dtype, x.shape, x.strides)).encode())
            h.update(np.ascontiguousarray(x).tobytes())
        elif isinstance(x, (list, tuple)):
            h.update(("%s%d" % (type(x).__name__, len(x))).encode())
            for y in x:
                go(y)
        else:
            h.update(repr(x).encode())
    go(o)
    return h.hexdigest()[:10]


DRAWS = {"white", "brown", "violet", "pink", "timmer", "kasdin"}


def ambient():
    """process-wide state: numpy's error handling and print options; the global generators"""
    h = lambda o: hashlib.sha1(repr(o).encode()).hexdigest()[:10]      # noqa: E731
    st = np.random.get_state()
    return [h((sorted(np.geterr().items()), sorted((k, str(v)) for k, v in np.get_printoptions().items()))),
            h((st[0], st[1].tobytes(), st[2:], random.getstate()))]


def flat(r):
    """a returned value as a list of columns of numbers"""
    if isinstance(r, (tuple, list)) and any(isinstance(x, (tuple, list, np.ndarray)) for x in r):
        out = []
        for x in r:
            out += flat(x)
        return out
    if isinstance(r, (tuple, list)) or (isinstance(r, np.ndarray) and r.ndim == 1):
        return [col(r)]
    if isinstance(r, np.ndarray) and r.ndim > 1:
        return [col(x) for x in r.reshape(r.shape[0], -1)]
    if isinstance(r, str):
        return [[[r]]]
    return [[rat(r)]]


def templates():
    """name, needs_container (answers must not depend on it), call(pool, v, c, r)"""
    T = []

    def add(name, f, anyc=False):
        T.append((name, anyc, f))
    for fn in STATS:
        for dt in ("phase", "freq"):
            add("%s/%s" % (fn, dt), lambda p, v, c, r, fn=fn, dt=dt:
                getattr(at, fn)(p.data[v, c], rate=RATE[r], data_type=dt, taus=p.reqs[r][(v + r) % 5]), True)
    add("adev/default", lambda p, v, c, r: at.adev(p.data[v, c]), True)
    add("oadev/default", lambda p, v, c, r: at.oadev(p.data[v, c]), True)
    add("adev/badtype", lambda p, v, c, r: at.adev(p.data[v, c], data_type="foo"), True)
    add("theo1/none", lambda p, v, c, r: at.theo1(p.data[v, c], rate=RATE[r], taus=[1e9]), True)
    for dt in ("phase", "freq"):
        add("gradev/" + dt, lambda p, v, c, r, dt=dt: at.gradev(np.asarray(p.data[v, c], dtype=float), rate=RATE[r], data_type=dt, taus=p.reqs[r][v],
            noisetype=("wp", "fp", "wf", "ff", "rf")[r]), True)
        add("gcodev/" + dt, lambda p, v, c, r, dt=dt: at.gcodev(p.data[v, c], p.data[(v + 1) % 4, c], rate=RATE[r], data_type=dt, taus=p.reqs[r][v]), True)
    for fn in ("oadev", "mdev"):
        add("hat/" + fn, lambda p, v, c, r, fn=fn: at.three_cornered_hat_phase(p.data[v, c], p.data[(v + 1) % 4, c], p.data[(v + 2) % 4, c],
            RATE[r], p.reqs[r][2], getattr(at, fn)), True)
    # other lengths, one request per r; values at the ends of the number range
    KW = (None, "all", "decade", "log10", "octave")
    add("tau_generator/kw", lambda p, v, c, r: at.tau_generator(p.data[v, c][:NPTS - 11 * v], RATE[(r + v) % 5], KW[r]), True)
    for fn in ("oadev", "adev", "mdev", "totdev", "mtotdev", "htotdev", "theo1", "mtie", "tierms", "pdev", "gradev"):
        add(fn + "/kw", lambda p, v, c, r, fn=fn: getattr(at, fn)(p.data[v, c][:NPTS - 11 * v], rate=RATE[(r + v) % 5], taus=KW[r]), True)
    for fn in ("oadev", "mdev", "totdev", "mtotdev", "htotdev", "theo1", "mtie", "gradev", "tierms"):
        add(fn + "/huge", lambda p, v, c, r, fn=fn: getattr(at, fn)([float(x) * (1e250, 1e-250, 1e308, 1e-320)[v] for x in p.data[v, 0]], rate=RATE[r], taus=[2.0 / RATE[r]]), True)
    add("psd2allan/huge", lambda p, v, c, r: at.psd2allan(p.psd[v] * (1e306, 1e-318, 1e300, np.inf)[v], 0.5, kind=("adev", "mdev")[r % 2]), True)
    add("adev2psd/huge", lambda p, v, c, r: at.adev2psd_piecewise_approx([x * (1e150, 1e-160, 1e200, 1e-200)[v] for x in p.pos[v]], p.tx), True)
    add("psd2adev/huge", lambda p, v, c, r: at.psd_piecewise_to_adev([1e300, 1e300, 1e300], p.al, p.fn, [10.0 ** (100 - 50 * v)]), True)
    add("noise_id/huge", lambda p, v, c, r: at.autocorr_noise_id([float(x) * (1e160, 1e-170, 1e250, 0.0)[v] for x in p.data[v, 0]], 1), True)
    add("confidence_interval/edge", lambda p, v, c, r: at.confidence_interval((1e300, 1e-300, 0.0, 1.0)[v], (1e-3, 1e6, 0.1, 3.0, 1e-8)[r], 0.9), True)
    add("mtie_phase_fast", lambda p, v, c, r: at.mtie_phase_fast(p.data[v, c], rate=RATE[r]), True)
    add("tau_generator", lambda p, v, c, r: at.tau_generator(p.data[v, c], RATE[r], p.reqs[r][v], even=bool(v % 2)), True)
    add("tau_reduction", lambda p, v, c, r: at.tau_reduction(p.ms[c % 2], RATE[r], (v + 1) * 4))
    add("frequency2phase", lambda p, v, c, r: at.frequency2phase(p.data[v, c], RATE[r]))
    add("phase2frequency", lambda p, v, c, r: at.phase2frequency(p.data[v, c], RATE[r]))
    add("phase2radians", lambda p, v, c, r: at.phase2radians(p.data[v, c], 10.0 ** r))
    add("frequency2fractional", lambda p, v, c, r: at.frequency2fractional(p.data[v, c], 5.0 + r))
    add("frequency2fractional/mean", lambda p, v, c, r: at.frequency2fractional([abs(x) + 1 for x in p.data[v, c]]))
    add("trim_data/nan", lambda p, v, c, r: at.trim_data((p.gap, p.gapl)[c % 2][v]))
    add("frequency2phase/nan", lambda p, v, c, r: at.frequency2phase((p.gap, p.gapl)[c % 2][v], RATE[r]))
    add("oadev/freqnan", lambda p, v, c, r: at.oadev((p.gap, p.gapl)[c % 2][v - v % 2], rate=RATE[r], data_type="freq", taus=p.reqs[r][v]), True)
    add("gradev/nan", lambda p, v, c, r: at.gradev((p.gap, p.gapl)[c % 2][v], rate=RATE[r], taus=p.reqs[r][v],
        noisetype=("wp", "fp", "wf", "ff", "rf")[r]), True)
    add("numpy_psd", lambda p, v, c, r: at.noise.numpy_psd(p.data[v, c], f_sample=RATE[r]))
    add("scipy_psd", lambda p, v, c, r: at.noise.scipy_psd(np.array(p.data[v, c], dtype=float), f_sample=RATE[r], nr_segments=4))
    add("trim_data", lambda p, v, c, r: at.trim_data(p.data[v, c]))
    add("Dataset", lambda p, v, c, r: ds(p, v, c, r), True)
    add("Dataset2", lambda p, v, c, r: ds(p, v, c, r, "set"), True)
    for dt in ("phase", "freq"):
        add("noise_id/" + dt, lambda p, v, c, r, dt=dt: at.autocorr_noise_id(np.asarray(p.data[v, c], dtype=float), 1, data_type=dt, dmin=r % 2, dmax=2 + v % 2))
    add("noise_id/short", lambda p, v, c, r: at.autocorr_noise_id(p.data[v, 1], 2))
    add("ci_noiseID", lambda p, v, c, r: at.confidence_interval_noiseID(p.data[v, 1], 1.5, 1, dev_type=("adev", "oadev", "mdev", "hdev", "ohdev")[r]))
    add("rn", lambda p, v, c, r: at.ci.rn(p.data[v, c], 1 + v, RATE[r]))
    add("b1", lambda p, v, c, r: at.ci.b1(p.data[v, c], 1 + v, RATE[r]))
    add("edf_greenhall", lambda p, v, c, r: at.edf_greenhall(alpha=2 - r, d=2 + v % 2, m=2 + c, N=60 + 30 * v, overlapping=v > 1, modified=v % 2 == 1))
    add("edf_greenhall/bad", lambda p, v, c, r: at.edf_greenhall(alpha=-4, d=1, m=2, N=60))
    add("edf_simple", lambda p, v, c, r: at.edf_simple(50 + v, 1 + c, 2 - r))
    add("edf_totdev", lambda p, v, c, r: at.edf_totdev(50 + v, 1 + c, -r % 3))
    add("edf_mtotdev", lambda p, v, c, r: at.edf_mtotdev(50 + v, 1 + c, 2 - r))
    add("confidence_interval", lambda p, v, c, r: at.confidence_interval(1.0 + v, 3.0 + c, (0.6826, 0.9, 0.5, 0.99, 0.95)[r]))
    add("psd2allan", lambda p, v, c, r: at.psd2allan(p.psd[v], (0.25, p.f)[c % 2], kind=("adev", "mdev")[r % 2], base=(2, 10, 1)[r % 3]))
    add("psd2allan/list", lambda p, v, c, r: at.psd2allan(p.pos[v], 1.0))
    add("adev2psd", lambda p, v, c, r: at.adev2psd_piecewise_approx((p.pos, p.posa)[c % 2][v], (p.tx, p.txa)[r % 2], vartype=("hdev", "adev")[r // 3]))
    add("psd2adev", lambda p, v, c, r: at.psd_piecewise_to_adev(*((p.h, p.al, p.fn) if c % 2 else p.ha), taus=(p.tx, p.txa)[r % 2]))
    for mk in ("prc_tdev", "prc_mtie", "eprtc_tdev", "prtcB_mtie"):
        add("mask/" + mk, lambda p, v, c, r, mk=mk: getattr(at.mask, mk)((0.5, 20, 150.0, 3000, 1e5)[r] + v))

    def seeded(f):
        def g(p, v, c, r):
            np.random.seed(100 * v + r)
            return f(p, v, c, r)
        return g
    add("white", seeded(lambda p, v, c, r: at.noise.white(5 + v, 1.0 + c, RATE[r])))
    add("brown", seeded(lambda p, v, c, r: at.noise.brown(5 + v, 1.0 + c, RATE[r])))
    add("violet", seeded(lambda p, v, c, r: at.noise.violet(5 + v, 1.0 + c, RATE[r])))
    add("pink", seeded(lambda p, v, c, r: at.noise.pink(8 + v, 3 + c)))
    add("timmer", lambda p, v, c, r: at.timmer_koenig_from_psd(p.ha[2], p.ha[0], p.ha[1], 20.0 + v, 1.0, output=("phase", "freq")[c % 2], seed=r))

    def kas(p, v, c, r):
        n = at.Noise(8 + v, 1.0 + c, -r)
        n.generateNoise()
        return [np.array(n.time_series), n.adev(1.0, 4.0), n.mdev(1.0, 4.0)]
    add("kasdin", seeded(kas))
    return T


def ds(p, v, c, r, how="ctor"):
    fn = ("adev", "oadev", "mdev", "hdev", "totdev")[r]
    if how == "ctor":
        d = at.Dataset(data=p.data[v, c], rate=RATE[r], data_type="phase", taus=p.reqs[r][v])
    else:
        d = at.Dataset()
        d.set_input(p.data[v, c], rate=RATE[r], data_type="freq", taus=p.reqs[r][v])
    return d.compute(fn) and [d.out["taus"], d.out["stat"], d.out["stat_err"], d.out["stat_n"]] or \
        [d.out["taus"], d.out["stat"], d.out["stat_err"], d.out["stat_n"]]


TPL = templates()


def together(fs, reps):
    """each function called reps times in its own thread, all at the same time; the answers of each"""
    outs = [[] for _ in fs]
    gate = threading.Barrier(len(fs))

    def work(i):
        for _ in range(reps):
            try:
                gate.wait(30)
            except threading.BrokenBarrierError:
                return
            try:
                outs[i].append((True, fs[i]()))
            except BaseException as e:          # noqa
                outs[i].append((False, type(e).__name__))
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ts = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(len(fs))]
            for t in ts:
                t.start()
            for t in ts:
                t.join(120)
            if any(t.is_alive() for t in ts):
                return [[] for _ in fs]         # starved: no answer to judge
    finally:
        sys.setswitchinterval(old)
    return outs


LIB = os.path.dirname(os.path.abspath(at.__file__)) + os.sep


def preempted(fa, fb, rng, cap, fine=False):
    """fa, stopped at up to cap points of its execution (a random passage of every line of the library, every one
    before others), while fb runs to its end in another thread; the answers of both"""
    def trace(visit):
        def local(frame, event, arg):
            if event == ("opcode" if fine else "line"):
                visit((frame.f_code.co_filename, frame.f_lineno, frame.f_lasti if fine else 0))
            return local

        def enter(frame, event, arg):
            if not frame.f_code.co_filename.startswith(LIB):
                return None
            frame.f_trace_opcodes = fine
            return local
        return enter

    def run(f, tr):
        old = sys.gettrace()
        sys.settrace(tr)
        try:
            return True, f()
        except Exception as e:
            return False, type(e).__name__
        finally:
            sys.settrace(old)

    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        places, count = {}, [0]

        def note(where):
            count[0] += 1
            q = places.setdefault(where, [])
            if len(q) < 50:
                q.append(count[0])
            elif rng.random() < 50 / count[0]:
                q[rng.randrange(50)] = count[0]
        run(fa, trace(note))
        points = [rng.choice(q) for q in places.values()]
        points = set(rng.sample(points, min(cap, len(points))))
        outs, count[0] = [[], []], 0

        def stop(where):
            count[0] += 1
            if count[0] in points:
                def other():
                    try:
                        outs[1].append((True, fb()))
                    except BaseException as e:      # noqa
                        outs[1].append((False, type(e).__name__))
                t = threading.Thread(target=other, daemon=True)
                t.start()
                t.join(120)
        outs[0].append(run(fa, trace(stop)))
    return outs


def distinct(outs):
    seen, res = set(), []
    for o in outs:
        e = encode(*o)
        k = json.dumps(e, sort_keys=True)
        if k not in seen:
            seen.add(k)
            res.append(e)
    return res


def encode(ok, r):
    if not ok:
        return {"ok": False, "exc": r}
    try:
        return {"ok": True, "cols": flat(r)}
    except Exception as e:      # noqa
        return {"ok": False, "exc": "malformed"}


def fresh(jobs, workers=7):
    """jobs: {key: (seed, f, v, c, r)} -> {key: encoded answer}, each computed in its own forked process"""
    res, live, todo = {}, {}, list(jobs.items())
    while todo or live:
        while todo and len(live) < workers:
            key, (seed, vers, f, v, c, r) = todo.pop()
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(rd)
                try:
                    out = encode(*guarded(lambda: TPL[f][2](Pool(seed, vers), v, c, r)))
                    with os.fdopen(wr, "w") as w:
                        json.dump(out, w)
                finally:
                    os._exit(0)
            os.close(wr)
            live[rd] = (pid, key, [])
        ready = select.select(list(live), [], [], 120)[0]
        for rd in ready:
            b = os.read(rd, 1 << 16)
            if b:
                live[rd][2].append(b)
                continue
            pid, key, buf = live.pop(rd)
            os.close(rd)
            os.waitpid(pid, 0)
            s = b"".join(buf)
            res[key] = json.loads(s) if s else {"ok": False, "exc": "died"}
    return res


def c08(rng, tier):
    with open(os.environ["ALLAN_GEN"]) as f:
        hists = json.load(f)["calls"]
    plans, jobs = [], {}
    # every function: four value sets, two requests, then again in other containers
    for f in range(1, len(TPL) + 1):
        c0, r0, r1 = rng.randint(1, 8), rng.randint(1, 5), rng.randint(1, 5)
        A = lambda v, c, r: {"act": "call", "f": f, "v": v, "c": (c - 1) % 8 + 1, "r": r}      # noqa: E731
        hists.append([A(v, c0, r0) for v in (1, 2, 3, 4)] + [A(v, c0 + 1, r1) for v in (2, 1)] + [{"act": "mut", "v": 1}]
                     + [A(v, c0 + 2, r0) for v in (4, 3, 2, 1)] + [A(1, c0, r0), {"act": "scr", "v": 1}, A(1, c0, r0), {"act": "mut", "v": 2}, A(2, c0, r0)])
    # the caller writes into every result it is given, then asks for the same again
    for f in range(1, len(TPL) + 1):
        h = []
        for v in (1, 2, 3, 4):
            c, r = rng.randint(1, 8), rng.randint(1, 5)
            one = {"act": "call", "f": f, "v": v, "c": c, "r": r}
            h += [one, {"act": "scr", "v": v}, dict(one, c=(c + 1) % 8 + 1)] if v % 2 else [one, dict(one), {"act": "scr", "v": v}, one]
        hists.append(h)
    # calls at the same time: every function with itself on other values and requests, and with another function
    quietT = [f for f in range(1, len(TPL) + 1) if TPL[f - 1][0] not in DRAWS]
    for i in range(0, len(quietT), 4):
        h = []
        for f in quietT[i:i + 4]:
            c, r = rng.randint(1, 8), rng.randint(1, 5)
            h.append({"act": "par", "calls": [{"act": "call", "f": f, "v": v, "c": c, "r": q}
                                              for v, q in ((rng.randint(1, 2), r), (rng.randint(3, 4), rng.choice([r, rng.randint(1, 5)])))]})
            h.append({"act": "call", "f": f, "v": rng.randint(1, 4), "c": c, "r": r})
        hists.append(h)
    seeds = ["pool/%d" % rng.randint(0, 10 ** 9) for _ in range(4 if tier == "quick" else 20)]
    for h in hists:
        seed = rng.choice(seeds)
        plan, vers = [], [0, 0, 0, 0]
        for s in h:
            if s["act"] == "par":
                cs = []
                for q in s["calls"]:
                    f, v, c, r = (q["f"] - 1) % len(TPL), q["v"] - 1, q["c"] - 1, q["r"] - 1
                    if TPL[f][0] in DRAWS:
                        continue
                    key = "%s|%s|%s|%d|%s|%d" % (seed, vers, TPL[f][0], v, "-" if TPL[f][1] else c, r)
                    jobs.setdefault(key, (seed, tuple(vers), f, v, c, r))
                    cs.append((key, f, v, c, r))
                if cs:
                    plan.append(("par", cs))
                continue
            if s["act"] != "call":
                plan.append((s["act"], s["v"] - 1))
                vers[s["v"] - 1] += s["act"] == "mut"
                continue
            f, v, c, r = (s["f"] - 1) % len(TPL), s["v"] - 1, s["c"] - 1, s["r"] - 1
            name, anyc, _ = TPL[f]
            key = "%s|%s|%s|%d|%s|%d" % (seed, vers, name, v, "-" if anyc else c, r)
            jobs.setdefault(key, (seed, tuple(vers), f, v, c, r))
            plan.append(("call", key, f, v, c, r))
        plans.append((seed, plan))
    ref = fresh(jobs)
    ev = []
    for n, (seed, plan) in enumerate(plans):
        p = Pool(seed)
        e = {"op": "purity", "fn": "history", "heap": p.digests(), "amb": ambient(), "fun": {}, "steps": []}
        kept, short = [], {}
        for q in plan:
            if q[0] == "par":
                keys = []
                for key, f, v, c, r in q[1]:
                    keys.append(short.setdefault(key, "k%d" % len(short)))
                    e["fun"][keys[-1]] = ref[key]
                fs = [lambda f=f, v=v, c=c, r=r: TPL[f][2](p, v, c, r) for _, f, v, c, r in q[1]]
                outs = together(fs, 8 if tier == "quick" else 40)
                for i in range(len(fs)):
                    o = preempted(fs[i], fs[1 - i] if len(fs) == 2 else fs[i], rng, 30 if tier == "quick" else 150, tier != "quick" and rng.random() < 0.5)
                    outs[i] += o[0]
                    outs[1 - i if len(fs) == 2 else i] += o[1]
                amb = ambient()
                e["steps"].append({"act": "par", "keys": keys, "outs": [distinct(o) for o in outs], "heap": p.digests(), "amb": amb,
                                   "res": [dig(x) for x in kept], "what": " with ".join("%s v%d c%d r%d" % (TPL[f][0], v, c, r) for _, f, v, c, r in q[1])})
                continue
            if q[0] != "call":
                if q[0] == "mut":
                    p.rewrite(q[1])
                elif kept:
                    scribble(kept[-1], p)
                e["steps"].append({"act": "write", "heap": p.digests(), "res": [dig(x) for x in kept]})
                continue
            _, key, f, v, c, r = q
            k = short.setdefault(key, "k%d" % len(short))
            e["fun"][k] = ref[key]
            ok, res = guarded(lambda: TPL[f][2](p, v, c, r))
            amb = ambient()
            out = encode(ok, res)
            kept.append(res)
            e["steps"].append({"act": "call", "key": k, "what": "%s v%d c%d r%d" % (TPL[f][0], v, c, r), "heap": p.digests(), "amb": amb, "draws": TPL[f][0] in DRAWS,
                               "res": [dig(x) for x in kept], "out": out})
        ev.append(e)
    return {"TracePurity": ev}
