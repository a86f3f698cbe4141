import random
from calls import *
import gen

# relative cost of one term, and practical size for "every tau" runs
BIG = {"pdev", "mtie", "adev", "oadev", "hdev", "ohdev", "mdev", "tdev", "totdev", "tierms"}


def cost(fn, n, m):
    """rational operations the definition needs at averaging factor m"""
    if fn == "pdev":
        return max(30 * n, (n - 2 * m) * m // 5)        # the library itself is slow here
    if fn == "mtie":
        return 3 * n * (m.bit_length() + 2)
    if fn in ("mtotdev", "ttotdev", "htotdev"):
        return max(n - 3 * m, 1) * m * 80
    if fn == "theo1":
        return (n - m) * m * 4
    return 12 * n


def pick(fn, rng, n, k, cap=500000):
    """averaging factors incl. the extreme ones, of affordable cost"""
    top = n // 3 if fn in ("mtotdev", "ttotdev", "htotdev") else n - 2
    cand = {1, 2, 3, n // 3 - 1, n // 3, n // 4, n // 2, n // 2 - 1, n - 2, 16, 17, 32, 33, 64, 128, 129}
    for hi in (12, 60, n // 4, n // 2):
        cand |= {rng.randint(4, max(5, hi)) for _ in range(2)}
    if fn == "theo1":
        cand |= {c - c % 2 for c in cand}
    cand = sorted(c for c in cand if 0 < c <= top and cost(fn, n, c) <= cap)
    return sorted(set(rng.sample(cand, min(k, len(cand))) + ([cand[-1]] if rng.random() < 0.5 and cand else [])))


def weight(fn, n, ms):
    return sum(cost(fn, n, m) for m in ms) // 30


def run(fns, rng, tier, allmax=None, exh=(3, 4, 5), nrand=60, mids=(120, 300, 900), bigs=(2500, 6000), huge=(), reps=1):
    allmax = allmax or {}
    thorough = tier == "thorough"
    ev = []
    # 1. every series over a small alphabet, every averaging factor
    for n in exh:
        for i, xs in enumerate(gen.exhaustive((-1, 0, 2), n)):
            for fn in fns:
                for dt in ("phase", "freq"):
                    if n >= 5 and (i + len(fn)) % (2 if thorough else 6):
                        continue
                    ev.append(stat_event(fn, [float(v) for v in xs] if i % 2 else np.array(xs), 1.0, dt, "all", "exhaustive"))
    # 2. random series, all shapes of the arguments
    for fn in fns:
        cap = allmax.get(fn, 60)
        for j in range(nrand * (4 if thorough else 1)):
            n = rng.randint(3, cap) if j % 5 else rng.randint(2, 8)
            rate = rng.choice(gen.RATES)
            dt = rng.choice(["phase", "phase", "freq"])
            v = gen.contain(rng, gen.values(rng, n))
            t = gen.taus(rng, n, rate)
            kw = {}
            if j % 9 == 0:
                rate, dt, t = 1.0, "phase", None
                kw = {"_omit_rate": True, "_omit_dt": True, "_omit_taus": True}
            ev.append(stat_event(fn, v, rate, dt, t, "random", kw))
    # 2b. number types in which differences, sums or squares do not fit
    for fn in fns:
        for j in range((12 if len(fns) < 5 else 6) * (4 if thorough else 1)):
            n = rng.randint(3, min(40, allmax.get(fn, 40)))
            rate = rng.choice(gen.RATES)
            ev.append(stat_event(fn, gen.wide(rng, n), rate, rng.choice(["phase", "phase", "freq"]), gen.taus(rng, n, rate), "wide"))
    # 3. longer series, few averaging factors incl. the extreme ones
    turn = rng.randrange(len(fns))
    for q, fn in enumerate(fns):
        sizes = [s for s in mids] * reps + ([s for s in bigs] if fn in BIG else []) + ([s for s in huge] if fn in BIG else [])
        if fn == "pdev" or not thorough and (q + turn) % len(fns):           # the longest ones for one statistic per run
            sizes = [s for s in sizes if s < 100000]
        for n0 in sizes * (3 if thorough else 1):
            n = n0 + rng.randint(0, 40 if n0 < 10000 else 2000)
            rate = rng.choice(gen.RATES)
            dt = rng.choice(["phase", "freq"])
            v = gen.contain(rng, gen.values(rng, n, 0.15) if n < 10000 else gen.ints(rng, n, rng.choice(["walk", "white", "jump"])))
            ms = pick(fn, rng, n, 6 if n < 2000 else 3, 3000000 if n > 10000 else 500000 if not thorough else 3000000)
            t = [m / float(rate) for m in ms]
            e = stat_event(fn, v, rate, dt, t, "long")
            e["w"] = weight(fn, n, ms)
            ev.append(e)
    # 3b. the plane of averaging factor and length: every power-of-two band of m, several bands of N/m
    for fn in fns:
        first = 3 if fn in ("mtotdev", "ttotdev", "htotdev") else 2 if fn in ("pdev", "mdev", "tdev", "totdev") else 1
        for b in range(0, 13 if fn in BIG else 10):
            for lo, hi in ((1.02, 1.9), (2.02, 2.9), (3.02, 3.9), (4.1, 6), (6.1, 9), (9, 20), (20, 60), (0, 0), (0, 0)):
                m = rng.randint(2 ** b, 2 ** (b + 1) - 1)
                if fn == "theo1":
                    m += m % 2
                n = int(m * rng.uniform(lo, hi)) + rng.choice([0, 1, 2])
                if not lo:                          # lengths that are multiples of the factor, or next to one; round factors
                    if rng.random() < 0.4:
                        m = min([2 ** b] + [10 ** j for j in range(5) if 2 ** b <= 10 ** j < 2 ** (b + 1)], key=lambda v: -v)
                    m += m % 2 if fn == "theo1" else 0
                    lo = rng.randint(first + 1, first + 5)
                    n = lo * m + rng.choice([0, 0, 0, 1, -1])
                if lo < first or n < 5 or n > (60000 if fn in BIG else 20000) or cost(fn, n, m) > (8000000 if thorough else 1500000):
                    continue
                rate = rng.choice(gen.RATES)
                v = gen.contain(rng, gen.values(rng, n, 0.2) if n < 4000 else gen.ints(rng, n, rng.choice(["walk", "white", "jump"])))
                e = stat_event(fn, v, rate, rng.choice(["phase", "phase", "freq"]), [m / float(rate)], "plane")
                e["w"] = weight(fn, n, [m])
                ev.append(e)
    # 4. very long series at the smallest factors for the statistics with quadratic cost
    for fn in fns:
        if fn in BIG:
            continue
        for _ in range(2 if thorough else 1):
            n = rng.randint(20500, 30000) if fn in ("pdev", "mtie", "theo1") else rng.randint(5000, 8000) * (2 if thorough else 1)
            rate = rng.choice(gen.RATES)
            ms = [2, 4] if fn == "theo1" else sorted(rng.sample([1, 2, 3, 4], 2)) if fn != "pdev" else [2, rng.choice([1, 3, 4, 5])]
            e = stat_event(fn, gen.contain(rng, gen.ints(rng, n, rng.choice(["walk", "white", "jump"])), rng.choice(["farray", "iarray"])), rate,
                           rng.choice(["phase", "freq"]), [m / float(rate) for m in ms], "very long")
            e["w"] = weight(fn, n, ms)
            ev.append(e)
    return ev
