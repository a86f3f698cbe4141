"""check.py <property id>   (VERIF_TIER quick|thorough, VERIF_SEED)

1. model checks the design modules of the property with TLC,
2. runs the property's driver against the library in /repo (or $ALLAN_REPO), recording every call,
3. validates the recorded behaviour against the TLA+ specification with TLC,
4. writes evidence/<id>.json.  Exit 0 / 1 (VIOLATION line) ; 2 = the machinery itself failed."""
import concurrent.futures as cf, copy, json, os, random, subprocess, sys, tempfile, time, shutil
import tlc
from tlc import VERIF, MachineryError
from checks import CHECKS

PY = "/opt/venv/bin/python"


def drive(cid, seed, tier, timeout, gens=()):
    fd, path = tempfile.mkstemp(suffix=".json")
    os.close(fd)
    gpath = path + ".gen"
    with open(gpath, "w") as f:
        json.dump({name: tlc.generate(mod, env, args) for name, mod, env, args in gens}, f)
    env = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1",
               OMP_NUM_THREADS="1", PYTHONHASHSEED="0", ALLAN_GEN=gpath)
    env.setdefault("MPLCONFIGDIR", tempfile.mkdtemp(prefix="mpl."))
    try:
        p = subprocess.run([PY, os.path.join(VERIF, "harness", "drive.py"), cid, str(seed), tier, path],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        if p.returncode:
            return None, p.stdout[-4000:]
        with open(path) as f:
            return json.load(f), ""
    finally:
        os.unlink(path)
        os.unlink(gpath)
        shutil.rmtree(env["MPLCONFIGDIR"], ignore_errors=True) if env["MPLCONFIGDIR"].startswith("/tmp/mpl.") else None


def leaves(o, path=()):
    """paths of the numeric leaves (rationals and ints) of a recorded output"""
    if isinstance(o, list) and len(o) == 2 and all(isinstance(x, list) and x and all(isinstance(v, int) for v in x) for x in o) \
            and o[1][0] == 1 and len(o[1]) > 1:
        yield path
    elif isinstance(o, list):
        for i, v in enumerate(o):
            yield from leaves(v, path + (i,))
    elif isinstance(o, dict):
        for k, v in o.items():
            yield from leaves(v, path + (k,))


def dec(r):
    from fractions import Fraction
    def big(l):
        n = 0
        for d in reversed(l[1:]):
            n = n * 10000 + d
        return n * l[0]
    return Fraction(big(r[0]), big(r[1]))


def corrupt(events, rng, n):
    """copies of events with one recorded output number changed by a relative 1e-4 (0 becomes 1)"""
    from enc import rat
    from fractions import Fraction
    out = []
    cand = [e for e in events if len(json.dumps(e)) < 60000]
    rng.shuffle(cand)
    for e in cand:
        if "steps" in e:
            ls = [("steps", k, "out") + q for k in range(len(e["steps"])) for q in leaves(e["steps"][k].get("out"))]
        else:
            ls = [("out",) + q for q in leaves(e.get("out"))]
        if not ls:
            continue
        c = copy.deepcopy(e)
        p = rng.choice(ls)
        o = c
        for k in p[:-1]:
            o = o[k]
        v = dec(o[p[-1]])
        o[p[-1]] = rat(v * Fraction(10001, 10000) if v else Fraction(1))
        c["probe"] = True
        out.append(c)
        if len(out) == n:
            break
    return out


def strip(e):
    """the event without what the library answered"""
    r = {k: v for k, v in e.items() if k not in ("out", "note")}
    if "steps" in r:
        r["steps"] = [{k: v for k, v in s.items() if k != "out"} for s in r["steps"]]
    return r


def human(o):
    """decode rationals for the replay file"""
    if isinstance(o, list) and len(o) == 2 and all(isinstance(x, list) and x and all(isinstance(v, int) for v in x) for x in o) \
            and o[1][0] == 1 and len(o[1]) > 1 and all(0 <= v < 10000 for v in o[0][1:] + o[1][1:]) and o[0][0] in (-1, 0, 1):
        try:
            return float(dec(o))
        except OverflowError:
            return str(dec(o))
    if isinstance(o, list):
        return [human(v) for v in o]
    if isinstance(o, dict):
        return {k: human(v) for k, v in o.items()}
    return o


def short(o, n=1500):
    s = json.dumps(human(o))
    return s if len(s) <= n else s[:n] + "..."


def known(cid):
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            k = json.load(f)
    except FileNotFoundError:
        return []
    return [x for x in k.get("findings", []) if x["property"] == cid]


def run_mc(spec, timeout):
    mod, env, opts = spec
    rc, out = tlc.run(mod, cfg=opts.get("cfg"), env=env, workers=opts.get("workers", 3), timeout=timeout,
                      args=opts.get("args", ()), heap="3g")
    st = tlc.stats(out)
    if rc != 0:
        if "is violated" in out or "Assumption" in out:
            return mod, env, "fail", st, out[-3000:]
        raise MachineryError("TLC on %s %s: rc=%d\n%s" % (mod, env, rc, out[-4000:]))
    return mod, env, "ok", st, ""


def main(cid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cap = 780 if tier == "quick" else 7000
    C = CHECKS[cid]
    tlc.build()
    rng = random.Random("probe/%s/%d" % (cid, seed))
    with cf.ThreadPoolExecutor(4) as ex:
        mcs = [ex.submit(run_mc, m, cap) for m in C["mc"](tier)]
        rec, msg = drive(cid, seed, tier, cap, C["gen"](tier, seed) if "gen" in C else ())
        if rec is None:
            raise MachineryError("driver failed:\n" + msg)
        groups = rec if isinstance(rec, dict) else {"TraceLib": rec}
        nsteps = nev = npr = prej = tst = ttr = ntr = 0
        viol, samples = [], []
        per = {}
        for module, events in groups.items():
            probes = corrupt(events, rng, 12 if tier == "quick" else 40)
            bad, st, tr = tlc.validate(events + probes, module, weight=lambda e: len(json.dumps(e)) ** 0.9 + 200 + e.get("w", 0),
                                       timeout=max(60, cap - (time.time() - t0)), patience=240 if tier == "quick" else 1800, real=len(events))
            tst, ttr, nev, npr = tst + st, ttr + tr, nev + len(events), npr + len(probes)
            for i, cl in bad:
                if i >= len(events):
                    prej += 1
                else:
                    viol.append((module, i, events[i], cl))
            for e in events:
                key = "/".join(str(e.get(k)) for k in ("op", "fn") if e.get(k))
                per[key] = per.get(key, 0) + 1
                nsteps += len(e.get("steps", (1,)))
            for i in sorted(set([0, len(events) // 3, 2 * len(events) // 3])):
                if i < len(events):
                    samples.append(short(events[i], 900))
        mcr = [m.result() for m in mcs]
    ms = sum(r[3][1] for r in mcr)
    mt = sum(max(r[3][0] - 1, 0) for r in mcr)
    kn = known(cid)
    fresh, seen = [], {}
    for v in viol:
        for k in kn:
            if k["key"] == v[2].get("key") and set(v[3]) <= set(k["clauses"]):
                seen[k["key"]] = k
                break
        else:
            fresh.append(v)
    mcfail = [r for r in mcr if r[2] != "ok"]
    for k in seen.values():
        print("KNOWN-FINDING: property=%s %s" % (cid, k["what"]))
    EVD = os.environ.get("EVIDENCE_DIR", os.path.join(VERIF, "evidence"))
    os.makedirs(EVD, exist_ok=True)
    n_distinct = len({json.dumps(strip(e), sort_keys=True)
                      for g in groups.values() for e in g})
    ev = {"property": cid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {
              "states": ms + tst, "transitions": mt + ttr,
              "traces_validated_against_impl": nev,
              "model_states": ms, "trace_states": tst, "distinct_traces": n_distinct,
              "traces_by_operation": per, "trace_steps": nsteps,
              "model_runs": ["%s %s: %d distinct states" % (r[0], r[1], r[3][1]) for r in mcr],
              "corrupted_traces": npr, "corrupted_traces_rejected": prej,
              "samples": samples[:6]},
          "assumptions": C.get("assumptions", []) + [
              "Rat.tla's Java overrides compute what the TLA+ definitions define (compared by setup.sh)",
              "inputs outside the generated families are not observed"],
          "wall_s": round(time.time() - t0, 2), "violations": len(fresh) + len(mcfail)}
    with open(os.path.join(EVD, cid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if fresh or mcfail:
        rp = os.path.join(EVD, cid + ".replay.json")
        with open(rp, "w") as f:
            json.dump({"property": cid, "seed": seed, "tier": tier,
                       "model": [{"module": r[0], "env": r[1], "output": r[4]} for r in mcfail],
                       "violations": [{"module": m, "clauses": c, "event": human(e), "raw": e} for m, i, e, c in fresh[:20]]},
                      f, indent=1)
        for m, i, e, c in fresh[:5]:
            print("broken clauses %s in %s %s: %s" % (sorted(set(c)), m, e.get("note", ""), short(e, 600)))
        for r in mcfail:
            print("model property fails: %s %s\n%s" % (r[0], r[1], r[4][-800:]))
        print("VIOLATION property=%s replay=%s" % (cid, rp))
        return 1
    print("%s ok: %d recorded calls/histories (%d distinct), %d model states, %d/%d corrupted traces rejected, %.1f s"
          % (cid, nev, n_distinct, ms, prej, npr, time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1]))
    except (MachineryError, subprocess.TimeoutExpired) as e:
        print("ERROR: %s" % e)
        sys.exit(2)
