"""Running TLC."""
import json, os, re, shutil, subprocess, tempfile, time, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    pass


def build():
    """compile the arithmetic overrides (cached in build/)"""
    src = [os.path.join(VERIF, "java", f) for f in ("RatOverrides.java", "ElemOverrides.java")]
    cls = [os.path.join(BUILD, os.path.basename(f).replace(".java", ".class")) for f in src]
    if all(os.path.exists(c) and os.path.getmtime(c) >= max(map(os.path.getmtime, src)) for c in cls):
        return
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=BUILD)
    p = subprocess.run(["javac", "-nowarn", "-cp", JARS, "-d", tmp] + src, capture_output=True, text=True)
    if p.returncode:
        raise MachineryError("javac failed: " + p.stdout + p.stderr)
    for f in sorted(os.listdir(tmp), key=lambda f: f in map(os.path.basename, cls)):
        os.replace(os.path.join(tmp, f), os.path.join(BUILD, f))
    os.rmdir(tmp)


def run(module, cfg=None, env=None, workers=1, timeout=800, args=(), overrides=True, heap="3g", cwd=SPEC, jvm=(), halt=None):
    """run TLC, return (returncode, output); halt(output so far, seconds) may end it early (returncode None)"""
    meta = tempfile.mkdtemp(prefix="tlcmeta.")
    cp = JARS + ((":" + BUILD) if overrides else "")
    cmd = ["java", "-Xmx" + heap, "-Xss256m", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC",
           "-XX:TieredStopAtLevel=4"]
    if overrides:
        cmd.append("-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:RatOverrides" + ("" if overrides == "rat" else ":ElemOverrides"))
    cmd += list(jvm)
    cmd += ["-cp", cp, "tlc2.TLC", "-nowarning", "-metadir", meta, "-noGenerateSpecTE",
            "-workers", str(workers), "-config", (cfg or module + ".cfg")]
    cmd += list(args) + [module + ".tla"]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    log = os.path.join(meta, "out")
    t0 = time.time()
    try:
        with open(log, "w") as f:
            p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=f, stderr=subprocess.STDOUT)
        try:
            while True:
                try:
                    p.wait(5 if halt else timeout)
                    return p.returncode, open(log, errors="replace").read()
                except subprocess.TimeoutExpired:
                    if halt and halt(open(log, errors="replace").read(), time.time() - t0):
                        return None, open(log, errors="replace").read()
                    if time.time() - t0 >= timeout:
                        raise MachineryError("TLC timeout on %s" % module)
        finally:
            if p.poll() is None:
                p.kill()
                p.wait()
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def stats(out):
    """(states generated, distinct) of a TLC run"""
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        m2 = re.findall(r"number of states generated: ([\d,]+)", out)
        if m2:
            return int(m2[-1].replace(",", "")), int(m2[-1].replace(",", ""))
        return 0, 0
    return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))


def _split_sets(txt):
    return re.findall(r'"((?:[^"\\]|\\.)*)"', txt)


def validate(events, module="TraceLib", shards=8, weight=lambda e: 1, timeout=800, heap="2500m", patience=240, real=None):
    """check events (list of dicts) against the trace module.
    Returns (list of (index, [clauses]), states, transitions).
    Once an event below index real is rejected, the rest is judged for at most patience seconds."""
    if not events:
        return [], 0, 0
    shards = max(1, min(shards, len(events)))
    loads = [[0, []] for _ in range(shards)]
    for i in sorted(range(len(events)), key=lambda i: -weight(events[i])):
        b = min(loads, key=lambda s: s[0])
        b[0] += weight(events[i])
        b[1].append(i)
    tmp = tempfile.mkdtemp(prefix="traces.")
    bad, st, tr, found = [], 0, 0, []
    try:
        def one(s):
            idx = loads[s][1]
            path = os.path.join(tmp, "t%d.json" % s)
            with open(path, "w") as f:
                json.dump([events[i] for i in idx], f)
            def bads(out):
                return [(idx[int(m.group(1)) - 1], _split_sets(m.group(2)))
                        for m in re.finditer(r'<< ?"BAD",\s*(\d+),\s*(\{.*?\})\s*>>', out, re.S)]

            def halt(out, secs):
                if any(i < (len(events) if real is None else real) for i, _ in bads(out)):
                    found.append(1)
                return bool(found) and secs > patience
            rc, out = run(module, env={"TRACE": path}, timeout=timeout, heap=heap, halt=halt)
            if rc is None:
                return bads(out), (1, 1)
            d = re.search(r'<<"DONE", (\d+), (\d+)>>', out)
            if rc != 0 or not d or int(d.group(1)) != len(idx) or int(d.group(2)) != len(idx):
                raise MachineryError("TLC on %s shard %d rc=%d:\n%s" % (module, s, rc, out[max(0, out.find("Error:")):][:3000] if "Error:" in out else out[-3000:]))
            return bads(out), stats(out)
        with cf.ThreadPoolExecutor(shards) as ex:
            for b, (g, dst) in ex.map(one, range(shards)):
                bad += b
                st += dst
                tr += g - 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return sorted(bad), st, tr


def generate(module, env, args, timeout=300):
    """behaviours printed by a generator module as <<"GEN", json>> lines"""
    rc, out = run(module, env=env, args=args, timeout=timeout)
    if rc != 0:
        raise MachineryError("generator %s rc=%d:\n%s" % (module, rc, out[-3000:]))
    res = []
    for line in out.splitlines():
        if line.startswith('<<"GEN", "'):
            res.append(json.loads(json.loads(line[len('<<"GEN", '):-2])))
    if not res:
        raise MachineryError("generator %s printed no behaviour:\n%s" % (module, out[-3000:]))
    return res
