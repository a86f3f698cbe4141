"""Recording calls of the library (runs under the library's own interpreter)."""
import contextlib, io, os, signal, sys, warnings
from fractions import Fraction
import numpy as np
from enc import rat, rats, series

warnings.simplefilter("ignore")
np.seterr(all="ignore")
sys.path.insert(0, os.environ.get("ALLAN_REPO", "/repo"))
import allantools as at          # noqa: E402


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


signal.signal(signal.SIGALRM, _alarm)


def guarded(f, limit=60):
    """call f() quietly; returns (True, value) or (False, exception-class name)"""
    signal.alarm(limit)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return True, f()
    except Hang:
        return False, "Hang"
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:           # noqa
        return False, type(e).__name__
    finally:
        signal.alarm(0)


def col(v):
    """a returned column as a list of encoded numbers"""
    try:
        return rats(list(v))
    except Exception:
        return [["notseq"]]


def out4(r):
    ok, v = r
    if not ok:
        return {"ok": False, "exc": v}
    try:
        if len(v) != 4:
            return {"ok": False, "exc": "not4"}
    except Exception:
        return {"ok": False, "exc": "not4"}
    return {"ok": True, "tau": col(v[0]), "dev": col(v[1]), "err": col(v[2]), "ns": col(v[3])}


def req(taus):
    """encode a tau request"""
    if taus is None or (isinstance(taus, list) and taus == []):
        return {"kw": "octave"}
    if isinstance(taus, str):
        return {"kw": taus}
    return {"kw": "list", "list": rats(list(taus))}


COUNT = [0]


def stat_event(fn, data, rate, dt, taus, note="", kwargs=None):
    """call at.<fn>; data is what is passed (list, tuple or array of numbers)"""
    kw = dict(kwargs or {})
    if not kw.pop("_omit_rate", False):
        kw["rate"] = rate
    if not kw.pop("_omit_dt", False):
        kw["data_type"] = dt
    if not kw.pop("_omit_taus", False):
        kw["taus"] = taus
    vals = [int(v) if isinstance(v, (int, np.integer)) else float(v) for v in list(data)]      # exact: no generator exceeds doubles
    e = {"op": "stat", "fn": fn, "dt": dt, "rate": rat(rate), "ser": series(vals), "req": req(taus), "note": note}
    args = (data,)
    COUNT[0] += 1
    if COUNT[0] % 3 == 0:           # every third call passes its arguments by position
        for k in ("rate", "data_type", "taus"):
            if k not in kw:
                break
            args += (kw.pop(k),)
    elif COUNT[0] % 3 == 1:         # and every third all by keyword
        args, kw = (), dict(kw, data=data)
    e["out"] = out4(guarded(lambda: getattr(at, fn)(*args, **kw)))
    return e
