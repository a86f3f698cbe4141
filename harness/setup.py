"""Compile the overrides and compare them with the plain TLA+ definitions (MC_Rat)."""
import concurrent.futures as cf, re, sys
import tlc


def table(out):
    m = re.search(r'<<\s*"OUT".*?(?=\nFinished|\nComputing|\nStarting|\nModel)', out, re.S)
    return m.group(0) if m else None


if __name__ == "__main__":
    tlc.build()
    n = 0
    with cf.ThreadPoolExecutor(4) as ex:
        for mod, base in (("MC_Rat", False), ("MC_Elem", "rat")):
            a = ex.submit(tlc.run, mod, overrides=base)
            b = ex.submit(tlc.run, mod, overrides=True)
            (ra, oa), (rb, ob) = a.result(), b.result()
            ta, tb = table(oa), table(ob)
            if ra or rb or not ta or ta != tb:
                print("arithmetic overrides disagree with %s" % mod, ra, rb, oa[-2000:], ob[-2000:])
                sys.exit(2)
            n += len(ta)
    print("setup ok: %d characters of arithmetic results agree" % n)
