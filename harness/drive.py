"""drive.py <check id> <seed> <tier> <out.json>: run the driver of one check against the library"""
import importlib, json, random, sys
import drivers

if __name__ == "__main__":
    cid, seed, tier, out = sys.argv[1:5]
    rng = random.Random("%s/%s" % (cid, seed))
    ev = drivers.DRIVERS[cid](rng, tier)
    with open(out, "w") as f:
        json.dump(ev, f)
