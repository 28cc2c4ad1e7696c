from vlib import *


def key(s, ev):
    k = s["id"].split("-")[0]
    if not ev:
        return k
    k += " " + ev["e"]
    if ev["e"] in ("page", "panic"):
        k += " %s%s%s" % (ev["cls"], " negative" if ev["size"] < 0 else "", " masked" if ev["mask"] != "m" else "")
        if s["ev"] and s.get("cfg", {}).get("intercept"):
            k += " intercepted"
    return k


def run():
    c = Check("C15")
    b = c.build("pagesd")
    c.modelcheck("PagingMC", "PagingMC.cfg" if c.quick else "PagingMC8.cfg", timeout=800)
    n = NCPU
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        ss = [s for l in ex.map(lambda i: c.drive(b, ["%d/%d" % (i, n)], None, 800), range(n)) for s in l]
    c.sample((ss or [{"ev": []}])[len(ss) // 3])
    c.reject(c.validate("PagingTrace", ss, shards=n, timeout=800), key)
    c.finish({"lists": sorted({s["id"].split("-")[0] for s in ss})})


main(run)
