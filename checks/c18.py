from vlib import *


def key(s, ev):
    k = s["id"].split("-")[0]
    return k + (" " + ev["e"] if ev else "")


def run():
    c = Check("C18")
    b = c.build("lined")
    for m in ("TimelinePeriods", "TimelineOne", "TimelineTwo"):
        c.modelcheck("TimelineMC", m + ".cfg", timeout=800)
    n = NCPU
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        ss = [s for l in ex.map(lambda i: c.drive(b, ["%d/%d" % (i, n)], None, 800), range(n)) for s in l]
    c.sample([s for s in ss if s["id"].startswith("modes")][0])
    c.reject(c.validate("TimelineTrace", ss, shards=n, timeout=800), key)
    c.finish({"ops": sorted({e["e"] for s in ss for e in s["ev"]})})


main(run)
