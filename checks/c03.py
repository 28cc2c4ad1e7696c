import os, random, re
from vlib import *


def key(s, ev):
    return "%s %s" % (re.sub(r"-\d+$", "", s["id"]), ev["e"] if ev else "?")


def run():
    c = Check("C03")
    b = c.build("pubsubd")
    c.modelcheck("Pubsub", "PubsubMC.cfg")
    lines = []
    for cfg, most in (("PubsubEmitA", 560), ("PubsubEmitB", 700 if c.quick else 10**9)):
        txt = c.modelcheck("Pubsub", cfg + ".cfg", workers=1)
        ls = sorted(x.strip().strip('"').replace('\\"', '"')[6:] for x in txt.splitlines() if "SCHED " in x)
        if not ls:
            raise CheckError("no schedules from " + cfg)
        random.Random(c.seed).shuffle(ls)
        lines += ls[:most] * (1 if c.quick else 3)
    f = os.path.join(c.work, "schedules.ndjson")
    open(f, "w").write("".join(x + "\n" for x in lines))
    for args in (["schedules", f], ["windows"], ["stress"], ["storm"]):
        ss = c.drive(b, args, name="pubsubd-" + args[0], timeout=800)
        c.sample((ss or [{"ev": []}])[len(ss) // 2]["ev"])
        c.reject(c.validate("PubsubTrace", ss, label="PubsubTrace-" + args[0]), key)
    c.finish({"schedules_forced": len(lines)})


main(run)
