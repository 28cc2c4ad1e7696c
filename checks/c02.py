import os, random, re
from vlib import *


def key(s, ev):
    return "%s %s" % (re.sub(r"-\d+$", "", s["id"]), ev["e"] if ev else "?")


def run():
    c = Check("C02")
    b = c.build("concd")
    c.modelcheck("StoreConcMC")
    # the schedules: every complete behaviour of the protocol model
    lines = []
    for cfg, most in (("StoreConcEmit2", 1500 if c.quick else 10**9), ("StoreConcEmit3", 1500 if c.quick else 20000)):
        txt = c.modelcheck("StoreConcMC", cfg + ".cfg", workers=1)
        ls = [json.loads(x[6:]) for x in map(lambda q: q.strip().strip('"').replace('\\"', '"'), txt.splitlines()) if x.startswith("SCHED ")]
        if not ls:
            raise CheckError("no schedules from " + cfg)
        rnd = random.Random(c.seed)
        rnd.shuffle(ls)
        lines += ls[:most]
    f = os.path.join(c.work, "schedules.ndjson")
    open(f, "w").write("".join(json.dumps(x) + "\n" for x in lines))
    n = 0
    for args in (["windows"], ["schedules", f], ["stress"]):
        ss = c.drive(b, args, name="concd-" + args[0], timeout=600)
        n += len(ss)
        c.sample((ss or [{"ev": []}])[len(ss) // 2]["ev"][:4])
        c.reject(c.validate("StoreConcTrace", ss, label="StoreConcTrace-" + args[0]), key)
    c.finish({"schedules_forced": len(lines)})


main(run)
