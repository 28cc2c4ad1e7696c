import re
from vlib import *


def key(s, ev):
    return "%s %s" % (re.sub(r"-\d+$", "", s["id"]), ev["e"] if ev else "?")


def run():
    c = Check("C09")
    b = c.build("lossyd")
    c.modelcheck("LossyMC")
    for mode in ("patterns", "stress", "blocking"):
        ss = c.drive(b, [mode], timeout=800)
        c.sample((ss or [{"ev": []}])[len(ss) // 2]["ev"])
        c.reject(c.validate("LossyTrace", ss, label="LossyTrace-" + mode), key)
    c.finish()


main(run)
