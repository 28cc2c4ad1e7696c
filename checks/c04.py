import re
from vlib import *


def key(s, ev):
    return "%s %s" % (re.sub(r"-\d+$", "", s["id"]), ev["e"] if ev else "?")


def run():
    c = Check("C04")
    b = c.build("streamd")
    c.modelcheck("StreamMC")
    ss = c.drive(b, ["script"], timeout=800)
    c.sample((ss or [{"ev": []}])[len(ss) // 2]["ev"])
    c.reject(c.validate("StreamTrace", ss), key)
    c.finish()


main(run)
