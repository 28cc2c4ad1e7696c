import re
from vlib import *


def key(s, ev):
    return "%s %s" % (re.sub(r"-\d+$", "", s["id"]), ev["e"] if ev else "?")


def run():
    c = Check("C08")
    b = c.build("streamd")
    c.modelcheck("StreamMC")
    for mode in ("include", "booking"):
        ss = c.drive(b, [mode], timeout=800)
        c.sample((ss or [{"ev": []}])[len(ss) // 2]["ev"])
        c.reject(c.validate("StreamTrace", ss, label="StreamTrace-" + mode), key)
    c.finish()


main(run)
