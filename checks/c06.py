import json, os
from vlib import *


def key(s, ev):
    if not ev:
        return "?"
    return "%s %s panic=%s" % (ev.get("via"), ev.get("M"), ev.get("panic", "")[:40])


def run():
    c = Check("C06")
    b = c.build("masksd")
    c.modelcheck("MasksMC", "MasksMC.cfg")
    ss = c.drive(b, ["read"])
    for s in ss[5:8]:
        c.sample(s["ev"][1] if len(s["ev"]) > 1 else s)
    rej = c.validate("MasksTrace", ss, env={"SCHEMAS": os.path.join(c.work, "schemas.json")})
    c.reject(rej, key)
    c.finish({"reads_checked": sum(1 for s in ss for e in s["ev"] if e["e"] == "read")})


main(run)
