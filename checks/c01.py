import os
from vlib import *


def key(s, ev):
    if not ev:
        return "?"
    return "%s %s %s" % (s["cfg"].get("kind"), ev["e"], ev.get("code", ""))


def run():
    c = Check("C01")
    b = c.build("stored")
    c.modelcheck("StoreMC", "StoreMC.cfg" if not c.quick else "StoreMCq.cfg")
    ss = c.drive(b)
    c.sample((ss or [{"ev": []}])[len(ss) // 2]["ev"][:3])
    rej = c.validate("StoreTrace", ss, env={"SCHEMAS": os.path.join(c.work, "schemas.json")})
    c.reject(rej, key)
    ok = {}
    for s in ss:
        for e in s["ev"]:
            k = "%s/%s" % (e["e"], e.get("code", ""))
            ok[k] = ok.get(k, 0) + 1
    c.finish({"events_by_outcome": ok})


main(run)
