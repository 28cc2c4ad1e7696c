import re
from vlib import *


def key(s, ev):
    return "%s %s" % (re.sub(r"-\d+$", "", s["id"]), ev["e"] if ev else "?")


def run():
    c = Check("C10")
    b = c.build("shutd")
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        mc = ex.submit(lambda: [c.modelcheck("Bus", f, workers=2) for f in ("BusMC.cfg", "BusMC2.cfg")])

        def one(ms):
            mode, spec = ms
            ss = c.drive(b, [mode], timeout=800)
            if ss:
                c.sample((ss or [{"ev": []}])[len(ss) // 2]["ev"])
            return c.validate(spec, ss, label=spec + "-" + mode, shards=3)
        for rej in list(ex.map(one, (("resource", "ShutTrace"), ("bus", "BusTrace"), ("models", "ShutTrace"),
                                     ("streams", "ShutTrace"), ("busstress", "BusTrace"), ("resstress", "ShutTrace")))):
            c.reject(rej, key)
        mc.result()
    c.finish()


main(run)
