import re
from vlib import *


def key(s, ev):
    if not ev:
        return "?"
    if ev["e"] != "cmp":
        return "%s %s" % (re.sub(r"-\d+$", "", s["id"]), ev["e"])
    return "%s %s" % (re.sub(r"-\d+$", "", s["id"]), json.dumps(ev["c"])[:80])


def run():
    c = Check("C16")
    b = c.build("cmpd")
    c.modelcheck("CompareMC")
    ss = c.drive(b, ["pairs"], timeout=800)
    refs = [s for s in ss if s["id"].startswith("ref")]
    ss = [s for s in ss if not s["id"].startswith("ref")]
    c.sample(ss[-3]["ev"][1])
    # the specification's equality against the protobuf library's
    bad = c.validate("CompareTrace", refs, label="CompareTrace-ref", count=False)
    if bad:
        s, far = bad[0]
        raise CheckError("the specification disagrees with proto.Equal: %s" % json.dumps(s["ev"][far])[:3000])
    c.reject(c.validate("CompareTrace", ss, label="CompareTrace"), key)
    st = c.drive(b, ["streams"], timeout=800)
    c.sample(st[0])
    c.reject(c.validate("EquivTrace", st), key)
    c.finish({"pairs_compared": sum(len(s["ev"]) for s in ss)})


main(run)
