from vlib import *

FLAWS = ["alias", "shallow", "inplace", "oldnested", "readmut"]


def key(s, ev):
    dev = s["cfg"]["dev"]
    if not ev:
        return dev
    return " ".join([dev, ev["op"], "changes"] + sorted(set(ev.get("changed", []))))[:200]


def run():
    c = Check("C07")
    b = c.build("isod")
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        ok = ex.submit(c.modelcheck, "IsolationMC", "Isolation_none.cfg", timeout=600, workers=2)
        bad = {f: ex.submit(c.modelcheck, "IsolationMC", "Isolation_%s.cfg" % f, timeout=300, workers=1, expect_ok=False) for f in FLAWS}
        ss = [s for l in ex.map(lambda i: c.drive(b, ["%d/%d" % (i, NCPU)], None, 800, "isod-%d" % i), range(NCPU)) for s in l]
        ok.result()
        for f, r in bad.items():
            if not re.search(r"Invariant \w+ is violated", r.result()):
                raise CheckError("the specification doesn't tell a design with flaw %s from one without" % f)
    devs, held, mutated = {}, 0, 0
    for s in ss:
        devs[s["cfg"]["dev"]] = devs.get(s["cfg"]["dev"], 0) + 1
        held += len(s["cfg"]["what"])
        mutated += sum(e["e"] == "mutate" for e in s["ev"])
    c.sample((ss or [{"ev": []}])[len(ss) // 2])
    c.reject(c.validate("IsolationTrace", ss, shards=NCPU, timeout=800), key)
    if len(devs) < 30 and not c.violations:
        raise CheckError("only %d devices used" % len(devs))
    c.finish({"devices": devs, "messages_held": held, "messages_modified_by_their_owner": mutated})


main(run)
