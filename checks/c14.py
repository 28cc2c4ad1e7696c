from vlib import *


def key(s, ev):
    reg = s["cfg"]["reg"]
    if not ev:
        return reg
    return " ".join([reg, ev["e"], str(ev.get("op", ev.get("m", ""))), str(ev.get("code", ""))]).strip()


def run():
    c = Check("C14")
    b = c.build("regd")
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        mc = [ex.submit(c.modelcheck, "RegisterMC", f, timeout=600, workers=2) for f in ("Register.cfg", "Register_two.cfg")]
        ss = [s for l in ex.map(lambda i: c.drive(b, ["%d/%d" % (i, NCPU)], None, 800, "regd-%d" % i), range(NCPU)) for s in l]
        for f in mc:
            f.result()
    regs = {}
    for s in ss:
        regs[s["cfg"]["reg"]] = regs.get(s["cfg"]["reg"], 0) + 1
    c.sample((ss or [{"ev": []}])[len(ss) // 2])
    c.reject(c.validate("RegisterTrace", ss, env={"SCHEMAS": os.path.join(c.work, "schemas.json")}, shards=NCPU, timeout=800), key)
    if len(regs) < 20 and not c.violations:
        raise CheckError("only %d registers found: %s" % (len(regs), sorted(regs)))
    c.finish({"registers": regs})


main(run)
