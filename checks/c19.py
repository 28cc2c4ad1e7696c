from vlib import *


def key(s, ev):
    sid = re.sub(r"(-\d+)+$", "", s["id"])
    k = sid.split("-")[0]
    if not ev:
        return k
    o = ev.get("o") or {}
    return "%s %s %s %s" % (k, ev["e"], o.get("op", ""), ev.get("r", {}).get("code", ""))


def run():
    c = Check("C19")
    b = c.build("electricd")
    c.modelcheck("ElectricMC", timeout=800)
    txt = c.modelcheck("ElectricMC", "ElectricEmit.cfg", timeout=600)
    scripts = sorted(set(re.findall(r'^"SCRIPT (.*)"$', txt, re.M)))
    if len(scripts) < 8000:
        raise CheckError("only %d scripts emitted" % len(scripts))
    f = os.path.join(c.work, "scripts.ndjson")
    open(f, "w").write("\n".join(x.replace('\\"', '"') for x in scripts) + "\n")
    n = NCPU
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        ss = [s for l in ex.map(lambda i: c.drive(b, ["%d/%d" % (i, n), "scripts,random,windows,stress", f], None, 800,
                                                  "electricd-%d" % i), range(n)) for s in l]
    c.sample((ss or [{"ev": []}])[len(ss) // 2])
    c.reject(c.validate("ElectricTrace", ss, shards=n, timeout=800), key)
    c.finish({"scripts": len(scripts), "sessions": {k: sum(s["id"].startswith(k) for s in ss) for k in ("script", "random", "window", "stress")}})


main(run)
