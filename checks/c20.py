from vlib import *

KINDS = ["parent", "vend", "fan", "mode", "enter", "meter", "pub"]


def key(s, ev):
    kind = s["cfg"]["kind"]
    if not ev:
        return kind
    o = ev.get("o") or {}
    return " ".join([kind, ev["e"], str(o.get("op", "")), str((ev.get("r") or {}).get("code", ""))]).strip()


def run():
    c = Check("C20")
    b = c.build("traitd")
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        txts = list(ex.map(lambda k: c.modelcheck("TraitsMC", "Traits_%s.cfg" % k, timeout=600), KINDS))
    scripts = []
    counts = {}
    for k, txt in zip(KINDS, txts):
        l = sorted(set(re.findall(r'^"SCRIPT (.*)"$', txt, re.M)))
        counts[k] = len(l)
        if len(l) < 200:
            raise CheckError("only %d scripts emitted for %s" % (len(l), k))
        scripts += l
    f = os.path.join(c.work, "scripts.ndjson")
    open(f, "w").write("\n".join(x.replace('\\"', '"') for x in scripts) + "\n")
    n = NCPU
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        ss = [s for l in ex.map(lambda i: c.drive(b, ["%d/%d" % (i, n), "scripts,random,has", f], None, 800,
                                                  "traitd-%d" % i), range(n)) for s in l]
    c.sample((ss or [{"ev": []}])[len(ss) // 2])
    c.reject(c.validate("TraitsTrace", ss, shards=n, timeout=800), key)
    c.finish({"scripts": counts, "sessions": {k: sum(s["id"].startswith(k) for s in ss) for k in ("script", "random", "has")}})


main(run)
