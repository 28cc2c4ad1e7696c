from vlib import *


def key(s, ev):
    sid = re.sub(r"(-\d+)+$", "", s["id"])
    if not ev:
        return sid
    n = next((x["n"] for x in s["ev"] if x["e"] == "call"), -1)
    return "%s %s%s" % (sid, ev["e"], " (nobody)" if n == 0 else "")


def run():
    c = Check("C17")
    b = c.build("groupd")
    rb = c.build("groupd", race=True)
    c.modelcheck("GroupMC", "GroupMC.cfg" if c.quick else "GroupMC4.cfg", timeout=800)
    txt = c.modelcheck("GroupMC", "GroupEmit.cfg", timeout=600)
    scripts = sorted(set(re.findall(r'^"SCRIPT (.*)"$', txt, re.M)))
    if len(scripts) < 4000:
        raise CheckError("only %d scripts emitted" % len(scripts))
    f = os.path.join(c.work, "scripts.ndjson")
    open(f, "w").write("\n".join(x.replace('\\"', '"') for x in scripts) + "\n")
    part = os.path.join(c.work, "part.ndjson")
    open(part, "w").write("\n".join(x.replace('\\"', '"') for x in scripts[c.seed % 7::7 if c.quick else 2]) + "\n")
    n = NCPU
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        ss = [s for l in ex.map(lambda i: c.drive(b, [f, "%d/%d" % (i, n)], None, 800), range(n)) for s in l]
        rs = [s for l in ex.map(lambda i: c.drive_race(rb, [part, "%d/%d" % (i, n)], None, 800), range(n)) for s in l]
    c.sample((ss or [{"ev": []}])[len(ss) // 2])
    c.reject(c.validate("GroupTrace", ss, shards=n, timeout=800), key)
    c.reject(c.validate("GroupTrace", rs, label="GroupTrace-race", shards=n, timeout=800), key)
    c.finish({"scripts": len(scripts)})


main(run)
