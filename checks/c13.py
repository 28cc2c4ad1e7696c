from vlib import *
import random


def key(s, ev):
    sid = re.sub(r"(-\d+)+$", "", s["id"])
    if not ev:
        return sid
    k = "%s %s" % (sid, ev["e"])
    if ev["e"] in ("fin", "again", "pre"):
        end = [x["how"] for x in s["ev"] if x["e"] == "end"] or [x["err"]["kind"] for x in s["ev"] if x["e"] == "ret"]
        k += " after %s: %s" % ("".join(end[:1]), ev["cls"])
    return k


def run():
    c = Check("C13")
    b = c.build("wrapd")
    txt = c.modelcheck("WrapMC", "WrapEmit.cfg" if c.quick else "WrapEmit6.cfg", timeout=600)
    scripts = sorted(set(re.findall(r'^"SCRIPT (.*)"$', txt, re.M)))
    if len(scripts) < 10000:
        raise CheckError("only %d scripts emitted" % len(scripts))
    rnd = random.Random(c.seed)
    rnd.shuffle(scripts)
    c.parts["scripts"] = len(scripts)
    take = scripts[:4500 if c.quick else 60000]
    f = os.path.join(c.work, "scripts.ndjson")
    open(f, "w").write("\n".join(x.replace('\\"', '"') for x in take) + "\n")
    n = NCPU
    ref_n = 4 if c.quick else 1
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        ws = [ex.submit(c.drive, b, ["wrap", f, "%d/%d" % (i, n)], None, 800) for i in range(n)]
        # the reference: real gRPC, on a part of the scripts
        gs = [ex.submit(c.drive, b, ["grpc", f, "%d/%d" % (i, n * ref_n)], None, 800) for i in range(n)]
        wrap = [s for w in ws for s in w.result()]
        ref = [s for g in gs for s in g.result()]
    # the specification is checked against real gRPC first
    bad = c.validate("WrapTrace", ref, label="WrapTrace-grpc", shards=n)
    # (its two ends are not in step with each other: a few surprises under load are not held against it)
    c.parts["reference_disagreements"] = len(bad)
    if len(bad) > len(ref) // 100:
        s, far = bad[0]
        raise CheckError("the specification does not describe gRPC (%d of %d): event %d of %s" % (len(bad), len(ref), far + 1, json.dumps(s)[:3000]))
    c.sample((wrap or [{"ev": []}])[len(wrap) // 2])
    c.reject(c.validate("WrapTrace", wrap, label="WrapTrace-wrap", shards=n), key)
    # both sides at full speed, under the race detector
    rb = c.build("wrapd", race=True)
    part = os.path.join(c.work, "scripts-race.ndjson")
    open(part, "w").write("\n".join(x.replace('\\"', '"') for x in take[:640 if c.quick else 6000]) + "\n")
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        rs = [s for l in ex.map(lambda i: c.drive_race(rb, ["wrap", part, "%d/%d" % (i, n)]), range(n)) for s in l]
    c.reject(c.validate("WrapTrace", rs, label="WrapTrace-race", shards=n), key)
    c.finish({"scripts": len(take), "reference_sessions": len(ref)})


main(run)
