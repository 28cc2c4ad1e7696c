from vlib import *


def key(s, ev):
    if not ev:
        return "?"
    sid = re.sub(r"-\d+(-\d+)?$", "", s["id"])
    if ev["e"] in ("svc",):
        return "unrouted %s %s" % (ev["svc"], ev["missing"])
    if ev["e"] in ("done", "call"):
        m = next((x["m"] for x in reversed(s["ev"][:s["ev"].index(ev)]) if x["e"] == "rpc"), "?")
        return "%s %s %s" % (sid, ev["e"], m)
    return "%s %s" % (sid, ev["e"])


def generated(c, b):
    """what the repository's generators make of the linked API; returns the overlay entries that replace what is
    checked in, None if that is the same text"""
    out = os.path.join(c.work, "gen")
    gd = c.build("gend")
    rep, same = {}, True
    req = subprocess.run([gd, "req"], capture_output=True)
    if req.returncode != 0:
        raise CheckError("gend: %s" % req.stderr[-2000:])
    for k in ("router", "wrapper"):
        bin = os.path.join(c.work, "protoc-gen-" + k)
        r = subprocess.run(["go", "build", "-modfile", os.path.join(c.work, "go.mod"), "-o", bin, "./cmd/protoc-gen-" + k], cwd=REPO, env=goenv(), capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError("build of protoc-gen-%s failed: %s" % (k, r.stderr[-2000:]))
        r = subprocess.run([bin], input=req.stdout, capture_output=True, cwd=c.work, timeout=120)
        w = subprocess.run([gd, "resp", out], input=r.stdout, capture_output=True)
        if r.returncode != 0 or w.returncode != 0:
            c.violation("generator " + k, "protoc-gen-%s fails on the API's descriptors: %s %s" % (k, r.stderr[-600:], w.stderr[-600:]), {})
            return None
    gen = {}
    for d, _, fs in os.walk(out):
        for f in fs:
            p = os.path.join(d, f)
            gen[os.path.join(REPO, os.path.relpath(p, out))] = p
    cur = set(glob.glob(os.path.join(REPO, "pkg/trait/*/*_router.pb.go")) + glob.glob(os.path.join(REPO, "pkg/trait/*/*_wrap.pb.go")))
    c.parts["generated_files"] = len(gen)
    for p in cur - set(gen):
        rep[p], same = "", False
    for p, q in gen.items():
        rep[p] = q
        if p not in cur or open(p).read() != open(q).read():
            same = False
    return None if same else rep


def run():
    c = Check("C12")
    b = c.build("routerd")
    c.modelcheck("RouterMC", "RouterMC.cfg" if c.quick else "RouterMC4.cfg", timeout=800)
    n = NCPU
    jobs = [("reg",), ("names",), ("rpc",)] + [("sched", "%d/%d" % (i, n)) for i in range(n)]
    rep = generated(c, b)
    bins = [(b, "", jobs)]
    if rep:
        # not the same text: is it the same behaviour?
        try:
            bins.append((c.build("routerd", replace=rep, suffix="-gen"), "generated ", [("rpc",), ("reg",)]))
        except CheckError as e:
            c.violation("generated code does not build", str(e)[:1500], {})
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        fs = [(pre, j, ex.submit(c.drive, bn, j, None, 800, None if not pre else "gen-" + "-".join(j)[:20])) for bn, pre, js in bins for j in js]
        done = [(pre, j, f.result()) for pre, j, f in fs]
    groups = {}
    for pre, j, ss in done:
        groups.setdefault((pre, j[0]), []).extend(ss)
    rpcs = 0
    for (pre, g), ss in groups.items():
        for s in ss:
            rpcs += sum(e["e"] == "rpc" for e in s["ev"])
        c.sample((ss or [{"ev": []}])[len(ss) // 2])
        c.reject(c.validate("RouterTrace", ss, label="RouterTrace-" + pre.strip() + g, shards=NCPU), lambda s, ev: pre + key(s, ev))
    c.finish({"requests_forwarded": rpcs})


main(run)
