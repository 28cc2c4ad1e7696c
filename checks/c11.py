from vlib import *

FLAWS = ["rngRLock", "saveRLock", "inplace", "keepArg", "seedUnlocked", "listenUnlocked", "publishShared",
         "earlyTrailer", "earlyResult"]


def key(s, ev):
    if ev and ev["e"] == "race":
        return "race " + ev["at"]
    return s["cfg"]["dev"] + (" " + ev["e"] if ev else "")


def work(c, b, f, i):
    """one shard of the workload.  What panics on a goroutine of its own ends the process; unless that is about
    unsynchronised use it isn't what is looked at here: carry on after it"""
    ss, fr, more = [], 0, True

    def crashed(err, out):
        nonlocal fr, more
        if re.search(r"^fatal error: (concurrent map|sync: )", err, re.M):
            return False
        fr, more = int(open(out + ".at").read()), True
        return True
    for k in range(20):
        if not more or c.quick and time.time() - c.t0 > 200:
            break
        more = False
        ss += c.drive_race(b, [f, "%d/%d" % (i, NCPU)], {"FROM": str(fr)}, 800, "raced-%d-%d" % (i, k), on_crash=crashed)
    return ss


def run():
    c = Check("C11")
    b = c.build("raced", race=True)
    txt = c.modelcheck("RaceMC", "RaceEmit.cfg", timeout=120)
    progs = sorted(set(re.findall(r'SCRIPT (<<.*?>>)', txt)))
    if len(progs) < 100:
        raise CheckError("only %d programs emitted" % len(progs))
    f = os.path.join(c.work, "programs")
    open(f, "w").write("\n".join(progs) + "\n")
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        ss = [s for l in ex.map(lambda i: work(c, b, f, i), range(NCPU)) for s in l]
        ok = [ex.submit(c.modelcheck, "RaceMC", "Race_%s.cfg" % n, timeout=600, workers=3) for n in ("none", "three")]
        bad = {x: ex.submit(c.modelcheck, "RaceMC", "Race_%s.cfg" % x, timeout=300, workers=1, expect_ok=False) for x in FLAWS}
        for r in ok:
            r.result()
        for x, r in bad.items():
            if "Invariant NoRace is violated" not in r.result():
                raise CheckError("the specification doesn't find the race in a library with flaw %s" % x)
    devs, threads, over = {}, 0, 0
    races = [s for s in ss if s["id"].startswith("race ")]
    for s in ss:
        if s in races:
            continue
        d = s["cfg"]["dev"]
        devs[d] = devs.get(d, 0) + 1
        threads += sum(e["e"] == "start" for e in s["ev"])
        over += any(e["e"] == "gaveup" for e in s["ev"])
    c.sample((ss or [{"ev": []}])[len(ss) // 2])
    if races:
        # the detector attributes a race to the session during which it saw it: say where it is, once
        ss = [s for s in ss if s in races or not any(e["e"] == "detector" and e["races"] for e in s["ev"])]
    c.reject(c.validate("RaceTrace", ss, shards=NCPU, timeout=800), key)
    if len(devs) < 40 and not c.violations:
        raise CheckError("only %d kinds of thing used" % len(devs))
    if over * 20 > len(ss) and not c.violations:
        raise CheckError("%d of %d sessions didn't end" % (over, len(ss)))
    c.finish({"targets": devs, "goroutines": threads, "programs": len(progs), "sessions_given_up": over})


main(run)
