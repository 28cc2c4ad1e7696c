"""Shared runner for the checks: build the Go driver from /repo's working tree, run it, let TLC judge what it recorded.

Exit codes: 0 the property held, 1 VIOLATION (only ever from recorded behaviour of the real code), 2 check error.
"""
import atexit, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, concurrent.futures, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TLCJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
MOD = "github.com/smart-core-os/sc-golang"
NCPU = max(1, min(8, os.cpu_count() or 1))


class CheckError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def goenv(race=False):
    e = dict(os.environ)
    e.update(HOME="/root", GOROOT="/opt/veriftools/go1.23.12", GOTOOLCHAIN="local", GOPATH="/root/go",
             GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", GOPROXY="off", GOSUMDB="off",
             GOFLAGS="-mod=mod", GOWORK="off", CGO_ENABLED="1" if race else "0")
    e["PATH"] = "/opt/veriftools/go1.23.12/bin:" + e.get("PATH", "")
    e["PATH"] += ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    return e


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % pid.lower())
        atexit.register(lambda: shutil.rmtree(self.work, ignore_errors=True))
        self.quick = TIER == "quick"
        self.seed = SEED
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []      # (key, description, obj)
        self.known = self._known()
        self.known_hit = {}
        self.parts = {}
        self.late = []            # drivers that did not finish

    # ---- known findings -------------------------------------------------------------------------------------
    def _known(self):
        out = {}
        p = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(p):
            for f in json.load(open(p)).get("findings", []):
                if f["property"] == self.pid:
                    out[f["key"]] = f
        return out

    # ---- build ----------------------------------------------------------------------------------------------
    def overlay(self, replace=None, suffix=""):
        rep = dict(replace or {})
        for d in sorted(glob.glob(os.path.join(VERIF, "go", "*"))):
            if os.path.isdir(d):
                for f in glob.glob(os.path.join(d, "*.go")):
                    rep[os.path.join(REPO, "internal", "verif", os.path.basename(d), os.path.basename(f))] = f
        # the library's locks become scheduling points (go/vsync), whatever file they are in
        inst = os.path.join(self.work, "inst")
        os.makedirs(inst, exist_ok=True)
        for top in ("pkg", "internal"):
            for d, dirs, files in os.walk(os.path.join(REPO, top)):
                if os.path.basename(d) == "verifyield":
                    continue
                for f in files:
                    if not f.endswith(".go") or f.endswith("_test.go") or f.endswith(".pb.go"):
                        continue
                    p = os.path.join(d, f)
                    src = open(p, errors="surrogateescape").read()
                    if '"sync"' not in src:
                        continue
                    new = re.sub(r'^(\s*(?:import\s+)?)(?:sync\s+)?"sync"', r'\1sync "%s/internal/verif/vsync"' % MOD, src, flags=re.M)
                    if new != src and p not in rep:
                        q = os.path.join(inst, hashlib.sha1(p.encode()).hexdigest()[:12] + ".go")
                        open(q, "w", errors="surrogateescape").write(new)
                        rep[p] = q
        p = os.path.join(self.work, "overlay%s.json" % suffix)
        json.dump({"Replace": rep}, open(p, "w"))
        return p

    def build(self, pkg, race=False, timeout=600, replace=None, suffix=""):
        """build go/<pkg> placed virtually inside the repository's module"""
        out = os.path.join(self.work, pkg + suffix + ("-race" if race else ""))
        # a private copy of go.mod/go.sum: the harness must never touch the repository's own
        mod = os.path.join(self.work, "go.mod")
        shutil.copy(os.path.join(REPO, "go.mod"), mod)
        shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(self.work, "go.sum"))
        cmd = ["go", "build", "-modfile", mod, "-overlay", self.overlay(replace, suffix), "-tags", "verif", "-o", out]
        if race:
            cmd.append("-race")
        cmd.append("./internal/verif/" + pkg)
        t = time.time()
        r = subprocess.run(cmd, cwd=REPO, env=goenv(race), capture_output=True, text=True, timeout=timeout)
        if r.returncode != 0:
            raise CheckError("build of %s failed:\n%s" % (pkg, (r.stdout + r.stderr)[-4000:]))
        self.parts["build_%s_s" % (pkg + suffix)] = round(time.time() - t, 1)
        return out

    # ---- driver ---------------------------------------------------------------------------------------------
    def drive(self, binary, args=(), env=None, timeout=300, name=None, allow_crash=True, on_crash=None):
        """run the driver; returns list of sessions (dicts) it wrote.  A crash whose faulting goroutine is inside the
        library is itself recorded behaviour, reported as a violation (key 'crash:<frame>')."""
        name = name or (os.path.basename(binary) + "-" + ("-".join(map(str, args)) or "run"))
        name = re.sub(r"[^A-Za-z0-9_.-]", "_", name)[:80]
        out = os.path.join(self.work, name + ".ndjson")
        e = goenv()
        e.update(VERIF_SEED=str(self.seed), VERIF_TIER=TIER, VERIF_OUT=out, GOTRACEBACK="all", VERIF_WORK=self.work)
        e.update(env or {})
        t = time.time()
        if self.quick:
            timeout = max(30, min(timeout, self.t0 + 420 - t))
        try:
            r = subprocess.run([binary, *map(str, args)], env=e, capture_output=True, text=True, timeout=timeout,
                               cwd=self.work, errors="replace")
        except subprocess.TimeoutExpired as x:
            # what it recorded until then may say why it takes so long
            r = None
            self.late.append("driver %s exceeded %ss\n%s" % (name, timeout, str(x.stderr)[-2000:] if x.stderr else ""))
        self.parts["drive_%s_s" % name] = round(time.time() - t, 1)
        sessions = []
        if os.path.exists(out):
            for line in open(out, errors="replace"):
                line = line.strip()
                if line:
                    try:
                        sessions.append(json.loads(line))
                    except ValueError:
                        pass  # torn last line of a crashed driver
        if r is None:
            return sessions
        self.last_stderr = r.stderr
        self.last_stdout = r.stdout
        if r.returncode != 0:
            fr = crash_frame(r.stderr)
            if fr and on_crash and on_crash(r.stderr, out):
                pass
            elif fr and allow_crash:
                self.violation("crash:" + fr, "the process died inside the library (%s)" % fr,
                               {"driver": name, "args": list(map(str, args)), "stderr": r.stderr[-20000:]})
            else:
                raise CheckError("driver %s exit %s\n%s" % (name, r.returncode, r.stderr[-4000:]))
        return sessions

    def drive_race(self, binary, args=(), env=None, timeout=600, name=None, on_crash=None):
        """run a driver built with the race detector; every data race the library takes part in becomes a session with
        an event "race", which no specification allows"""
        name = re.sub(r"[^A-Za-z0-9_.-]", "_", (name or os.path.basename(binary) + "-" + "-".join(map(str, args))))[:80]
        lp = os.path.join(self.work, "races-" + name)
        e = {"GORACE": "halt_on_error=0 exitcode=0 history_size=3 log_path=" + lp}
        e.update(env or {})
        ss = self.drive(binary, args, e, timeout, name, on_crash=on_crash)
        seen = {}
        for f in glob.glob(lp + ".*"):
            for rep in re.findall(r"WARNING: DATA RACE\n(.*?)\n==================", open(f, errors="replace").read() , re.S):
                k = race_key(rep)
                if k:
                    seen.setdefault(k, rep)
        for k, rep in sorted(seen.items()):
            ss.append({"id": "race " + k, "ev": [{"e": "race", "at": k, "report": rep[:3000]}]})
        return ss

    # ---- TLC ------------------------------------------------------------------------------------------------
    def _tlc(self, module, cfg, env, extra, timeout, workers, heap, deque=False):
        meta = tempfile.mkdtemp(prefix="tlc", dir=self.work)
        e = dict(os.environ)
        e.update(env)
        cmd = ["timeout", "-k", "5", str(timeout), "java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
               "-Xmx" + heap, "-Xss64m"]
        if deque:
            cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd += ["-cp", TLCJARS, "-DTLA-Library=" + os.path.join(VERIF, "spec"), "tlc2.TLC", "-noGenerateSpecTE",
                "-metadir", meta, "-workers", str(workers), "-config", cfg, *extra, module]
        r = subprocess.run(cmd, cwd=os.path.join(VERIF, "spec"), env=e, capture_output=True, text=True,
                           errors="replace")
        shutil.rmtree(meta, ignore_errors=True)
        txt = r.stdout + r.stderr
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", txt)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        return r.returncode, txt, gen, dist

    def modelcheck(self, module, cfg=None, env=None, timeout=300, workers=None, extra=(), heap="6g", expect_ok=True,
                   label=None):
        """exhaustively model check spec/<module>.tla with spec/<cfg>.cfg.  Any error here is an error of the
        specification, never a verdict about the code."""
        cfg = cfg or module + ".cfg"
        t = time.time()
        rc, txt, gen, dist = self._tlc(module + ".tla", cfg, env or {}, list(extra), timeout,
                                       workers or NCPU, heap)
        ok = rc == 0 and "Model checking completed. No error has been found" in txt
        if not ok and expect_ok:
            raise CheckError("model checking %s/%s failed (rc %s)\n%s" % (module, cfg, rc, txt[-5000:]))
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        self.parts["mc_" + (label or cfg.replace(".cfg", ""))] = {"states": dist, "transitions": gen,
                                                                 "s": round(time.time() - t, 1)}
        return txt

    def validate(self, module, sessions, cfg=None, env=None, timeout=400, shards=None, heap="3g", deque=False,
                 count=True, label=None):
        """Validate recorded sessions with a trace spec.  The spec consumes session events and reports, per session,
        how many events the longest matching behaviour consumed (JSON array written to OUT by its POSTCONDITION).
        Returns the rejected sessions: list of (session, furthest)."""
        if not sessions:
            if self.violations or self.late:
                return []
            raise CheckError("no sessions recorded for " + module)
        cfg = cfg or module + ".cfg"
        n = shards or min(NCPU, max(1, len(sessions) // 40 + 1))
        # balance by serialized size
        order = sorted(range(len(sessions)), key=lambda i: -len(sessions[i].get("ev", [])))
        groups = [[] for _ in range(n)]
        for k, i in enumerate(order):
            groups[k % n].append(i)
        t = time.time()
        rejected = []

        def run(k):
            return judge(groups[k], str(k)) if groups[k] else None

        def judge(g, k):
            tag = "%s-%s-%s-%d" % (module, label or "v", k, int(time.time() * 1e6))
            f = os.path.join(self.work, "s-%s.ndjson" % tag)
            o = os.path.join(self.work, "o-%s.json" % tag)
            with open(f, "w") as fh:
                for i in g:
                    fh.write(json.dumps(sessions[i]) + "\n")
            ev = {"SESSIONS": f, "OUT": o}
            ev.update(env or {})
            rc, txt, gen, dist = self._tlc(module + ".tla", cfg, ev, [], timeout, 1, heap, deque)
            if rc != 0 or not os.path.exists(o):
                dbg = os.environ.get("VERIF_DEBUG")
                if dbg:
                    shutil.copy(f, dbg)
                # recorded data outside the domain of the specification's operators is not a behaviour of it either
                if "Attempted to" in txt and "StackOverflow" not in txt and "OutOfMemory" not in txt:
                    if len(g) == 1:
                        at = re.findall(r"^/\\ l = (\d+)$", txt, re.M)
                        return gen, dist, [(g[0], min(int(at[-1]) - 1 if at else 0, len(sessions[g[0]]["ev"]) - 1))]
                    h = len(g) // 2
                    x = judge(g[:h], k + "a")
                    if x[2]:
                        return x  # enough to tell
                    y = judge(g[h:], k + "b")
                    return x[0] + y[0], x[1] + y[1], x[2] + y[2]
                raise CheckError("TLC could not evaluate %s (rc %s)\n%s" % (module, rc, txt[-6000:]))
            res = json.load(open(o))
            if isinstance(res, dict):
                res = res.get("furthest")
            if len(res) != len(g):
                raise CheckError("TLC reported %d of %d sessions" % (len(res), len(g)))
            rj = []
            for i, far in zip(g, res):
                if far < len(sessions[i]["ev"]):
                    rj.append((i, far))
            os.unlink(f)
            return gen, dist, rj

        with concurrent.futures.ThreadPoolExecutor(n) as ex:
            rs = [r for r in ex.map(run, range(n)) if r]
        gen = sum(r[0] for r in rs)
        dist = sum(r[1] for r in rs)
        rej = sorted(x for r in rs for x in r[2])
        if count:
            self.cov["states"] += dist
            self.cov["transitions"] += gen
            self.cov["traces_validated_against_impl"] += len(sessions)
        self.parts["tv_" + (label or module)] = {"sessions": len(sessions), "events": sum(len(s["ev"]) for s in sessions),
                                                 "states": dist, "s": round(time.time() - t, 1)}
        return [(sessions[i], far) for i, far in rej]

    def sample(self, obj, n=3):
        if len(self.cov["samples"]) < n:
            s = json.dumps(obj)
            self.cov["samples"].append(obj if len(s) < 4000 else s[:4000])

    # ---- verdict --------------------------------------------------------------------------------------------
    def violation(self, key, what, obj):
        self.violations.append((key, what, obj))

    def reject(self, rejected, key=None, what=None):
        """turn rejected sessions into violations; key(session, far) identifies the finding"""
        for s, far in rejected:
            ev = s["ev"][far] if far < len(s["ev"]) else None
            k = key(s, ev) if key else "%s:%s" % (s.get("id", "?"), (ev or {}).get("e", "?"))
            w = what(s, ev) if what else "event %d of session %s is not allowed by the specification: %s" % (
                far + 1, s.get("id"), json.dumps(ev)[:600])
            self.violation(k, w, {"session": s, "rejected_at": far + 1, "event": ev})

    def finish(self, extra_cov=None):
        self.cov.update(extra_cov or {})
        self.cov["parts"] = self.parts
        new = []
        for k, w, o in self.violations:
            if k in self.known:
                self.known_hit.setdefault(k, 0)
                self.known_hit[k] += 1
            else:
                new.append((k, w, o))
        for k in self.known_hit:
            log("KNOWN-FINDING: property=%s %s" % (self.pid, self.known[k]["what"]))
        rc = 0
        if self.late and not new:
            raise CheckError(self.late[0])
        if new:
            rc = 1
            rd = os.path.join(VERIF, "replays")
            os.makedirs(rd, exist_ok=True)
            seen = {}
            for k, w, o in new:
                seen.setdefault(k, []).append((w, o))
            for n, (k, l) in enumerate(seen.items()):
                if n >= 5:
                    log("... and %d more kinds of violation" % (len(seen) - 5))
                    break
                h = hashlib.sha1(k.encode()).hexdigest()[:10]
                p = os.path.join(rd, "%s-%s.json" % (self.pid, h))
                json.dump({"property": self.pid, "key": k, "what": l[0][0], "seed": self.seed, "tier": TIER,
                           "occurrences": len(l), "detail": l[0][1]}, open(p, "w"), indent=1)
                log("  %s (%d occurrences): %s" % (k, len(l), l[0][0][:1500]))
                log("VIOLATION property=%s replay=%s" % (self.pid, p))
        ev = {"property": self.pid, "tier": TIER, "seed": self.seed, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)
        log("%s %s: %s  states=%d traces=%d wall=%.1fs %s" % (
            self.pid, TIER, "VIOLATED" if rc else "held", self.cov["states"],
            self.cov["traces_validated_against_impl"], time.time() - self.t0, json.dumps(self.parts)))
        sys.exit(rc)


def race_key(rep):
    """the functions of the library at which a reported data race happens, "" if it takes no part in it"""
    at = []
    for part in re.split(r"\n\n", rep):
        if not re.match(r"\s*(Previous )?(atomic )?(read|write) at|\s*(Previous )?(Read|Write)|\s*(Read|Write)", part, re.I):
            continue
        for line in part.splitlines()[1:]:
            m = re.match(r"\s+(%s/\S+)\(\)\s*$" % re.escape(MOD), line)
            if m and "/internal/verif/" not in m.group(1):
                at.append(m.group(1)[len(MOD) + 1:])
                break
    return " / ".join(sorted(set(at)))


def crash_frame(stderr):
    """innermost library frame of the goroutine that panicked, or None"""
    m = re.search(r"^(panic: |fatal error: )", stderr, re.M)
    if not m:
        return None
    first = None
    txt = stderr[m.start():]
    g = re.search(r"^goroutine \d+ .*?\n(.*?)(\n\n|\Z)", txt, re.M | re.S)
    blk = g.group(1) if g else txt
    for line in blk.splitlines():
        if line.startswith("\t") or line.startswith("created by"):
            continue
        mm = re.match(r"(%s/[^\s(]+(?:\(\*?\w+(?:\[[^\]]*\])?\)[\w.\[\]]*)?)" % re.escape(MOD), line)
        if mm:
            fn = mm.group(1)
            if "/internal/verif/" in fn:
                # reached the harness before (or without) a library frame
                return first
            if first is None:
                first = fn[len(MOD) + 1:]
                return first
    return first


def main(fn):
    try:
        fn()
    except SystemExit:
        raise
    except CheckError as e:
        log("CHECK ERROR: %s" % e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
