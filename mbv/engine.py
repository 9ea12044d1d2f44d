"""
The explorer.  A property module supplies
    cases(tier)          deterministic generator of JSON-able cases (the bounded space, simplest first)
    run(case, ctx)       executes one case on the real code inside ctx.dir and returns nothing;
                         reports through ctx: ctx.bad(msg), ctx.step(n), ctx.state(obj)
    RULE, BOUNDS, ASSUMPTIONS, LEVEL   text for the evidence
Every case of the space is executed (sharded over worker processes); the number of cases, of operations
executed on the real code (transitions) and of distinct observed outcomes (states) is counted.
"""
import argparse, hashlib, importlib, json, os, resource, select, shutil, signal, sys, tempfile, time, traceback, itertools

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MBV_REPO", "/repo")
CASE_TIMEOUT = 120
MAX_VIOLATIONS = 3
NOBODY = 65534

class CaseTimeout(BaseException):
    pass

class Abort(Exception):
    pass

class Ctx(object):
    def __init__(self, dir, tier="quick"):
        self.dir = dir
        self.tier = tier
        self.problems = []
        self.known = []
        self.steps = 0
        self.nstates = set()
        self.traces = 0
        self.info = {}

    def bad(self, msg):
        self.problems.append(msg if isinstance(msg, str) else repr(msg))

    def step(self, n=1):
        self.steps += n

    def trace(self, n=1):
        self.traces += n

    def state(self, *objs):
        h = hashlib.blake2b(repr(objs).encode('utf-8', 'surrogateescape'), digest_size=8).digest()
        self.nstates.add(h)

    def expect(self, cond, msg):
        if not cond:
            self.bad(msg() if callable(msg) else msg)
        return cond

    def sub(self, name):
        p = os.path.join(self.dir, name)
        os.makedirs(p)
        return p

def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return tempfile.gettempdir()

def _drop_privs():
    try:
        os.setgroups([])
    except Exception:
        pass
    try:
        os.setgid(NOBODY)
        os.setuid(NOBODY)
    except Exception:
        pass

def force_rmtree(path):
    if not os.path.lexists(path):
        return
    def onerr(func, p, exc):
        try:
            os.chmod(os.path.dirname(p), 0o700)
            os.chmod(p, 0o700)
            func(p)
        except Exception:
            pass
    shutil.rmtree(path, onerror=onerr)

def prepare_imports(scratch):
    sys.pycache_prefix = os.path.join(scratch, "pyc")
    sys.dont_write_bytecode = True
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    import warnings, logging
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    import multibag, multibag.split, multibag.amend, multibag.restore, multibag.testing.mkdata
    import multibag.validate
    mod = os.path.realpath(multibag.__file__)
    if not mod.startswith(os.path.realpath(REPO) + os.sep):
        print("engine: multibag imported from %s, not from %s" % (mod, REPO))
        raise SystemExit(3)

def run_case(mod, case, dir, tier):
    """run one case; returns Ctx"""
    ctx = Ctx(dir, tier)
    def onalarm(sig, frm):
        raise CaseTimeout()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(getattr(mod, "CASE_TIMEOUT", CASE_TIMEOUT))
    cwd = os.getcwd()
    try:
        mod.run(case, ctx)
    except CaseTimeout:
        ctx.bad("did not terminate within %d s" % getattr(mod, "CASE_TIMEOUT", CASE_TIMEOUT))
    except Abort as ex:
        if not ctx.problems:
            ctx.bad(str(ex))
    except Exception as ex:
        ctx.bad("unexpected %s: %s\n%s" % (type(ex).__name__, ex, traceback.format_exc(limit=-6)))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        try:
            os.chdir(cwd)
        except Exception:
            os.chdir("/")
    return ctx

def _limits():
    """code that allocates or writes without end fails instead of taking the machine with it"""
    for what, n in ((resource.RLIMIT_AS, 3 << 30), (resource.RLIMIT_FSIZE, 512 << 20)):
        try:
            hard = resource.getrlimit(what)[1]
            resource.setrlimit(what, (n if hard == resource.RLIM_INFINITY else min(n, hard), hard))
        except (ValueError, OSError):
            pass

def worker(mod, tier, w, n, scratch, wfd, only=None, limit=None):
    _limits()
    _drop_privs()
    os.chdir(scratch)
    out = os.fdopen(wfd, "w", buffering=1)
    ncases = steps = traces = 0
    states = set()
    counters = {}
    nviol = 0
    i = -1
    t0 = time.time()
    try:
        for i, case in enumerate(mod.cases(tier)):
            if i % n != w:
                continue
            d = os.path.join(scratch, "c%d" % i)
            os.mkdir(d)
            ctx = run_case(mod, case, d, tier)
            ncases += 1
            steps += ctx.steps
            traces += ctx.traces
            states |= ctx.nstates
            for k, v in ctx.info.items():
                counters[k] = counters.get(k, 0) + v
            for kf in ctx.known:
                out.write(json.dumps({"known": kf}) + "\n")
            force_rmtree(d)
            if ctx.problems:
                # reproduce before reporting
                d2 = os.path.join(scratch, "r%d" % i)
                os.mkdir(d2)
                c2 = run_case(mod, case, d2, tier)
                force_rmtree(d2)
                if c2.problems:
                    nviol += 1
                    out.write(json.dumps({"viol": {"index": i, "case": case, "problems": ctx.problems[:20]}}) + "\n")
                    if nviol >= MAX_VIOLATIONS:
                        break
                else:
                    out.write(json.dumps({"flaky": {"index": i, "case": case, "problems": ctx.problems[:5]}}) + "\n")
            if ncases % 50 == 0:
                out.write(json.dumps({"tick": ncases}) + "\n")
            if limit and time.time() - t0 > limit:
                out.write(json.dumps({"cut": i}) + "\n")
                break
        out.write(json.dumps({"done": {"cases": ncases, "steps": steps, "traces": traces, "total": i + 1,
                                       "counters": counters,
                                       "states": [s.hex() for s in states]}}) + "\n")
    except BaseException as ex:
        try:
            out.write(json.dumps({"crash": "%s: %s\n%s" % (type(ex).__name__, ex, traceback.format_exc())}) + "\n")
        except Exception:
            pass
    finally:
        out.close()

def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get("findings", [])

def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=max(2, min(8, os.cpu_count() or 2)))
    ap.add_argument("--all", action="store_true", help="development: do not stop at the first violations; summarise")
    ap.add_argument("--count", action="store_true", help="only count the cases")
    a = ap.parse_args(argv)
    pid = a.prop
    global MAX_VIOLATIONS
    if a.all:
        MAX_VIOLATIONS = 10**9
    seed = int(os.environ.get("VERIF_SEED") or "1")
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="mbv-%s-" % pid.lower(), dir=scratch_base())
    os.chmod(scratch, 0o755)
    main_pid = os.getpid()
    def onterm(sig, frm):
        raise SystemExit(4)
    signal.signal(signal.SIGTERM, onterm)
    rc = 2
    kids = []
    try:
        prepare_imports(scratch)
        mod = importlib.import_module("mbv.props.%s" % pid.lower())
        if a.count:
            n = sum(1 for _ in mod.cases(a.tier))
            print("%s %s: %d cases" % (pid, a.tier, n))
            return 0
        if a.replay:
            return replay(mod, pid, a.replay, scratch)
        rc = explore(mod, pid, a.tier, seed, a.jobs, scratch, t0, kids)
    finally:
        if os.getpid() == main_pid:
            for k in kids:
                try:
                    os.kill(k, signal.SIGKILL)
                except OSError:
                    pass
            for k in kids:
                try:
                    os.waitpid(k, 0)
                except OSError:
                    pass
            force_rmtree(scratch)
            from . import shim
            shim.cleanup()
    return rc

def replay(mod, pid, path, scratch):
    with open(path) as f:
        rec = json.load(f)
    pids = []
    r, w = os.pipe()
    k = os.fork()
    if k == 0:
        os.close(r)
        wd = os.path.join(scratch, "w")
        os.mkdir(wd); os.chmod(wd, 0o777)
        _limits()
        _drop_privs()
        os.chdir(wd)
        d = os.path.join(wd, "replay")
        os.mkdir(d)
        ctx = run_case(mod, rec["case"], d, rec.get("tier", "quick"))
        os.write(w, json.dumps(ctx.problems).encode())
        os._exit(0)
    os.close(w)
    buf = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        buf += b
    os.waitpid(k, 0)
    probs = json.loads(buf.decode() or "[]")
    for p in probs:
        print("  " + p)
    if probs:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("replay: no violation")
    return 0

def explore(mod, pid, tier, seed, jobs, scratch, t0, kids):
    pipes = {}
    limit = getattr(mod, "TIME_LIMIT", {}).get(tier) if isinstance(getattr(mod, "TIME_LIMIT", None), dict) else None
    for w in range(jobs):
        r, wfd = os.pipe()
        wd = os.path.join(scratch, "w%d" % w)
        os.mkdir(wd)
        os.chmod(wd, 0o777)
        try:
            os.chown(wd, NOBODY, NOBODY)
        except OSError:
            pass
        sys.stdout.flush()
        k = os.fork()
        if k == 0:
            try:
                os.close(r)
                for fd in pipes:
                    try:
                        os.close(fd)
                    except OSError:
                        pass
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                worker(mod, tier, w, jobs, wd, wfd, limit=limit)
            finally:
                os._exit(0)
        os.close(wfd)
        kids.append(k)
        pipes[r] = {"buf": b"", "done": None, "w": w}
    viols, flaky, crashes, known, cut = [], [], [], {}, False
    live = dict(pipes)
    while live:
        rs, _, _ = select.select(list(live), [], [], 5.0)
        for fd in rs:
            b = os.read(fd, 1 << 20)
            st = live[fd]
            if not b:
                if st["done"] is None and not any(c for c in crashes) and not viols:
                    crashes.append("worker %d ended without an answer" % st["w"])
                os.close(fd)
                del live[fd]
                continue
            st["buf"] += b
            while b"\n" in st["buf"]:
                line, st["buf"] = st["buf"].split(b"\n", 1)
                m = json.loads(line)
                if "done" in m:
                    st["done"] = m["done"]
                elif "viol" in m:
                    viols.append(m["viol"])
                elif "flaky" in m:
                    flaky.append(m["flaky"])
                elif "crash" in m:
                    crashes.append(m["crash"])
                elif "known" in m:
                    known.setdefault(m["known"], 0)
                    known[m["known"]] += 1
                elif "cut" in m:
                    cut = True
        if len(viols) >= MAX_VIOLATIONS:
            break
    dones = [p["done"] for p in pipes.values() if p["done"]]
    cases = sum(d["cases"] for d in dones)
    steps = sum(d["steps"] for d in dones)
    traces = sum(d["traces"] for d in dones) or cases
    states = set()
    counters = {}
    for d in dones:
        states.update(d["states"])
        for k, v in d["counters"].items():
            counters[k] = counters.get(k, 0) + v
    viols.sort(key=lambda v: v["index"])
    wall = time.time() - t0
    for kf in load_known():
        if kf["property"] == pid and kf["id"] in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, kf["what"]))
    level = getattr(mod, "LEVEL", "model_checking")
    samples = list(itertools.islice(mod.cases(tier), 0, 400, 100))[:3]
    cov = {"exhaustive": not cut and not viols and not crashes,
           "bounds": mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS,
           "samples": samples}
    if level == "model_checking":
        cov.update(states=len(states), transitions=steps, traces_validated_against_impl=traces, cases=cases)
    else:
        cov.update(evaluations=steps, distinct_nontrivial=len(states), rule=mod.RULE, cases=cases)
    if counters:
        cov["counters"] = counters
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(wall, 2), "violations": len(viols)}
    ed = os.path.join(VERIF, "evidence")
    os.makedirs(ed, exist_ok=True)
    with open(os.path.join(ed, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s [%s]: %d cases, %d transitions, %d distinct outcomes, %.1f s%s"
          % (pid, tier, cases, steps, len(states), wall, " (cut by time limit)" if cut else ""))
    if viols and MAX_VIOLATIONS > 10**6:
        import re
        groups = {}
        for v in viols:
            key = re.sub(r"[0-9a-f]{16,}|/dev/shm/\S+|\d+", "#", v["problems"][0])[:160]
            groups.setdefault(key, []).append(v)
        for key, vs in sorted(groups.items(), key=lambda kv: -len(kv[1])):
            print("== %d x %s" % (len(vs), key))
            print("     e.g. " + json.dumps(vs[0]["case"])[:700])
            for p in vs[0]["problems"][:4]:
                print("       - " + p[-900:])
    if viols:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        for v in viols[:3]:
            path = os.path.join(rd, "%s-%d.json" % (pid, v["index"]))
            with open(path, "w") as f:
                json.dump({"property": pid, "tier": tier, "case": v["case"], "problems": v["problems"]}, f, indent=1)
            print("case %d: %s" % (v["index"], json.dumps(v["case"])[:600]))
            for p in v["problems"][:4]:
                print("   - " + p[:1500])
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    for c in crashes:
        print("CHECK ERROR: " + c)
    for c in flaky:
        print("note: not reproducible, ignored: %s" % json.dumps(c)[:800])
    if crashes:
        return 2
    return 0
