"""C19: bags are produced one at a time, under the chosen names"""
import itertools, os, shutil
from .. import model as M, splitlab as L

TECHNIQUE = "exhaustive exploration of all caller interventions at every step of iterating over a plan x naming schemes on the real code, against the undisturbed outputs"
LEVEL = "model_checking"
NAMINGS = ["default", "base", "iter", "advance", "reverse", "apply", "applyshort", "applylong", "applyover", "single", "unnamed"]
ACTIONS = ["none", "delete", "move", "zip", "gut", "alter", "add", "lock"]
BOUNDS = {"quick": "plans of 1 to 4 bags x %d naming schemes x (every single step x %d interventions, and all pairs of steps x interventions for 4 bags) x 3 source forms; "
                   "existing output (4 kinds) at every step; iterator exhausted at every step" % (len(NAMINGS), len(ACTIONS)),
          "thorough": "plans of 1 to 4 bags x %d naming schemes x all combinations of %d interventions at every step x 3 source forms" % (len(NAMINGS), len(ACTIONS))}
RULE = "bounded-exhaustive enumeration of step-wise plan application with interventions"
ASSUMPTIONS = ["a caller that alters a handed-over bag replaces its files instead of writing through hard links shared with the source"]

def cases(tier):
    for n in range(1, 5):
        for nm in NAMINGS:
            for h in ("path", "ro", "zip"):
                yield {"k": "act", "n": n, "names": nm, "handle": h, "acts": ["none"] * n}
                if tier == "thorough":
                    for acts in itertools.product(ACTIONS, repeat=n):
                        yield {"k": "act", "n": n, "names": nm, "handle": h, "acts": list(acts)}
                    continue
                for i in range(n):
                    for a in ACTIONS[1:]:
                        acts = ["none"] * n
                        acts[i] = a
                        yield {"k": "act", "n": n, "names": nm, "handle": h, "acts": acts}
                for a in ACTIONS[1:]:
                    yield {"k": "act", "n": n, "names": nm, "handle": h, "acts": [a] * n}
    for nm in ("default", "iter", "apply"):
        for i, j in itertools.combinations(range(4), 2):
            for a, b in itertools.product(ACTIONS[1:], repeat=2):
                acts = ["none"] * 4
                acts[i], acts[j] = a, b
                yield {"k": "act", "n": 4, "names": nm, "handle": "path", "acts": acts}
    for n in range(1, 5):
        for at in range(n):
            for what in ("dir", "emptydir", "file", "bag", "link"):
                for nm in ("default", "base", "apply", "reverse"):
                    for h in ("path", "ro"):
                        yield {"k": "exists", "n": n, "at": at, "what": what, "names": nm, "handle": h}
        for at in range(n):
            for rev in (False, True):
                yield {"k": "exhaust", "n": n, "at": at, "rev": rev}

FILES = {"data/f0": "zero", "data/d/f1": "one", "data/d/f2": "two", "data/f3": "three", "meta/t": "t"}

def setup(case, ctx):
    from multibag.split import SplitPlan, SimpleNamer
    src = M.write_bag(ctx.sub("src"), M.bagspec("source.bag", FILES, dirs=["data/e"]))
    n = case["n"]
    plan = SplitPlan(L.open_source({"handle": case.get("handle", "path")}, src))
    pl = sorted(p for p in FILES if p.startswith("data/"))
    for i in range(n - 1):
        plan._manifests.append({"name": "plan%d" % i, "contents": [pl[i]], "totalsize": 0})
    plan.complete_plan()        # adds the last one
    nm = case.get("names", "default")
    kw = {}
    names = ["plan%d" % i for i in range(n - 1)] + ["source.bag_%d.mbag" % (n - 1)]
    if nm == "base":
        plan.name_output_bags(SimpleNamer("my base"))
        names = ["my base_%d.mbag" % (i + 1) for i in range(n)]
    elif nm == "iter":
        plan.name_output_bags(iter(["it-%s" % "dcba"[i] for i in range(n)]))
        names = ["it-%s" % "dcba"[i] for i in range(n)]
    elif nm == "advance":       # assigned twice; the later one counts
        plan.name_output_bags(SimpleNamer("first"))
        plan.name_output_bags(L.name_iter("second"))
        names = ["second-%03d" % (i + 1) for i in range(n)]
    elif nm == "reverse":
        plan.name_output_bags(L.name_iter("r"), reverse=True)
        names = ["r-%03d" % (n - i) for i in range(n)]
    elif nm == "apply":
        kw["naming_iter"] = L.name_iter("ap")
        names = ["ap-%03d" % (i + 1) for i in range(n)]
    elif nm == "applyshort":    # falls back to the names it has
        kw["naming_iter"] = iter(["s%d" % i for i in range(n - 1)])
        names = ["s%d" % i for i in range(n - 1)] + names[-1:]
    elif nm == "applylong":
        kw["naming_iter"] = iter(["l%d" % i for i in range(n + 3)])
        names = ["l%d" % i for i in range(n)]
    elif nm == "applyover":     # the iterator given last wins
        plan.name_output_bags(SimpleNamer("early"))
        kw["naming_iter"] = SimpleNamer("late")
        names = ["late_%d.mbag" % (i + 1) for i in range(n)]
    elif nm == "unnamed":       # the plan has no names at all
        for m in plan._manifests:
            m.pop("name")
        kw["naming_iter"] = L.name_iter("un")
        names = ["un-%03d" % (i + 1) for i in range(n)]
    elif nm == "single":
        plan.name_output_bags(iter(["%s" % "pqrs"[i] for i in range(n)]), False)
        names = ["pqrs"[i] for i in range(n)]
    return src, plan, kw, names

def content_of(plan):
    return [sorted(m["contents"]) for m in plan.manifests()]

def check_step(ctx, bagdir, out, name, contents, ishead, names):
    if os.path.abspath(bagdir) != os.path.join(os.path.abspath(out), name):
        ctx.bad("step for %s returned %s" % (name, bagdir))
        return
    snap = M.snapshot(bagdir)
    files = M.files_of(snap)
    for pr in M.check_bag(bagdir):
        ctx.bad("bag %s when handed over: %s" % (name, pr))
    for p in contents:
        if p in FILES:
            if files.get(p) != M.content(FILES[p]):
                ctx.bad("bag %s when handed over: %s is %r" % (name, p, files.get(p)))
        elif snap.get(p, ("x",))[0] != "d":
            ctx.bad("bag %s when handed over: no directory %s" % (name, p))
    extra = [p for p in files if not M.is_special(p) and p not in contents and not (ishead and p.startswith("multibag/"))]
    if extra:
        ctx.bad("bag %s when handed over has %s" % (name, extra))
    if "bag-info.txt" not in files or "bagit.txt" not in files:
        ctx.bad("bag %s when handed over lacks its declaration or metadata" % name)
        return
    info = M.tagmap(files["bag-info.txt"])
    if info.get("External-Identifier") != ["ark:/88434/source.bag/mbag:" + name]:
        ctx.bad("bag %s: External-Identifier is %s" % (name, info.get("External-Identifier")))
    if info.get("Payload-Oxum") != [M.oxum(files)]:
        ctx.bad("bag %s: Payload-Oxum is %s" % (name, info.get("Payload-Oxum")))
    if ishead:
        if M.member_names(files.get("multibag/member-bags.tsv", b"")) != names:
            ctx.bad("head lists members %s, produced %s" % (M.member_names(files.get("multibag/member-bags.tsv", b"")), names))
    elif "multibag" in snap:
        ctx.bad("bag %s has a multibag directory" % name)
    return files

def act(what, bagdir, ctx):
    if what == "delete":
        shutil.rmtree(bagdir)
    elif what == "move":
        away = os.path.join(ctx.dir, "away")
        os.makedirs(away, exist_ok=True)
        shutil.move(bagdir, away)
    elif what == "zip":
        M.serialize(bagdir, ".zip")
    elif what == "gut":         # keep the directory only
        for e in os.listdir(bagdir):
            p = os.path.join(bagdir, e)
            shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
    elif what == "alter":
        for root, dirs, files in os.walk(bagdir):
            for f in files:
                p = os.path.join(root, f)
                os.remove(p)
                with open(p, "w") as fd:
                    fd.write("altered: by caller\n")
    elif what == "add":
        M.put(os.path.join(bagdir, "data/added by caller"), b"a")
        M.put(os.path.join(bagdir, "multibag/member-bags.tsv"), b"x\n")
    elif what == "lock":
        os.chmod(bagdir, 0o500)

def run(case, ctx):
    globals()["run_" + case["k"]](case, ctx)

def run_act(case, ctx):
    src, plan, kw, names = setup(case, ctx)
    before = M.snapshot(src)
    out = ctx.sub("out")
    n = case["n"]
    want = content_of(plan)
    it = plan.apply_iter(out, **kw)
    present = set()
    lookup = {}
    for i in range(n):
        if set(os.listdir(out)) != present:
            ctx.bad("before step %d the output directory holds %s, should be %s" % (i, sorted(os.listdir(out)), sorted(present)))
        bagdir = next(it)
        ctx.step()
        for p in want[i]:
            lookup[p] = names[i]
        files = check_step(ctx, bagdir, out, names[i], want[i], i == n - 1, names)
        if set(os.listdir(out)) != present | {names[i]}:
            ctx.bad("after step %d the output directory holds %s" % (i, sorted(os.listdir(out))))
        if i == n - 1 and files:
            lk = dict(M.parse_lookup(files.get("multibag/file-lookup.tsv", b"")))
            w = {p: b for p, b in lookup.items() if p in FILES}
            if lk != w:
                ctx.bad("head's lookup is %s, should be %s" % (lk, w))
        act(case["acts"][i], bagdir, ctx)
        present = set(os.listdir(out))
    try:
        extra = next(it)
        ctx.bad("an extra bag was produced: %s" % extra)
    except StopIteration:
        pass
    if set(os.listdir(out)) != present:
        ctx.bad("the end of the iteration changed the output directory")
    if M.diff_snap(before, M.snapshot(src)):
        ctx.bad("the source was changed: %s" % M.diff_snap(before, M.snapshot(src))[:3])
    for b in os.listdir(out):
        os.chmod(os.path.join(out, b), 0o755)
    ctx.state(case["n"], case["names"], names, case["acts"])

def run_exists(case, ctx):
    src, plan, kw, names = setup(case, ctx)
    out = ctx.sub("out")
    t = os.path.join(out, names[case["at"]])
    if case["what"] in ("dir", "emptydir"):
        os.mkdir(t)
        if case["what"] == "dir":
            M.put(t + "/data/keep", b"keep me")
    elif case["what"] == "file":
        M.put(t, b"keep me")
    elif case["what"] == "link":
        other = ctx.sub("other")
        os.symlink(other, t)
    else:
        M.write_bag(out, M.bagspec(names[case["at"]], {"data/f0": "other version"}))
    keep = M.snapshot(out)
    it = plan.apply_iter(out, **kw)
    want = content_of(plan)
    done = []
    try:
        for i, b in enumerate(it):
            ctx.step()
            check_step(ctx, b, out, names[i], want[i], i == len(names) - 1, names)
            done.append(os.path.basename(b))
        ctx.bad("existing output %s was not reported" % names[case["at"]])
    except (OSError, RuntimeError, ValueError):
        pass
    now = M.snapshot(out)
    d = M.diff_snap(keep, {p: e for p, e in now.items() if p.split("/")[0] not in done})
    if d:
        ctx.bad("existing output was changed: %s" % d[:3])
    if case["what"] == "link" and os.listdir(other):
        ctx.bad("output was written through a link")
    if done != names[:case["at"]]:
        ctx.bad("bags produced before the collision: %s, should be %s" % (done, names[:case["at"]]))
    ctx.state(case["n"], case["at"], case["what"], case["names"])

def run_exhaust(case, ctx):
    src, plan, kw, names = setup(case, ctx)
    out = ctx.sub("out")
    ctx.step()
    try:
        plan.name_output_bags(iter(["x%d" % i for i in range(case["at"])]), case["rev"])
        ctx.bad("running out of names was not reported")
    except RuntimeError as ex:
        pass
    if os.listdir(out):
        ctx.bad("naming wrote output")
    # exactly enough is fine
    plan.name_output_bags(iter(["y%d" % i for i in range(case["n"])]), case["rev"])
    got = [m["name"] for m in plan.manifests()]
    w = ["y%d" % i for i in range(case["n"])]
    if got != (w[::-1] if case["rev"] else w):
        ctx.bad("names assigned: %s" % got)
    ctx.state(case["n"], case["at"], case["rev"])
