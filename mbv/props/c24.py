"""
C24: all assignments of availability to the members of an aggregation x component directory and fetcher settings.
"""
import itertools, os, shutil, zipfile
from .. import model as M, agglab as A

LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of all availability assignments (fault placement per member) x restore settings on the real code, against a reference restoration"
RULE = "distinct (availability, settings, outcome) combinations"
BOUNDS = {"quick": "2 members x 21 availabilities each x 2 component directories x 5 fetchers x head and destination forms (all pairs of availabilities; head forms one at a time)",
          "thorough": "the same with the full product of head and destination forms, and 3 members x 10 availabilities"}
ASSUMPTIONS = ["a fetcher puts the bag into the directory it is given, or returns the path of a bag elsewhere",
               "without a component directory but with a fetcher the members are looked for in the cache inside the destination only"]

AVAIL = ["dir", ".zip", ".tar", ".tar.gz", ".tar.bz2", ".tgz", "dir+zip", "remote", "remote.zip", "remote.tgz", "missing", "decoys", "decoys+remote",
         "brokenzip", "nobagzip", "notabag", "plainfile", "zip+tar", "dirsuffix", "plainfile+zip", "plainfile+remote"]
AV3 = ["dir", ".zip", ".tgz", "remote", "remote.zip", "missing", "decoys", "brokenzip", "dir+zip", "notabag"]
HEADS = ["path", "ro", "rw", "slash"]
DESTS = ["new", "inplace", "existing"]
FETCH = ["none", "cache", "elsewhere", "returnsnone", "raises"]
COMP = ["default", "given"]

def cases(tier):
    for w in ("good", "nohead", "plain", "file", "dir", "noparent", "fileparent", "member"):
        for how in ("func", "class", "members"):
            for ser in ("", ".zip", ".tar.gz"):
                yield {"kind": "args", "what": w, "how": how, "ser": ser}
    for av in itertools.product(["remote", "remote.zip", "remote.tgz", "decoys+remote", "missing"], repeat=2):
        for comp in ("absent", "rel", "relabsent"):
            for f in FETCH:
                for d in DESTS:
                    yield {"avail": list(av), "comp": comp, "fetch": f, "head": "path", "dest": d}
    hd = [(h, d) for h in HEADS for d in DESTS if not (h == "ro" and d == "inplace")]
    for av in itertools.product(AVAIL, repeat=2):
        for comp in COMP:
            for f in FETCH:
                for h, d in hd:
                    if tier == "quick" and h != "path" and d != "new":
                        continue
                    if tier == "quick" and (h, d) not in (("path", "new"),) and "dir" not in av:
                        continue
                    yield {"avail": list(av), "comp": comp, "fetch": f, "head": h, "dest": d}
    if tier == "thorough":
        for av in itertools.product(AV3, repeat=3):
            for comp in COMP:
                for f in FETCH:
                    yield {"avail": list(av), "comp": comp, "fetch": f, "head": "path", "dest": "new"}

def place(av, spec, comp, remote):
    """put the member (or its decoys) in place"""
    tmp = os.path.join(remote, "tmp-" + spec["name"])
    os.makedirs(tmp)
    root = M.write_bag(tmp, spec)
    name = spec["name"]
    here = os.path.join(comp, name)
    wrong = dict(spec, files={"data/wrong": "wrong " + name, "data/x": "wrong"})
    def wrongbag():
        w = os.path.join(remote, "w-" + name)
        os.makedirs(w)
        return M.write_bag(w, wrong)
    if av == "dir" or av == "dir+zip" or av == "dirsuffix":
        shutil.copytree(root, here)
        if av == "dir+zip":
            M.serialize(wrongbag(), ".zip", dest=here + ".zip")
            M.serialize(root, ".tar", dest=here + ".tar", keep=True)
        if av == "dirsuffix":
            shutil.copytree(wrongbag(), here + "x")
            shutil.copytree(root, here + ".zip")
    elif av in M.FORMS:
        M.serialize(root, av, dest=here + av, keep=True)
    elif av == "zip+tar":
        M.serialize(root, ".zip", dest=here + ".zip", keep=True)
        M.serialize(root, ".tar.gz", dest=here + ".tar.gz", keep=True)
    elif av == "brokenzip":
        p = M.serialize(root, ".zip", dest=here + ".zip", keep=True)
        with open(p, "r+b") as f:
            f.truncate(os.path.getsize(p) // 2)
    elif av == "nobagzip":
        with zipfile.ZipFile(here + ".zip", "w") as z:
            z.writestr(name + "/data/x", "not a bag")
    elif av == "notabag":
        os.makedirs(os.path.join(here, "data"))
        M.put(os.path.join(here, "data/x"), b"not a bag")
    elif av.startswith("plainfile"):
        M.put(here, b"not a bag")
        if av == "plainfile+zip":
            M.serialize(root, ".zip", dest=here + ".zip", keep=True)
    if av.startswith("decoys"):
        shutil.copytree(wrongbag(), here + "x")
        M.put(here + ".txt", b"x")
        M.put(here + ".rar", b"x")
        M.put(os.path.join(comp, "x" + name + ".zip"), b"x")
        M.put(os.path.join(comp, name.upper() + ".zip"), b"x")
    rem = os.path.join(remote, "srv")
    os.makedirs(rem, exist_ok=True)
    if av in ("remote", "decoys+remote"):
        shutil.copytree(root, os.path.join(rem, name))
    elif av == "plainfile+remote":
        # comes as a file, as there is one of its name in the way
        M.serialize(root, ".zip", dest=os.path.join(rem, name + ".zip"), keep=True)
    elif av.startswith("remote."):
        M.serialize(root, av[len("remote"):], dest=os.path.join(rem, name + av[len("remote"):]), keep=True)

FOUND = ("dir", "dir+zip", "plainfile+zip", "zip+tar", "dirsuffix", "brokenzip", "nobagzip", "notabag") + tuple(M.FORMS)
BROKEN = ("brokenzip", "nobagzip", "notabag")

def run_args(case, ctx):
    """what cannot be restored is refused before anything is written"""
    from multibag.restore import restore_bag, BagRestorer
    home = ctx.sub("home")
    m = M.bagspec("m", {"data/x": "x"})
    head = M.bagspec("head", {"data/h": "head"}, info=A.head_info(M.default_info("head")))
    A.tag_files(head, [m, head])
    hroot = M.write_bag(home, head)
    if case["what"] != "member":
        M.write_bag(home, m)
    M.put(os.path.join(home, "afile"), b"x")
    os.makedirs(os.path.join(home, "adir"))
    h = {"nohead": os.path.join(home, "nosuch"), "plain": os.path.join(home, "m"), "file": os.path.join(home, "afile"),
         "dir": os.path.join(home, "adir")}.get(case["what"], hroot)
    if case["ser"] and os.path.isdir(h):
        h = M.serialize(h, case["ser"], keep=False)
    dest = os.path.join(home, {"noparent": "no/such/dest", "fileparent": "afile/dest"}.get(case["what"], "dest"))
    before = M.snapshot(home)
    err = None
    try:
        if case["how"] == "func":
            restore_bag(h, dest)
        else:
            r = BagRestorer(h, dest, home)
            if case["how"] == "members":
                for n in ("head", "m") if not case["ser"] or case["what"] == "member" else ("m",):
                    r.restore_member(n)
            r.restore()
    except Exception as ex:
        err = ex
    ctx.step()
    if case["what"] == "good":
        if err is not None:
            ctx.bad("restoring fails with %s: %s" % (type(err).__name__, err))
        else:
            A.check_restored(ctx, dest, [m, head])
        return
    if err is None:
        ctx.bad("restoring with %s does not fail" % case["what"])
    elif isinstance(err, (TypeError, AttributeError, UnboundLocalError, NameError, KeyError)):
        ctx.bad("restoring with %s fails with an internal error, %s: %s" % (case["what"], type(err).__name__, err))
    if case["what"] == "member":
        if err is not None and "m" not in str(err).replace("Member", "").split():
            ctx.bad("the error does not name the member missing: %s" % err)
    elif M.snapshot(home) != before:
        ctx.bad("restoring with %s changed %s before failing" % (case["what"], M.diff_snap(before, M.snapshot(home))[:4]))
    ctx.state(case, type(err).__name__)

def run(case, ctx):
    if case.get("kind") == "args":
        return run_args(case, ctx)
    from multibag.restore import restore_bag
    from multibag.access.multibag import open_headbag, HeadBag
    remote = ctx.sub("remote")
    home = ctx.sub("home")
    comp = home if case["comp"] == "default" else ctx.sub("comp")
    kw = {}
    if case["comp"] != "default":
        kw["compdir"] = comp
    if "rel" in case["comp"]:
        os.chdir(ctx.dir)
        kw["compdir"] = "comp"
    n = len(case["avail"])
    members = []
    for i in range(n):
        nm = "agg.%d" % i
        members.append(M.bagspec(nm, {"data/x": "x of %s" % nm, "data/only%d" % i: "o%d" % i, "data/d/%d" % (i // 2): "d%d" % i, "t/%d" % i: "t"}))
    head = M.bagspec("agg.head", {"data/h": "head"}, info=A.head_info(M.default_info("agg.head")))
    A.tag_files(head, members + [head])
    hroot = M.write_bag(home, head)
    for av, m in zip(case["avail"], members):
        place(av, m, comp, remote)
    srv = os.path.join(remote, "srv")
    compsnap = M.snapshot(comp)
    calls = []
    def fetch(name, cache):
        calls.append((name, cache))
        if case["fetch"] == "returnsnone":
            return None
        if case["fetch"] == "raises":
            raise RuntimeError("cannot fetch " + name)
        for f in [""] + M.FORMS:
            p = os.path.join(srv, name + f)
            if os.path.exists(p):
                if case["fetch"] == "elsewhere":
                    return p
                q = os.path.join(cache, name + f)
                if "absent" in case["comp"] and not os.path.isdir(cache):
                    os.makedirs(cache)
                if not os.path.isdir(cache):
                    ctx.bad("the cache directory given to the fetcher, %s, does not exist" % cache)
                    os.makedirs(cache)
                if os.path.isdir(p):
                    shutil.copytree(p, q)
                else:
                    shutil.copy(p, q)
                return q
        return None
    if case["fetch"] != "none":
        kw["fetcher"] = fetch
    if "absent" in case["comp"]:        # the fetcher makes it
        shutil.rmtree(comp)
        compsnap = {}
    h = {"path": lambda: hroot, "slash": lambda: hroot + "/", "ro": lambda: open_headbag(hroot, True), "rw": lambda: HeadBag(hroot)}[case["head"]]()
    dest = os.path.join(ctx.dir, "restored")
    if case["dest"] == "existing":
        os.mkdir(dest)
    if case["dest"] == "inplace":
        dest = hroot
    err = out = None
    try:
        out = restore_bag(h, None if case["dest"] == "inplace" else dest, **kw)
    except Exception as ex:
        err = ex
    ctx.step()
    # what has to happen
    usecomp = case["comp"] != "default" or case["fetch"] == "none"
    local = [usecomp and av in FOUND for av in case["avail"]]
    tofetch = [m["name"] for m, l in zip(members, local) if not l]
    works = case["fetch"] in ("cache", "elsewhere")
    bad = [m["name"] for m, l, av in zip(members, local, case["avail"])
           if (l and av in BROKEN) or (not l and not (works and "remote" in av))]
    if not bad:
        if err is not None:
            ctx.bad("restoration failed with %s: %s" % (type(err).__name__, err))
            return
        A.check_restored(ctx, dest, members + [head])
        if os.path.abspath(out.path) != dest:
            ctx.bad("the bag returned is %s" % out.path)
        if case["fetch"] != "none" and set(c[0] for c in calls) != set(tofetch):
            ctx.bad("fetcher called for %s, members not present are %s" % ([c[0] for c in calls], tofetch))
        if case["fetch"] == "cache" and len(calls) != len(set(calls)):
            ctx.bad("a member was fetched more than once: %s" % (calls,))
    else:
        if err is None:
            ctx.bad("restoration returned normally although %s cannot be had" % bad)
        elif case["fetch"] != "raises" and not any(l and av in BROKEN for l, av in zip(local, case["avail"])):
            if not any(b in str(err) for b in bad):
                ctx.bad("the error does not name the member that is missing (%s): %s: %s" % (bad, type(err).__name__, err))
        if err is not None and isinstance(err, (TypeError, AttributeError, UnboundLocalError, NameError)):
            ctx.bad("restoration failed with an internal error, %s: %s" % (type(err).__name__, err))
        if not set(c[0] for c in calls) <= set(tofetch):
            ctx.bad("fetcher called for %s, members not present are %s" % ([c[0] for c in calls], tofetch))
        if err is not None:
            # once the members are there, it can be completed
            good = ctx.sub("good")
            for m in members:
                M.write_bag(good, m)
            try:
                restore_bag(hroot, None if case["dest"] == "inplace" else dest, good)
                A.check_restored(ctx, dest, members + [head], what="restored again: ")
            except Exception as ex:
                ctx.bad("restoring again with all members present failed with %s: %s" % (type(ex).__name__, ex))
    for nm, cache in calls:
        if case["comp"] != "default":
            if os.path.abspath(cache) != comp:
                ctx.bad("fetcher was given the cache directory %s instead of %s" % (cache, comp))
        elif not os.path.abspath(cache).startswith(dest + os.sep):
            ctx.bad("fetcher was given the cache directory %s outside of the destination" % cache)
    if case["dest"] != "inplace" or case["comp"] != "default":
        after = M.snapshot(comp) if os.path.isdir(comp) else {}
        ch = [c for c in M.diff_snap(compsnap, after) if not (c.endswith(" added") and any(c.startswith(t) for t in tofetch))]
        if ch:
            ctx.bad("the component directory was changed: %s" % ch[:5])
    ctx.state(case, err is None, type(err).__name__)
