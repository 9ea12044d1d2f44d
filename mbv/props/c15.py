"""
C15: all paths of up to n components over an adversarial alphabet x every bag operation x every access form, plus hostile
paths in manifests, fetch lists, metadata and multibag tag files x every library operation.  Monitored by audit hooks
(every open, listing, link, creation or removal), by answers, and by snapshots of everything outside the bag.
"""
import itertools, os, shutil, sys
from .. import model as M, shapes as S, space, agglab as A

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of path spellings (all component sequences up to the bound) x operations x access forms on the real code under an audit-hook monitor, with a lexical path model as oracle"
RULE = "distinct (form, operation, path class, outcome)"
COMPS = ["..", ".", "data", "a", "bag", "bag2", "secret"]
BOUNDS = {"quick": "all paths of <= 4 components over %s, absolute and with doubled or trailing slashes for <= 3, x 9 operations x 4 forms; 18 hostile paths x 8 places in a bag x 12 operations x 3 forms" % COMPS,
          "thorough": "all paths of <= 5 components"}
ASSUMPTIONS = ["the plain Bag class of the bagit package is not part of this library (its extended, head and read-only forms are)", "bags contain no symbolic links", "a path that leaves the bag and comes back may be refused or accepted", "absolute paths may be refused or taken relative to the bag"]
FORMS = ["rw", "ro", "zip", "tar"]
SECRET = b"SECRET!"
HOSTILE = ["../secret", "../bag2/secret", "../bag2", "..", "data/../../secret", "../bag/../secret", "./../bag2/data/a", "data/../../bag2/secret", "../../secret",
           "/ABS/secret", "/ABS/bag2", "../bag.x/secret", "../BAG/data/a", "data/a/../../../secret", "../nosuch/new", "~/secret", "$HOME/secret", "data/${HOME}/secret"]
PLACES = ["manifest", "tagmanifest", "fetch", "fetchman", "tagdir", "deleted", "lookup", "aggdeleted"]
OPS = ["open", "validate", "headvalidate", "split", "restore", "restoreinplace", "amendold", "amendnew", "convert", "edit", "read", "memberof"]

def cases(tier):
    n = 4 if tier == "quick" else 5
    for form in FORMS:
        total = sum(len(COMPS) ** k for k in range(1, n + 1))
        parts = max(8, total // 150)
        for part in range(parts):
            yield {"kind": "paths", "form": form, "n": n, "part": part, "parts": parts}
        yield {"kind": "spell", "form": form}
    for h in HOSTILE:
        for pl in PLACES:
            for form in ("rw", "zip", "tar"):
                yield {"kind": "content", "path": h, "place": pl, "form": form}

def all_paths(n):
    for k in range(1, n + 1):
        for c in itertools.product(COMPS, repeat=k):
            yield "/".join(c)

def spelled(world):
    base = list(all_paths(3))
    for p in base:
        yield "/" + p
        yield p + "/"
        yield p.replace("/", "//")
    for k in range(1, 4):       # beside a bag whose name differs in case only
        for c in itertools.product(COMPS + ["BAG"], repeat=k):
            if "BAG" in c:
                yield "/".join(c)
    for p in ("secret", "bag2/secret", "bag/data/a", "bag", "bag2", "bag/../secret", "bag2/data"):
        yield os.path.join(world, p)
        yield "/" + os.path.join(world, p)
    yield ""
    yield "/"
    yield "~"
    yield "$HOME"
    yield "data/\0a"

class Monitor(object):
    """audit events on paths in the world, outside of the allowed places"""
    world = None
    allowed = ()
    hits = []
    depth = 0

    @classmethod
    def hook(cls, ev, args):
        if cls.world is None or cls.depth:
            return
        if ev.startswith(("os.", "shutil.")) or ev == "open":
            cls.depth += 1
            try:
                for a in args[:2]:
                    if isinstance(a, bytes):
                        try:
                            a = os.fsdecode(a)
                        except Exception:
                            continue
                    if not isinstance(a, str):
                        continue
                    try:
                        p = os.path.normpath(os.path.join(os.getcwd(), a))
                    except Exception:
                        continue
                    if p == cls.world or p.startswith(cls.world + "/"):
                        if ev in ("os.scandir", "os.listdir") and p == cls.world and not cls.strict:
                            continue
                        if not any(p == x or p.startswith(x + "/") for x in cls.allowed):
                            cls.hits.append("%s %s" % (ev, p[len(cls.world) + 1:] or "."))
            finally:
                cls.depth -= 1
    strict = True
    installed = False

    @classmethod
    def start(cls, world, allowed):
        if not cls.installed:
            sys.addaudithook(cls.hook)
            cls.installed = True
        cls.hits = []
        cls.allowed = tuple(allowed)
        cls.world = world

    @classmethod
    def stop(cls):
        cls.world = None
        h, cls.hits = cls.hits, []
        return h

def make_world(ctx, name="w"):
    w = os.path.realpath(ctx.sub(name))
    os.makedirs(os.path.join(w, "bag2/data"))
    os.makedirs(os.path.join(w, "bag.x"))
    os.makedirs(os.path.join(w, "BAG/data"))
    for p in ("secret", "BAG/data/a", "bag2/secret", "bag2/data/a", "bag.x/secret", "a"):
        M.put(os.path.join(w, p), SECRET + p.encode() + b"x" * 7000)
    # a tag directory that must not be taken for the bag's
    for f, t in (("member-bags.tsv", "SECRETBAG\n"), ("file-lookup.tsv", "data/SECRETPATH\tSECRETBAG\n"), ("deleted.txt", "data/a\n"),
                 ("aggregation-info.txt", "SECRETKEY: x\n")):
        M.put(os.path.join(w, "bag2", f), t.encode())
    for d, ds, fs in os.walk(w):
        for f in fs:
            os.utime(os.path.join(d, f), (1111111111, 1111111111))
    return w

BAGFILES = {"data/a": "inner a", "data/data/a": "deep", "data/bag/a": "x", "a": "tag a", "bag": "tag named bag", "meta/secret": "s"}

def lexical(path):
    """('in', normalised) | ('back', normalised) | ('out', None) | ('abs', None)"""
    if path.startswith("/"):
        return "abs", None
    depth, stack, left = 0, ["W", "bag"], False
    for c in path.split("/"):
        if c in ("", "."):
            continue
        if c == "..":
            if stack:
                stack.pop()
            if len(stack) < 2 or stack[:2] != ["W", "bag"]:
                left = True
        else:
            stack.append(c)
    if stack[:2] != ["W", "bag"]:
        return "out", None
    return ("back" if left else "in"), "/".join(stack[2:])

def attempt(fn):
    try:
        return "ok", fn()
    except Exception as ex:
        return "err", type(ex).__name__

def open_as(form, root, dest):
    from multibag.access.bagit import Bag, open_bag
    from multibag.access.extended import as_extended
    if form == "rw":
        return as_extended(Bag(root)), root
    if form == "ro":
        return as_extended(open_bag(root)), root
    p = M.serialize(root, "." + form, dest=os.path.join(dest, "bag." + form), keep=True)
    return as_extended(open_bag(p)), p

def text(bag, p):
    with bag.open_text_file(p, encoding="latin-1") as fd:
        return fd.read()

def run_paths(case, ctx, paths, world):
    spec = M.bagspec("bag", BAGFILES, ["data/empty"])
    root = M.write_bag(world, spec)
    ser = ctx.sub("ser")
    bag, loc = open_as(case["form"], root, os.path.realpath(ser))
    insnap = M.snapshot(root)
    dest = os.path.join(world, "dest")
    before = M.snapshot(world)
    for path in paths:
        cls, norm = lexical(path)
        e = insnap.get(norm, ("d",) if norm == "" else None) if norm is not None else None
        os.mkdir(dest)
        Monitor.start(world, [root, dest])
        r = {}
        r["exists"] = attempt(lambda: bag.exists(path))
        r["isfile"] = attempt(lambda: bag.isfile(path))
        r["isdir"] = attempt(lambda: bag.isdir(path))
        r["sizeof"] = attempt(lambda: bag.sizeof(path))
        r["timesfor"] = attempt(lambda: bag.timesfor(path))
        r["text"] = attempt(lambda: text(bag, path))
        r["walk"] = attempt(lambda: [(d, sorted(ds), sorted(fs)) for d, ds, fs in bag.walk(path)])
        r["replicate"] = attempt(lambda: bag.replicate(path, dest))
        if case["form"] == "rw":
            bag.replicate_with_hardlink = False
            shutil.rmtree(dest)
            os.mkdir(dest)
            r["copy"] = attempt(lambda: bag.replicate(path, dest))
            bag.replicate_with_hardlink = True
        hits = Monitor.stop()
        ctx.step(len(r))
        say = lambda m: ctx.bad("%s, path %r: %s" % (case["form"], path.replace(world, "WORLD"), m))
        if hits:
            say("reaches outside of the bag: %s" % sorted(set(hits))[:3])
        dsnap = M.snapshot(dest)
        shutil.rmtree(dest)
        after = M.snapshot(world)
        if after != before:
            say("changed: %s" % M.diff_snap(before, after)[:3])
            for p in set(after) - set(before):
                if os.path.isdir(os.path.join(world, p)):
                    shutil.rmtree(os.path.join(world, p), ignore_errors=True)
                elif os.path.exists(os.path.join(world, p)):
                    os.remove(os.path.join(world, p))
            before = M.snapshot(world)
        if any(x[0] == "f" and SECRET in x[1] for x in dsnap.values()):
            say("copied a file from outside of the bag")
        if r["text"][0] == "ok" and SECRET.decode() in r["text"][1]:
            say("read a file outside of the bag")
        if r["timesfor"][0] == "ok" and r["timesfor"][1].mtime == 1111111111:
            say("told the time of a file outside of the bag")
        if r["sizeof"][0] == "ok" and r["sizeof"][1] > 7000 and cls != "in":
            say("told the size of a file outside of the bag")
        if r["walk"][0] == "ok" and any("bag2" in ds or "SECRETKEY" in fs or "member-bags.tsv" in fs for d, ds, fs in r["walk"][1]):
            say("listed a directory outside of the bag")
        if cls == "out":
            for k in ("exists", "isfile", "isdir"):
                if r[k] != ("ok", False) and r[k][0] != "err":
                    say("%s is %s" % (k, r[k]))
            for k in ("sizeof", "timesfor", "text", "replicate"):
                if r[k][0] == "ok":
                    say("%s returned %.100r" % (k, r[k][1]))
            if r["walk"][0] == "ok":
                say("walk returned %.200r" % (r["walk"][1],))
        elif cls == "in":
            want = (e is not None, e is not None and e[0] == "f", e is not None and e[0] == "d")
            # what a trailing slash after a file means is left open
            if not (e is not None and e[0] == "f" and path.endswith("/")):
                got = tuple(r[k][1] for k in ("exists", "isfile", "isdir"))
                if got != want:
                    say("exists/isfile/isdir are %s, should be %s" % (got, want))
                if e is not None and e[0] == "f":
                    if r["sizeof"] != ("ok", len(e[1])):
                        say("size is %s, should be %d" % (r["sizeof"], len(e[1])))
                    if r["text"] != ("ok", e[1].decode("latin-1")):
                        say("text is %.100r" % (r["text"],))
                    if r["replicate"][0] == "err" and not os.path.exists(os.path.join(root, path)):
                        pass
                    elif r["replicate"][0] != "ok" or dsnap.get(norm) != e or len(M.files_of(dsnap)) != 1:
                        say("replicate: %s gave %s" % (r["replicate"], sorted(dsnap)))
                elif e is None:
                    if r["replicate"][0] == "ok" or r["text"][0] == "ok" or r["sizeof"][0] == "ok":
                        say("a file that does not exist was found")
                else:
                    if r["replicate"][0] != "ok" or M.files_of(dsnap) or (norm and norm not in dsnap):
                        say("replicate: %s gave %s" % (r["replicate"], sorted(dsnap)))
                    exp = sorted(x for x in insnap if x.startswith(norm + "/") or not norm)
                    # climbing out of something that is not a directory is nonsense to a file system
                    if r["walk"][0] == "err" and not os.path.isdir(os.path.join(root, path)):
                        pass
                    elif r["walk"][0] != "ok" or len(exp) != sum(len(ds) + len(fs) for d, ds, fs in r["walk"][1]):
                        say("walk gave %.200r" % (r["walk"],))
        ctx.state(case["form"], cls, norm, sorted((k, v[0], v[1] if v[0] == "err" else None) for k, v in r.items()))

def hostile_bag(case, world):
    """a head bag with a hostile path in one place"""
    h = case["path"].replace("/ABS", world)
    pl = case["place"]
    spec = M.bagspec("bag", BAGFILES, ["data/empty"])
    spec["files"] = dict(spec["files"])
    spec["info"] = A.head_info(spec["info"], version="1", tagdir=h if pl == "tagdir" else "multibag")
    m1 = M.bagspec("m1", {"data/m1": "m1"})
    look = A.lookup_of([m1, spec])
    if pl == "lookup":
        look[h] = "m1"
    A.tag_files(spec, [m1, spec], tagdir="multibag", lookup=look, deleted=[h] if pl == "deleted" else [h, "data/m1"] if pl == "aggdeleted" else [])
    if pl in ("fetch", "fetchman"):
        spec["fetch"] = [["http://h/x", "3", h]]
        if pl == "fetchman":
            spec["extra_manifest"] = {h: "xxx"}
    root = M.write_bag(world, spec)
    if pl in ("manifest", "tagmanifest"):
        # with the right checksum for what is out there
        out = os.path.normpath(os.path.join(root, h))
        c = open(out, "rb").read() if os.path.isfile(out) else b""
        with open(os.path.join(root, pl + "-sha256.txt"), "ab") as f:
            f.write(("%s  %s\n" % (M.digest("sha256", c), h)).encode())
    if pl != "tagmanifest":
        M.write_tagmanifests(root, ["sha256"])
    M.write_bag(world, m1)
    return root, spec

def run_content(case, ctx):
    from multibag.access.bagit import Bag, open_bag
    from multibag.access.extended import ExtendedReadWritableBag
    from multibag.access.multibag import HeadBag, open_headbag, as_headbag
    from multibag.validate import BagValidator, HeadBagValidator, MemberBagValidator, ALL
    from multibag.split import SplitPlan, WellPackedSplitter
    from multibag.restore import restore_bag
    from multibag.amend import Amender, SingleMultibagMaker, amend_bag_with, make_single_multibag
    for op in OPS:
        world = make_world(ctx, "w-" + op)
        root, spec = hostile_bag(case, world)
        loc = root
        if case["form"] != "rw":
            loc = M.serialize(root, "." + case["form"], keep=False)
            if op in ("restoreinplace", "convert", "edit", "amendnew"):
                continue
        out = os.path.join(world, "out")
        os.mkdir(out)
        allowed = [root, loc, out]
        new = M.bagspec("new", {"data/new": "n"})
        if op == "amendold":
            newroot = M.write_bag(out, new)
        elif op == "amendnew":
            oldroot = M.write_bag(out, dict(new, name="old"))
        elif op in ("restore", "restoreinplace", "memberof"):
            allowed.append(os.path.join(world, "m1"))
        if op == "memberof":
            head = M.bagspec("head", {"data/h": "h"})
            head["info"] = A.head_info(head["info"])
            A.tag_files(head, [spec, head])
            M.write_bag(out, head)
        snap0 = M.snapshot(world)
        Monitor.start(world, allowed)
        def work():
            if op == "open":
                (ExtendedReadWritableBag if case["form"] == "rw" else open_bag)(loc).entries
                list(open_bag(loc).files_to_be_fetched())
            elif op == "validate":
                b = (ExtendedReadWritableBag if case["form"] == "rw" else open_bag)(loc)
                attempt(lambda: list(b.fetch_entries()))
                attempt(lambda: list(b.compare_manifests_with_fs()))
                attempt(b.is_valid)
                attempt(b.validate)
                attempt(lambda: open_bag(loc).validate())
            elif op == "headvalidate":
                for c in (BagValidator, HeadBagValidator, MemberBagValidator):
                    attempt(lambda: c(loc).validate(ALL))
            elif op == "split":
                attempt(lambda: WellPackedSplitter(20).plan(loc).apply(os.path.join(out)))
                p = SplitPlan(loc)
                p.complete_plan()
                list(p.apply_iter(out))
            elif op == "restore":
                restore_bag(loc, os.path.join(out, "restored"), world)
            elif op == "restoreinplace":
                restore_bag(loc, None, world)
            elif op == "amendold":
                attempt(lambda: amend_bag_with(loc, newroot, "2"))
                am = Amender(loc, newroot)
                am.init_from_amendee()
                am.finalize("2")
            elif op == "amendnew":
                attempt(lambda: amend_bag_with(oldroot, loc, "2"))
                am = Amender(oldroot, loc)
                am.init_from_amendee()
                am.finalize("2")
            elif op == "convert":
                attempt(lambda: make_single_multibag(loc, "1"))
                mk = SingleMultibagMaker(loc, "mbtags")
                mk.convert("1")
            elif op == "edit":
                hb = HeadBag(loc)
                attempt(lambda: hb.add_member_bag("zz"))
                attempt(lambda: hb.add_file_lookup("data/zz", "zz"))
                attempt(lambda: hb.set_deleted("data/zz"))
                attempt(lambda: hb.save_member_bags())
                attempt(lambda: hb.save_file_lookup())
                attempt(lambda: hb.save_deleted())
                attempt(lambda: hb.clear_file_lookup())
                attempt(lambda: hb.update_info("3"))
                attempt(lambda: hb.set_multibag_tag_dir(case["path"].replace("/ABS", world), migrate=True))
                attempt(lambda: hb.set_multibag_tag_dir(case["path"].replace("/ABS", world)))
                attempt(lambda: hb.ensure_tagdir())
                attempt(lambda: hb.save_member_bags())
                attempt(lambda: hb.save_file_lookup())
                attempt(lambda: hb.save_deleted())
            elif op == "read":
                hb = open_headbag(loc)
                r = [attempt(lambda: list(hb.member_bag_names)), attempt(lambda: list(hb.iter_file_lookup())), attempt(lambda: list(hb.iter_deleted())),
                     attempt(lambda: hb.lookup_file("data/SECRETPATH")), attempt(lambda: list(hb.nonstandard()))]
                if "SECRET" in repr(r):
                    ctx.bad("%s of a bag with %s in %s: answers with what is outside of the bag: %.200r" % (op, case["path"], case["place"], r))
            elif op == "memberof":
                restore_bag(os.path.join(out, "head"), os.path.join(out, "restored"), world)
        res = attempt(work)
        hits = Monitor.stop()
        ctx.step()
        say = lambda m: ctx.bad("%s (%s) of a bag with %r in its %s: %s" % (op, case["form"], case["path"], case["place"], m))
        if hits:
            say("reaches outside of the bag: %s" % sorted(set(hits))[:4])
        snap1 = M.snapshot(world)
        keep = lambda s: {p: e for p, e in s.items() if p != "out" and not p.startswith("out/") and not (case["form"] == "rw" and (p == "bag" or p.startswith("bag/")))}
        d = M.diff_snap(keep(snap0), keep(snap1))
        if d:
            say("changed what is outside: %s" % d[:3])
        for p, e in snap1.items():
            if e[0] == "f" and p.split("/")[0] in ("out", "bag") and (SECRET in e[1] or b"SECRETBAG" in e[1] or b"SECRETKEY" in e[1]):
                say("copied what is outside into %s" % p)
        if op == "open" and case["place"] in ("manifest", "tagmanifest", "fetch", "fetchman"):
            # what lists such a path is refused
            def listed(cls, what):
                b = cls(loc)
                return [x for x in what(b) if os.path.normpath(x) == os.path.normpath(case["path"].replace("/ABS", world))]
            for nm, cls in (("extended", ExtendedReadWritableBag), ("read-only", open_bag)):
                if nm == "extended" and case["form"] != "rw":
                    continue
                r = attempt(lambda: listed(cls, (lambda b: b.files_to_be_fetched()) if case["place"] == "fetch" else (lambda b: b.entries)))
                if r[0] == "ok" or r[1] != "BagError":
                    say("%s bag: the path is not refused: %s" % (nm, r))
        ctx.state(case["place"], op, case["form"], res[0], res[1] if res[0] == "err" else None)

def run(case, ctx):
    Monitor.stop()
    if case["kind"] == "content":
        return run_content(case, ctx)
    world = make_world(ctx)
    if case["kind"] == "paths":
        paths = [p for i, p in enumerate(all_paths(case["n"])) if i % case["parts"] == case["part"]]
    else:
        paths = list(spelled(world))
    run_paths(case, ctx, paths, world)
