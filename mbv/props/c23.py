"""
C23: every operation x every spelling of each location argument x current directories x kinds of handle; the complete
outcome (answers, verdicts and all files written) is compared with that of the same operation on an identical world
through plain absolute paths.
"""
import itertools, os
from .. import model as M, shapes as S, space, agglab as A

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of location spellings x current directories x handle kinds x operations on the real code; outcomes compared with the absolute-path run (differential)"
RULE = "distinct (operation, outcome) pairs"
SPELL = ["abs", "abs/", "abs//", "abs/.", "absdots", "absdouble", "rel", "./rel", "rel/", "rel//", "rel/.", "reldots", "reldouble", "relup", "symlinkfree"]
CWDS = ["parent", "bag", "bagdata", "other", "root", "out"]
HANDLES = ["text", "rw", "ro", "ext", "headrw", "headro", "chdir-rw", "chdir-ro"]
OPS = ["read", "names", "validate", "headvalidate", "split", "splitnb", "plan", "planpart", "restore", "restorecomp", "restoreinplace", "amend", "amender", "convert", "convertdir", "edit"]
FORMS = ["dir", ".zip", ".tar.gz"]
BOUNDS = {"quick": "16 operations x 14 spellings of the bag's location x 6 current directories; x 8 handle kinds; x all spellings of the output location; archives x 8 spellings",
          "thorough": "complete product of bag spelling, output spelling and current directory for every operation, three bag names"}
ASSUMPTIONS = ["handles opened through a relative path are used from the same current directory unless opened by this library's own classes"]

def cases(tier):
    names = ["bag", "my bag.v1"]
    def gen():
        for op in OPS:
            for nm in names:
                for sp in SPELL[:-1]:
                    for cwd in CWDS:
                        yield dict(op=op, name=nm, spell=sp, out="abs", cwd=cwd, handle="text", form="dir")
                for so in SPELL[:-1]:
                    for cwd in ("parent", "other"):
                        yield dict(op=op, name=nm, spell="abs", out=so, cwd=cwd, handle="text", form="dir")
                        yield dict(op=op, name=nm, spell=so, out=so, cwd=cwd, handle="text", form="dir")
                for h in HANDLES[1:]:
                    for sp in ("abs", "abs/", "rel", "rel/", "reldots", "./rel"):
                        yield dict(op=op, name=nm, spell=sp, out="rel", cwd="parent", handle=h, form="dir")
                for f in FORMS[1:]:
                    for sp in ("abs", "absdots", "absdouble", "rel", "./rel", "reldots", "reldouble", "relup"):
                        for cwd in ("parent", "other"):
                            yield dict(op=op, name=nm, spell=sp, out="rel", cwd=cwd, handle="text", form=f)
            if tier == "thorough":
                for nm in names + [u"s\u00e9.zip.d"]:
                    for sp in SPELL[:-1]:
                        for so in SPELL[:-1]:
                            for cwd in CWDS:
                                yield dict(op=op, name=nm, spell=sp, out=so, cwd=cwd, handle="text", form="dir")
    return space.interleave_unique(gen())

def spell(how, path, cwd):
    """path: absolute, normalised"""
    d, b = os.path.split(path)
    if how == "abs":
        return path
    if how == "abs/":
        return path + "/"
    if how == "abs//":
        return path + "//"
    if how == "abs/.":
        return path + "/."
    if how == "absdots":
        return d + "/../" + os.path.basename(d) + "/./" + b
    if how == "absdouble":
        return d + "//" + b
    rel = os.path.relpath(path, cwd)
    if how == "rel":
        return rel
    if how == "./rel":
        return "./" + rel
    if how == "rel/":
        return rel + "/"
    if how == "rel//":
        return rel + "//"
    if how == "rel/.":
        return rel + "/."
    if how == "reldots":
        rd, rb = os.path.split(rel)
        return os.path.join(rd, "../" + os.path.basename(d), rb) if rd and rb not in (".", "..") else os.path.join(rel, "../" + b) if rb == "." else rel + "/." if rb == ".." else "../" + os.path.basename(cwd) + "/./" + rel
    if how == "reldouble":
        return ".//" + rel
    if how == "relup":
        return os.path.join("../" + os.path.basename(cwd), rel)
    raise ValueError(how)

def world(ctx, name, tag):
    w = os.path.realpath(ctx.sub(tag))
    ctxd = {}
    m1 = M.bagspec("m1", {"data/m1": "member one", "data/a": "old a", "meta/t1": "t"}, ["data/e1"])
    files = {"data/a": "new a", "data/b/c": "cc", "meta/t2": "tt", "data/d": [30, "d"]}
    head = M.bagspec(name, files, ["data/e2"])
    head["info"] = A.head_info(head["info"])
    A.tag_files(head, [m1, head], deleted=["data/gone"])
    plain = M.bagspec(name, files, ["data/e2"])
    new = M.bagspec("newhead", {"data/n": "nn", "data/a": "newest a"})
    more = M.bagspec("more", {"data/more": "more"})
    for d in ("agg", "plain", "out", "other", "amend"):
        os.mkdir(os.path.join(w, d))
    M.write_bag(os.path.join(w, "agg"), m1)
    M.write_bag(os.path.join(w, "agg"), head)
    M.write_bag(os.path.join(w, "plain"), plain)
    M.write_bag(os.path.join(w, "amend"), new)
    M.write_bag(os.path.join(w, "amend"), more)
    return w

def errname(ex):
    return type(ex).__name__

def attempt(fn):
    try:
        return "ok", fn()
    except Exception as ex:
        return "err", errname(ex), str(ex)[:150]

USES_HEAD = ("read", "names", "headvalidate", "restore", "restorecomp", "restoreinplace", "amend", "amender", "edit")

def perform(case, w, spelled):
    """one operation; spelled False: plain absolute paths, cwd /"""
    from multibag.access.bagit import Bag, open_bag
    from multibag.access.extended import as_extended, ExtendedReadWritableBag
    from multibag.access.multibag import HeadBag, open_headbag, is_headbag, as_headbag
    from multibag.validate import BagValidator, HeadBagValidator, MemberBagValidator, ALL
    from multibag.split import WellPackedSplitter, NeighborlySplitter, SplitPlan
    from multibag.restore import restore_bag, BagRestorer
    from multibag.amend import Amender, SingleMultibagMaker, amend_bag_with, make_single_multibag
    op = case["op"]
    nm = case["name"]
    bagdir = os.path.join(w, "agg" if op in USES_HEAD else "plain", nm)
    if case["form"] != "dir":
        bagdir = M.serialize(bagdir, case["form"], keep=False)
    cwd = "/"
    if spelled:
        cwd = {"parent": os.path.dirname(bagdir), "bag": bagdir, "bagdata": os.path.join(bagdir, "data"), "other": os.path.join(w, "other"),
               "root": "/", "out": os.path.join(w, "out")}[case["cwd"]]
    os.chdir(cwd)
    S1 = (lambda p: spell(case["spell"], p, cwd)) if spelled else (lambda p: p)
    S2 = (lambda p: spell(case["out"], p, cwd)) if spelled else (lambda p: p)
    # a name that does not exist yet cannot be spelled with a trailing /.
    def Snew(p):
        s = S2(p)
        return s
    loc = S1(bagdir)
    h = case["handle"] if spelled else "text"
    canhandle = {"read": ("rw", "ro", "ext", "headrw", "headro", "chdir-rw", "chdir-ro"), "names": ("rw", "ro", "ext", "headrw", "headro", "chdir-rw", "chdir-ro"),
                 "plan": ("rw", "ro", "ext", "chdir-rw", "chdir-ro"), "planpart": ("rw", "ro", "ext", "chdir-rw", "chdir-ro"),
                 "restore": ("headrw", "headro", "chdir-rw", "chdir-ro"), "restorecomp": ("headrw", "headro", "chdir-rw", "chdir-ro"), "restoreinplace": ("headrw", "chdir-rw")}
    arg = loc
    if h != "text" and h in canhandle.get(op, ()):
        if op.startswith("restore") and h.startswith("chdir"):
            arg = HeadBag(loc) if h == "chdir-rw" else open_headbag(loc, True)
        else:
            arg = {"rw": Bag, "ro": open_bag, "ext": ExtendedReadWritableBag, "headrw": HeadBag, "headro": lambda p: open_headbag(p, True),
                   "chdir-rw": ExtendedReadWritableBag, "chdir-ro": open_bag}[h](loc)
        if h.startswith("chdir"):
            os.chdir(os.path.join(w, "other"))
            cwd = os.getcwd()
    out = os.path.join(w, "out")
    res = []
    def bagof():
        if isinstance(arg, str):
            return open_bag(arg)
        return arg
    if op == "read":
        b = as_extended(bagof())
        res.append(attempt(lambda: sorted((d, sorted(ds), sorted(fs)) for d, ds, fs in b.walk())))
        res.append(attempt(lambda: sorted(b.payload_files())))
        res.append(attempt(lambda: sorted(b.nonstandard())))
        res.append(attempt(lambda: [b.exists("data/a"), b.isfile("data/a"), b.isdir("data/a"), b.sizeof("data/a")]))
        res.append(attempt(lambda: b.open_text_file("data/a").read()))
        res.append(attempt(lambda: b.is_valid()))
        res.append(attempt(lambda: sorted((k, sorted(v.items())) for k, v in b.entries.items())))
        res.append(attempt(lambda: sorted(os.path.basename(x) for x in b.manifest_files())))
        res.append(attempt(lambda: b.replicate("data/a", S2(out))))
        hb = as_headbag(b, readonly=True)
        res.append(attempt(lambda: (list(hb.member_bag_names), hb.lookup_file("data/a"), sorted(hb.deleted_paths()))))
    elif op == "names":
        b = as_extended(bagof())
        res.append(attempt(lambda: (b.name, sorted(b.info.items()))))
        if isinstance(arg, str):
            res.append(attempt(lambda: is_headbag(loc)))
            res.append(attempt(lambda: open_headbag(loc).name))
            res.append(attempt(lambda: open_headbag(loc, True).name))
            if case["form"] == "dir":
                res.append(attempt(lambda: (HeadBag(loc).name, ExtendedReadWritableBag(loc).name, as_extended(Bag(loc)).name)))
    elif op == "validate":
        for c in (BagValidator, MemberBagValidator):
            res.append(attempt(lambda: [(i.label, i.passed()) for i in c(loc).validate(ALL).applied()]))
            res.append(attempt(lambda: c(loc).is_valid()))
        if case["form"] == "dir":
            res.append(attempt(lambda: Bag(loc).is_valid()))
        res.append(attempt(lambda: open_bag(loc).is_valid()))
    elif op == "headvalidate":
        res.append(attempt(lambda: [(i.label, i.passed()) for i in HeadBagValidator(loc).validate(ALL).applied()]))
        res.append(attempt(lambda: HeadBagValidator(loc).is_valid()))
    elif op in ("split", "splitnb"):
        cls = WellPackedSplitter if op == "split" else NeighborlySplitter
        r = attempt(lambda: [os.path.abspath(p)[len(w):] for p in cls(12).split(loc, S2(out))])
        if case["form"] != "dir" and r[0] == "err":
            r = ("err",)
        res.append(r)
    elif op in ("plan", "planpart"):
        p = SplitPlan(arg)
        if op == "planpart":
            p._manifests.append({"name": "part", "contents": ["data/a"], "totalsize": 0})
        p.complete_plan()
        res.append([dict(m, contents=sorted(m["contents"])) for m in p.manifests()])
        res.append(attempt(lambda: [os.path.abspath(x)[len(w):] for x in p.apply_iter(S2(out) if not h.startswith("chdir") else out)]))
    elif op in ("restore", "restorecomp", "restoreinplace"):
        dest = None if op == "restoreinplace" else Snew(os.path.join(out, "restored")) if not h.startswith("chdir") else os.path.join(out, "restored")
        comp = (S2(os.path.join(w, "agg")) if not h.startswith("chdir") else os.path.join(w, "agg")) if op == "restorecomp" else None
        r = attempt(lambda: restore_bag(arg, dest, comp))
        if r[0] == "ok":
            r = ("ok", r[1].name, os.path.abspath(r[1].path)[len(w):])
        res.append(r)
    elif op == "amend":
        r = attempt(lambda: amend_bag_with(loc, S2(os.path.join(w, "amend/newhead")), "2", S2(os.path.join(w, "amend/more"))))
        res.append(r[:1] if r[0] == "ok" else r)
    elif op == "amender":
        def f():
            a = Amender(loc, S2(os.path.join(w, "amend/newhead")), "pid:x", "comment")
            a.init_from_amendee()
            a.add_amending_bag(S2(os.path.join(w, "amend/more")))
            a.finalize("2")
        res.append(attempt(f))
    elif op == "convert":
        r = attempt(lambda: make_single_multibag(loc, "1", "pid:x"))
        res.append(r[:1] if r[0] == "ok" else r)
    elif op == "convertdir":
        r = attempt(lambda: SingleMultibagMaker(loc, "mb/tags").convert("1"))
        res.append(r[:1] if r[0] == "ok" else r)
    elif op == "edit":
        def f():
            b = HeadBag(loc)
            b.add_member_bag("x")
            b.update_for_member(open_bag(S2(os.path.join(w, "amend/more"))))
            b.add_file_lookup("data/x", "x")
            b.set_deleted("data/y")
            b.save_member_bags(); b.save_file_lookup(); b.save_deleted()
            b.update_info("9")
            b.set_multibag_tag_dir("moved", True)
            b.save()
        res.append(attempt(f))
    os.chdir("/")
    return res, M.snapshot(w)

def run(case, ctx):
    if case["form"] != "dir" and case["cwd"] in ("bag", "bagdata"):
        return
    key = (case["op"], case["name"], case["form"])
    w0 = world(ctx, case["name"], "base")
    r0, s0 = perform(case, w0, False)
    w1 = world(ctx, case["name"], "spelled")
    r1, s1 = perform(case, w1, True)
    ctx.step(2 * max(1, len(r0)))
    # what files say about their own modification (dates of the day) is the same within one run
    fix = lambda r, w: repr(r).replace(w, "WORLD")
    if len(r0) == len(r1):
        for a, b in zip(r0, r1):
            if a[:1] == ("err",) and b[:1] == ("err",):
                if a[1:2] != b[1:2]:
                    ctx.bad("%s: fails with %s instead of %s" % (case["op"], fix(b, w1), fix(a, w0)))
            elif fix(a, w0) != fix(b, w1):
                ctx.bad("%s: gives %.300s instead of %.300s" % (case["op"], fix(b, w1), fix(a, w0)))
    d = M.diff_snap(s0, s1)
    if d:
        ctx.bad("%s: files differ from those of the absolute-path run: %s" % (case["op"], d[:4]))
    ctx.state(case["op"], case["form"], fix(r1, w1), sorted(s1))
