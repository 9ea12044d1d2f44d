"""C17: converting a bag makes it a valid one-bag aggregation of itself"""
import os, shutil
from .. import model as M, agglab as A, shapes as S, splitlab as L
from ..space import deviations, interleave_unique, product
from .c06 import selected, ABOUT

TECHNIQUE = "exhaustive exploration of bag shapes x conversion settings (and repetition) on the real code, against an independent head-bag checker"
LEVEL = "model_checking"
DIMS = [
    ("tree", ["std"] + [t for t in S.TREES if t != "std"]),
    ("info", ["std"] + [t for t in S.INFOS if t != "std"] + ["none"]),
    ("algs", ["sha256", "md5", "two", "four", "rare"]),
    ("ver", ["0.97", "1.0"]),
    ("tagman", [True, False]),
    ("srcname", ["src", "my src", "src.v1.bag", u"s\u00e9"]),
    ("loc", ["abs", "slash", "rel", "dot", "cwd"]),
    ("version", ["1", "2.0", "v x", "0"]),
    ("pid", [None, "ark:/88434/x", "http://h/p?q=#1"]),
    ("how", ["func", "steps", "stepsrev", "incl", "excl", "tagdir", "comment", "append", "deeptagdir", "lookupfirst"]),
    ("repeat", [1, 2, 3]),
    ("prior", ["none", "head", "member", "oldagg", "left", "about", "deleted"]),
    ("after", ["none", "restore", "amend", "split"]),
]
BOUNDS = {"quick": "complete product: all %d source trees x 10 ways of converting x {once, twice}; plus every combination of at most 2 departures over %d dimensions" % (len(S.TREES), len(DIMS)),
          "thorough": "the quick space plus every combination of at most 3 departures"}
RULE = "bounded-exhaustive enumeration of bags and conversion options"
ASSUMPTIONS = ["the bag does not already use the directory named multibag for other purposes"]

def cases(tier):
    base = {n: v[0] for n, v in DIMS}
    d = dict(DIMS)
    a = (dict(base, **c) for c in product([("tree", d["tree"]), ("how", d["how"]), ("repeat", [1, 2])]))
    for c in interleave_unique(a, deviations(DIMS, 3 if tier == "thorough" else 2)):
        if c["info"] == "none" and c["prior"] != "none":
            continue
        yield c

def run(case, ctx):
    from multibag.amend import SingleMultibagMaker, make_single_multibag
    from multibag import validate_headbag, open_headbag
    out = ctx.sub("bags")
    spec = S.source(case["tree"], "min" if case["info"] == "none" else case["info"], L.ALGSETS[case["algs"]], case["ver"],
                    case["tagman"], case["srcname"], noinfo=case["info"] == "none")
    prior = case["prior"]
    how = case["how"]
    td = {"tagdir": "mbdir", "deeptagdir": "mb/the tags"}.get(how, "multibag")
    if prior == "head":         # an earlier conversion by someone else, with other settings
        spec["info"] = A.head_info(spec["info"], "old", td)
        A.tag_files(spec, [spec], (), None, td, entries=[[spec["name"], "old:id", "old comment", []]], lookup={"data/ghost": spec["name"]})
    elif prior == "deleted":    # it was the head of an aggregation from which files had been deleted
        spec["info"] = A.head_info(spec["info"], "old", td)
        A.tag_files(spec, [spec], ["data/gone", "data/a"], None, td, entries=["other", spec["name"]], lookup={"data/ghost": "other"})
    elif prior == "member":
        spec["info"] += [["Multibag-Version", "0.4"], ["Multibag-Reference", A.REF]]
    elif prior == "left":       # not (any more) a head bag, but with left-over tag files
        spec["info"] += [["Multibag-Version", "0.4"]]
        A.tag_files(spec, [spec], (), None, td, entries=["other", spec["name"]], lookup={"data/ghost": "other", "data/a.txt": "other", "metadata/ghost": spec["name"]})
    elif prior == "about":      # already described as a multibag, before another description
        spec["info"] = [["Internal-Sender-Description", "This bag %s." % ABOUT], ["Internal-Sender-Description", "something else"]] + \
                       [kv for kv in spec["info"] if kv[0] != "Internal-Sender-Description"]
    elif prior == "oldagg":     # it was the head of an older two-bag aggregation
        spec["info"] = A.head_info(spec["info"], "old", td, "0.3", ["older"])
        A.tag_files(spec, [spec], (), None, td, profver="0.3", entries=["other", spec["name"]],
                    lookup={"data/ghost": "other", "data/a.txt": "other"})
    bag = M.write_bag(out, spec)
    before = M.snapshot(bag)
    cwd = os.getcwd()
    loc = case["loc"]
    path = bag
    if loc == "slash":
        path = bag + "/"
    elif loc == "rel":
        os.chdir(out)
        path = spec["name"]
    elif loc == "dot":
        os.chdir(out)
        path = "./x/../" + spec["name"] + "/."
        os.mkdir("x")
    elif loc == "cwd":
        os.chdir(bag)
        path = "."
    pid, ver = case["pid"], case["version"]
    incl = excl = None
    comment = None
    snaps = []
    for n in range(case["repeat"]):
        if how == "func":
            make_single_multibag(path, ver, pid)
        else:
            mk = SingleMultibagMaker(path, td) if td != "multibag" else SingleMultibagMaker(path)
            if td != "multibag":
                mk.convert(ver, pid)
            elif how == "steps":
                mk.write_member_bags(pid)
                mk.write_file_lookup(trunc=True)
                mk.update_info(ver)
            elif how == "stepsrev":
                mk.update_info(ver)
                mk.write_file_lookup(trunc=True)
                mk.write_member_bags(pid)
                mk.update_info(ver)
            elif how == "lookupfirst":
                mk.write_file_lookup(trunc=True)
                mk.write_member_bags(pid)
                mk.update_info(ver)
            elif how == "incl":
                incl = ["data", "metadata", "README", "nosuch"]
                mk.write_member_bags(pid)
                mk.write_file_lookup(incl, trunc=True)
                mk.update_info(ver)
            elif how == "excl":
                excl = ["data/b", "data/x", "data/a"]
                mk.write_member_bags(pid)
                mk.write_file_lookup(None, excl, trunc=True)
                mk.update_info(ver)
            elif how == "comment":
                comment = "hello # there"
                mk.write_member_bags(pid, comment, "i1", "i2")
                mk.write_file_lookup(trunc=True)
                mk.update_info(ver)
            elif how == "append":
                incl = ["data", "metadata"]
                mk.write_member_bags(pid)
                mk.write_file_lookup(trunc=True)
                mk.write_file_lookup(["metadata"])
                mk.update_info(ver)
        ctx.step(3)
        snaps.append(M.snapshot(bag))
    os.chdir(cwd)
    snap = M.snapshot(bag)
    files = M.files_of(snap)
    if len(snaps) > 1 and prior == "none":
        for s in snaps:     # the order of manifest lines does not matter
            for p in s:
                if p.startswith("tagmanifest-"):
                    s[p] = ("f", repr(sorted(M.parse_manifest(s[p][1]).items())).encode())
        d = M.diff_snap(snaps[0], snaps[1])
        if d:
            ctx.bad("repeating the conversion changed the bag: %s" % d[:4])
    # untouched
    for p, e in before.items():
        if p.startswith(td + "/") or p == td or (e[0] == "f" and M.is_special(p) and not p.startswith("manifest-") and p != "bagit.txt"):
            continue
        if snap.get(p) != e:
            ctx.bad("%s was changed by the conversion" % p)
    for p in snap:
        if p not in before and not (p == td or td.startswith(p + "/") or p in (td + "/member-bags.tsv", td + "/file-lookup.tsv") or p == "bag-info.txt" or p.startswith("tagmanifest-")):
            ctx.bad("the conversion added %s" % p)
    for pr in M.check_bag(bag):
        ctx.bad("converted bag: " + pr)
    want = [(spec["name"], pid, ["i1", "i2"] if how == "comment" else [], comment)]
    got = [tuple(m) for m in M.parse_members(files.get(td + "/member-bags.tsv", b""))]
    if got != want:
        ctx.bad("members are %s, should be %s" % (got, want))
    bfiles = M.files_of(before)
    lk = {p: spec["name"] for p in selected(bfiles, incl, excl)}
    gl = M.parse_lookup(files.get(td + "/file-lookup.tsv", b""))
    if len(gl) != len(dict(gl)) or dict(gl) != lk:
        ctx.bad("lookup is %s, should be %s" % (gl, lk))
    gi = M.tagmap(files.get("bag-info.txt", b""))
    wi = M.tagmap([(k, v.replace("\n", " ")) for k, v in spec["info"]]) if case["info"] != "none" else {}
    for k in ("Bag-Size", "Bag-Count", "Payload-Oxum"):
        wi.pop(k, None)
    wi.update({"Multibag-Version": ["0.4"], "Multibag-Head-Version": [ver], "Multibag-Tag-Directory": [td]})
    wi["Multibag-Reference"] = gi.get("Multibag-Reference")
    for k in wi:
        if k == "Internal-Sender-Description":
            if [v for v in gi.get(k, []) if ABOUT not in v] != [v for v in wi[k] if ABOUT not in v]:
                ctx.bad("Internal-Sender-Description is %s" % gi.get(k))
        elif gi.get(k) != wi[k]:
            ctx.bad("bag-info %s is %s, should be %s" % (k, gi.get(k), wi[k]))
    if len([v for v in gi.get("Internal-Sender-Description", []) if ABOUT in v]) != 1:
        ctx.bad("Internal-Sender-Description is %s" % gi.get("Internal-Sender-Description"))
    extra = set(gi) - set(wi) - {"Bag-Size", "Payload-Oxum", "Internal-Sender-Description"}
    if extra:
        ctx.bad("bag-info got unexpected %s" % sorted(extra))
    if case["info"] != "none" or "Payload-Oxum" in gi:
        if gi.get("Payload-Oxum") != [M.oxum(files)]:
            ctx.bad("Payload-Oxum is %s, should be %s" % (gi.get("Payload-Oxum"), M.oxum(files)))
    try:
        from multibag.validate.headbag import HeadBagValidator
        from multibag.validate.base import ERROR
        res = HeadBagValidator(bag).validate(ERROR)
        for r in res.failed(ERROR):
            # which fields a bag-info.txt must have is the bag's business, not the conversion's
            if case["info"] in ("none", "min", "utf8", "multi", "fold", "sizes", "odd") and "Payload-Oxum" in (r.specification or "") + " ".join(r.comments or []):
                continue
            ctx.bad("converted bag fails head-bag validation: %s" % r)
    except Exception as ex:
        ctx.bad("head-bag validation failed: %s: %s" % (type(ex).__name__, ex))
    ctx.step()
    # afterwards
    if case["after"] == "restore":
        from multibag.restore import restore_bag
        dest = os.path.join(ctx.dir, "restored")
        restore_bag(bag, dest)
        rs = M.files_of(M.snapshot(dest))
        w = {p: c for p, c in bfiles.items() if not M.is_special(p) and not p.startswith(td + "/")}
        g = {p: c for p, c in rs.items() if not M.is_special(p)}
        if w != g:
            ctx.bad("restoring the converted bag: extra %s, missing or changed %s" % (sorted(set(g) - set(w)), sorted(p for p in w if w[p] != g.get(p))))
        for pr in M.check_bag(dest):
            ctx.bad("restored: " + pr)
    elif case["after"] == "amend":
        from multibag.amend import amend_bag_with
        new = M.write_bag(out, M.bagspec("newhead", {"data/n": "n"}))
        amend_bag_with(bag, new, "99")
        hb = open_headbag(new, True)
        if hb.member_bag_names != [spec["name"], "newhead"] or hb.lookup_file("data/n") != "newhead" or \
           any(hb.lookup_file(p) != b for p, b in lk.items() if p != "data/n"):
            ctx.bad("amending the converted bag gives members %s" % hb.member_bag_names)
        dep = M.tagmap(M.files_of(M.snapshot(new))["bag-info.txt"]).get("Multibag-Head-Deprecates")
        if dep != (["older"] if prior == "oldagg" else []) + [ver]:
            ctx.bad("amending the converted bag records deprecated versions %s" % dep)
    elif case["after"] == "split":
        from multibag.split import SplitPlan, WellPackedSplitter
        from multibag.restore import restore_bag
        so = ctx.sub("split")
        bags = list(WellPackedSplitter(20).plan(bag).apply_iter(so))
        dest = os.path.join(ctx.dir, "restored")
        restore_bag(bags[-1], dest, so)
        w = {p: c for p, c in bfiles.items() if not M.is_special(p) and not p.startswith(td + "/")}
        g = {p: c for p, c in M.files_of(M.snapshot(dest)).items() if not M.is_special(p)}
        if w != g:
            ctx.bad("splitting and restoring the converted bag: extra %s, missing or changed %s" % (sorted(set(g) - set(w)), sorted(p for p in w if w[p] != g.get(p))))
    ctx.state(got, sorted(gl), sorted(gi.items()))
