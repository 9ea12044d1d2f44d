"""C02: the output of a split is a partition of the source with a truthful head bag"""
import os
from .. import model as M, splitlab as L, agglab as A, shapes as S
from ..space import deviations, product, interleave_unique

TECHNIQUE = "exhaustive exploration of source shapes x split settings on the real code; every output bag judged by an independent BagIt and multibag checker"
LEVEL = "model_checking"
DIMS = L.SRC_DIMS + L.SPLIT_DIMS
BOUNDS = {"quick": "all source trees (8 of them also as the head bag of an existing aggregation, with 4 lookups x 2 tag directories x 4 source forms) x 7 split methods x 7 size limits x 2 checksum sets; every combination of at most 2 departures over %d dimensions" % len(DIMS),
          "thorough": "the quick space plus every combination of at most 3 departures over %d dimensions" % len(DIMS)}
RULE = "bounded-exhaustive enumeration of source bag and split settings"
ASSUMPTIONS = ["names permitted by the profile, UTF-8 tag files", "files the source leaves to be fetched are passed on to the head bag"]
HEADDIMS = [("tree", ["std", "prefix", "special", "spaces", "unicode", "zeros", "tagonly", "one"]), ("how", ["wp", "nb", "plan1", "planN", "plancut", "planrev"]),
            ("handle", ["path", "rw", "ro", "zip"]), ("td", ["multibag", "mbt"]), ("look", ["own", "stale", "tags", "none"]), ("dele", [0, 1])]

def cases(tier):
    dims = dict(DIMS)
    base = {n: v[0] for n, v in DIMS}
    a = (dict(base, **c) for c in product([("tree", dims["tree"]), ("how", dims["how"]), ("maxsize", dims["maxsize"]),
                                           ("algs", ["sha256", "two"])]))
    h = (dict(c, headsrc=True, maxsize=12) for c in product(HEADDIMS)
         if tier == "thorough" or c["tree"] in ("std", "prefix") or c["handle"] == "path" or (c["td"] == "mbt" and c["look"] == "stale"))
    return interleave_unique(a, deviations(DIMS, 3 if tier == "thorough" else 2), h)

TAGS = ("member-bags.tsv", "file-lookup.tsv", "deleted.txt", "aggregation-info.txt")

def run_head(case, ctx):
    """the source is the head bag of an aggregation: its bags take its place in it"""
    src, out = ctx.sub("src"), ctx.sub("out")
    td = case["td"]
    spec = S.source(case["tree"], "std")
    spec["files"] = dict(spec["files"])
    own = [p for p in spec["files"] if p.startswith("data/") or case["look"] == "tags"]
    look = {"data/from1": "old1", "data/from2": "old2", "meta/from1": "old1"}
    look.update((p, "old1" if case["look"] == "stale" else "src") for p in own)
    dele = ["data/gone", "data/from1"] if case["dele"] else []
    spec["info"] = A.head_info(spec["info"], "3", td, "0.4", ["2", "1,old2"])
    A.tag_files(spec, [], dele, None, td, entries=["old1", ["old2", "ark:/2", "note", []], "src"], lookup=look)
    spec["files"][td + "/extra.txt"] = "not a multibag tag file"
    if case["look"] == "none":
        del spec["files"][td + "/file-lookup.tsv"]
        look = {}
    srcdir = M.write_bag(src, spec)
    snap = M.snapshot(srcdir)
    plan = L.make_plan(case, spec, srcdir)
    planned = L.planned_names(case, plan)
    bags = L.apply_plan(plan, out, case)
    ctx.step(2)
    if M.snapshot(srcdir) != snap:
        ctx.bad("the source was changed: %s" % M.diff_snap(snap, M.snapshot(srcdir))[:3])
    snap = {p: e for p, e in snap.items() if p not in [td + "/" + f for f in TAGS]}
    check_output(ctx, snap, bags, out, planned, dict(look=look, members=["old1", "old2"], dele=dele))
    ctx.state(sorted(case.items()), [sorted(M.snapshot(b)) for b in bags])

def run(case, ctx):
    if case.get("headsrc"):
        return run_head(case, ctx)
    src = ctx.sub("src")
    out = ctx.sub("out")
    spec, srcdir = L.make_source(case, src)
    snap = M.snapshot(srcdir)
    plan = L.make_plan(case, spec, srcdir)
    planned = L.planned_names(case, plan)
    bags = L.apply_plan(plan, out, case)
    ctx.step(2)
    check_output(ctx, snap, bags, out, planned, version=case["hv"] or "1")
    ctx.state(sorted(case.items()), [sorted(M.snapshot(b)) for b in bags])

def check_output(ctx, snap, bags, out, planned=None, agg=None, version=None):
    before = M.files_of(snap)
    srcman = M.manifests(before)
    todo = {p: c for p, c in before.items() if not M.is_special(p)}
    edirs = M.empty_dirs(snap) - {"data"}
    where, dirwhere = {}, {}
    fetch = L.fetch_list(before, False)
    ctx.expect(len(bags) > 0, "no output bags")
    for b in bags:
        if os.path.dirname(os.path.abspath(b)) != os.path.abspath(out) or not os.path.isdir(b):
            ctx.bad("output %s is not a directory directly below the output directory" % b)
            return
    names = [os.path.basename(b) for b in bags]
    ctx.expect(len(set(names)) == len(names), "output names repeat: %s" % names)
    ctx.expect(sorted(os.listdir(out)) == sorted(names), lambda: "output directory holds %s, returned %s" % (sorted(os.listdir(out)), sorted(names)))
    if planned is not None:
        ctx.expect(planned == names, "names differ from the plan: %s" % names)
    for i, b in enumerate(bags):
        ishead = i == len(bags) - 1
        s = M.snapshot(b)
        files = M.files_of(s)
        nm = names[i]
        for pr in M.check_bag(b, fetched_ok=ishead):
            ctx.bad("bag %s: %s" % (nm, pr))
        man = M.manifests(files)
        if ishead:
            ctx.expect(sorted(L.fetch_list(files)) == sorted(fetch), "the head bag's fetch list is %s, the source's %s" % (L.fetch_list(files), fetch))
            for e in fetch:
                for alg, ents in srcman["manifest"].items():
                    if man["manifest"].get(alg, {}).get(e[2]) != ents.get(e[2]):
                        ctx.bad("%s checksum of %s, which is to be fetched, not carried over" % (alg, e[2]))
        if set(man["manifest"]) != set(srcman["manifest"]):
            ctx.bad("bag %s has manifests %s, source has %s" % (nm, sorted(man["manifest"]), sorted(srcman["manifest"])))
        if files.get("bagit.txt") != before["bagit.txt"]:
            ctx.bad("bag %s: bagit.txt differs from the source's" % nm)
        for p, c in files.items():
            if p in todo:
                where.setdefault(p, []).append(nm)
                if c != todo[p]:
                    ctx.bad("%s in %s differs from the source" % (p, nm))
                kind = "manifest" if p.startswith("data/") else "tagmanifest"
                for alg, ents in srcman[kind].items():
                    if p in ents and man[kind].get(alg, {}).get(p) != ents[p]:
                        ctx.bad("bag %s: %s checksum of %s not carried over" % (nm, alg, p))
            elif M.is_special(p) and (p != "fetch.txt" or (ishead and fetch)):
                pass
            elif ishead and p in ("multibag/member-bags.tsv", "multibag/file-lookup.tsv", "multibag/aggregation-info.txt"):
                pass
            elif ishead and agg and agg["dele"] and p == "multibag/deleted.txt":
                pass
            else:
                ctx.bad("bag %s has a file the source does not have: %s" % (nm, p))
        for d in M.empty_dirs(s) - {"data"}:
            if d not in edirs:
                ctx.bad("bag %s has an empty directory the source does not have: %s" % (nm, d))
            dirwhere.setdefault(d, []).append(nm)
        if "bag-info.txt" not in files:
            ctx.bad("bag %s has no bag-info.txt" % nm)
            continue
        info = M.tagmap(files["bag-info.txt"])
        if len(info.get("Multibag-Version", [])) != 1 or info["Multibag-Version"][0] != "0.4":
            ctx.bad("bag %s: Multibag-Version is %s" % (nm, info.get("Multibag-Version")))
        srcinfo = M.tagmap(before.get("bag-info.txt", b""))
        if "Payload-Oxum" in srcinfo and info.get("Payload-Oxum") != [M.oxum(files)]:
            ctx.bad("bag %s: Payload-Oxum %s, should be %s" % (nm, info.get("Payload-Oxum"), M.oxum(files)))
        heady = [k for k in info if k in ("Multibag-Head-Version", "Multibag-Head-Deprecates", "Multibag-Tag-Directory")]
        if not ishead and (heady or any("multibag/" + f in s for f in TAGS) or (not agg and "multibag" in s)):
            ctx.bad("bag %s is not the head but has %s" % (nm, heady or "a multibag directory"))
        if ishead:
            if version and info.get("Multibag-Head-Version") != [version]:
                ctx.bad("head version is %s, the plan says %s" % (info.get("Multibag-Head-Version"), version))
            check_head(ctx, b, files, info, names if not agg else agg["members"] + names)
    for p in todo:
        if len(where.get(p, [])) != 1:
            ctx.bad("%s ended up in %s" % (p, where.get(p, "no bag")))
    for d in edirs:
        if len(dirwhere.get(d, [])) != 1:
            ctx.bad("empty directory %s ended up in %s" % (d, dirwhere.get(d, "no bag")))
    head = M.files_of(M.snapshot(bags[-1]))
    lk = M.parse_lookup(head.get("multibag/file-lookup.tsv", b""))
    if len(lk) != len(dict(lk)):
        ctx.bad("file lookup lists a path twice")
    real = {p: w[0] for p, w in where.items()}
    if agg:
        if sorted(M.parse_deleted(head.get("multibag/deleted.txt", b""))) != sorted(agg["dele"]):
            ctx.bad("deleted paths are %s, the aggregation's were %s" % (M.parse_deleted(head.get("multibag/deleted.txt", b"")), agg["dele"]))
        real = dict(agg["look"], **real)
    if dict(lk) != real:
        diff = {p: (dict(lk).get(p), real.get(p)) for p in set(real) | set(dict(lk)) if dict(lk).get(p) != real.get(p)}
        ctx.bad("file lookup is wrong (listed, real): %s" % diff)
    # the same through the library
    from multibag import open_headbag, validate_headbag
    hb = open_headbag(bags[-1])
    ctx.step(2)
    for p, w in real.items():
        if hb.lookup_file(p) != w:
            ctx.bad("lookup_file(%r) gives %r, should be %r" % (p, hb.lookup_file(p), w))
    if fetch:
        return      # not complete before they are fetched
    try:
        validate_headbag(bags[-1])
    except Exception as ex:
        ctx.bad("head bag does not validate: %s" % ex)

def check_head(ctx, b, files, info, names):
    if len(info.get("Multibag-Head-Version", [])) != 1:
        ctx.bad("head bag: Multibag-Head-Version is %s" % info.get("Multibag-Head-Version"))
    if "multibag/member-bags.tsv" not in files or "multibag/file-lookup.tsv" not in files:
        ctx.bad("head bag lacks its multibag files")
        return
    mem = M.parse_members(files["multibag/member-bags.tsv"])
    if [m[0] for m in mem] != names:
        ctx.bad("member list is %s, bags produced: %s" % ([m[0] for m in mem], names))
