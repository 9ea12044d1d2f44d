"""C21: source metadata is passed on to split bags"""
import itertools, os
from .. import model as M, shapes as S, splitlab as L, agglab as A
from ..space import subsets, interleave_unique

TECHNIQUE = "exhaustive enumeration of metadata block sets x withheld lists x split settings on the real code, against a reference mapping"
LEVEL = "model_checking"
FIELDS = {
    "org": [["Source-Organization", "Org"]],
    "isi": [["Internal-Sender-Identifier", "sid"]],
    "isi2": [["Internal-Sender-Identifier", "sid1"], ["Internal-Sender-Identifier", "sid2"]],
    "isd": [["Internal-Sender-Description", "d1"]],
    "isd2": [["Internal-Sender-Description", "d1"], ["Internal-Sender-Description", "d2 longer"]],
    "ext": [["External-Identifier", "ark:/1/e"]],
    "ext2": [["External-Identifier", "ark:/1/e"], ["External-Identifier", "doi:10/2"]],
    "grp": [["Bag-Group-Identifier", "g1"]],
    "size": [["Bag-Size", "1.2 kB"]],
    "oxum": [["Payload-Oxum", None]],
    "mb": [["Multibag-Version", "0.3"], ["Multibag-Reference", "r"]],
    "head": [["Multibag-Version", "0.4"], ["Multibag-Head-Version", "7"], ["Multibag-Tag-Directory", "multibag"], ["Multibag-Head-Deprecates", "6"]],
    "multi": [["Contact-Name", "A"], ["Keyword", "k1"], ["Contact-Name", "B"], ["Keyword", "k2"], ["Contact-Name", "A"]],
    "odd": [["X-Empty", ""], ["x-multibag-like", "v"], ["Note", "a: b: c"], [u"Pr\u00e9nom", u"Zo\u00eb \u6570"]],
    "fold": [["External-Description", "long text\nfolded over\nlines"]],
    "date": [["Bagging-Date", "2020-01-01"], ["Bag-Count", "1 of 1"]],
    "srcish": [["Multibag-Source-External-Identifier", "from an earlier split"]],
}
NOPASS = [None, [], ["Source-Organization"], ["External-Identifier"], ["Internal-Sender-Identifier", "Bag-Size"], ["Payload-Oxum"],
          ["Contact-Name", "Nosuch"], ["Internal-Sender-Description", "Bag-Group-Identifier"], ["Contact", "Source", "Bag", "External", "Keyword-", "Multibag-Version"], "tuple", "set"]
BOUNDS = {"quick": "all sets of up to 2 of %d metadata blocks (in both orders) x %d withheld lists; all blocks together x 6 split methods x 4 source forms x withheld lists; 4 split methods x 4 ways of naming; all source trees x 4 split methods" % (len(FIELDS), len(NOPASS)),
          "thorough": "all sets of up to 3 of %d metadata blocks (in both orders) x %d withheld lists" % (len(FIELDS), len(NOPASS))}
RULE = "bounded-exhaustive enumeration of source metadata and options"
ASSUMPTIONS = []
EXCL = [("isi", "isi2"), ("isd", "isd2"), ("ext", "ext2"), ("mb", "head")]
SPLITTEXT = "part of a Multibag aggregation"

def ok(fs):
    return not any(a in fs and b in fs for a, b in EXCL)

def cases(tier):
    def gen():
        for fs in subsets(list(FIELDS), 0, 3 if tier == "thorough" else 2):
            if ok(fs):
                for order in ([fs, fs[::-1]] if len(fs) > 1 else [fs]):
                    yield {"fields": order, "how": "plancut", "handle": "path", "nopass": list(range(len(NOPASS)))}
        for drop in range(2):
            allf = [f for f in FIELDS if f not in ([a for a, b in EXCL] if drop else [b for a, b in EXCL])]
            for how in ("wp", "nb", "plan1", "planN", "plancut", "planrev"):
                for h in ("path", "ro", "zip", "tar"):
                    yield {"fields": allf, "how": how, "handle": h, "nopass": list(range(len(NOPASS)))}
            for how in ("wp", "nb", "plan1", "planN"):
                for naming in ("iter", "short", "named", "nameddict"):
                    yield {"fields": allf, "how": how, "handle": "path", "nopass": [0, 5], "naming": naming}
        for tree in S.TREES:
            for how in ("wp", "nb", "plan1", "plancut"):
                yield {"fields": ["oxum", "size", "ext"], "how": how, "handle": "path", "nopass": [0], "tree": tree}
    return gen()

def run(case, ctx):
    info = []
    spec = S.source(case.get("tree", "std"), "min")
    for f in case["fields"]:
        for k, v in FIELDS[f]:
            info.append([k, M.oxum(spec["files"]) if v is None else v])
    spec["info"] = info
    src = M.write_bag(ctx.sub("src"), spec, with_oxum=False)
    if "head" in case["fields"]:
        spec["files"].update({"multibag/member-bags.tsv": "src\n", "multibag/file-lookup.tsv": "data/a.txt\tsrc\n"})
        for p in ("multibag/member-bags.tsv", "multibag/file-lookup.tsv"):
            M.put(os.path.join(src, p), M.content(spec["files"][p]))
        M.write_tagmanifests(src, spec["algs"])
    srcfiles = M.files_of(M.snapshot(src))
    for k in case["nopass"]:
        np = NOPASS[k]
        np = ("Source-Organization", "Keyword") if np == "tuple" else {"Bag-Size", "Keyword"} if np == "set" else np
        plan = L.make_plan({"how": case["how"], "handle": case["handle"], "maxsize": 30}, spec, src)
        out = ctx.sub("out%d" % k)
        naming = case.get("naming")
        nit = None
        n = len(list(plan.manifests()))
        if naming == "iter":
            nit = iter("part %d of x" % j for j in range(n))
        elif naming == "short":
            nit = iter("part %d of x" % j for j in range(n - 1))
        elif naming == "named":
            plan.name_output_bags(iter("named.%d" % j for j in range(n)))
        elif naming == "nameddict":     # both: the sequence given last counts
            plan.name_output_bags(iter("named.%d" % j for j in range(n)))
            nit = iter("later.%d" % j for j in range(n))
        given = list(np) if isinstance(np, list) else np
        bags = list(plan.apply_iter(out, nit, info_nopass=given))
        ctx.step(len(bags))
        if given != np:
            ctx.bad("the caller's list of withheld fields was changed: %s" % given)
        for i, b in enumerate(bags):
            files = M.files_of(M.snapshot(b))
            check(ctx, np or (), info, files, os.path.basename(b), i == len(bags) - 1, k)
            if i == len(bags) - 1:
                agg = files.get("multibag/aggregation-info.txt")
                if agg is None or M.parse_tags(agg) != M.parse_tags(srcfiles["bag-info.txt"]):
                    ctx.bad("saved aggregation metadata is %r, source has %r" % (agg, srcfiles["bag-info.txt"]))
            elif "multibag/aggregation-info.txt" in files:
                ctx.bad("a bag other than the head stores the aggregation metadata")
            ctx.state(files.get("bag-info.txt"))
        ctx.trace()
        if M.files_of(M.snapshot(src)) != srcfiles:
            ctx.bad("the source was changed")

def check(ctx, nopass, info, files, name, ishead, k):
    want = {}
    def add(n, v):
        want.setdefault(n, []).append(v)
    srcmap = {}
    for n, v in info:
        srcmap.setdefault(n, []).append(v)
    for n, vals in srcmap.items():
        if n.startswith("Multibag-") or n in nopass:
            continue
        if n == "Internal-Sender-Identifier":
            add(n, name)
            want["Multibag-Source-" + n] = vals
        elif n == "Internal-Sender-Description":
            want["Multibag-Source-" + n] = vals
        elif n == "External-Identifier":
            want["Multibag-Source-" + n] = vals
            add(n, vals[0] + "/mbag:" + name)
            for v in vals:
                add("Bag-Group-Identifier", v)
        elif n == "Bag-Size":
            want["Multibag-Source-" + n] = vals
        elif n == "Payload-Oxum":
            add(n, M.oxum(files))
        else:
            for v in vals:
                add(n, v)
    add("Multibag-Version", "0.4")
    if ishead:
        add("Multibag-Head-Version", "1")
        add("Multibag-Tag-Directory", "multibag")
    want = M.tagmap([(n, v.replace("\n", " ")) for n, vs in want.items() for v in vs])
    got = M.tagmap(files.get("bag-info.txt", b""))
    for n in sorted(set(want) | set(got)):
        if n == "Internal-Sender-Description":
            if n in srcmap and n not in nopass:
                if len(got.get(n, [])) != 1 or SPLITTEXT not in got[n][0]:
                    ctx.bad("bag %s (withheld %s): %s is %s" % (name, k, n, got.get(n)))
                continue
        if n == "Bag-Group-Identifier" and sorted(want.get(n, [])) == sorted(got.get(n, [])):
            continue
        if want.get(n) != got.get(n):
            ctx.bad("bag %s (withheld %s): %s is %s, should be %s" % (name, k, n, got.get(n), want.get(n)))
