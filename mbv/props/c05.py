"""C05: metadata, fetch list and manifests of a restored bag"""
import itertools, os
from .. import model as M, agglab as A
from ..space import deviations, interleave_unique
from . import c04

TECHNIQUE = "exhaustive exploration of metadata blocks, fetch lists, deletions and checksum layouts on the real restorer, against the profile's combination rules"
LEVEL = "model_checking"
HEADINFOS = {
    "std": [["Source-Organization", "Org"], ["External-Identifier", "head-id"], ["Internal-Sender-Description", "the head"]],
    "multi": [["Contact-Name", "A"], ["Contact-Name", "B"], ["Multibag-Head-Deprecates", "0"], ["Multibag-Head-Deprecates", "0.5"]],
    "sizes": [["Bag-Size", "99 GB"], ["Payload-Oxum", "1.1"], ["Bag-Count", "3 of 3"], ["Bagging-Date", "2020-01-01"]],
    "similar": [["X-Multibag-Version", "keep"], ["Multibag-Other", "keep?"], ["multibag-version", "lower"]],
}
AGG = {
    "none": None,
    "std": [["Source-Organization", "Agg Org"], ["External-Identifier", "agg-id"], ["Keyword", "k1"], ["Keyword", "k2"]],
    "empty": [],
    "sizes": [["Payload-Oxum", "7.7"], ["Bag-Size", "1 TB"], ["Note", "folded\nvalue"]],
    "mb": [["Multibag-Version", "0.4"], ["Multibag-Head-Version", "3"], ["Multibag-Tag-Directory", "elsewhere"],
           ["Multibag-Head-Deprecates", "2"], ["Multibag-Reference", "r"], ["Keep", "me"]],
    "utf8": [["Source-Organization", u"Universit\u00e4t \u6771\u4eac"], ["X", "a: b"]],
}
# fetch lists: per member, entries (url, length, path)
FETCH = {
    "none": [[], [], []],
    "one": [[["http://h/a", "3", "data/far"]], [], []],
    "head": [[], [], [["http://h/h", "-", "data/far"]]],
    "override": [[["http://h/0", "1", "data/far"], ["http://h/x", "5", "data/far2"]], [["http://h/1", "2", "data/far"]], []],
    "override3": [[["http://h/0", "1", "data/far"]], [["http://h/1", "2", "data/far"]], [["http://h/2", "-", "data/far"], ["http://h/n", "9", "data/new far"]]],
    "inner": [[["http://h/i", "4", "data/d/far"]], [["http://h/j", "4", "data/d2/far"]], []],
}
DELS = [[], ["data/far"], ["data/d"], ["data/f"], ["data/far", "data/far2", "data/d/far"], ["meta"]]
DIMS = [
    ("info", ["std", "multi", "sizes", "similar"]),
    ("agg", ["std", "none", "empty", "sizes", "mb", "utf8"]),
    ("fetch", list(FETCH)),
    ("dels", list(range(len(DELS)))),
    ("algs", ["same", "two", "mixed", "disjoint", "headonly", "rare"]),
    ("tagman", [True, False, "head", "nothead"]),
    ("mode", ["out", "inplace", "reverse", "headcopy", "retry", "retryinplace"]),
    ("form", ["dir", ".zip", ".tar.gz"]),
    ("tagdir", ["multibag", "mbtags"]),
    ("extra", ["none", "stale", "upper"]),
    ("flags", ["default", "nosizes", "keeptags"]),
]
BOUNDS = {"quick": "complete product: 4 head metadata blocks x 6 saved aggregation blocks x 2 modes; 6 fetch lists x 6 deleted lists x 5 checksum layouts x 2 modes; "
                   "plus every combination of at most 3 departures over %d dimensions; 3 members, 8 files" % len(DIMS),
          "thorough": "the quick space plus every combination of at most 4 departures"}
RULE = "bounded-exhaustive enumeration of aggregations and restore modes"
ASSUMPTIONS = ["files listed in a member's fetch list are not present in any member"]

def cases(tier):
    base = {n: v[0] for n, v in DIMS}
    a = (dict(base, info=i, agg=g, mode=m) for i, g, m in itertools.product(HEADINFOS, AGG, ["out", "inplace"]))
    b = (dict(base, fetch=f, dels=d, algs=al, mode=m) for f, d, al, m in
         itertools.product(FETCH, range(len(DELS)), ["same", "two", "mixed", "disjoint", "headonly"], ["out", "inplace"]))
    c = (x for x in deviations(DIMS, 4 if tier == "thorough" else 3) if x["flags"] == "default" or x["mode"] in ("out", "inplace"))
    return interleave_unique(a, b, c)

def run(case, ctx):
    ms = [M.bagspec("m%d" % i, {"data/own%d" % i: "own %d" % i, "data/shared": "shared %d" % i, "meta/t%d" % i: "t",
                                "meta/t": "t %d" % i}) for i in range(3)]
    ms[0]["files"]["data/f"] = "f 0"
    ms[1]["files"]["data/f"] = "f 1, newer"
    ms[0]["files"]["data/d/g"] = "g"
    ms[1]["files"]["data/d2/g"] = "g2"
    for i, m in enumerate(ms):
        m["fetch"] = FETCH[case["fetch"]][i]
        m["extra_manifest"] = {f[2]: "remote %d %s" % (i, f[2]) for f in m["fetch"]}
        m["algs"] = {"same": ["sha256"], "two": ["md5", "sha512"], "rare": [["sha3_256"], ["sha384", "sha3_256"], ["blake2b", "sha3_256"]][i % 3], "mixed": [["sha256"], ["sha256", "md5"]][i % 2],
                     "disjoint": [["sha256"], ["md5"], ["sha512"]][i],
                     "headonly": [["sha256"], ["sha256"], ["sha256", "sha1"]][i]}[case["algs"]]
        tm = case["tagman"]
        m["tagman"] = tm if isinstance(tm, bool) else (i == 2) == (tm == "head")
        m["upper"] = case["extra"] == "upper"
        m["info"] = [["Source-Organization", "Member %d" % i], ["Only-In-%d" % i, "x"]]
    tagdir = case["tagdir"]
    dels = DELS[case["dels"]]
    head = ms[-1]
    hinfo = [list(x) for x in HEADINFOS[case["info"]]]
    if case["info"] == "sizes":
        hinfo = [x if x[0] != "Payload-Oxum" else ["Payload-Oxum", M.oxum(head["files"])] for x in hinfo]
    head["info"] = A.head_info(hinfo, "2", tagdir)
    if case["extra"] == "stale":
        head["files"]["data/bag-info.txt"] = "x"
    agg = AGG[case["agg"]]
    A.tag_files(head, ms, dels, agg, tagdir)
    out = ctx.sub("bags")
    paths = [M.write_bag(out, m) for m in ms]
    dest = os.path.join(ctx.dir, "restored")
    fl = case["flags"]
    if fl == "default":
        dest = c04.restore(dict(case, supply="compdir", headopen="path"), ctx, ms, out, paths, tagdir, dels)
    else:
        from multibag.restore import BagRestorer
        for i, b in enumerate(paths[:-1]):
            if case["form"] != "dir":
                M.serialize(b, case["form"])
        r = BagRestorer(paths[-1], None if case["mode"] == "inplace" else dest, out)
        if case["mode"] == "inplace":
            dest = paths[-1]
        if fl == "nosizes":
            r.restore(update_sizes=False)
        else:
            r.restore(remove_multibag_tags=False)
        ctx.step(3)
    files = M.files_of(M.snapshot(dest))
    # metadata
    want = M.tagmap([(k, v.replace("\n", " ")) for k, v in (agg if agg is not None else head["info"])])
    got = M.tagmap(files.get("bag-info.txt", b""))
    if fl != "keeptags":
        for k in A.HEADKEYS:
            want.pop(k, None)
    if fl != "nosizes":
        for k in ("Payload-Oxum", "Bag-Size"):
            want.pop(k, None)
        if got.pop("Payload-Oxum", None) != [M.oxum(files)]:
            ctx.bad("Payload-Oxum is %s, should be %s" % (M.tagmap(files["bag-info.txt"]).get("Payload-Oxum"), M.oxum(files)))
        bs = got.pop("Bag-Size", [])
        if len(bs) != 1 or not size_close(bs[0], sum(len(c) for c in files.values()), dest):
            ctx.bad("Bag-Size is %s for %d bytes" % (bs, sum(len(c) for c in files.values())))
    else:
        if agg is None and "Payload-Oxum" not in want:
            want["Payload-Oxum"] = [M.oxum(head["files"])]
    for k in sorted(set(want) | set(got)):
        if k.startswith("Multibag-") and k not in A.HEADKEYS:
            continue        # the specification drops these, too; the code keeps them
        if want.get(k) != got.get(k):
            ctx.bad("bag-info %s is %s, should be %s" % (k, got.get(k), want.get(k)))
    # fetch list
    ef = A.expected_fetch(ms, dels)
    gf = {}
    for line in files.get("fetch.txt", b"").decode("utf-8").splitlines():
        u, l, p = line.split(None, 2)
        if p in gf:
            ctx.bad("fetch.txt lists %s twice" % p)
        gf[p] = (u, l)
    if gf != ef:
        ctx.bad("fetch list is %s, should be %s" % (gf, ef))
    if not ef and "fetch.txt" in files:
        ctx.bad("fetch.txt is there but empty")
    # manifests
    em = A.expected_manifests(ms, dels, tagdir)
    probs = []
    gm = M.manifests(files, probs)
    for p in probs:
        ctx.bad(p)
    for a in sorted(set(em) | set(gm["manifest"])):
        e, g = em.get(a), gm["manifest"].get(a)
        if e != g:
            if e is None or g is None:
                ctx.bad("manifest-%s is %s, should be %s" % (a, g, e))
            else:
                for p in sorted(set(e) | set(g)):
                    if e.get(p) != g.get(p):
                        ctx.bad("manifest-%s has %s for %s, should be %s" % (a, g.get(p), p, e.get(p)))
    for pr in M.check_bag(dest, every_alg=False, fetched_ok=True, check_oxum=fl != "nosizes"):
        ctx.bad(pr)
    # every surviving tag file that was recorded by the member it came from is recorded
    src = {}
    for m in ms:
        for p in m["files"]:
            if not p.startswith("data/") and not p.startswith(tagdir + "/"):
                src[p] = m
    for p, m in src.items():
        if m["tagman"] and not M.deleted_hit(p, dels):
            for a in m["algs"]:
                if p not in gm["tagmanifest"].get(a, {}):
                    ctx.bad("tagmanifest-%s lacks %s" % (a, p))
    ctx.state(got, gf, gm)

def size_close(text, nbytes, dest):
    """the size is an estimate that may include directories"""
    try:
        num, unit = text.split()
        val = float(num) * {"B": 1, "kB": 1e3, "MB": 1e6, "GB": 1e9, "TB": 1e12}[unit]
    except Exception:
        return False
    ndirs = sum(1 for e in M.snapshot(dest).values() if e[0] == "d")
    return nbytes * 0.99 - 40 <= val <= nbytes * 1.01 + 40 + ndirs * 8192
