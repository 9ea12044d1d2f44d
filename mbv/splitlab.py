"""building source bags, splitting and restoring them with the real code"""
import logging, os, shutil
from . import model as M, shapes as S

def mb():
    import multibag
    return multibag

ALGSETS = {"sha256": ["sha256"], "md5": ["md5"], "two": ["sha256", "sha512"], "four": ["md5", "sha1", "sha256", "sha512"],
           "rare": ["sha3_256", "blake2b", "sha384"]}

MSTYLES = ["one", "tab", "star", "dot", "crlf", "notes", "bom"]

SRC_DIMS = [
    ("tree", ["std"] + [t for t in S.TREES if t != "std"]),
    ("info", ["std"] + [t for t in S.INFOS if t != "std"] + ["none"]),
    ("algs", ["sha256", "md5", "two", "four", "rare"]),
    ("ver", ["0.97", "1.0"]),
    ("tagman", [True, False]),
    ("upper", [False, True] + MSTYLES),
    ("srcname", ["src", "my src", "src.v1.bag", u"s\u00e9"]),
    ("fetch", ["none", "one", "several", "present"]),
]
# files the source leaves to be fetched (present: the file is also there already)
FETCH = {"none": [], "one": [["http://h.org/x", "3", "data/far/x"]],
         "several": [["http://h.org/1", "10", "data/far 1"], ["https://h.org/2?q=a#b", "-", u"data/b/\u00e9 far"], ["ftp://h.org/3", "0", "data/zz"]],
         "present": [["http://h.org/x", "3", "data/far/x"], ["http://h.org/y", "5", None]]}

SPLIT_DIMS = [
    ("how", ["wp", "nb", "plan1", "planN", "plancut", "planrev", "planghost"]),
    ("maxsize", [12, 1, 5, 60, 100, 66000, 10**9]),
    ("target", [None, 1, "same", "half", 10**9]),
    ("forhead", ["none", "first", "last", "slash", "two", "tag", "ghost"]),
    ("names", ["default", "base", "iter", "mbname", "apply"]),
    ("handle", ["path", "rw", "ro", "zip", "tar", "slashpath"]),
    ("hv", [None, "2", "1.0.3-beta"]),
]

def make_source(case, parent):
    """returns (spec, directory)"""
    spec = S.source(case.get("tree", "std"), "min" if case.get("info") == "none" else case.get("info", "std"),
                    ALGSETS[case.get("algs", "sha256")], case.get("ver", "0.97"), case.get("tagman", True),
                    case.get("srcname", "src"), noinfo=case.get("info") == "none", upper=case.get("upper", False))
    fetch = FETCH[case.get("fetch", "none")]
    if fetch:
        have = [p for p in sorted(spec["files"]) if p.startswith("data/") and "\n" not in p and p.strip() == p]
        fetch = [[f[0], f[1], f[2] or have[0]] for f in fetch if f[2] or have]
        spec["fetch"] = fetch
        spec["extra_manifest"] = {f[2]: "remote " + f[2] for f in fetch if f[2] not in spec["files"]}
    return spec, M.write_bag(parent, spec)

def fetch_list(files, present=True):
    """the entries of a bag's fetch.txt; present=False: only of files that are not in the bag"""
    out = []
    for line in files.get("fetch.txt", b"").decode("utf-8").split("\n"):
        if line.strip():
            e = line.strip().split(None, 2)
            if present or e[2] not in files:
                out.append(e)
    return out

def forhead_list(case, spec):
    pl = sorted(p for p in spec["files"] if p.startswith("data/"))
    tg = sorted(p for p in spec["files"] if not p.startswith("data/"))
    k = case.get("forhead", "none")
    if k == "none" or not pl:
        return None
    return {"first": pl[:1], "last": pl[-1:], "slash": ["/" + pl[0]], "two": [pl[0], "/" + pl[-1]],
            "tag": tg[:1] or pl[:1], "ghost": ["data/no/such"] + pl[:1]}[k]

def name_iter(base):
    i = 0
    while True:
        i += 1
        yield "%s-%03d" % (base, i)

def open_source(case, srcdir):
    """the source as the handle kind the case asks for"""
    h = case.get("handle", "path")
    if h == "path":
        return srcdir
    if h == "slashpath":
        return srcdir + "/"
    if h == "rw":
        from multibag.access.bagit import Bag
        return Bag(srcdir)
    if h == "ro":
        return mb().open_bag(srcdir)
    form = {"zip": ".zip", "tar": ".tar"}[h]
    arch = M.serialize(srcdir, form, keep=True, dest=os.path.join(os.path.dirname(srcdir), "ser-" + os.path.basename(srcdir) + form))
    return arch

def make_plan(case, spec, srcdir):
    """a plan made with the real code"""
    from multibag.split import SplitPlan, WellPackedSplitter, NeighborlySplitter
    how = case.get("how", "wp")
    mx = case.get("maxsize", 12)
    tg = case.get("target")
    if tg == "same":
        tg = mx
    elif tg == "half":
        tg = max(1, mx // 2)
    fh = forhead_list(case, spec)
    src = open_source(case, srcdir)
    nm = case.get("names", "default")
    if how in ("wp", "nb"):
        cls = WellPackedSplitter if how == "wp" else NeighborlySplitter
        sp = cls(mx, tg, fh)
        # splitters take the path to the bag's root directory
        path = srcdir + "/" if case.get("handle") == "slashpath" else srcdir
        nb = None if nm in ("default", "apply") else "base" if nm == "base" else name_iter("it" if nm == "iter" else "n.mbag") 
        return sp.plan(path, nb) if nb is not None else sp.plan(path)
    plan = SplitPlan(src)
    req = sorted(p for p in spec["files"])
    if how == "plan1":
        pass
    elif how == "planN":
        for i, p in enumerate(req):
            plan._manifests.append({"name": "hand_%d" % i, "contents": [p], "totalsize": 0})
    elif how == "plancut":
        h = len(req) // 2
        plan._manifests.append({"name": "hand_a", "contents": req[:h], "totalsize": 0})
        plan._manifests.append({"name": "hand_b", "contents": [], "totalsize": 0})
    elif how == "planghost":     # a plan may call for files that are not there
        plan._manifests.append({"name": "hand_a", "contents": req[:1] + ["data/no/such", "nosuch"], "totalsize": 0})
        plan._manifests.append({"name": "hand_b", "contents": ["data/ghost"] + req[1:], "totalsize": 0})
    elif how == "planrev":
        for i, p in enumerate(reversed(req)):
            if i % 2 == 0:
                plan._manifests.append({"name": "hand_%d" % i, "contents": [], "totalsize": 0})
            plan._manifests[-1]["contents"].append(p)
    plan.complete_plan()
    if not list(plan.manifests()):
        plan._manifests.append({"name": "hand_only", "contents": [], "totalsize": 0})
    if nm == "base":
        from multibag.split import SimpleNamer
        plan.name_output_bags(SimpleNamer("base"))
    elif nm in ("iter", "mbname"):
        plan.name_output_bags(name_iter("it" if nm == "iter" else "n.mbag"), reverse=(nm == "mbname"))
    return plan

def planned_names(case, plan):
    """the names the output bags are to get"""
    n = [m.get("name") for m in plan.manifests()]
    if case.get("names") == "apply":
        it = name_iter("ap")
        n = [next(it) for _ in n]
    return n

def apply_plan(plan, outdir, case=None, **kw):
    if case and case.get("hv"):
        plan.head_version = case["hv"]
    if case and case.get("names") == "apply":
        kw["logger"] = logging.getLogger("split")
        kw["naming_iter"] = name_iter("ap")
    return list(plan.apply_iter(outdir, **kw))

def dest_path(case, base):
    return os.path.join(base, case.get("destname", "restored"))
