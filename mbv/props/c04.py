"""C04: restoring is a last-member-wins overlay minus the deleted paths"""
import itertools, os, shutil
from .. import model as M, agglab as A
from ..space import deviations, interleave_unique

TECHNIQUE = "exhaustive exploration of presence/deletion patterns over the members of an aggregation x restore settings on the real code, against a reference overlay"
LEVEL = "model_checking"
PATS = ["", "0", "1", "2", "01", "02", "12", "012"]
TPATS = ["", "0", "02", "1"]
DELS = [[], ["data/f"], ["data/d/g"], ["data/d"], ["meta/t"], ["meta"], ["data/f", "data/d"], ["data"],
        ["data/f", "data/f", "nosuch/file", "data/d/g/h"], ["data/e"]]
DIMS = [
    ("mode", ["out", "inplace", "forward", "reverse", "headcopy", "headcopybag", "retry", "retrylast", "retryinplace"]),
    ("form", ["dir", ".zip", ".tar", ".tar.gz", ".tar.bz2", ".tgz", "mixed"]),
    ("supply", ["compdir", "defdir", "fetcher", "fetchcache"]),
    ("names", ["std", "space", "dots", "uni", "order"]),
    ("tagdir", ["multibag", "mbtags", "meta.mb/deep"]),
    ("algs", ["same", "mixed", "two", "disjoint", "rare"]),
    ("nmem", [3, 1, 2, 4, 7, 12]),
    ("tagman", [True, False, "head", "nothead"]),
    ("profver", ["0.4", "0.3", "0.2"]),
    ("headopen", ["path", "slash", "handle", "ro", "ser"]),
    ("dels", [0, 1, 2, 3, 4, 5, 6, 7, 8, 9]),
    ("pat", ["std", "all", "rev", "chain", "headonly", "nothead", "empty", "big", "specialnames", "emptied"]),
    ("bagver", ["0.97", "1.0", "mixed"]),
    ("oldhead", [False, True, "deleted"]),
    ("headlast", [True, "unlisted"]),
    ("nofinalnl", [False, True]),
]
NAMES = {"std": "m%d", "space": "my bag %d", "dots": "m.v%d.bag", "uni": u"b\u00e9-%d", "order": None}
BOUNDS = {"quick": "complete product: 8 presence patterns of a file x 8 of a nested file x 4 of a tag file over 3 members x %d deleted lists x {new bag, in place}; "
                   "plus every combination of at most 2 departures over %d dimensions (up to 12 members)" % (len(DELS), len(DIMS)),
          "thorough": "the quick space plus every combination of at most 3 departures over %d dimensions" % len(DIMS)}
RULE = "bounded-exhaustive enumeration of aggregations and restore modes"
ASSUMPTIONS = ["no path is a file in one member and a directory in another",
               "old head bags among the members use the aggregation's tag directory"]

def cases(tier):
    def prod():
        for p1, p2, t, d, m in itertools.product(PATS, PATS, TPATS, range(len(DELS)), ["out", "inplace"]):
            yield {"k": "prod", "p1": p1, "p2": p2, "t": t, "dels": d, "mode": m}
    def dev():
        for c in deviations(DIMS, 3 if tier == "thorough" else 2):
            if c["mode"] in ("inplace", "retryinplace") and c["headopen"] in ("ro", "ser"):
                continue
            if c["profver"] == "0.2" and c["names"] == "space":
                continue        # not expressible in the old format
            if c["headlast"] == "unlisted" and (c["mode"] in ("forward", "reverse") or c["nmem"] == 1):
                continue
            if c["mode"] in ("forward", "reverse") and (c["headopen"] == "ser" or c["supply"] != "compdir"):
                continue
            if c["mode"].startswith("retry") and c["supply"] not in ("compdir", "defdir"):
                continue
            c["k"] = "dev"
            yield c
    return interleave_unique(prod(), dev())

def base_members(n, names):
    return [M.bagspec((NAMES[names] % i) if NAMES[names] else "zyxwvutsrqpon"[i], {}, []) for i in range(n)]

def build(case):
    if case["k"] == "prod":
        ms = base_members(3, "std")
        for i, m in enumerate(ms):
            s = str(i)
            if s in case["p1"]:
                m["files"]["data/f"] = "f from " + s
            if s in case["p2"]:
                m["files"]["data/d/g"] = "g from " + s
            if s in case["t"]:
                m["files"]["meta/t"] = "t from " + s
        ms[0]["files"].update({"data/f2": "f2", "data/dd/k": "k", "data/d.g": "x", "metaX": "mx"})
        ms[1]["dirs"].append("data/e")
        return ms
    n = case["nmem"]
    ms = base_members(n, case["names"])
    pat = case["pat"]
    for i, m in enumerate(ms):
        f = m["files"]
        if pat == "std":
            f["data/own%d" % i] = "own %d" % i
            if i != 1:
                f["data/f"] = "f %d" % i
            if i < 2:
                f["data/d/g"] = "g %d" % i
            if i == n - 1 or i == 0:
                f["meta/t"] = "t %d" % i
            if i == 0:
                m["dirs"].append("data/e")
        elif pat == "all":
            for p in ("data/f", "data/d/g", "data/d/h/i", "meta/t", "README"):
                f[p] = "%s %d" % (p, i)
        elif pat == "rev":
            f["data/f%d" % (n - i)] = "r"
            f["data/f"] = "f" * (n - i)
        elif pat == "chain":
            f["data/c%d" % i] = "new %d" % i
            f["data/c%d" % (i + 1)] = "next %d" % i
        elif pat == "headonly":
            if i == n - 1:
                f.update({"data/f": "h", "data/d/g": "hh", "meta/t": "ht"})
        elif pat == "nothead":
            if i < n - 1:
                f.update({"data/f": "n%d" % i, "data/d/g%d" % i: "nn", "meta/t%d" % i: "nt", "data/d/g": "G%d" % i})
        elif pat == "empty":
            m["dirs"] += ["data/e%d/x" % i, "tope", "data/e"]
            if i == 0:
                m["dirs"].append("data/filled")
            if i == n - 1:
                f["data/filled/in"] = "filled"
            f["data/z%d" % (i % 2)] = "" if i % 2 else "n"
        elif pat == "emptied":
            f["data/x"] = "" if i % 2 else "x %d" % i
            f["data/y"] = "y %d" % i if i % 2 else ""
            f["data/first"] = "" if i == 0 else "now filled %d" % i
            f["data/last"] = "" if i == n - 1 else "not yet emptied %d" % i
            f["meta/last"] = "" if i == n - 1 else "not yet emptied %d" % i
        elif pat == "big":
            f["data/big"] = [65536 * 3 + i, "big%d" % i]
            f["data/d/same"] = "same everywhere"
        elif pat == "specialnames":
            f["data/bag-info.txt"] = "payload %d" % i
            f["data/manifest-md5.txt"] = "m %d" % i
            f["data/multibag/member-bags.tsv"] = "p %d" % i
            f["meta/fetch.txt"] = "mf %d" % i
            f["data/multibag/_membercache/x"] = "x"
            f[u"data/\u00fc n.txt"] = "u %d" % i
    al = case["algs"]
    for i, m in enumerate(ms):
        m["algs"] = {"same": ["sha256"], "two": ["md5", "sha512"], "rare": [["sha3_256"], ["sha384", "sha3_256"], ["blake2b", "sha3_256"]][i % 3], "mixed": [["sha256"], ["sha256", "md5"]][i % 2],
                     "disjoint": [["sha256"], ["md5"], ["sha512"]][i % 3]}[al]
        tm = case["tagman"]
        m["tagman"] = tm if isinstance(tm, bool) else (i == n - 1) == (tm == "head")
        m["ver"] = case["bagver"] if case["bagver"] != "mixed" else ["1.0", "0.97"][i % 2]
    return ms

def make(case, ctx):
    """writes the aggregation; returns (specs, directory, dict of paths)"""
    ms = build(case)
    dels = DELS[case["dels"]]
    tagdir = case.get("tagdir", "multibag")
    out = ctx.sub("bags")
    head = ms[-1]
    pv = case.get("profver", "0.4")
    if case.get("oldhead"):
        for i, m in enumerate(ms[:-1]):
            m["info"] = A.head_info(m["info"], str(i), tagdir, pv)
            A.tag_files(m, ms[:i + 1], ["data/f", "data/own0"] if case["oldhead"] == "deleted" else (), None, tagdir, pv)
    head["info"] = A.head_info(head["info"], "9", tagdir, pv)
    entries = [m["name"] for m in ms]
    if case.get("headlast") == "unlisted":
        entries = entries[:-1]
    A.tag_files(head, ms, dels, None, tagdir, pv, entries=entries)
    if case.get("nofinalnl"):
        for p in list(head["files"]):
            if p.startswith(tagdir + "/"):
                head["files"][p] = head["files"][p].rstrip("\n")
    paths = [M.write_bag(out, m) for m in ms]
    return ms, out, paths, dels, tagdir

def run(case, ctx):
    ms, out, paths, dels, tagdir = make(case, ctx)
    dest = restore(case, ctx, ms, out, paths, tagdir, dels)
    snap = A.check_restored(ctx, dest, ms, dels, tagdir)
    ctx.state(sorted((p, e) for p, e in snap.items() if not M.is_special(p)))

def restore(case, ctx, ms, out, paths, tagdir, dels):
    from multibag.restore import restore_bag, BagRestorer
    from multibag.access.multibag import open_headbag, HeadBag
    from multibag.access.bagit import Bag
    form = case.get("form", "dir")
    where = {}
    for i, b in enumerate(paths[:-1]):
        f = (["dir"] + M.FORMS)[(i + 1) % 6] if form == "mixed" else form
        where[ms[i]["name"]] = b if f == "dir" else M.serialize(b, f)
    sup = case.get("supply", "compdir")
    kw = {}
    if sup == "compdir":
        kw["compdir"] = out
    elif sup in ("fetcher", "fetchcache"):
        remote = ctx.sub("remote")
        for n in list(where):
            p = os.path.join(remote, os.path.basename(where[n]))
            shutil.move(where[n], p)
            where[n] = p
        def fetch(name, cache):
            src = where[name]
            p = os.path.join(cache, os.path.basename(src))
            (shutil.copytree if os.path.isdir(src) else shutil.copy)(src, p)
            return p
        kw["fetcher"] = fetch
        if sup == "fetchcache":
            kw["compdir"] = ctx.sub("cache")
    before = {n: M.snap_any(p) for n, p in where.items()}
    head = paths[-1]
    ho = case.get("headopen", "path")
    h = head
    if ho == "slash":
        h = head + "/"
    elif ho == "handle":
        h = HeadBag(head)
    elif ho == "ro":
        h = open_headbag(head, True)
    elif ho == "ser":
        h = M.serialize(head, ".zip", keep=False)
    mode = case["mode"]
    dest = os.path.join(ctx.dir, "restored")
    if mode == "out":
        restore_bag(h, dest, **kw)
    elif mode == "inplace":
        restore_bag(h, None, **kw)
        dest = head
    elif mode.startswith("headcopy"):
        # a bag that is there already is filled out
        part = dict(ms[-1], name="restored", files={p: c for p, c in ms[-1]["files"].items() if not M.deleted_hit(p, dels)},
                    dirs=[d for d in ms[-1]["dirs"] if not M.deleted_hit(d, dels)])
        dest = M.write_bag(ctx.sub("there"), part)
        restore_bag(h, Bag(dest) if mode == "headcopybag" else dest, **kw)
    elif mode.startswith("retry"):
        # fails for want of a member, and is completed when that is there
        dest = head if mode == "retryinplace" else dest
        if where:
            n = list(where)[-1 if mode == "retrylast" else 0]
            away = ctx.sub("away")
            aside = os.path.join(away, os.path.basename(where[n]))
            shutil.move(where[n], aside)
            try:
                restore_bag(h, None if mode == "retryinplace" else dest, **kw)
                ctx.bad("restoring without the member %s does not fail" % n)
            except Exception as ex:
                if n not in str(ex):
                    ctx.bad("the error does not name the missing member %s: %s: %s" % (n, type(ex).__name__, ex))
            shutil.move(aside, where[n])
        restore_bag(h, None if mode == "retryinplace" else dest, **kw)
    elif mode == "reverse":
        # newest first, which is how the whole is restored
        r = BagRestorer(h, dest, **kw)
        fetch = {}
        for m in reversed(ms):
            r.restore_member(m["name"], dels, fetch)
        want = A.expected_fetch(ms)
        got = {p: tuple(l.split(None, 2)[:2]) for p, l in fetch.items()}
        if got != want:
            ctx.bad("restoring the members one by one gave the fetch list %s, should be %s" % (got, want))
        r.restore()
    else:
        # the order the specification describes, with the fine-grained interface
        r = BagRestorer(h, dest, **kw)
        for m in ms:
            r.restore_member(m["name"], dels, overwrite=True)
        r.restore()
    ctx.step(len(ms))
    for n, p in where.items():
        if M.snap_any(p) != before[n]:
            ctx.bad("member %s was changed" % n)
    return dest
