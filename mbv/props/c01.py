"""C01: split then restore reproduces the source bag"""
import os, shutil
from .. import model as M, shapes as S, splitlab as L
from ..space import deviations, product, interleave_unique

TECHNIQUE = "exhaustive exploration of source shapes x split settings x restore settings (full products of the core dimensions, all combinations of up to k departures elsewhere) on the real code; restored bag compared byte by byte with the source by an independent reader"
LEVEL = "model_checking"
RESTORE_DIMS = [
    ("dest", ["out", "inplace", "existing"]),
    ("members", ["dir", ".zip", ".tar", ".tar.gz", ".tar.bz2", ".tgz", "mixed"]),
    ("head", ["path", "slash", "handle", "ro", "ser"]),
    ("supply", ["compdir", "fetcher", "defdir"]),
]
DIMS = L.SRC_DIMS + L.SPLIT_DIMS + RESTORE_DIMS
BOUNDS = {"quick": "all source trees x {well-packed, neighborly} x 7 size limits; all source trees x 7 split methods x restore destinations; "
                   "and every combination of at most 2 departures from the default over %d dimensions" % len(DIMS),
          "thorough": "the quick space, plus every combination of at most 3 departures over %d dimensions" % len(DIMS)}
RULE = "bounded-exhaustive enumeration of source bag, split settings and restore mode"
ASSUMPTIONS = ["names permitted by the profile, UTF-8 tag files, no tag directory called multibag in the source",
               "a fetch list entry for a file that is in the source need not be kept"]

def cases(tier):
    dims = dict(DIMS)
    a = (dict(c) for c in product([("tree", dims["tree"]), ("how", ["wp", "nb"]), ("maxsize", dims["maxsize"])]))
    b = (dict(c) for c in product([("tree", dims["tree"]), ("how", dims["how"]), ("dest", dims["dest"])]))
    c = deviations(DIMS, 3 if tier == "thorough" else 2)
    base = {n: v[0] for n, v in DIMS}
    def full(g):
        for x in g:
            y = dict(base)
            y.update(x)
            yield y
    for x in interleave_unique(full(a), full(b), c):
        if x["head"] == "ser" and x["dest"] == "inplace":
            continue        # an archive cannot be restored in place
        if x["head"] == "ro" and x["dest"] == "inplace":
            continue        # documented: a read-only head needs a destination
        yield x

def run(case, ctx):
    src = ctx.sub("src")
    out = ctx.sub("out")
    spec, srcdir = L.make_source(case, src)
    before = M.files_of(M.snapshot(srcdir))
    edirs = M.empty_dirs(M.snapshot(srcdir))
    plan = L.make_plan(case, spec, srcdir)
    bags = L.apply_plan(plan, out, case)
    ctx.step(2)
    if not ctx.expect(bags, "nothing was produced"):
        return
    dest = restore(case, ctx, bags, out, os.path.join(ctx.dir, "restored"))
    compare(case, ctx, before, edirs, dest)
    ctx.state(sorted(case.items()), len(bags))

def restore(case, ctx, bags, out, destdir):
    from multibag.restore import restore_bag
    from multibag.access.multibag import open_headbag, HeadBag
    head = bags[-1]
    form = case["members"]
    for i, b in enumerate(bags[:-1]):
        f = form
        if f == "mixed":
            f = (["dir"] + M.FORMS)[i % 6]
        if f != "dir":
            M.serialize(b, f)
    kw = {}
    compdir = out
    if case["supply"] == "fetcher":
        remote = ctx.sub("remote")
        names = [n for n in os.listdir(out) if n != os.path.basename(head)]
        for n in names:
            shutil.move(os.path.join(out, n), os.path.join(remote, n))
        def fetch(name, cache):
            hits = [n for n in os.listdir(remote) if n == name or any(n == name + f for f in M.FORMS)]
            p = os.path.join(cache, hits[0])
            if os.path.isdir(os.path.join(remote, hits[0])):
                shutil.copytree(os.path.join(remote, hits[0]), p)
            else:
                shutil.copy(os.path.join(remote, hits[0]), p)
            return p
        kw["fetcher"] = fetch
    elif case["supply"] == "compdir":
        kw["compdir"] = out
    h = head
    if case["head"] == "slash":
        h = head + "/"
    elif case["head"] == "handle":
        h = HeadBag(head)
    elif case["head"] == "ro":
        h = open_headbag(head, True)
    elif case["head"] == "ser":
        h = M.serialize(head, ".zip", keep=False)
    if case["dest"] == "inplace":
        restore_bag(h, None, **kw)
        dest = head
    else:
        if case["dest"] == "existing":
            os.mkdir(destdir)
        restore_bag(h, destdir, **kw)
        dest = destdir
    ctx.step()
    return dest

def compare(case, ctx, before, edirs, dest, maninfo=True):
    snap = M.snapshot(dest)
    after = M.files_of(snap)
    for e in L.fetch_list(after):
        if e[2] in after and e in L.fetch_list(before):
            continue
        ctx.expect(e in L.fetch_list(before, False), "restored fetch list has %s" % e)
    for e in L.fetch_list(before, False):
        ctx.expect(L.fetch_list(after).count(e) == 1, "restored fetch list lacks or repeats %s" % e)
    for p in sorted(set(before) | set(after)):
        if p in ("bag-info.txt", "fetch.txt") or p.startswith("manifest-") or p.startswith("tagmanifest-"):
            continue
        if p not in after:
            ctx.bad("restored bag lacks %s" % p)
        elif p not in before:
            ctx.bad("restored bag has extra file %s" % p)
        elif before[p] != after[p]:
            ctx.bad("restored %s differs from the source" % p)
    if M.empty_dirs(snap) - {"data"} != edirs - {"data"}:
        ctx.bad("empty directories differ: %s, source has %s" % (sorted(M.empty_dirs(snap)), sorted(edirs)))
    for pr in M.check_bag(dest, fetched_ok=True):
        ctx.bad("restored bag: " + pr)
    mb, ma = M.manifests(before)["manifest"], M.manifests(after)["manifest"]
    for alg in mb:
        if ma.get(alg) != mb[alg]:
            ctx.bad("manifest-%s differs from the source's: %s vs %s" % (alg, ma.get(alg), mb[alg]))
    if set(ma) != set(mb):
        ctx.bad("checksum algorithms differ: %s vs %s" % (sorted(ma), sorted(mb)))
    if "bag-info.txt" not in after:
        ctx.bad("restored bag has no bag-info.txt")
        return
    ia, ib = M.tagmap(after["bag-info.txt"]), M.tagmap(before.get("bag-info.txt", b""))
    sizes = ("Payload-Oxum", "Bag-Size")
    for k in sorted(set(ia) | set(ib)):
        if k in sizes:
            continue
        if ia.get(k) != ib.get(k):
            ctx.bad("bag-info %s is %s, source has %s" % (k, ia.get(k), ib.get(k)))
    if ia.get("Payload-Oxum") != [M.oxum(after)]:
        ctx.bad("Payload-Oxum is %s, should be %s" % (ia.get("Payload-Oxum"), M.oxum(after)))
