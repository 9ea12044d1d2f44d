"""
C26: all byte counts up to a bound and all four-digit mantissas at every magnitude; all bag shapes in all access forms.
"""
import math, os, re
from .. import model as M, shapes as S, space, agglab as A

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of byte counts and of bag shapes x access forms on the real code, against direct measurement"
RULE = "distinct (count) or (bag, form, path) observations"
BOUNDS = {"quick": "byte counts 0..40000 and every 4-digit mantissa x 13 magnitudes x 5 neighbours, both formatters; all tree shapes x 8 access forms x modification times",
          "thorough": "byte counts 0..2000000 and every 5-digit mantissa x 13 magnitudes x 7 neighbours; all tree shapes x checksum sets x 8 access forms"}
ASSUMPTIONS = ["the bag size is an estimate: it may count the directory entries and the size record itself", "archives hold modification times to the second"]
FORMS = ["rw", "ro", "head"] + M.FORMS

def cases(tier):
    q = tier == "quick"
    for a in range(0, 40000 if q else 2000000, 2000):
        yield {"kind": "fmt", "lo": a, "hi": a + 2000, "e": 0, "near": [0]}
    lo, hi, stp = (1000, 10000, 1000) if q else (10000, 100000, 5000)
    for e in range(0, 13):
        for a in range(lo, hi, stp):
            h = max(1, 10 ** e // 2)
            yield {"kind": "fmt", "lo": a, "hi": a + stp, "e": e, "near": sorted({-1, 0, 1, h, h - 1} if q else {-1, 0, 1, h, h - 1, h + 1, 7})}
    for t in S.TREES:
        for f in FORMS:
            for al in (["sha256"] if q else ["sha256", "md5"]):
                yield {"kind": "bag", "tree": t, "form": f, "alg": al}
    for t in S.TREES:
        for v in ("1", "2.0"):
            for cap in ("both", "rw"):
                yield {"kind": "record", "tree": t, "ver": v, "via": cap}

    for t in S.TREES:
        for how in ("wp", "plan1", "planN"):
            for dest in ("out", "inplace"):
                for inf in ("std", "min"):
                    yield {"kind": "made", "tree": t, "how": how, "dest": dest, "info": inf}

PREF = {"": 1, "k": 10**3, "M": 10**6, "G": 10**9, "T": 10**12}

def check_fmt(ctx, n, s, who, slack=0):
    m = re.match(r"^(\d+(?:\.\d+)?) ([kMGT]?)B$", s)
    if not m:
        ctx.bad("%s: %d bytes are given as %r" % (who, n, s))
        return
    unit = PREF[m.group(2)]
    want = 1
    for u in (10**3, 10**6, 10**9, 10**12):
        if n >= u:
            want = u
    if slack == 0 and unit != want:
        ctx.bad("%s: %d bytes are given as %r: wrong unit" % (who, n, s))
    from fractions import Fraction
    val = Fraction(m.group(1)) * unit
    tol = Fraction(10) ** (len(str(n)) - 1 - 3) / 2 if n >= 1000 else Fraction(0)
    if abs(val - n) > tol + slack + (Fraction(n, 10**12) if n >= 1000 else 0):
        ctx.bad("%s: %d bytes are given as %r" % (who, n, s))

def run(case, ctx):
    globals()["run_" + case["kind"]](case, ctx)

def run_fmt(case, ctx):
    from multibag.access.bagit import Bag
    from multibag.access.extended import as_extended
    from multibag.access.multibag import as_headbag
    root = M.write_bag(ctx.dir, S.source("one"))
    rw = as_extended(Bag(root))
    hb = as_headbag(Bag(root))
    cur = [0]
    rw.calc_bag_size = lambda: cur[0]
    hb.calc_bag_size = lambda: cur[0]
    for m in range(case["lo"], case["hi"]):
        for d in case["near"]:
            n = m * 10 ** case["e"] + d
            if n < 0:
                continue
            cur[0] = n
            r = rw.update_bag_size()
            if r != n:
                ctx.bad("update_bag_size() returns %s for %d" % (r, n))
            check_fmt(ctx, n, rw.info["Bag-Size"], "bag size")
            hb.update_bag_size()
            check_fmt(ctx, n, hb.info["Bag-Size"], "head bag size")
            ctx.step(2)
    ctx.state(case)
    ctx.trace()

TIMES = [1577836800, 1, 0, 951782400, 1700000001, 2**31 + 5]

def run_bag(case, ctx):
    from multibag.access.bagit import Bag, open_bag
    from multibag.access.extended import as_extended
    from multibag.access.multibag import as_headbag, open_headbag
    spec = S.source(case["tree"], algs=[case["alg"]])
    root = M.write_bag(ctx.dir, spec)
    files = M.files_of(M.snapshot(root))
    f = case["form"]
    times = {}
    if f in ("rw", "ro", "head"):
        for i, p in enumerate(sorted(files)):
            times[p] = TIMES[i % len(TIMES)]
            os.utime(os.path.join(root, p), (times[p] + 10, times[p]))
        bag = as_extended(Bag(root)) if f == "rw" else as_extended(open_bag(root)) if f == "ro" else open_headbag(root)
    else:
        times = {p: 1577836800 for p in files}
        bag = as_extended(open_bag(M.serialize(root, f, keep=True)))
    for p, c in sorted(files.items()):
        for q in (p, "./" + p, p.replace("/", "/./", 1)):
            if q != p and not bag.isfile(q):
                continue
            sz = bag.sizeof(q)
            ctx.step()
            if sz != len(c):
                ctx.bad("sizeof(%r) is %s, should be %d" % (q, sz, len(c)))
        t = bag.timesfor(p)
        ctx.step()
        if t.mtime is None or abs(t.mtime - times[p]) > 1e-3:
            ctx.bad("timesfor(%r).mtime is %s, should be %s" % (p, t.mtime, times[p]))
        ctx.state(case, p, sz)
    for p in ("data/no such", "nowhere/x"):
        for fn in (bag.sizeof, bag.timesfor):
            try:
                fn(p)
                ctx.bad("%s(%r) gives an answer for a file that does not exist" % (fn.__name__, p))
            except (OSError, ValueError):
                pass
    if f in ("rw", "head"):
        ox = bag.calc_oxum()
        ctx.step()
        if "%s.%s" % tuple(ox) != M.oxum(files):
            ctx.bad("calc_oxum() is %s, should be %s" % (ox, M.oxum(files)))
    ctx.trace()

def check_disk(ctx, root, what, bagsize=True):
    """the size records saved in a bag are those of the bag"""
    snap = M.snapshot(root)
    files = M.files_of(snap)
    info = M.tagmap(files["bag-info.txt"])
    if info.get("Payload-Oxum") != [M.oxum(files)]:
        ctx.bad("%s: Payload-Oxum is %s, should be %s" % (what, info.get("Payload-Oxum"), M.oxum(files)))
    if not bagsize:
        return
    if len(info.get("Bag-Size", [])) != 1:
        ctx.bad("%s: Bag-Size is %s" % (what, info.get("Bag-Size")))
        return
    fsum = sum(len(c) for c in files.values())
    dsum = sum(os.stat(os.path.join(root, p)).st_size for p, e in snap.items() if e[0] == "d") + os.stat(root).st_size
    check_fmt(ctx, fsum + dsum // 2, info["Bag-Size"][0], what + ": Bag-Size", slack=dsum // 2 + 65)
    ctx.step()

def run_made(case, ctx):
    """the size records of bags the library makes: split bags, restored bags, new head bags"""
    from multibag.restore import restore_bag
    from multibag.amend import amend_bag_with
    from .. import splitlab as L
    spec, src = L.make_source({"tree": case["tree"], "info": case["info"]}, ctx.sub("src"))
    out = ctx.sub("out")
    bags = L.apply_plan(L.make_plan({"how": case["how"], "maxsize": 12}, spec, src), out)
    ctx.step(len(bags))
    for b in bags:
        check_disk(ctx, b, "split bag", False)
    new = M.write_bag(out, M.bagspec("newhead", {"data/added": [5000, "n"]}))
    amend_bag_with(bags[-1], new, "2")
    check_disk(ctx, new, "amended head bag")
    head = bags[-1]
    dest = None if case["dest"] == "inplace" else os.path.join(ctx.dir, "restored")
    restore_bag(head, dest, out)
    check_disk(ctx, dest or head, "restored bag")
    ctx.state(case)
    ctx.trace()

def run_record(case, ctx):
    """records stay right while the payload changes"""
    from multibag.access.bagit import Bag
    from multibag.access.extended import as_extended
    from multibag.access.multibag import as_headbag
    root = M.write_bag(ctx.dir, S.source(case["tree"]))
    bag = as_extended(Bag(root)) if case["via"] == "rw" else as_headbag(Bag(root))
    def check(what):
        snap = M.snapshot(root)
        files = M.files_of(snap)
        ox = M.oxum(files)
        got = bag.update_oxum()
        if "%s.%s" % tuple(got) != ox or bag.info["Payload-Oxum"] != ox:
            ctx.bad("%s: update_oxum() gives %s, info %s, should be %s" % (what, got, bag.info["Payload-Oxum"], ox))
        bag.save()
        disk = M.tagmap(M.files_of(M.snapshot(root))["bag-info.txt"]).get("Payload-Oxum")
        if disk != [ox]:
            ctx.bad("%s: saved Payload-Oxum is %s, should be %s" % (what, disk, ox))
        fsum = sum(len(c) for c in M.files_of(M.snapshot(root)).values())
        dsum = sum(os.stat(os.path.join(root, p)).st_size for p, e in M.snapshot(root).items() if e[0] == "d")
        sz = bag.calc_bag_size()
        if not (fsum - 40 <= sz <= fsum + dsum + 40):
            ctx.bad("%s: calc_bag_size() is %s; files have %d bytes, directories %d" % (what, sz, fsum, dsum))
        r = bag.update_bag_size()
        check_fmt(ctx, r, bag.info["Bag-Size"], what)
        if not (fsum - 40 <= r <= fsum + dsum + 40):
            ctx.bad("%s: update_bag_size() is %s; files have %d bytes, directories %d" % (what, r, fsum, dsum))
        bag.save()
        ctx.step(6)
    check("at first")
    M.put(os.path.join(root, "data/new/file"), b"x" * 1234)
    check("after adding a file")
    M.put(os.path.join(root, "data/new/file"), b"y")
    M.put(os.path.join(root, "data/new/.hidden"), b"")
    M.put(os.path.join(root, "nopayload/t"), b"tag")
    check("after changing files")
    os.remove(os.path.join(root, "data/new/file"))
    check("after removing a file")
    if case["via"] != "rw":
        bag.update_info(case["ver"])
        info = M.tagmap(M.files_of(M.snapshot(root))["bag-info.txt"])
        fsum = sum(len(c) for c in M.files_of(M.snapshot(root)).values())
        if len(info.get("Bag-Size", [])) != 1:
            ctx.bad("Bag-Size in the head bag: %s" % info.get("Bag-Size"))
        else:
            check_fmt(ctx, fsum, info["Bag-Size"][0], "head bag's Bag-Size", slack=64)
        ctx.step()
    ctx.state(case)
    ctx.trace()
