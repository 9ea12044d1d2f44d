"""C03: split plans respect the size limits and pack greedily"""
import itertools, os
from .. import model as M
from ..space import deviations

TECHNIQUE = "exhaustive enumeration of file-size multisets x limits x reservations x listing orders on the real splitters, against a declarative characterisation of admissible plans"
LEVEL = "model_checking"
BOUNDS = {"quick": "all multisets of 1..4 file sizes over {0,1,2,3,4,7} x 3-5 directory layouts, 5 files over {0,1,3,4}, plus 12-file and large-file sets; each with both splitters x max in {1,3,4,7,1000} x target in {none,1,3,=max,10^6} x reserved lists {none, 1, 2, all, absent} and both listing orders",
          "thorough": "1..6 files over {0,1,2,3,4,7}, all layouts, max in {1,3,4,5,7,10,1000} x target in {none,1,2,3,=max,max+1,10^6}"}
RULE = "all size multisets x layouts x limits"
ASSUMPTIONS = ["sizes as reported by the file system"]

LAYOUTS = 5
def path_for(layout, i):
    if layout == 0:
        return "data/f%d" % i
    if layout == 1:
        return "data/d%d/f%d" % (i % 2, i)
    if layout == 2:
        return "data/" + "n/" * i + "f%d" % i
    if layout == 3:
        return ["data/x/f%d", "data/x/y/f%d", "t/f%d"][i % 3] % i
    return "data/%s/f%d" % ("cab"[i % 3], 9 - i)

def cases(tier):
    hi = 4 if tier == "quick" else 6
    sets = []
    for n in range(0, hi + 1):
        sets += list(itertools.combinations_with_replacement([7, 4, 3, 2, 1, 0], n))
    if tier == "quick":
        sets += list(itertools.combinations_with_replacement([4, 3, 1, 0], 5))
    for s in sets:
        for lay in range(LAYOUTS):
            if tier == "quick" and len(s) > 3 and lay in (2, 4):
                continue
            yield {"sizes": list(s), "layout": lay}
    for s in ([3] * 12, [7, 7, 7, 4, 4, 4, 3, 3, 2, 1, 1, 0, 0], [60001, 60000, 59999, 30000, 30000, 1, 0],
              [100, 50, 50, 49, 2, 1], list(range(12, 0, -1)), [1] * 25, [0] * 6, [10**6, 999999, 2, 1]):
        for lay in range(LAYOUTS):
            if lay == 2 and len(s) > 13:
                continue
            yield {"sizes": s, "layout": lay, "big": max(s) > 1000}

def make(root, files, rev):
    os.makedirs(os.path.join(root, "data"))
    items = sorted(files.items(), reverse=rev)
    for p, sz in items:
        fp = os.path.join(root, p)
        os.makedirs(os.path.dirname(fp), exist_ok=True)
        with open(fp, "wb") as f:
            f.truncate(sz)
    for n in ["bagit.txt", "bag-info.txt", "manifest-sha256.txt", "tagmanifest-sha256.txt", "fetch.txt"]:
        with open(os.path.join(root, n), "w") as f:
            if n == "bagit.txt":
                f.write("BagIt-Version: 0.97\nTag-File-Character-Encoding: UTF-8\n")
            elif n == "bag-info.txt":
                f.write("A: " + "b" * 50 + "\n")

def run(case, ctx):
    from multibag.split import WellPackedSplitter, NeighborlySplitter
    files = {path_for(case["layout"], i): s for i, s in enumerate(case["sizes"])}
    dirs = []
    for rev in (False, True):
        d = os.path.join(ctx.dir, "rev" if rev else "fwd", "bag")
        make(d, files, rev)
        dirs.append(d)
    quick = ctx.tier == "quick"
    maxes = [59999, 60000, 60001, 1, 10**7] if case.get("big") else [1, 3, 4, 7, 1000] if quick else [1, 3, 4, 5, 7, 10, 1000]
    targets = [None, 1, 3, "max", 10**6] if quick else [None, 1, 2, 3, "max", "max+1", 10**6]
    names = sorted(files)
    heads = [None, names[:1], [names[0], "/" + names[-1]], list(names), ["data/none"]] if names else [None]
    for cls in (WellPackedSplitter, NeighborlySplitter):
        for mx in maxes:
            for tg in targets:
                tg = mx if tg == "max" else mx + 1 if tg == "max+1" else tg
                for hi, fh in enumerate(heads):
                    if hi and (tg not in (None, 3) or mx not in (maxes[1], maxes[-2])):
                        continue
                    given = None if fh is None else list(fh)
                    plan = cls(mx, tg, given).plan(dirs[0])
                    got = list(plan.manifests())
                    ctx.step()
                    label = "%s(max=%s, target=%s, forhead=%s)" % (cls.__name__, mx, tg, fh)
                    if fh is not None and given != fh:
                        ctx.bad(label + ": caller's reserved list was modified")
                    judge(ctx, label, files, got, mx, tg, fh)
                    if not plan.is_complete():
                        ctx.bad(label + ": plan is not complete")
                    if hi < 2:
                        other = list(cls(mx, tg, fh and list(fh)).plan(dirs[1]).manifests())
                        ctx.step()
                        if [m["contents"] for m in other] != [m["contents"] for m in got]:
                            ctx.bad(label + ": plan depends on listing order: %s vs %s" % ([m["contents"] for m in got], [m["contents"] for m in other]))
                    ctx.state(case["layout"], case["sizes"], cls.__name__, [m["contents"] for m in got])
                    if len(ctx.problems) > 3:
                        return

def judge(ctx, label, files, got, mx, tg, fh):
    seen = [f for m in got for f in m["contents"]]
    if not files:
        # only the (empty) data directory
        ctx.expect(sorted(seen) in ([], ["data"]), label + ": %s planned for an empty bag" % seen)
        return
    extra = [] if any(p.startswith("data/") for p in files) else ["data"]
    if sorted(seen) != sorted(list(files) + extra):
        ctx.bad(label + ": planned files %s, source has %s" % (sorted(seen), sorted(files)))
        return
    reserved = {f.lstrip("/") for f in (fh or [])} & set(files)
    target = tg or mx
    later = {}
    for i, m in enumerate(got):
        last = i == len(got) - 1
        if bool(m.get("ishead")) != last:
            ctx.bad(label + ": bag %d has ishead=%s" % (i, m.get("ishead")))
        sizes = [files.get(f, 0) for f in m["contents"]]
        tot = sum(sizes)
        if not extra and m["totalsize"] != tot:
            ctx.bad(label + ": bag %d planned size %s, real %s" % (i, m["totalsize"], tot))
        held = reserved & set(m["contents"])
        if held and not last:
            ctx.bad(label + ": reserved %s planned for bag %d of %d" % (sorted(held), i, len(got)))
        if last and reserved and not held == reserved:
            ctx.bad(label + ": reserved files not in the last bag")
        if not m["contents"]:
            ctx.bad(label + ": bag %d is empty" % i)
            continue
        if held or (last and "data" in m["contents"]):
            continue
        if tot > mx and len(m["contents"]) > 1:
            ctx.bad(label + ": bag %d holds %s = %d > max" % (i, sizes, tot))
        rest = [files[f] for n in got[i + 1:] for f in n["contents"] if f in files and f not in reserved]
        if rest and tot <= target and any(tot + r <= mx for r in rest):
            ctx.bad(label + ": bag %d closed at %d though a remaining file (%s) fits" % (i, tot, rest))
        if tot - sizes[-1] > target:
            ctx.bad(label + ": bag %d was over target before its last file" % i)
