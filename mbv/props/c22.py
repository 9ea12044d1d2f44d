"""
C22: all file sizes and all (total, count) pairs up to bounds, and all plans built from a menu of stated parts, on the
real generator; what is on disk against the arithmetic of the request.
"""
import itertools, math, os
from .. import model as M

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of sizes, counts and plan shapes up to bounds, executed on the real generator, against the arithmetic of the request"
RULE = "distinct requests"
BOUNDS = {"quick": "file sizes 0..4200 and around every line-number width up to 250 kB; uniform sequences total <= 150 x count <= 40; data sets total <= 40 x count <= 12; all plans of <= 2 file sets and <= 2 directories (nested to 2) from a menu of 5 and 6",
          "thorough": "file sizes 0..30000 and around widths up to 3 MB; total <= 600 x count <= 120; data sets total <= 90 x count <= 24; plans of <= 3 file sets and <= 3 directories"}
ASSUMPTIONS = ["totals and counts are positive", "every part of a plan states its size and number (or inventory) and the parts do not exceed the totals: other plans are hints"]

FILESETS = [{"totalsize": 7, "totalfiles": 3}, {"type": "inventory", "sizes": {"3": 2, "1": 1}}, {"totalsize": 4, "totalfiles": 2, "reps": 2},
            {"type": "uniform", "totalsize": 0, "totalfiles": 2}, {"type": "inventory", "sizes": {"120": 1, "0": 1}}]
DIRS = [{"totalsize": 5, "totalfiles": 2}, {"totalsize": 6, "totalfiles": 3, "reps": 2},
        {"totalsize": 9, "totalfiles": 4, "files": [{"totalsize": 9, "totalfiles": 4}]},
        {"totalsize": 20, "totalfiles": 6, "files": [{"totalsize": 7, "totalfiles": 3}], "dirs": [{"totalsize": 5, "totalfiles": 2}]},
        {"totalsize": 10, "totalfiles": 4, "dirs": [{"totalsize": 5, "totalfiles": 2}, {"totalsize": 5, "totalfiles": 2}]},
        {"totalsize": 8, "totalfiles": 4, "reps": 2, "dirs": [{"totalsize": 2, "totalfiles": 1, "reps": 2}], "files": [{"totalsize": 4, "totalfiles": 2}]}]

def cases(tier):
    q = tier == "quick"
    top = 4200 if q else 30000
    step = 60
    for a in range(0, top, step):
        yield {"kind": "sizes", "sizes": list(range(a, a + step))}
    for k in range(1, 8 if q else 11):
        lines = int(math.exp(k))
        near = sorted({l * 100 + d for l in (lines - 2, lines - 1, lines, lines + 1) if l >= 0 for d in (0, 1, 2, k - 1, k, k + 1, k + 2, 50, 97, 98, 99)})
        yield {"kind": "sizes", "sizes": near}
    for nf in range(1, 41 if q else 121):
        yield {"kind": "uniform", "count": nf, "max": 150 if q else 600}
    yield {"kind": "zero"}
    yield {"kind": "huge"}
    for nf in range(1, 13 if q else 25):
        for lo in range(1, 41 if q else 91, 8):
            yield {"kind": "plain", "count": nf, "sizes": list(range(lo, lo + 8))}
    n = 2 if q else 3
    for kf in range(0, n + 1):
        for fs in itertools.combinations_with_replacement(range(len(FILESETS)), kf):
            for kd in range(0, n + 1):
                for ds in itertools.combinations_with_replacement(range(len(DIRS)), kd):
                    if kf + kd:
                        for rest in ([0, 0], [5, 2], [11, 4], [3, 5]):
                            yield {"kind": "plan", "files": list(fs), "dirs": list(ds), "rest": rest}

def listing(d):
    out = []
    for a, b, c in os.walk(d):
        for f in c:
            out.append(os.path.getsize(os.path.join(a, f)))
    return out

def uniform(tz, nf):
    """even distribution: the sizes differ by at most one"""
    return sorted([tz // nf + (1 if i < tz % nf else 0) for i in range(nf)]) if nf else []

def run(case, ctx):
    from multibag.testing import mkdata as D
    k = case["kind"]
    if k == "sizes":
        d = ctx.sub("f")
        for sz in case["sizes"]:
            p = os.path.join(d, "f")
            r = D.create_file(p, sz)       # overwrites the previous one
            with open(p, "rb") as f:
                data = f.read()
            if len(data) != sz or r != sz:
                ctx.bad("file of size %d has %d bytes, reported %s" % (sz, len(data), r))
            if any(len(l) > 99 for l in data.split(b"\n")) or any(b > 127 for b in data):
                ctx.bad("file of size %d is not ASCII text in lines of 100 bytes or less" % sz)
            ctx.step()
            ctx.state("size", sz)
    elif k == "uniform":
        nf = case["count"]
        for tz in range(0, case["max"]):
            it = D.UniformSizeIterator(tz, nf)
            s = list(it.iterate())
            if sorted(s) != uniform(tz, nf):
                ctx.bad("uniform sizes for %d in %d files are %s" % (tz, nf, s))
            if nf and (it.totalsize != tz or it.totalfiles != nf):
                ctx.bad("uniform iterator for (%d, %d) totals %s, %s" % (tz, nf, it.totalsize, it.totalfiles))
            if list(it.iterate()) != s:
                ctx.bad("second iteration differs")
            it2 = D.UniformSizeIterator()
            it2.target_totalsize = tz
            it2.target_totalfiles = nf
            if list(it2.iterate()) != s:
                ctx.bad("targets set later give another sequence")
            ctx.step(3)
            ctx.state("u", tz, nf)
        inv = {i: (i * nf) % 5 for i in range(nf % 7)}
        it = D.InventorySizeIterator(inv)
        if sorted(it.iterate()) != sorted(s for s, n in inv.items() for _ in range(n)):
            ctx.bad("inventory %s gives %s" % (inv, list(it.iterate())))
    elif k == "zero":
        # the one request that asks for nothing
        ctx.step()
        try:
            if list(D.UniformSizeIterator(0, 0).iterate()):
                ctx.bad("a sequence of no sizes has some")
        except ZeroDivisionError:
            ctx.known.append("C22-no-files")
    elif k == "huge":
        for tz in [2**e + d for e in (31, 32, 40, 52, 53, 54, 60, 63) for d in (-1, 0, 1)]:
            for nf in (1, 2, 3, 7, 10):
                s = list(D.UniformSizeIterator(tz, nf).iterate())
                ctx.step()
                if sorted(s) != uniform(tz, nf):
                    # the quotient is rounded to a float's 53 bits
                    if tz >= 2**53 - 1 and len(s) == nf and abs(sum(s) - tz) < nf * max(1, tz >> 52):
                        ctx.known.append("C22-beyond-float")
                    else:
                        ctx.bad("uniform sizes for %d in %d files are %s" % (tz, nf, s))
    elif k == "plain":
        for tz in case["sizes"]:
            base = ctx.sub("d%d" % tz)
            dest = os.path.join(base, "set")
            if tz % 2:
                os.mkdir(dest)
            D.mkdataset(dest, tz, case["count"])
            ls = listing(dest)
            ctx.step()
            if sum(ls) != tz or len(ls) != case["count"]:
                ctx.bad("data set of %d bytes in %d files has %d bytes in %d files" % (tz, case["count"], sum(ls), len(ls)))
            if os.listdir(base) != ["set"]:
                ctx.bad("files outside of the destination: %s" % os.listdir(base))
            ctx.state("p", tz, case["count"])
    else:
        plan, exp, tot = make(case)
        dest = os.path.join(ctx.sub("base"), "set")
        r = None
        if (case["rest"][0] + len(case["files"])) % 2:
            D.mkdataset(dest, tot[0], tot[1], plan)
        else:
            plan["totalsize"], plan["totalfiles"] = tot
            r = D.DatasetMaker(dest, plan).fill()
        ctx.step()
        ls = listing(dest)
        if (sum(ls), len(ls)) != tot:
            ctx.bad("planned for %d bytes in %d files, made %d bytes in %d files" % (tot + (sum(ls), len(ls))))
        if r is not None and tuple(r) != tot:
            ctx.bad("fill() says %s, should be %s" % (r, tot))
        got = tree(dest)
        if got != exp:
            ctx.bad("layout is %s, plan asks for %s" % (got, exp))
        if os.listdir(os.path.dirname(dest)) != ["set"]:
            ctx.bad("files outside of the destination")
        ctx.state("plan", case)

def tree(d):
    files, dirs = [], []
    for n in os.listdir(d):
        p = os.path.join(d, n)
        if os.path.isdir(p):
            dirs.append(tree(p))
        else:
            files.append(os.path.getsize(p))
    return [sorted(files), sorted(dirs, key=repr)]

def fix(fs):
    fs = dict(fs)
    if "sizes" in fs:
        fs["sizes"] = {int(k): v for k, v in fs["sizes"].items()}
    if "files" in fs:
        fs["files"] = [fix(f) for f in fs["files"]]
    if "dirs" in fs:
        fs["dirs"] = [fix(f) for f in fs["dirs"]]
    return fs

def sizes_of(fs):
    if "sizes" in fs:
        s = [k for k, v in fs["sizes"].items() for _ in range(v)]
    else:
        s = uniform(fs["totalsize"], fs["totalfiles"])
    return s * fs.get("reps", 1)

def expect(tz, nf, files, dirs):
    own = []
    for f in files:
        own += sizes_of(f)
    kids = []
    rz, rf = tz - sum(own), nf - len(own)
    for d in dirs:
        for _ in range(d.get("reps", 1)):
            kids.append(expect(d["totalsize"], d["totalfiles"], d.get("files", []), d.get("dirs", [])))
            rz -= d["totalsize"]
            rf -= d["totalfiles"]
    if rz > 0:
        own += uniform(rz, rf)
    return [sorted(own), sorted(kids, key=repr)]

def make(case):
    files = [fix(FILESETS[i]) for i in case["files"]]
    dirs = [fix(DIRS[i]) for i in case["dirs"]]
    tz = sum(sum(sizes_of(f)) for f in files) + sum(d["totalsize"] * d.get("reps", 1) for d in dirs) + case["rest"][0]
    nf = sum(len(sizes_of(f)) for f in files) + sum(d["totalfiles"] * d.get("reps", 1) for d in dirs) + case["rest"][1]
    if tz == 0:
        tz, nf = 1, nf + 1
    return {"files": [dict(f) for f in files], "dirs": [dict(d) for d in dirs]}, expect(tz, nf, files, dirs), (tz, nf)
