"""C20: lookup selection honours include and exclude choices"""
import itertools, os
from .. import model as M, agglab as A
from ..space import subsets, interleave_unique

TECHNIQUE = "exhaustive enumeration of include and exclude choices x access forms x interfaces on the real code, against a reference selection"
LEVEL = "model_checking"
FILES = ["data/a", "data/b/c", "data/b/d/e", "data/b/d/f g", "data/bb", "data/b.x/y", "meta/t", "meta/s/u", "README", u"data/\u00fc/v", "data/.h"]
INC = ["data", "data/b", "data/b/d", "data/a", "data/b/d/e", "meta", "README", "nosuch", "data/b/"]
EXC = ["data/b", "data/b/d", "data/b/d/e", "data/a", "data", "meta/s", "data/nosuch", "data/b/d/"]
HANDLES = ["rw", "ro", ".zip", ".tar", ".tgz", "self"]
APIS = ["update", "nomember", "rename", "amend", "final", "single"]
BOUNDS = {"quick": "all include sets of up to 2 and exclude sets of up to 2 of %d and %d choices x {writable, read-only}; all single choices and strings x %d forms x %d interfaces" % (len(INC), len(EXC), len(HANDLES), len(APIS)),
          "thorough": "all include sets of up to 3 and exclude sets of up to 3 x %d forms x %d interfaces" % (len(HANDLES), len(APIS))}
RULE = "bounded-exhaustive enumeration of selections"
ASSUMPTIONS = ["a file that is itself named in the include list overrides an excluded directory above it (as documented)"]

def cases(tier):
    def one(s):
        return [s, [s]]
    def gen():
        incs = [None] + list(subsets(INC, 0, 2))
        excs = [None] + list(subsets(EXC, 0, 2))
        for i in incs:
            yield {"inc": i, "excs": excs, "handles": ["rw", "ro"], "apis": ["update"]}
        singles_i = [None] + INC + [[x] for x in INC]
        singles_e = [None] + EXC + [[x] for x in EXC]
        for i in singles_i:
            for a in APIS:
                yield {"inc": i, "excs": singles_e, "handles": HANDLES, "apis": [a]}
        if tier == "thorough":
            for i in list(subsets(INC, 0, 3)):
                for a in APIS:
                    for h in HANDLES:
                        yield {"inc": i, "excs": list(subsets(EXC, 0, 3)), "handles": [h], "apis": [a]}
    return gen()

def norm(p):
    return p.rstrip("/")

def selected(inc, exc):
    inc = ["data"] if inc is None else [inc] if isinstance(inc, str) else inc
    exc = [] if exc is None else [exc] if isinstance(exc, str) else exc
    exc = [norm(e) for e in exc]
    out = set()
    for i in map(norm, inc):
        if i in exc:
            continue
        for p in FILES:
            if p == i or (p.startswith(i + "/") and not M.deleted_hit(p, exc)):
                out.add(p)
    return out

def run(case, ctx):
    from multibag.access.multibag import HeadBag, open_headbag
    from multibag.access.bagit import Bag
    from multibag import open_bag
    d = ctx.sub("b")
    mem = M.write_bag(d, M.bagspec("mem", {p: p for p in FILES}, dirs=["data/e"]))
    hs = M.bagspec("hb", {"data/h": "h"})
    hs["info"] = A.head_info(hs["info"])
    A.tag_files(hs, [hs], entries=["prev", "hb"], lookup={"data/prev": "prev", "data/a": "prev"})
    arch = {}
    n = 0
    for h in case["handles"]:
        if h.startswith("."):
            arch[h] = M.serialize(mem, h, keep=True, dest=os.path.join(d, "mem" + h))
    def handle(h):
        return {"rw": lambda: Bag(mem), "ro": lambda: open_bag(mem)}.get(h, lambda: open_bag(arch[h]))()
    for api in case["apis"]:
        hbdir = os.path.join(d, "hb%s" % api)
        hs["name"] = os.path.basename(hbdir)
        M.write_bag(d, hs)
        for h in case["handles"]:
            for exc in case["excs"]:
                inc = case["inc"]
                want = selected(inc, exc)
                args = (list(inc) if isinstance(inc, list) else inc, list(exc) if isinstance(exc, list) else exc)
                keep = repr(args)
                ctx.step()
                if h == "self" or api in ("final", "single"):
                    if api in ("final", "single") and h != "self":
                        continue
                    own = M.write_bag(d, dict(M.bagspec("own%d" % n, {p: p for p in FILES}, dirs=["data/e"])))
                    n += 1
                    name = os.path.basename(own)
                    if api == "final":
                        from multibag.amend import Amender
                        a = Amender(mem2(d), own)
                        a.init_from_amendee()
                        a.finalize("2", *args)
                        got = {p: b for p, b in HeadBag(own).iter_file_lookup() if b != "base"}
                    elif api == "single":
                        from multibag.amend import SingleMultibagMaker
                        mk = SingleMultibagMaker(own)
                        mk.write_member_bags()
                        mk.write_file_lookup(*args)
                        got = dict(HeadBag(own).iter_file_lookup())
                    elif api == "update":
                        hb = HeadBag(own)
                        hb.update_for_member(hb, *args)
                        got = lookups(hb, [name])
                    else:
                        continue
                    wantd = {p: name for p in want}
                    import shutil
                    shutil.rmtree(own)
                else:
                    if api == "amend":
                        from multibag.amend import Amender
                        a = Amender(mem2(d), hbdir)
                        a.init_from_amendee()
                        a.add_amending_bag(handle(h), *args)
                        a.finalize("2", [])
                        hb = HeadBag(hbdir)
                        names = ["mem"]
                        mems = ["base", "mem", os.path.basename(hbdir)]
                    else:
                        hb = HeadBag(hbdir)
                        name = "other name" if api == "rename" else "mem"
                        if api == "update":
                            hb.update_for_member(handle(h), *args)
                        elif api == "nomember":
                            hb.update_for_member(handle(h), args[0], args[1], False)
                        else:
                            hb.update_for_member(handle(h), args[0], args[1], member_name=name)
                        names = [name]
                        mems = ["prev", "hb"] + ([name] if api != "nomember" else [])
                        prev = {"data/prev": "prev"}
                        if "data/a" not in want:
                            prev["data/a"] = "prev"
                        if lookups(hb, ["prev"]) != prev:
                            ctx.bad("%s %s include=%r exclude=%r: earlier entries are now %s" % (api, h, inc, exc, lookups(hb, ["prev"])))
                    got = lookups(hb, names)
                    wantd = {p: names[0] for p in want}
                    if hb.member_bag_names != mems:
                        ctx.bad("%s %s: member list is %s, should be %s" % (api, h, hb.member_bag_names, mems))
                if got != wantd:
                    ctx.bad("%s %s include=%r exclude=%r: registered extra %s, missing %s" %
                            (api, h, inc, exc, sorted(set(got.items()) - set(wantd.items())), sorted(set(wantd.items()) - set(got.items()))))
                if repr(args) != keep:
                    ctx.bad("%s %s: the caller's lists were changed: %s -> %s" % (api, h, keep, args))
                ctx.state(api, h, sorted(want))
                ctx.trace()

def mem2(d):
    p = os.path.join(d, "base")
    if not os.path.exists(p):
        M.write_bag(d, M.bagspec("base", {"meta/only": "x"}))
    return p

def lookups(hb, names):
    out = {}
    for n in names:
        for p in hb.files_in_member(n):
            out[p] = n
    return out
