"""C18: plan bookkeeping is exact"""
import copy, itertools, os
from .. import model as M, shapes as S, splitlab as L
from ..space import product

TECHNIQUE = "exhaustive enumeration of all assignments of items to planned bags on the real plan class, against set arithmetic"
LEVEL = "model_checking"
ITEMS = ["data/a", "data/d/b", "data/d/c c", "meta/t", "data/e"]        # the last one is an empty directory
BOUNDS = {"quick": "all 4^5 assignments of 5 items to 2 hand-made bags x {directory, read-only, archive}; all splitter plans over %d trees x 2 splitters x 6 limits x 7 reservations; "
                   "all assignments of 3 items to 3 bags with stray entries" % len(S.TREES),
          "thorough": "the quick space plus all 8^5 assignments of 5 items to 3 bags"}
RULE = "bounded-exhaustive enumeration of plans"
ASSUMPTIONS = []

def cases(tier):
    for h in ("rw", "ro", "zip", "path"):
        for first in range(16):
            yield {"k": "hand", "n": 2, "first": first, "handle": h}
    for a in range(8):
        yield {"k": "stray", "a": a}
    for t in S.TREES:
        for how in ("wp", "nb"):
            yield {"k": "split", "tree": t, "how": how}
    if tier == "thorough":
        for first in range(64):
            yield {"k": "hand", "n": 3, "first": first, "handle": "path"}

def source(ctx):
    files = {p: [len(p) + i, p] for i, p in enumerate(ITEMS[:-1])}
    return M.bagspec("src", files, dirs=[ITEMS[-1]])

def run(case, ctx):
    if case["k"] == "split":
        return run_split(case, ctx)
    spec = source(ctx)
    d = M.write_bag(ctx.sub("s"), spec)
    snap = M.snapshot(d)
    src = L.open_source({"handle": case.get("handle", "path")}, d)
    from multibag.split import SplitPlan
    if case["k"] == "hand":
        n = case["n"]
        m = 1 << n
        head = [case["first"] % m, case["first"] // m]
        plan = SplitPlan(src)
        for rest in itertools.product(range(m), repeat=len(ITEMS) - 2):
            assign = head + list(rest)
            mans = [{"name": "b%d" % i, "contents": [p for p, a in zip(ITEMS, assign) if a >> i & 1], "totalsize": 7} for i in range(n)]
            check_plan(ctx, plan, mans, spec, snap, assign)
    else:
        plan = SplitPlan(src)
        stray = [[], ["data/nosuch"], ["bagit.txt"], ["data"], ["data/d"], ["manifest-sha256.txt", "data/a"], ["data/a", "data/a"], ["/data/a"]]
        for a in itertools.product(range(8), repeat=3):
            mans = []
            for i in range(3):
                mans.append({"name": "n%d" % i, "contents": [p for p, x in zip(ITEMS, a) if x >> i & 1] + stray[case["a"]], "totalsize": 0})
            check_plan(ctx, plan, mans, spec, snap, a)

def check_plan(ctx, plan, mans, spec, snap, tag):
    """put the manifests into the plan, then query it"""
    del plan._manifests[:]
    plan._manifests.extend(copy.deepcopy(mans))
    req = required(snap)
    got = sorted(plan.required())
    if got != sorted(req):
        ctx.bad("required items are %s, should be %s" % (got, sorted(req)))
    listed = set()
    for m in mans:
        listed.update(m["contents"])
    wantmiss = sorted(p for p in req if p not in listed)
    queries(ctx, plan, mans, wantmiss, req, tag)
    flags = [m["ishead"] for m in plan.manifests()]
    if flags != [i == len(mans) - 1 for i in range(len(mans))]:
        ctx.bad("%s: head flags are %s" % (tag, flags))
    for m in plan._manifests:       # nor do they depend on the names
        m["name"] = "same"
    flags = [m["ishead"] for m in plan.manifests()]
    if flags != [i == len(mans) - 1 for i in range(len(mans))]:
        ctx.bad("%s: head flags are %s when the bags are called the same" % (tag, flags))
    for m, o in zip(plan._manifests, mans):
        m["name"] = o["name"]
    # listings are copies
    for m in plan.manifests():
        m["contents"].append("data/evil")
        m["name"] = "evil"
        m["totalsize"] = -1
    queries(ctx, plan, mans, wantmiss, req, tag)
    # completing
    for rnd in range(2):
        plan.complete_plan()
        ctx.step()
        now = [dict(m) for m in plan.manifests()]
        if len(now) != len(mans) + (1 if wantmiss else 0):
            ctx.bad("%s: completing gives %d bags instead of %d" % (tag, len(now), len(mans) + bool(wantmiss)))
            return
        for m, o in zip(now, mans):
            if (m["name"], m["contents"], m["totalsize"]) != (o["name"], o["contents"], o["totalsize"]):
                ctx.bad("%s: completing changed a bag: %s -> %s" % (tag, o, m))
        if [m["ishead"] for m in now] != [False] * (len(now) - 1) + [True] * bool(now):
            ctx.bad("%s: head flags are %s" % (tag, [m["ishead"] for m in now]))
        if wantmiss:
            last = now[-1]
            if sorted(last["contents"]) != wantmiss:
                ctx.bad("%s: completing adds %s, missing were %s" % (tag, last["contents"], wantmiss))
            if all(snap[p][0] == "f" for p in wantmiss):
                sz = sum(len(snap[p][1]) for p in wantmiss)
                if last["totalsize"] != sz:
                    ctx.bad("%s: added bag claims %s bytes, holds %d" % (tag, last["totalsize"], sz))
            if not last.get("name") or last["name"] in [m["name"] for m in now[:-1]]:
                ctx.bad("%s: added bag is called %r" % (tag, last.get("name")))
        if list(plan.missing()) or not plan.is_complete():
            ctx.bad("%s: still not complete after completing" % (tag,))
    ctx.trace()
    ctx.state(tag, len(mans))

def required(snap):
    out = [p for p, e in snap.items() if e[0] == "f" and not M.is_special(p)]
    return out + sorted(M.empty_dirs(snap))

def queries(ctx, plan, mans, wantmiss, req, tag):
    miss = list(plan.missing())
    ctx.step(3)
    if sorted(miss) != wantmiss:
        ctx.bad("%s: missing are %s, should be %s" % (tag, sorted(miss), wantmiss))
    if plan.is_complete() != (not wantmiss):
        ctx.bad("%s: is_complete is %s with %s missing" % (tag, plan.is_complete(), wantmiss))
    got = [(m["name"], m["contents"], m["totalsize"]) for m in plan.manifests()]
    if got != [(m["name"], m["contents"], m["totalsize"]) for m in mans]:
        ctx.bad("%s: plan lists %s" % (tag, got))
    for p in list(req) + ["data/nosuch", "data/nosuch2", "", "data/d"]:
        hits = [m["name"] for m in mans if p in m["contents"]]
        d = plan.find_destination(p)
        if (d and d.get("name")) != (hits[-1] if hits else None):
            ctx.bad("%s: destination of %s is %s, listed in %s" % (tag, p, d and d.get("name"), hits))

def run_split(case, ctx):
    from multibag.split import WellPackedSplitter, NeighborlySplitter
    spec, d = L.make_source({"tree": case["tree"]}, ctx.sub("s"))
    snap = M.snapshot(d)
    req = required(snap)
    cls = WellPackedSplitter if case["how"] == "wp" else NeighborlySplitter
    for mx in (1, 5, 12, 60, 66000, 10**9):
        for fh in ("none", "first", "last", "slash", "two", "tag", "ghost"):
            plan = cls(mx, None, L.forhead_list({"forhead": fh}, spec)).plan(d)
            mans = [dict(m) for m in plan.manifests()]
            ctx.step()
            listed = [p for m in mans for p in m["contents"]]
            if sorted(listed) != sorted(req):
                ctx.bad("%s %s %s: plan lists %s, source has %s" % (mx, fh, case["how"], sorted(listed), sorted(req)))
            tag = (mx, fh)
            queries(ctx, plan, mans, [], req, tag)
            plan.complete_plan()
            queries(ctx, plan, mans, [], req, tag)
            if len({m["name"] for m in mans}) != len(mans):
                ctx.bad("%s: planned names repeat" % (tag,))
            for m in mans:
                if all(snap[p][0] == "f" for p in m["contents"]):
                    if m["totalsize"] != sum(len(snap[p][1]) for p in m["contents"]):
                        ctx.bad("%s: bag %s claims %s bytes" % (tag, m["name"], m["totalsize"]))
            ctx.state(case["tree"], case["how"], [m["contents"] for m in mans])
            # take one item out: exactly that one is missing, and comes back
            for m in plan._manifests:
                if m["contents"]:
                    p = m["contents"].pop(0)
                    if list(plan.missing()) != [p] or plan.is_complete() or plan.find_destination(p) is not None:
                        ctx.bad("%s: after taking out %s, missing are %s" % (tag, p, list(plan.missing())))
                    m["contents"].insert(0, p)
