"""
C08: (a) every sequence, up to a depth, of library operations on a family of bags that share hard links: after each one
every bag but the declared target is compared with what it was (files, contents, modes, times) and opened handles are
compared in memory;  (b) every operation of the fault scenarios x every file-system call x {failure, crash, torn write and
crash, interrupt}: the inputs are compared with what they were.
"""
import errno, os, shutil
from .. import model as M, shapes as S, faultlab as F, agglab as A, shim, space
from . import c09

LEVEL = "model_checking"
TECHNIQUE = "exhaustive operation sequences up to a depth plus exhaustive crash/fault/interrupt-point enumeration (LD_PRELOAD injector) on the real code; inputs compared byte by byte"
RULE = "distinct (operation, call, outcome) triples and distinct bag families reached"
ASSUMPTIONS = ["output bags may share hard links with the source by design: writing into an output bag by other means than this library is not considered",
               "the bag an operation is asked to update may be left in any state by a crash"]
CASE_TIMEOUT = 240
SHARDS = 8
KINDS = {"eio": (shim.FAIL, errno.EIO), "die": (shim.DIE, 0), "torn": (shim.TORN, 0), "int": (shim.INT, 0), "full": (shim.STICKY, errno.ENOSPC)}

def scenarios(tier):
    out = [s for s in c09.scenarios(tier) if s["op"] not in ("validatebad", "mkdata", "mkfile")]
    for v in ("bag", "member", "head", "open"):
        out.append(dict(op="validate", v=v, head=(v == "head")))
    if tier == "quick":
        heavy = [s for s in out if s["op"] in ("restore", "inplace")]
        keep = [s for s in heavy if s in (dict(op="restore", form="dir", agginfo=True), dict(op="restore", form=".zip", agginfo=False),
                                          dict(op="inplace", form="dir"), dict(op="inplace", form=".zip"), dict(op="restore", fetcher=True))]
        out = [s for s in out if s not in heavy] + keep
    return out

OPS = ["split:S", "plan:S", "plan:OH", "split:OH", "plan:O1", "restore:OH", "restore:N", "restore:S", "inplace:OH", "inplace:N",
       "amend:S", "amend:OH", "amend:N", "amendwith:O1", "amendwith:R", "amendmore:O1", "convert:O1", "convert:OH", "convert:R",
       "edit:OH", "edit:O1", "edit:N", "edit:R", "save:O1", "save:OH", "save:R", "tagdir:OH", "tagdir:N", "validate", "plan:R"]
ROOTS = ["std", "head", "stale", "fetch", "zip", "special"]
BOUNDS = {"quick": "all sequences of 3 of %d operations from a plain source (2 from 5 other kinds of source); %d scenarios x every file-system call x 5 kinds of failure or crash" % (len(OPS), len(scenarios("quick"))),
          "thorough": "all sequences of 4 of %d operations from a plain source (3 from 5 other kinds); %d scenarios x every file-system call x 5 kinds" % (len(OPS), len(scenarios("thorough")))}

def cases(tier):
    def seqs():
        deep = 3 if tier == "quick" else 4
        for r in ROOTS:
            for s in prefixes(deep if r == "std" else deep - 1):
                yield dict(kind="seq", root=r, seq=s)
    def faults():
        for s in scenarios(tier):
            for part in range(SHARDS):
                yield dict(s, kind="fault", part=part)
    import itertools
    return itertools.chain(seqs(), faults())

ROLE_OF = {"split": ("O1", "OH"), "plan": ("O1", "OH"), "restore": ("R",), "amend": ("N",), "amendwith": (), "amendmore": ("N",)}

def prefixes(depth):
    """sequences in which every role used has been produced before; only the maximal ones (shorter ones are their prefixes)"""
    out = []
    def rec(seq, roles):
        if len(seq) == depth:
            out.append(seq)
            return
        for o in OPS:
            op, _, role = o.partition(":")
            if role and role not in roles:
                continue
            if op == "validate" and "validate" in seq:
                continue
            new = roles | set(ROLE_OF.get(op, ()))
            rec(seq + [o], new)
    rec([], {"S"})
    return out

def shot(path):
    """what a bag is: contents, modes and times of its files and directories"""
    if os.path.isfile(path):
        st = os.stat(path)
        with open(path, "rb") as f:
            return {"": ("f", f.read(), st.st_mode, st.st_mtime_ns)}
    return M.snapshot(path, meta=True)

def make_root(ctx, kind):
    w = ctx.sub("w")
    for d in ("src", "out", "amend"):
        os.mkdir(os.path.join(w, d))
    sd = os.path.join(w, "src")
    extra = []
    if kind == "head":
        for s in F.agg_specs("src"):
            M.write_bag(sd, s)
        extra = ["src/m1", "src/m2"]
    elif kind == "stale":
        sp = F.src_spec("src")
        sp["files"].update({"multibag/member-bags.tsv": "old\n", "multibag/file-lookup.tsv": "data/a\told\n", "multibag/deleted.txt": "data/x\n",
                            "multibag/aggregation-info.txt": "X: y\n", "multibag/note": "n"})
        M.write_bag(sd, sp)
    elif kind == "fetch":
        sp = F.src_spec("src")
        sp["fetch"] = [["http://x/y", "3", "data/later"]]
        sp["extra_manifest"] = {"data/later": "abc"}
        M.write_bag(sd, sp)
    elif kind == "special":
        M.write_bag(sd, S.source("special", "multi", ("md5", "sha256"), name="src"))
    else:
        M.write_bag(sd, F.src_spec("src"))
    p = os.path.join(sd, "src")
    if kind == "zip":
        p = M.serialize(p, ".zip")
    return w, p, [os.path.join(w, e) for e in extra]

def run(case, ctx):
    if case["kind"] == "seq":
        return run_seq(case, ctx)
    return run_fault(case, ctx)

def run_seq(case, ctx):
    from multibag.access.bagit import Bag, open_bag
    from multibag.access.extended import ExtendedReadWritableBag, as_extended
    from multibag.access.multibag import HeadBag
    from multibag.split import WellPackedSplitter, NeighborlySplitter, SplitPlan
    from multibag.restore import restore_bag
    from multibag.amend import Amender, SingleMultibagMaker, amend_bag_with, make_single_multibag
    from multibag.validate import HeadBagValidator, MemberBagValidator, BagValidator, ALL
    w, src, extra = make_root(ctx, case["root"])
    roles = {"S": src}
    known = [src] + extra          # all bags there are
    shots = {p: shot(p) for p in known}
    count = [0]
    def fresh():
        count[0] += 1
        return count[0]
    def memo(b):
        """what can be seen of an opened bag"""
        return repr((sorted(b.info.items(), key=str), sorted(b.entries.items()), b.version, sorted(b.algorithms)))
    for o in case["seq"]:
        op, _, role = o.partition(":")
        at = roles.get(role)
        target = set()
        new = []
        handles = []
        try:
            if op == "split":
                d = os.path.join(w, "out", "o%d" % fresh())
                os.mkdir(d)
                if os.path.isfile(at):
                    continue
                outs = WellPackedSplitter(45).split(at, d)
                new = outs
                roles["O1"], roles["OH"] = outs[0], outs[-1]
            elif op == "plan":
                d = os.path.join(w, "out", "o%d" % fresh())
                os.mkdir(d)
                h = open_bag(at) if os.path.isfile(at) else Bag(at)
                handles.append((h, memo(h)))
                plan = SplitPlan(h)
                req = sorted(plan.required())
                plan._manifests.append({"name": "hand_1", "contents": req[: len(req) // 2], "totalsize": 0})
                plan.complete_plan()
                outs = []
                for x in plan.apply_iter(d):
                    outs.append(x)
                    new.append(x)
                roles["O1"], roles["OH"] = outs[0], outs[-1]
            elif op == "restore":
                d = os.path.join(w, "out", "r%d" % fresh())
                comp = compdir(w, at, known)
                h = open_bag(at)
                handles.append((h, memo(h)))
                restore_bag(at, d, comp)
                new = [d]
                roles["R"] = d
            elif op == "inplace":
                comp = compdir(w, at, known)
                target = {at}
                restore_bag(at, None, comp)
            elif op in ("amend", "amendmore"):
                n = fresh()
                head = M.write_bag(os.path.join(w, "amend"), M.bagspec("new%d" % n, {"data/a": "newer %d" % n, "data/n": "n"}))
                target = {head}
                h = open_bag(at if op == "amend" else src)
                handles.append((h, memo(h)))
                a = Amender(h, head, "pid:%d" % n, "c")
                a.init_from_amendee()
                if op == "amendmore":
                    m = open_bag(at)
                    handles.append((m, memo(m)))
                    a.add_amending_bag(m)
                a.finalize(str(n))
                new = [head]
                roles["N"] = head
            elif op == "amendwith":
                target = {at}
                amend_bag_with(src, at, "7")
            elif op == "convert":
                target = {at}
                make_single_multibag(at, "3", "pid:c")
            elif op == "edit":
                target = {at}
                b = HeadBag(at)
                b.add_member_bag("zzz")
                b.add_file_lookup("data/zzz", "zzz")
                b.set_deleted("data/yyy")
                b.save_member_bags(); b.save_file_lookup(); b.save_deleted()
                b.update_info("8")
                b.save(manifests=True)
            elif op == "save":
                target = {at}
                b = ExtendedReadWritableBag(at)
                b.info["X-Added"] = "x"
                b.update_oxum()
                b.update_bag_size()
                b.save(manifests=True)
            elif op == "tagdir":
                target = {at}
                b = HeadBag(at)
                b.set_multibag_tag_dir("elsewhere", True)
                b.add_member_bag("qqq")
                b.save_member_bags()
                b.save()
            elif op == "validate":
                for p in known:
                    h = open_bag(p)
                    handles.append((h, memo(h)))
                    for c in (HeadBagValidator, MemberBagValidator, BagValidator):
                        c(p).validate(ALL)
                    h.is_valid()
        except Exception as ex:
            # whether it may fail is for other properties to say
            ctx.state("failed", o, type(ex).__name__)
        ctx.step()
        for p in known:
            if p in target:
                continue
            now = shot(p)
            d = M.diff_snap(shots[p], now)
            if d:
                ctx.bad("%s (after %s) changed %s: %s" % (o, case["seq"][:case["seq"].index(o)], os.path.relpath(p, w), "; ".join(d[:3])))
                return
        for h, m in handles:
            if memo(h) != m:
                ctx.bad("%s changed the opened bag %s in memory: %.300s" % (o, h.name if hasattr(h, "name") else h.path, memo(h)))
        for p in new:
            if p not in known and os.path.exists(p):
                known.append(p)
        for p in known:
            if p in target or p not in shots:
                shots[p] = shot(p)
        ctx.state(case["root"], [(os.path.relpath(p, w), sorted(shots[p])) for p in known])

def compdir(w, head, known):
    """a directory with links to every bag there is, by name"""
    d = os.path.join(w, "comp")
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.mkdir(d)
    for p in known:
        os.symlink(p, os.path.join(d, os.path.basename(p)))
    return d

def run_fault(case, ctx):
    w = F.build(case, ctx.sub("w"))
    pristine = ctx.dir + "/pristine"
    shutil.copytree(w.w, pristine, symlinks=True)
    before = F.inputs(w)
    st, ans, n, types, _ = F.in_child(case, w, shim.COUNT)
    ctx.step(n)
    if st != "ok":
        ctx.bad("%s fails without any fault: %s" % (case["op"], ans))
        return
    d = M.diff_snap(before, F.inputs(w))
    if d:
        ctx.bad("%s changes its input: %s" % (case["op"], "; ".join(d[:3])))
        return
    others = {p: e for p, e in M.snapshot(w.p("upd")).items() if "/" not in p}
    idx = 0
    for k in range(n):
        for kind in sorted(KINDS):
            if kind in ("torn", "full") and types[k] not in ("write", "link", "openw"):
                continue
            if kind == "torn" and types[k] != "write":
                continue
            idx += 1
            if (idx - 1) % SHARDS != case["part"]:
                continue
            mode, err = KINDS[kind]
            F.reset(w, pristine)
            s, a, m, _, hit = F.in_child(case, w, mode, k, err)
            ctx.step(max(1, m))
            ctx.trace(1)
            ctx.state(case["op"], kind, types[k], s)
            if s == "broken":
                ctx.bad("%s of call %d (%s): the process was ended: %s" % (kind, k, types[k], a))
            d = M.diff_snap(before, F.inputs(w))
            if d:
                ctx.bad("%s with %s at call %d (%s) changes its input: %s" % (case["op"], kind, k, hit or types[k], "; ".join(d[:3])))
                return
