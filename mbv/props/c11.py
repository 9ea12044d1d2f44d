"""C11: head-bag editing behaves like a plain record and survives save and reopen"""
import itertools, os, shutil
from .. import model as M, agglab as A

TECHNIQUE = "exhaustive exploration of all edit sequences up to a depth on the real head-bag class, in lockstep with a plain-record model"
LEVEL = "model_checking"
MEM = ["add1", "add2", "add1b", "addhb", "rm1", "rmhb", "setm", "savem", "rereadm", "readm", "reopen"]
LU = ["lux1", "luy2", "luxh", "rmlux", "rmluz", "clearlu", "savelu", "rereadlu", "readlu", "rm1", "reopen"]
DEL = ["delx", "delz", "undelx", "undelg", "saved", "rereadd", "readd", "rm1", "reopen"]
MIX = ["add1", "add2", "add1b", "rm1", "rmhb", "setm", "savem", "rereadm", "readm",
       "lux1", "luy2", "rmlux", "clearlu", "savelu", "rereadlu", "readlu",
       "delx", "undelx", "undelg", "saved", "rereadd", "readd", "reopen", "migrate", "info", "saveall", "upd", "updex", "filesin", "refused"]
INITS = ["full", "blank", "plain", "partial", "custom", "old"]
DEPTH = {"quick": (3, 4), "thorough": (4, 5)}
BOUNDS = {t: "all edit sequences of up to %d operations over %d operations (%d for the other starting points), and of up to %d over each of the member, lookup and deletion interfaces (one fewer for an empty head bag), "
             "from %d starting bags; every prefix is a case of its own and is compared with the record, the files and a fresh read" % (DEPTH[t][0], len(MIX), DEPTH[t][0] - 1, DEPTH[t][1], len(INITS)) for t in DEPTH}
RULE = "bounded-exhaustive enumeration of edit histories against a reference record"
ASSUMPTIONS = ["one handle edits the bag at a time", "moving the tag directory is done with migrate=True and followed by saving the bag"]

def cases(tier):
    """one case = a starting bag and a prefix; the last operation is enumerated inside"""
    dm, ds = DEPTH[tier]
    yield {"init": "full", "ops": [], "alpha": "MIX"}
    for init in INITS:
        for n in range(0, (dm if init in ("full", "partial") else dm - 1)):
            for pre in itertools.product(MIX, repeat=n):
                yield {"init": init, "ops": list(pre), "alpha": "MIX"}
    for name, alpha in (("MEM", MEM), ("LU", LU), ("DEL", DEL)):
        for init in ("full", "blank"):
            for n in range(1, ds if init == "full" else ds - 1):
                for pre in itertools.product(alpha, repeat=n):
                    yield {"init": init, "ops": list(pre), "alpha": name}

UNIVERSE = ["data/x", "data/y", "data/z", "data/gone", "data/own", "data/d/e", "meta/t"]

class Rec(object):
    """the plain record"""
    def __init__(self, mem, lu, dele, tagdir):
        self.disk = [list(mem), list(lu), set(dele)]
        self.m, self.l, self.d = list(mem), list(lu), set(dele)
        self.tagdir = tagdir

    def rmmember(self, n):
        self.m = [x for x in self.m if x[0] != n]
        for p, b in self.l:
            if b == n:
                self.d.discard(p)
        self.l = [x for x in self.l if x[1] != n]

    def setlu(self, p, b):
        for i, x in enumerate(self.l):
            if x[0] == p:
                self.l[i] = (p, b)
                return
        self.l.append((p, b))

def initial(kind, parent):
    name = "hb"
    td = "mbt" if kind == "custom" else "multibag"
    spec = M.bagspec(name, {"data/own": "own", "data/d/e": "e", "meta/t": "t"})
    mem, lu, de = [], [], set()
    if kind in ("full", "custom", "partial", "old"):
        mem = [("m1", "ark:/1", "first # one", []), ("m2", None, None, ["i1", "i2"]), (name, None, None, [])]
        lu = [("data/x", "m1"), ("data/z", "m1"), ("data/y", "m2"), ("data/own", name)]
        de = {"data/gone", "data/z"}
    if kind == "partial":
        lu = []
    if kind == "old":
        mem = [(n, None, None, []) for n, u, c, i in mem]
    if kind != "plain":
        spec["info"] = A.head_info(spec["info"], "1", td, "0.2" if kind == "old" else "0.4")
    if kind in ("full", "custom", "partial"):
        spec["files"][td + "/member-bags.tsv"] = A.members_text([[n, u, c, i] for n, u, c, i in mem])
        if lu:
            spec["files"][td + "/file-lookup.tsv"] = "".join("%s\t%s\n" % x for x in lu)
        spec["files"][td + "/deleted.txt"] = "".join(x + "\n" for x in sorted(de))
    elif kind == "old":
        # as older versions wrote it; editing starts with bringing it up to date
        spec["files"][td + "/group-members.txt"] = "".join("%s\n" % m[0] for m in mem)
        spec["files"][td + "/group-directory.txt"] = "".join("%s %s\n" % x for x in lu)
        spec["files"][td + "/deleted.txt"] = "".join(x + "\n" for x in sorted(de))
    bag = M.write_bag(parent, spec)
    return bag, Rec(mem, lu, de, td)

class Run(object):
    def __init__(self, bag, rec):
        from multibag.access.multibag import HeadBag
        self.HeadBag = HeadBag
        self.bag, self.r = bag, rec
        self.hb = HeadBag(bag)
        self.nmig = 0

    def do(self, op, ctx):
        hb, r = self.hb, self.r
        ctx.step()
        if op == "add1":
            hb.add_member_bag("m1", "ark:/new")
            r.rmmember("m1")
            r.m.append(("m1", "ark:/new", None, []))
        elif op == "add2":
            hb.add_member_bag("m3", None, "third", ["x"])
            r.rmmember("m3")
            r.m.append(("m3", None, "third", ["x"]))
        elif op == "add1b":
            hb.add_member_bag("m1", override=False)
            r.m.append(("m1", None, None, []))
        elif op == "addhb":
            hb.add_member_bag("hb")
            r.rmmember("hb")
            r.m.append(("hb", None, None, []))
        elif op in ("rm1", "rmhb"):
            n = "m1" if op == "rm1" else "hb"
            hb.remove_member_bag(n)
            r.rmmember(n)
        elif op == "setm":
            from multibag.access.multibag import MemberInfo
            hb.set_member_bags([MemberInfo("m2", "u:2"), MemberInfo("m1", None, "back")])
            r.m = [("m2", "u:2", None, []), ("m1", None, "back", [])]
        elif op == "savem":
            hb.save_member_bags()
            r.disk[0] = list(r.m)
        elif op == "rereadm":
            self.cmp(ctx, "re-reading members", [tup(x) for x in hb.member_bags(True)], r.disk[0])
            r.m = list(r.disk[0])
        elif op == "readm":
            self.cmp(ctx, "members", [tup(x) for x in hb.member_bags()], r.m)
        elif op in ("lux1", "luy2", "luxh"):
            p, b = {"lux1": ("data/x", "m1"), "luy2": ("data/new", "m2"), "luxh": ("data/x", "hb")}[op]
            hb.add_file_lookup(p, b)
            r.setlu(p, b)
        elif op in ("rmlux", "rmluz"):
            p = {"rmlux": "data/x", "rmluz": "data/nosuch"}[op]
            hb.remove_file_lookup(p)
            r.l = [x for x in r.l if x[0] != p]
        elif op == "clearlu":
            hb.clear_file_lookup()
            r.l = []
            r.disk[1] = []
        elif op == "savelu":
            hb.save_file_lookup()
            r.disk[1] = list(r.l)
        elif op == "rereadlu":
            self.cmp(ctx, "re-reading the lookup", hb.lookup_file("data/x", True), dict(r.disk[1]).get("data/x"))
            r.l = list(r.disk[1])
        elif op == "readlu":
            self.cmp(ctx, "lookup", hb.lookup_file("data/x"), dict(r.l).get("data/x"))
        elif op == "filesin":
            self.cmp(ctx, "files_in_member", sorted(hb.files_in_member("m1")), sorted(p for p, b in r.l if b == "m1"))
        elif op in ("delx", "delz"):
            p = {"delx": "data/x", "delz": "data/d z"}[op]
            hb.set_deleted(p)
            r.d.add(p)
        elif op in ("undelx", "undelg"):
            p = {"undelx": "data/x", "undelg": "data/gone"}[op]
            hb.unset_deleted(p)
            r.d.discard(p)
        elif op == "saved":
            hb.save_deleted()
            r.disk[2] = set(r.d)
        elif op == "rereadd":
            self.cmp(ctx, "re-reading deletions", sorted(hb.deleted_paths(True)), sorted(r.disk[2]))
            r.d = set(r.disk[2])
        elif op == "readd":
            self.cmp(ctx, "deletions", sorted(hb.deleted_paths()), sorted(r.d))
        elif op == "reopen":
            self.hb = self.HeadBag(self.bag)
            r.m, r.l, r.d = list(r.disk[0]), list(r.disk[1]), set(r.disk[2])
        elif op == "migrate":
            self.nmig += 1
            r.tagdir = ("n%d/mig" if self.nmig % 2 else "mig%d") % self.nmig
            hb.set_multibag_tag_dir(r.tagdir, True)
            hb.save()
        elif op == "info":
            hb.update_info("5")
        elif op == "saveall":
            hb.save_member_bags()
            hb.save_file_lookup()
            hb.save_deleted()
            r.disk = [list(r.m), list(r.l), set(r.d)]
        elif op == "upd":
            hb.update_for_member(hb)
            r.rmmember("hb")
            r.m.append(("hb", None, None, []))
            for p in ("data/own", "data/d/e"):
                r.setlu(p, "hb")
        elif op == "updex":
            hb.update_for_member(hb, ["data", "meta/t"], ["data/d"], False, "alias")
            for p in ("data/own", "meta/t"):
                r.setlu(p, "alias")

        elif op == "refused":
            # what makes no sense is refused and changes nothing
            for what, fn in (("a lookup entry without a path", lambda: hb.add_file_lookup("", "m1")), ("a lookup entry without a bag", lambda: hb.add_file_lookup("data/x", None)),
                             ("a lookup entry for a number", lambda: hb.add_file_lookup(3, "m1")), ("a lookup entry into a number", lambda: hb.add_file_lookup("data/x", 3)),
                             ("removing the lookup of nothing", lambda: hb.remove_file_lookup("")), ("members given by name", lambda: hb.set_member_bags(["m1"])),
                             ("an include that is no list", lambda: hb.update_for_member(hb, {"data": 1}, None, False)),
                             ("an exclude that is no list", lambda: hb.update_for_member(hb, None, 3, False)),
                             ("moving the tag directory onto another directory", lambda: hb.set_multibag_tag_dir("meta", True)),
                             ("moving the tag directory onto a file", lambda: hb.set_multibag_tag_dir("meta/t", True))):
                try:
                    fn()
                    ctx.bad("%s is not refused" % what)
                except Exception:
                    pass
            hb.set_multibag_tag_dir(r.tagdir, True)

    def cmp(self, ctx, what, got, want):
        if got != want:
            ctx.bad("%s: %s, should be %s" % (what, got, want))

def tup(m):
    return (m.name, m.uri, m.comment, list(m.info))

def observe(hb, paths):
    return ([tup(x) for x in hb.member_bags()], hb.member_bag_names,
            {p: hb.lookup_file(p) for p in paths}, {b: sorted(hb.files_in_member(b)) for b in ("m1", "m2", "m3", "hb", "alias")},
            sorted(hb.deleted_paths()))

def want(mem, lu, de, paths):
    d = dict(lu)
    return (list(mem), [x[0] for x in mem], {p: d.get(p) for p in paths},
            {b: sorted(p for p, x in d.items() if x == b) for b in ("m1", "m2", "m3", "hb", "alias")}, sorted(de))

WHAT = ["members", "member names", "lookup", "files in member", "deleted paths"]

def run(case, ctx):
    alpha = {"MIX": MIX, "MEM": MEM, "LU": LU, "DEL": DEL}[case["alpha"]]
    paths = UNIVERSE + ["data/new", "data/d z"]
    master = ctx.sub("init")
    bag, rec = initial(case["init"], master)
    msnap = M.snapshot(bag)
    for k, last in enumerate([None] + alpha if not case["ops"] else alpha):
        seq = case["ops"] + ([last] if last else [])
        if case["init"] == "old":
            seq = ["info"] + seq
        work = os.path.join(ctx.dir, "w%d" % k)
        os.mkdir(work)
        b = os.path.join(work, "hb")
        clone(msnap, b)
        _, rec = None, Rec(rec0(case)[0], rec0(case)[1], rec0(case)[2], rec0(case)[3])
        if case["init"] == "old":
            rec.disk = [list(rec.m), list(rec.l), set(rec.d)]
        r = Run(b, rec)
        nbad = len(ctx.problems)
        for op in seq:
            r.do(op, ctx)
        rec = r.r
        # visible state of the handle, files on disk, and what a fresh handle reads
        got, exp = observe(r.hb, paths), want(rec.m, rec.l, rec.d, paths)
        for w, g, e in zip(WHAT, got, exp):
            if g != e:
                ctx.bad("after %s: %s %s, should be %s" % (seq, w, g, e))
        files = M.files_of(M.snapshot(b))
        dm = [(n, u, c, list(i)) for n, u, i, c in M.parse_members(files.get(rec.tagdir + "/member-bags.tsv", b""))]
        dl = M.parse_lookup(files.get(rec.tagdir + "/file-lookup.tsv", b""))
        dd = M.parse_deleted(files.get(rec.tagdir + "/deleted.txt", b""))
        for w, g, e in (("member-bags.tsv", dm, rec.disk[0]), ("file-lookup.tsv", dl, rec.disk[1]), ("deleted.txt", sorted(dd), sorted(rec.disk[2]))):
            if g != e:
                ctx.bad("after %s: %s holds %s, should be %s" % (seq, w, g, e))
        fresh = r.HeadBag(b)
        got, exp = observe(fresh, paths), want(rec.disk[0], rec.disk[1], rec.disk[2], paths)
        for w, g, e in zip(WHAT, got, exp):
            if g != e:
                ctx.bad("reopened after %s: %s %s, should be %s" % (seq, w, g, e))
        for p, e in msnap.items():
            if e[0] == "f" and p.startswith(("data/", "meta/")) and files.get(p) != e[1]:
                ctx.bad("after %s: %s was changed" % (seq, p))
        ctx.state(want(rec.m, rec.l, rec.d, paths), rec.disk, rec.tagdir)
        shutil.rmtree(work)
        ctx.trace()
        if len(ctx.problems) > nbad + 20:
            return

def clone(snap, dest):
    os.mkdir(dest)
    for p in sorted(snap):
        if snap[p][0] == "d":
            os.mkdir(os.path.join(dest, p))
    for p, e in snap.items():
        if e[0] == "f":
            with open(os.path.join(dest, p), "wb") as f:
                f.write(e[1])

_rc = {}
def rec0(case):
    k = case["init"]
    if k not in _rc:
        import tempfile
        d = tempfile.mkdtemp(dir=".")
        _, r = initial(k, d)
        shutil.rmtree(d)
        _rc[k] = (r.m, r.l, r.d, r.tagdir)
    return _rc[k]
