"""C07: every version stays restorable through any update history"""
import itertools, os, shutil
from .. import model as M, agglab as A

TECHNIQUE = "exhaustive exploration of all update histories up to a depth on the real code (every version restored and looked up after each step), in lockstep with a version-store model"
LEVEL = "model_checking"
STARTS = ["plain", "single", "split", "zipped"]
OPS = ["add", "replace", "delete", "deldir", "readd", "readdin", "extra", "swap", "fork", "pack", "resplit", "revert", "tags", "deltag", "deltagdir", "tagin"]
CORE = ["add", "replace", "delete", "deldir", "readd", "readdin", "extra", "swap", "fork", "resplit", "revert"]
BOUNDS = {"quick": "all histories of up to 2 updates over an alphabet of %d update operations from %d starting points and all of 3 updates over %d operations from 2; "
                   "after each, every version made so far is restored and looked up" % (len(OPS), len(STARTS), len(CORE)),
          "thorough": "all histories of up to 3 updates over an alphabet of %d update operations from %d starting points and all of 4 updates over %d operations from 2"
                      % (len(OPS), len(STARTS), len(CORE))}
RULE = "bounded-exhaustive enumeration of update histories"
ASSUMPTIONS = ["bag names are not reused"]

def cases(tier):
    full = 3 if tier == "thorough" else 2
    for n in range(full + 2):
        for s in (STARTS if n <= full else ["single", "split"]):
            for h in itertools.product(OPS if n <= full else CORE, repeat=n):
                if any(h[i] == "pack" and h[i + 1] == "pack" for i in range(n - 1)):
                    continue
                yield {"start": s, "ops": list(h)}

class Store(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.dir = ctx.sub("store")
        self.n = 0
        self.versions = []      # (head name, expected files)
        self.gone = set()       # what the latest version has deleted
        self.lookups = []       # per version, whether tag files are looked up

    def bag(self, files, prefix="b"):
        self.n += 1
        return M.write_bag(self.dir, M.bagspec("%s%02d" % (prefix, self.n), files))

    def path(self, name):
        for e in [""] + M.FORMS:
            if os.path.exists(os.path.join(self.dir, name + e)):
                return os.path.join(self.dir, name + e)

    def amend(self, base, files, dels=(), extras=(), again=None):
        """a new version on top of version index base; again: a bag in the store that becomes the latest member but one"""
        from multibag.amend import amend_bag_with
        from multibag.access.multibag import HeadBag
        head = self.bag(files, "h")
        if dels:
            hb = HeadBag(head)
            for d in dels:
                hb.set_deleted(d)
            hb.save_deleted()
        ex = [self.bag(e, "x") for e in extras]
        extras = list(extras)
        if again:
            ex.append(self.path(again))
            extras.append({p: c for p, c in contents(self.path(again), self.ctx).items() if not M.is_special(p) and not p.startswith("multibag/")})
        name, exp = self.versions[base]
        amend_bag_with(self.path(name), head, "%d" % (len(self.versions) + 1), *ex)
        self.ctx.step()
        new = dict(exp)
        for e in list(extras) + [files]:
            new.update({p: c if isinstance(c, bytes) else M.content(c) for p, c in e.items()})
        new = {p: c for p, c in new.items() if not M.deleted_hit(p, dels)}
        self.versions.append((os.path.basename(head), new))

FIRST = {"data/a": "a1", "data/d/b": "b1", "data/d/c/e": "e1", "data/dx": "dx1", "meta/t": "t1"}

def start(st, kind):
    from multibag.amend import make_single_multibag
    from multibag.split import WellPackedSplitter
    exp = {p: M.content(c) for p, c in FIRST.items()}
    if kind == "split":
        src = M.write_bag(st.ctx.sub("src"), M.bagspec("orig", FIRST))
        bags = list(WellPackedSplitter(4).plan(src).apply_iter(st.dir))
        st.ctx.step()
        st.versions.append((os.path.basename(bags[-1]), exp))
        return
    b = st.bag(FIRST)
    if kind in ("single", "zipped"):
        make_single_multibag(b, "1")
        st.ctx.step()
    if kind == "zipped":
        M.serialize(b, ".zip")
    st.versions.append((os.path.basename(b), exp))

def apply(st, op, i):
    last = len(st.versions) - 1
    k = str(i)
    if op == "add":
        st.amend(last, {"data/new" + k: "new" + k})
    elif op == "replace":
        st.amend(last, {"data/a": "a-repl" + k, "data/d/b": "b-repl" + k})
    elif op == "delete":
        st.amend(last, {}, ["data/a"])
    elif op == "deldir":
        st.amend(last, {"data/keep": "k" + k}, ["data/d"])
    elif op == "readd":
        st.amend(last, {"data/a": "a-back" + k})
    elif op == "readdin":
        st.amend(last, {}, (), [{"data/d/b": "b-back" + k}])
    elif op == "extra":
        st.amend(last, {"data/h" + k: "h"}, (), [{"data/a": "x1" + k, "data/x": "x1"}, {"data/a": "x2" + k, "data/d/c/e": "e" + k}])
    elif op == "swap":
        st.amend(last, {"data/s": "s" + k}, ["data/d/b", "data/new0"], [{"data/d/y": "y" + k}])
    elif op == "fork":
        st.amend(max(0, last - 1), {"data/fork" + k: "fork", "data/a": "fork-a" + k})
    elif op == "revert":    # the first version's bag is given again as part of the update
        st.amend(last, {"data/rv" + k: "rv"}, (), (), st.versions[0][0])
    elif op == "tags":
        st.amend(last, {"meta/t": "t" + k, "meta/u": "u" + k})
    elif op == "deltag":
        st.amend(last, {}, ["meta/t"])
    elif op == "deltagdir":
        st.amend(last, {}, ["meta"])
    elif op == "tagin":
        st.amend(last, {"meta/n": "n" + k})
    elif op == "pack":
        keep = st.versions[-1][0]
        forms = itertools.cycle(M.FORMS)
        for n in sorted(os.listdir(st.dir)):
            p = os.path.join(st.dir, n)
            if os.path.isdir(p) and n != keep:
                M.serialize(p, next(forms))
    elif op == "resplit":
        from multibag.restore import restore_bag
        from multibag.split import NeighborlySplitter
        name, exp = st.versions[-1]
        st.n += 1
        dest = os.path.join(st.ctx.dir, "re%02d" % st.n)
        from multibag.access.multibag import is_headbag
        if is_headbag(st.path(name)):
            restore_bag(st.path(name), dest, st.dir)
        else:
            M.write_bag(st.ctx.dir, M.bagspec(os.path.basename(dest), exp))
        bags = list(NeighborlySplitter(9).plan(dest, "r%02d" % st.n).apply_iter(st.dir))
        st.ctx.step(2)
        st.versions.append((os.path.basename(bags[-1]), dict(exp)))
        shutil.rmtree(dest)     # the aggregation stands for itself

def run(case, ctx):
    st = Store(ctx)
    start(st, case["start"])
    for i, op in enumerate(case["ops"]):
        apply(st, op, i)
    check(st, ctx)
    # known: the other files of a directory deleted as a whole are only known if they are in the lookup
    ops = case["ops"]
    if "deltagdir" in ops and case["start"] != "split" and "tagin" in ops[ops.index("deltagdir"):]:
        kf = [p for p in ctx.problems if ": meta/" in p and p.endswith("should be None")]
        if kf:
            ctx.known.append("C07-undeleted-tagdir")
            ctx.problems = [p for p in ctx.problems if p not in kf]
    ctx.state([sorted(v[1].items()) for v in st.versions])

def check(st, ctx):
    from multibag.restore import restore_bag
    from multibag import open_headbag
    from multibag.access.multibag import is_headbag
    cache = {}
    for v, (name, exp) in enumerate(st.versions):
        p = st.path(name)
        if not is_headbag(p):
            continue            # a plain bag stands for itself
        dest = os.path.join(ctx.dir, "v%d" % v)
        restore_bag(p, dest, st.dir)
        ctx.step()
        files = M.files_of(M.snapshot(dest))
        got = {q: c for q, c in files.items() if not M.is_special(q)}
        for q in sorted(set(got) | set(exp)):
            if got.get(q) != exp.get(q):
                ctx.bad("version %d (%s): %s is %r, should be %r" % (v + 1, name, q, got.get(q), exp.get(q)))
        for pr in M.check_bag(dest, every_alg=False):
            ctx.bad("version %d (%s): %s" % (v + 1, name, pr))
        shutil.rmtree(dest)
        hb = open_headbag(p, True)
        for q, c in exp.items():
            if not q.startswith("data/"):
                continue
            m = hb.lookup_file(q)
            if m is None:
                ctx.bad("version %d (%s): no lookup for %s" % (v + 1, name, q))
                continue
            if m not in hb.member_bag_names:
                ctx.bad("version %d: lookup of %s names %s, not a member" % (v + 1, q, m))
                continue
            if m not in cache:
                cache[m] = contents(st.path(m), ctx)
            if cache[m].get(q) != c:
                ctx.bad("version %d: lookup of %s names %s, which has %r instead of %r" % (v + 1, q, m, cache[m].get(q), c))

def contents(path, ctx):
    if os.path.isdir(path):
        return M.files_of(M.snapshot(path))
    import zipfile, tarfile
    out = {}
    if path.endswith(".zip"):
        with zipfile.ZipFile(path) as z:
            for n in z.namelist():
                if not n.endswith("/"):
                    out[n.split("/", 1)[1]] = z.read(n)
    else:
        with tarfile.open(path) as t:
            for e in t:
                if e.isfile():
                    out[e.name.split("/", 1)[1]] = t.extractfile(e).read()
    return out
