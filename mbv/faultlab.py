"""operations run in a child process with a fault (or a crash) at every numbered file-system call"""
import errno, gc, json, os, shutil, signal, sys, tempfile
from . import model as M, shapes as S, agglab as A, shim

FILES = {"data/a": "new a", "data/b/c": [40, "cc"], "meta/t2": "tt", "data/d": [30, "d"]}

def src_spec(name="bag", tree=None, info="std", algs=("sha256", "md5")):
    if tree:
        return S.source(tree, info, algs, name=name)
    return M.bagspec(name, FILES, ["data/e2"], S.INFOS[info], algs)

def agg_specs(name="head", deleted=("data/gone",), agginfo=False, algs=("sha256",)):
    m1 = M.bagspec("m1", {"data/m1": "member one", "data/a": "old a", "data/gone": "g", "meta/t1": "t"}, ["data/e1"], algs=algs,
                   fetch=[["http://x/y", "3", "data/later"]], extra_manifest={"data/later": "abc"})
    m2 = M.bagspec("m2", {"data/m2": [50, "two"], "data/k/l": "kl"}, algs=algs)
    head = M.bagspec(name, FILES, ["data/e2"], algs=algs)
    head["info"] = A.head_info(head["info"])
    A.tag_files(head, [m1, m2, head], deleted=deleted, agginfo=S.INFOS["std"] if agginfo else None,
                entries=[["m1", "ark:/1", None, []], "m2", name])
    return [m1, m2, head]

class World(object):
    """dir w: in/ is protected, upd/ holds what the operation is asked to update, out/ what it creates"""
    def __init__(self, w):
        self.w = w
        for d in ("in", "upd", "out", "tmp"):
            os.mkdir(os.path.join(w, d))
    def p(self, *a):
        return os.path.join(self.w, *a)

def build(case, wd):
    w = World(wd)
    op = case["op"]
    form = case.get("form", "dir")
    def ser(path):
        return M.serialize(path, form, keep=False) if form != "dir" else path
    if op in ("split", "plan", "planrw", "planro", "validate", "validatebad"):
        if case.get("head"):
            for s in agg_specs("bag"):
                M.write_bag(w.p("in"), s)
        else:
            spec = src_spec("bag", case.get("tree"), case.get("info", "std"))
            if case.get("fetch"):
                spec["fetch"] = [["http://x/y", "3", "data/later"]]
                spec["extra_manifest"] = {"data/later": "abc"}
            M.write_bag(w.p("in"), spec)
        if op == "validatebad":
            bad = case.get("bad", "data/a")
            if bad.startswith("+"):      # a file that no manifest lists
                bad = w.p("in/bag", bad[1:])
                os.makedirs(os.path.dirname(bad))
                with open(bad, "w") as f:
                    f.write("unlisted")
            else:
                with open(w.p("in/bag", bad), "r+b") as f:
                    b = f.read()
                    f.seek(len(b) // 2)
                    f.write(bytes([b[len(b) // 2] ^ 1]))
        if op in ("plan", "validate", "validatebad"):
            ser(w.p("in/bag"))
    elif op == "restore":
        for s in agg_specs(agginfo=case.get("agginfo", False)):
            M.write_bag(w.p("in"), s)
        ser(w.p("in/m1"))
        if case.get("headform", "dir") != "dir":
            M.serialize(w.p("in/head"), case["headform"])
        if case.get("fetcher"):
            os.mkdir(w.p("in/remote"))
            os.rename(w.p("in/m1" + (form if form != "dir" else "")), w.p("in/remote/m1" + (form if form != "dir" else "")))
    elif op == "inplace":
        for s in agg_specs(agginfo=case.get("agginfo", False)):
            M.write_bag(w.p("upd"), s)
        for n in ("m1", "m2"):
            os.rename(w.p("upd", n), w.p("in", n))
        ser(w.p("in/m1"))
    elif op == "amend":
        if case.get("head", True):
            for s in agg_specs("old"):
                M.write_bag(w.p("in"), s)
        else:
            M.write_bag(w.p("in"), src_spec("old"))
        ser(w.p("in/old"))
        M.write_bag(w.p("in"), M.bagspec("more", {"data/more": "more", "data/a": "amended"}))
        if case.get("moreform", "dir") != "dir":
            M.serialize(w.p("in/more"), case["moreform"])
        M.write_bag(w.p("upd"), M.bagspec("newhead", {"data/n": "nn", "data/d": "newest"}))
    elif op in ("convert", "convertdir"):
        M.write_bag(w.p("upd"), src_spec("bag", case.get("tree")))
    elif op == "edit":
        for s in agg_specs("bag"):
            M.write_bag(w.p("upd"), s)
        for n in ("m1", "m2"):
            os.rename(w.p("upd", n), w.p("in", n))
    elif op in ("mkdata", "mkfile"):
        pass
    else:
        raise ValueError(op)
    return w

def path_in(w, name):
    """the bag in in/ called name, in whatever form"""
    for e in ("", ".zip", ".tar", ".tar.gz", ".tar.bz2"):
        if os.path.exists(w.p("in", name + e)):
            return w.p("in", name + e)

def perform(case, w):
    """run the operation; returns a JSON-able answer"""
    from multibag.access.bagit import Bag, open_bag
    from multibag.access.multibag import HeadBag, open_headbag
    op = case["op"]
    if op == "split":
        from multibag.split import WellPackedSplitter, NeighborlySplitter
        cls = NeighborlySplitter if case.get("nb") else WellPackedSplitter
        return cls(case.get("max", 45)).split(w.p("in/bag"), w.p("out"))
    if op in ("plan", "planrw", "planro"):
        from multibag.split import SplitPlan
        src = {"plan": lambda p: p, "planrw": Bag, "planro": open_bag}[op](path_in(w, "bag"))
        plan = SplitPlan(src)
        plan._manifests.append({"name": "p1", "contents": ["data/a", "meta/t2"], "totalsize": 0})
        plan.complete_plan()
        return list(plan.apply_iter(w.p("out")))
    if op in ("restore", "inplace"):
        from multibag.restore import restore_bag
        fetcher = None
        if case.get("fetcher"):
            def fetcher(name, cache):
                src = path_in(w, "remote/" + name)
                dst = os.path.join(cache, os.path.basename(src))
                if os.path.isdir(src):
                    shutil.copytree(src, dst)
                else:
                    shutil.copy(src, dst)
                return dst
            os.mkdir(w.p("out/cache"))
            os.symlink(w.p("in/m2"), w.p("out/cache/m2"))
        if op == "restore":
            b = restore_bag(path_in(w, "head"), w.p("out/restored"), w.p("out/cache") if fetcher else w.p("in"), fetcher)
        else:
            b = restore_bag(w.p("upd/head"), None, w.p("in"))
        return [b.name, sorted(map(str, b.info.items()))]
    if op == "amend":
        from multibag.amend import amend_bag_with, Amender
        if case.get("api") == "handle":
            old = open_bag(path_in(w, "old"))
            more = open_bag(path_in(w, "more"))
            a = Amender(old, w.p("upd/newhead"), "ark:/n", "the new head")
            a.init_from_amendee()
            a.add_amending_bag(more)
            a.finalize("2")
        else:
            amend_bag_with(path_in(w, "old"), w.p("upd/newhead"), "2", path_in(w, "more"))
        return None
    if op == "convert":
        from multibag.amend import make_single_multibag
        make_single_multibag(w.p("upd/bag"), "1", "ark:/c")
        return None
    if op == "convertdir":
        from multibag.amend import SingleMultibagMaker
        SingleMultibagMaker(w.p("upd/bag"), "mb/tags").convert("3")
        return None
    if op == "edit":
        b = HeadBag(w.p("upd/bag"))
        if case.get("tagdir"):
            b.set_multibag_tag_dir("moved", True)
        b.add_member_bag("x", "ark:/x", "comment")
        b.add_file_lookup("data/x", "x")
        b.set_deleted("data/y")
        if case.get("clear"):
            b.clear_file_lookup()
        b.save_member_bags()
        b.save_file_lookup()
        b.save_deleted()
        b.update_info("9")
        if case.get("save"):
            b.save(manifests=True)
        return None
    if op in ("validate", "validatebad"):
        from multibag.validate import HeadBagValidator, MemberBagValidator, BagValidator
        out = []
        loc = path_in(w, "bag")
        v = case.get("v", "bag")
        if v == "bag":
            return BagValidator(loc).is_valid()
        if v == "member":
            return MemberBagValidator(loc).is_valid()
        if v == "head":
            return HeadBagValidator(loc).is_valid()
        if v == "open":
            return open_bag(loc).is_valid()
    if op == "mkdata":
        import random
        random.seed(7)
        from multibag.testing.mkdata import mkdataset
        mkdataset(w.p("out/set"), 300, 9)
        return None
    if op == "mkfile":
        from multibag.testing.mkdata import create_file
        create_file(w.p("out/f"), case.get("size", 70000))
        return None
    raise ValueError(op)

def in_child(case, w, mode, k=-1, err=errno.EIO):
    """returns (status, answer, number of events, types, hit); status ok | error | died"""
    r, wr = os.pipe()
    gc.freeze()      # collecting in the child then looks at its own objects only
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            signal.alarm(60)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            os.close(r)
            sys.unraisablehook = lambda *a: None
            devnull = os.open("/dev/null", os.O_WRONLY)
            os.dup2(devnull, 2)
            tempfile.tempdir = w.p("tmp")
            os.environ["TMPDIR"] = w.p("tmp")
            gc.disable()
            shim.arm(w.w, mode, k, err)
            try:
                ans = perform(case, w)
                st = "ok"
            except (Exception, KeyboardInterrupt) as ex:
                ans = "%s: %s" % (type(ex).__name__, ex)
                st = "error"
                ex = None
            # whatever the operation left to be flushed and closed later
            try:
                gc.collect()
            except KeyboardInterrupt:
                st = "error"
            n = shim.disarm()
            rec = [st, json.dumps(ans, default=str).replace(w.w, "W"), n, shim.types(n) if mode == shim.COUNT else None, shim.hit()]
            b = json.dumps(rec).encode()
            while b:
                b = b[os.write(wr, b):]
        except BaseException:
            code = 99
        finally:
            os._exit(code)
    os.close(wr)
    buf = b""
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf += b
    os.close(r)
    _, stt = os.waitpid(pid, 0)
    if buf:
        return json.loads(buf.decode())
    if os.WIFEXITED(stt) and os.WEXITSTATUS(stt) == 77:
        return ["died", None, -1, None, ""]
    return ["broken", "status %s" % stt, -1, None, ""]

def reset(w, pristine):
    for d in ("upd", "out", "tmp"):
        shutil.rmtree(w.p(d))
        if d == "upd":
            shutil.copytree(os.path.join(pristine, d), w.p(d))
        else:
            os.mkdir(w.p(d))

def results(w):
    """what the operation wrote"""
    out = {}
    for d in ("upd", "out"):
        for p, e in M.snapshot(w.p(d)).items():
            out[d + "/" + p] = e
    return out

def inputs(w):
    return M.snapshot(w.p("in"), meta=True)
