"""
C10: every read operation x every path spelling on the same bag in every access form; answers compared with a direct
reading of the bag and with each other.
"""
import itertools, os, shutil, zipfile, tarfile
from .. import model as M, shapes as S, space, agglab as A, splitlab as L

LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of bag shapes x access forms x read operations x path spellings on the real code, against direct reading of the bag (differential between forms)"
RULE = "distinct (bag, form, answers) combinations"
FORMS = ["ro"] + M.FORMS + ["zip-implicit", "tar-implicit", "zip-rev", "tar-rev", "renamed.zip", "renamed.tgz", "uriosfs"]
BOUNDS = {"quick": "all tree shapes x %d access forms; all metadata blocks, checksum sets, bag versions, damage and head-bag kinds x all forms (one departure from the standard bag, tree shapes crossed with forms)" % len(FORMS),
          "thorough": "all combinations of two departures over tree, metadata, checksums, version, damage and head kind, x all forms"}
ASSUMPTIONS = ["file paths are given relative to the bag (leading slashes are not)", "creation and access times are not stored in archives",
               "manifest file names are compared without their directory"]
DIMS = [
    ("tree", ["std"] + [t for t in S.TREES if t != "std"]),
    ("info", ["std"] + [t for t in S.INFOS if t != "std"] + ["none"]),
    ("algs", ["sha256", "md5", "two", "four", "rare"]),
    ("ver", ["0.97", "1.0", "0.96"]),
    ("tagman", [True, False]),
    ("upper", [False, True] + L.MSTYLES + ["nfc", "nfd"]),
    ("enc", ["UTF-8", "utf-8", "ISO-8859-1", "UTF-16"]),
    ("damage", ["no", "altered", "extra", "missing", "oxum", "tag", "samesize"]),
    ("head", ["no", "0.4", "0.3", "0.2", "tagdir", "broken", "deleted"]),
    ("fetch", [False, True]),
    ("text", ["plain", "crlf", "bom", "cr", "latin"]),
    ("srcname", ["src", "my src", "src.v1.bag", u"s\u00e9"]),
]

def cases(tier):
    def gen():
        for c in space.deviations(DIMS, 1 if tier == "quick" else 2):
            for f in FORMS:
                yield dict(c, form=f)
        for t in S.TREES:           # every tree as a head bag, in two forms
            for h in ("0.4", "deleted"):
                for f in (".zip", ".tar.gz", "ro"):
                    yield dict(next(space.deviations(DIMS, 0)), tree=t, head=h, form=f)
        for k in ("nobag.zip", "nobag.tar", "nobag.tgz", "empty.zip", "empty.tar", "fileonly.zip", "nested.zip", "nested.tar", "ext.rar", "ext.none"):
            yield {"archive": k}
    return gen()

def build(case, parent):
    spec = S.source(case["tree"], "min" if case["info"] == "none" else case["info"], L.ALGSETS[case["algs"]], case["ver"],
                    case["tagman"], case["srcname"], noinfo=case["info"] == "none", upper=case["upper"])
    spec["files"] = dict(spec["files"])
    name = spec["name"]
    txt = {"plain": "one\ntwo\n", "crlf": "one\r\ntwo\r\n", "bom": u"\ufeffone\ntwo", "cr": "one\rtwo\r", "latin": b"caf\xe9\n"}[case["text"]]
    spec["files"]["data/text.txt"] = txt
    spec["files"]["notes/text.txt"] = txt
    if case["fetch"]:
        spec["fetch"] = [["http://h/x", "12", "data/remote/x"], ["http://h/y", "-", "data/y y"]]
        spec["extra_manifest"] = {"data/remote/x": "x", "data/y y": "y"}
    if case["upper"] in ("nfc", "nfd"):      # names in the manifests composed differently than on disk
        spec["files"][u"data/caf\u00e9" if case["upper"] == "nfd" else u"data/cafe\u0301"] = "e acute"
    if case["enc"] != "UTF-8":
        spec["enc"] = case["enc"]
        spec["files"][u"data/caf\u00e9"] = "e acute"
        spec["info"] = spec["info"] + [["Contact-Name", u"Andr\u00e9"]]
    h = case["head"]
    if h != "no":
        td = "mb tags" if h == "tagdir" else "multibag"
        pv = h if h[0] == "0" else "0.4"
        spec["info"] = A.head_info(spec["info"], tagdir=td, profver=pv, version="2", deprecates=["1, old"])
        spec["noinfo"] = False
        mem = M.bagspec("m1", {"data/m1": "m", "data/z": "z"})
        look = A.lookup_of([mem, spec])
        if pv == "0.2":
            look = {p: b for p, b in look.items() if " " not in p and " " not in b}
        ents = ["m1", spec["name"]] if pv == "0.2" else [["m1", "http://h/m1", "a comment", ["k=v"]], [spec["name"]]]
        A.tag_files(spec, [mem, spec], tagdir=td, profver=pv, lookup=look, entries=ents, deleted=["data/gone", "data/d d"] if h == "deleted" else ())
        if h == "broken":
            del spec["files"]["multibag/member-bags.tsv"]
            del spec["files"]["multibag/file-lookup.tsv"]
    root = M.write_bag(parent, spec)
    d = case["damage"]
    if d == "altered":
        M.put(os.path.join(root, "data/text.txt"), b"altered, other size")
    elif d == "samesize":
        M.put(os.path.join(root, "data/text.txt"), b"Q" * len(M.content(txt)))
    elif d == "extra":
        M.put(os.path.join(root, "data/zz"), b"")
    elif d == "missing":
        os.remove(os.path.join(root, "data/text.txt"))
    elif d == "oxum":
        p = os.path.join(root, "bag-info.txt")
        if os.path.exists(p):
            M.put(p, open(p, "rb").read().replace(b"Payload-Oxum: ", b"Payload-Oxum: 1"))
    elif d == "tag":
        M.put(os.path.join(root, "notes/text.txt"), b"altered")
    return root

def exc(ex):
    if isinstance(ex, UnicodeError):
        return "unicode error"
    return "error"

def call(fn, *a, **k):
    try:
        return fn(*a, **k)
    except Exception as ex:
        return "!" + exc(ex)

def read_text(bag, p):
    with bag.open_text_file(p) as fd:
        return fd.read()

def lines_text(bag, p):
    with bag.open_text_file(p) as fd:
        return list(fd)

def walked(bag, start=None):
    out = {}
    for d, ds, fs in (bag.walk() if start is None else bag.walk(start)):
        if d in out:
            return "listed twice: " + d
        out[d] = (sorted(ds), sorted(fs))
    return sorted(out.items())

def spellings(p):
    yield p
    yield "./" + p
    if p:
        yield p.replace("/", "//", 1) if "/" in p else p + "/."
    yield "nosuch/../" + p
    yield "data/../" + p

def probe(bag, snap, light=False):
    files = M.files_of(snap)
    dirs = sorted(p for p, e in snap.items() if e[0] == "d")
    out = {}
    out["name"] = call(lambda: bag.name)
    out["info"] = call(lambda: sorted((k, v if isinstance(v, list) else [v]) for k, v in bag.info.items()))
    out["infoorder"] = call(lambda: list(bag.info.items()))
    out["version"] = call(lambda: bag.version)
    out["encoding"] = call(lambda: bag.encoding)
    out["algs"] = call(lambda: sorted(bag.algs))
    out["ishead"] = call(bag.is_head_multibag)
    out["entries"] = call(lambda: sorted((p, sorted(h.items())) for p, h in bag.entries.items()))
    out["payload_entries"] = call(lambda: sorted((p, sorted(h.items())) for p, h in bag.payload_entries().items()))
    out["tagfile_entries"] = call(lambda: sorted((p, sorted(h.items())) for p, h in bag.tagfile_entries().items()))
    out["manifest_files"] = call(lambda: sorted(os.path.basename(f) for f in bag.manifest_files()))
    out["tagmanifest_files"] = call(lambda: sorted(os.path.basename(f) for f in bag.tagmanifest_files()))
    out["payload_files"] = call(lambda: sorted(bag.payload_files()))
    out["missing_tags"] = call(lambda: sorted(bag.missing_optional_tagfiles()))
    out["fetch"] = call(lambda: sorted(map(tuple, bag.fetch_entries())))
    out["tobefetched"] = call(lambda: sorted(bag.files_to_be_fetched()))
    out["has_oxum"] = call(bag.has_oxum)
    out["cmp"] = call(lambda: tuple(sorted(x) for x in bag.compare_manifests_with_fs()))
    out["valid"] = call(bag.is_valid)
    out["validfast"] = call(lambda: bag.is_valid(fast=True))
    out["validcomplete"] = call(lambda: bag.is_valid(completeness_only=True))
    out["nonstandard"] = call(lambda: sorted(bag.nonstandard()))
    out["walk"] = call(walked, bag)
    for d in dirs:
        out["walk", d] = call(walked, bag, d)
    for d in dirs[:2]:
        out["walk", d + "/"] = call(walked, bag, d + "/")
    out["walk", "nosuch"] = call(walked, bag, "nosuch")
    for p in sorted(snap) + ["", "nosuch", "data/nosuch", "nosuch/x"] + [p + "/x" for p in list(files)[:2]] + [p + "x" for p in list(snap)[:3]]:
        for q in spellings(p):
            out["exists", q] = call(bag.exists, q)
            out["isfile", q] = call(bag.isfile, q)
            out["isdir", q] = call(bag.isdir, q)
        if p not in dirs and p:
            for q in spellings(p):
                out["sizeof", q] = call(bag.sizeof, q)
    for p in files:
        out["text", p] = call(read_text, bag, p)
        out["lines", p] = call(lines_text, bag, p)
        out["text16", p] = call(lambda: bag.open_text_file(p, encoding="latin-1").read())
    out["text", "nosuch"] = call(read_text, bag, "nosuch")
    return out

def head_probe(bag):
    from multibag.access.multibag import as_headbag
    hb = as_headbag(bag, readonly=True)
    out = {}
    for a in ("head_version", "profile_version", "multibag_tag_dir", "member_bag_names"):
        out[a] = call(lambda: getattr(hb, a))
    mi = lambda ms: [(m.name, m.uri, m.comment, list(m.info)) for m in ms]
    out["members"] = call(lambda: mi(hb.member_bags()))
    out["itermembers"] = call(lambda: mi(hb.iter_member_bags()))
    out["iterlookup"] = call(lambda: sorted(map(tuple, hb.iter_file_lookup())))
    for p in ("data/text.txt", "data/m1", "data/nosuch", "data/z", "text.txt"):
        out["lookup", p] = call(hb.lookup_file, p)
    for b in ("m1", "src", "nosuch"):
        out["inmember", b] = call(lambda: sorted(hb.files_in_member(b)))
    out["deleted"] = call(lambda: sorted(hb.deleted_paths()))
    out["iterdeleted"] = call(lambda: sorted(hb.iter_deleted()))
    return out

def verdicts(path):
    from multibag.validate.headbag import HeadBagValidator
    from multibag.validate.member import MemberBagValidator
    from multibag.validate.bag import BagValidator
    from multibag.validate.base import ALL
    out = {}
    for nm, cls in (("headv", HeadBagValidator), ("memberv", MemberBagValidator), ("bagv", BagValidator)):
        out[nm] = call(lambda: sorted((i.type, i.label, i.specification, i.passed()) for i in cls(path).validate(ALL).applied()))
    return out

def copies(bag, snap, dest):
    for p, e in sorted(snap.items()):
        if e[0] == "f" or p not in {x.rsplit("/", 1)[0] for x in snap if "/" in x}:
            bag.replicate(p, dest)
    return M.snapshot(dest)

def open_form(case, root, ctx):
    from multibag.access.bagit import open_bag
    f = case["form"]
    base = os.path.join(ctx.dir, "ser")
    os.mkdir(base)
    nm = os.path.basename(root)
    if f == "ro":
        return root, open_bag(root)
    if f == "uriosfs":
        return root, open_bag("osfs://" + root)
    if f.startswith("renamed"):
        ext = f[len("renamed"):]
        p = M.serialize(root, ext, dest=os.path.join(base, "another.name" + ext), keep=True)
    elif f.endswith("implicit"):
        ext = "." + f[:3]
        p = M.serialize(root, ext, dest=os.path.join(base, nm + ext), keep=True, implicit_dirs=True)
    elif f.endswith("rev"):
        ext = "." + f[:3]
        p = M.serialize(root, ext, dest=os.path.join(base, nm + ext), keep=True, order="rev")
    else:
        p = M.serialize(root, f, dest=os.path.join(base, nm + f), keep=True)
    return p, open_bag(p)

def run(case, ctx):
    if "archive" in case:
        return run_archive(case, ctx)
    from multibag.access.bagit import Bag
    from multibag.access.extended import as_extended
    root = build(case, ctx.dir)
    if case["form"].endswith("implicit"):
        # an archive without directory entries cannot hold empty directories
        for p in sorted(M.empty_dirs(M.snapshot(root)), reverse=True):
            while p and p != "data" and not os.listdir(os.path.join(root, p)):
                os.rmdir(os.path.join(root, p))
                p = os.path.dirname(p)
        if not os.listdir(os.path.join(root, "data")):
            return
    snap = M.snapshot(root)
    files = M.files_of(snap)
    rw = as_extended(Bag(root))
    path, bag = open_form(case, root, ctx)
    bag = as_extended(bag)
    a, b = probe(rw, snap), probe(bag, snap)
    ctx.step(len(a))
    if case["form"] != "uriosfs":
        a.update(verdicts(root))
        b.update(verdicts(path))
    if case["tree"] == "std" and case["info"] == "std" and case["damage"] != "no" or case["head"] == "deleted":
        a["multi2"], b["multi2"] = call(rw.validate, processes=2), call(bag.validate, processes=2)
    a.update((("head", k), v) for k, v in head_probe(rw).items())
    b.update((("head", k), v) for k, v in head_probe(bag).items())
    ctx.expect(rw.is_readonly is False and bag.is_readonly is True, "is_readonly is wrong")
    for k in a:
        if a[k] != b.get(k):
            ctx.bad("%s: directory gives %.300r, %s gives %.300r" % (k if isinstance(k, str) else "%s(%s)" % (k[0], ", ".join(map(repr, k[1:]))), a[k], case["form"], b.get(k)))
    # and both are right
    dirs = {p for p, e in snap.items() if e[0] == "d"}
    for nm, r in (("directory", a), (case["form"], b)):
        if r["name"] != case["srcname"]:
            ctx.bad("%s: name is %r" % (nm, r["name"]))
        for p in snap:
            if r["exists", p] is not True or r["isfile", p] != (p in files) or r["isdir", p] != (p in dirs):
                ctx.bad("%s: existence of %r: %s %s %s" % (nm, p, r["exists", p], r["isfile", p], r["isdir", p]))
            if p in files and r["sizeof", p] != len(files[p]):
                ctx.bad("%s: size of %r: %s" % (nm, p, r["sizeof", p]))
        for p in files:
            try:
                t = files[p].decode("utf-8-sig")
            except UnicodeDecodeError:
                t = "!unicode error"
            got = r["text", p]
            if got != t and got.replace("\r\n", "\n").replace("\r", "\n") != t.replace("\r\n", "\n").replace("\r", "\n"):
                ctx.bad("%s: text of %r is %.100r" % (nm, p, got))
        w = {d: (sorted(x for x in os.listdir(os.path.join(root, d)) if os.path.isdir(os.path.join(root, d, x))),
                 sorted(x for x in os.listdir(os.path.join(root, d)) if not os.path.isdir(os.path.join(root, d, x)))) for d in [""] + sorted(dirs)}
        if r["walk"] != sorted(w.items()):
            ctx.bad("%s: walk() gives %.400r" % (nm, r["walk"]))
        for d in dirs:
            if r["walk", d] != sorted((k, v) for k, v in w.items() if k == d or k.startswith(d + "/")):
                ctx.bad("%s: walk(%r) gives %.400r" % (nm, d, r["walk", d]))
        ns = sorted([p for p in files if not M.is_special(p)] + list(M.empty_dirs(snap)))
        if r["nonstandard"] != ns:
            ctx.bad("%s: nonstandard() gives %.400r, should be %.400r" % (nm, r["nonstandard"], ns))
        info = M.tagmap(files.get("bag-info.txt", b"").decode(M.encoding_of(files)))
        got = {k: [" ".join(x.split()) for x in v] for k, v in r["info"]}
        if got != info:
            ctx.bad("%s: metadata is %r, should be %r" % (nm, got, info))
        valid = not M.check_bag(root, every_alg=case["ver"] == "1.0", check_oxum=True) if not case["fetch"] else r["valid"]
        if case["upper"] in ("nfc", "nfd"):
            valid = True if case["upper"] == "nfc" and case["damage"] == "no" else r["valid"]
        if r["valid"] != valid and not (case["ver"] == "0.96" and case["damage"] == "tag"):
            ctx.bad("%s: valid is %s, should be %s: %s" % (nm, r["valid"], valid, M.check_bag(root)))
    ca, cb = copies(rw, snap, ctx.sub("c1")), copies(bag, snap, ctx.sub("c2"))
    ctx.step(2 * len(snap))
    for nm, c in (("directory", ca), (case["form"], cb)):
        if c != snap:
            ctx.bad("%s: copied out: %s" % (nm, M.diff_snap(snap, c)[:5]))
    if M.snapshot(root) != snap:
        ctx.bad("reading changed the bag")
    ctx.state(case, len(b))

def run_archive(case, ctx):
    from multibag.access.bagit import open_bag, BagError
    from multibag.access.multibag import open_headbag
    from multibag.access.extended import as_extended
    k = case["archive"]
    root = M.write_bag(ctx.dir, S.source("std"))
    kind, ext = k.split(".")
    ext = "." + ext
    p = os.path.join(ctx.dir, "a" + ext)
    ok = False
    if kind == "nobag":
        os.remove(os.path.join(root, "bagit.txt"))
        M.put(os.path.join(root, "data/bagit.txt.x"), b"x")
        M.serialize(root, ext, dest=p, keep=True)
    elif kind == "empty":
        if ext == ".zip":
            zipfile.ZipFile(p, "w").close()
        else:
            tarfile.open(p, "w").close()
    elif kind == "fileonly":
        with zipfile.ZipFile(p, "w") as z:
            z.writestr("readme", "x")
    elif kind == "nested":
        M.serialize(root, ext, dest=p, keep=True, prefix="some/where/")
        ok = True
    elif kind == "ext":
        M.put(p, b"Rar!")
    for fn in (open_bag, lambda x: open_headbag(x)):
        try:
            b = fn(p)
            if not ok:
                ctx.bad("%s was opened as a bag" % k)
            else:
                if not b.is_valid() or as_extended(b).name != "src":
                    ctx.bad("nested bag not opened properly")
        except (BagError, ValueError) as ex:
            if ok:
                ctx.bad("%s was not opened: %s" % (k, ex))
        ctx.step()
    ctx.state(case)
