"""
C14: every single corruption (every file, every byte position) of a bag x every access form x every validator: the bag
is reported invalid; the intact bag is reported valid.
"""
import os, re, shutil
from .. import model as M, shapes as S, space, agglab as A, splitlab as L

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of single corruptions (every file, byte position, manifest entry and digit) of a family of bags x access forms x validators on the real code, against an independent BagIt checker"
RULE = "distinct (bag, corruption, form, verdicts)"
FULL = ("std", "head", "notagman")
FORMS = ["dir"] + M.FORMS
KINDS = ["std", "two", "v1", "v096", "notagman", "nooxum", "noinfo", "head", "unicode", "spaces", "dots", "special", "prefix", "zeros", "big", "upper", "one"]
BOUNDS = {"quick": "%d bag kinds x all single corruptions (every byte changed, every truncation length, append, removal, rename, swap, type change, every added-file position; every manifest line removed/duplicated/altered in every hash digit and path character; declaration and size-record damage) on the directory form of 3 kinds; boundary positions of every file and every class elsewhere, including the 5 archive forms (2 for the other kinds); 4 validators" % len(KINDS),
          "thorough": "as quick, with every byte position for all kinds and forms"}
ASSUMPTIONS = ["tag manifests are verified for BagIt 0.97 and later", "a file only counts as recorded if some manifest lists it",
               "any error or invalid verdict counts as detection"]

def spec_of(kind):
    tree = kind if kind in S.TREES else "std"
    kw = {}
    if kind == "two":
        kw = dict(algs=("md5", "sha512"))
    elif kind == "v1":
        kw = dict(ver="1.0")
    elif kind == "v096":
        kw = dict(ver="0.96")
    elif kind == "notagman":
        kw = dict(tagman=False)
    elif kind == "noinfo":
        kw = dict(noinfo=True, info="min")
    elif kind == "upper":
        kw = dict(upper=True)
    s = S.source(tree, kw.pop("info", "std"), name="bag1", **kw)
    s["files"] = dict(s["files"])
    if kind == "head":
        s["info"] = A.head_info(s["info"], version="1")
        other = M.bagspec("m0", {"data/m0": "m"})
        A.tag_files(s, [other, s], deleted=["data/gone"])
    return s

def build(kind, parent):
    s = spec_of(kind)
    root = M.write_bag(parent, s, with_oxum=kind != "nooxum")
    return s, root

# a corruption is [class, args...]; it maps {path: bytes} + empty directories to the damaged ones
def flip(c, i):
    b = bytearray(c)
    b[i] ^= 1
    return bytes(b)

def positions(n, full):
    if full and n <= 3000:
        return list(range(n))
    ps = {0, 1, n // 2, n - 2, n - 1}
    for b in (65536, 524288, 1048576):
        ps |= {b - 1, b, b + 1}
    return sorted(p for p in ps if 0 <= p < n)

def corruptions(kind, files, dirs, full):
    """yields (label, newfiles, newdirs)"""
    mans = M.manifests(files)
    recorded = {p for m in mans["manifest"].values() for p in m}
    tagrec = set() if kind == "v096" else {p for m in mans["tagmanifest"].values() for p in m}
    for p in sorted(recorded | tagrec):
        c = files[p]
        def w(new):
            return dict(files, **{p: new})
        for i in positions(len(c), full):
            yield "byte %d of %s changed" % (i, p), w(flip(c, i)), dirs
        for i in (range(len(c)) if full and len(c) <= 400 else positions(len(c), False)):
            yield "%s cut to %d bytes" % (p, i), w(c[:i]), dirs
        yield "byte added to %s" % p, w(c + b"\0"), dirs
        yield "newline added to %s" % p, w(c + b"\n"), dirs
        yield "space put before %s" % p, w(b" " + c), dirs
        if c:
            yield "%s lost its first byte" % p, w(c[1:]), dirs
            yield "%s doubled" % p, w(c + c), dirs
        less = {q: x for q, x in files.items() if q != p}
        par = p.rsplit("/", 1)[0] if "/" in p else None
        ndirs = dirs | ({par} if par and not any(q.startswith(par + "/") for q in less) else set())
        yield "%s removed" % p, less, ndirs
        yield "%s renamed" % p, dict(less, **{p + "x": c}), dirs
        yield "%s renamed in case" % p, dict(less, **{swapname(p): c}), dirs
        yield "%s moved down" % p, dict(less, **{p + "/" + "f": c}), dirs
        yield "%s replaced by an empty directory" % p, less, dirs | {p}
        if p.startswith("data/"):
            yield "%s moved out of the payload" % p, dict(less, **{"moved-" + p.replace("/", "-"): c}), ndirs | {"data"}
        for q in sorted(recorded | tagrec):
            if q > p and files[q] != c and (q in recorded) == (p in recorded):
                yield "%s and %s swapped" % (p, q), dict(files, **{p: files[q], q: c}), dirs
                if full:
                    yield "%s copied over %s" % (p, q), dict(files, **{q: c}), dirs
                break
    # additions to the payload
    pdirs = {"data"} | {d for q in files if q.startswith("data/") for d in A.parents(q)} | {d for d in dirs if d.startswith("data")}
    for d in sorted(pdirs):
        for nm in ("added", ".added", "bagit.txt", "new/added", "manifest-sha256.txt", "a b", u"\u00e9t\u00e9"):
            q = d + "/" + nm
            if q in files or any(q.startswith(f + "/") for f in files):
                continue
            for c in (b"", b"added"):
                yield "%s added (%d bytes)" % (q, len(c)), dict(files, **{q: c}), dirs
    # manifests
    for fam, algs in mans.items():
        if kind == "big":
            break
        if fam == "tagmanifest" and kind == "v096":
            continue
        for alg in algs:
            mf = "%s-%s.txt" % (fam, alg)
            lines = files[mf].decode("utf-8").splitlines(True)
            # an entry less is only a contradiction if nothing else records the file
            single = len(algs) == 1 or kind == "v1"
            others = mf in tagrec
            for i, line in enumerate(lines):
                h, path = re.match(r"^(\S+)\s+(.*)\n$", line).groups()
                def wl(new):
                    return dict(files, **{mf: "".join(lines[:i] + new + lines[i + 1:]).encode("utf-8")})
                for j in (range(len(h)) if full else (0, len(h) - 1)):
                    x = "1" if h[j] == "0" else "0"
                    yield "%s: digit %d of the checksum of %s" % (mf, j, path), wl(["%s  %s\n" % (h[:j] + x + h[j + 1:], path)]), dirs
                yield "%s: checksum of %s shortened" % (mf, path), wl(["%s  %s\n" % (h[:-1], path)]), dirs
                yield "%s: checksum of %s lengthened" % (mf, path), wl(["%s  %s\n" % (h + "0", path)]), dirs
                for j in (range(len(path)) if full else (0, len(path) - 1)):
                    if path[j] == "/":
                        continue
                    # '~', '$' and '*' have meanings of their own; q is ordinary
                    x = "q" if path[j] != "q" else "r"
                    yield "%s: character %d of path %s" % (mf, j, path), wl(["%s  %s\n" % (h, path[:j] + x + path[j + 1:])]), dirs
                yield "%s: ghost entry after %s" % (mf, path), wl([line, "%s  %sghost\n" % (h, path)]), dirs
                other = "0" * len(h)
                yield "%s: conflicting entry after %s" % (mf, path), wl([line, "%s  %s\n" % (other, path)]), dirs
                yield "%s: conflicting entry before %s" % (mf, path), wl(["%s  %s\n" % (other, path), line]), dirs
                yield "%s: unsafe entry after %s" % (mf, path), wl([line, "%s  ../%s\n" % (h, path)]), dirs
                if fam == "manifest" and (single or others):
                    yield "%s: entry of %s removed" % (mf, path), wl([]), dirs
                if others:
                    yield "%s: comment added" % mf, wl([line, "# comment\n"]), dirs
            if fam == "manifest" and others:
                yield "%s emptied" % mf, dict(files, **{mf: b""}), dirs
    if len(mans["manifest"]) == 1 or tagrec:
        yield "all payload manifests removed", {p: c for p, c in files.items() if not p.startswith("manifest-")}, dirs
    # declaration
    def wb(text):
        return dict(files, **{"bagit.txt": text})
    ver = "BagIt-Version: %s\n" % dict(M.parse_tags(files["bagit.txt"]))["BagIt-Version"]
    enc = "Tag-File-Character-Encoding: UTF-8\n"
    yield "bagit.txt removed", {p: c for p, c in files.items() if p != "bagit.txt"}, dirs
    for lab, t in (("empty", ""), ("without version", enc), ("without encoding", ver), ("with a bad version", "BagIt-Version: x.y\n" + enc),
                   ("with an unknown version", "BagIt-Version: 7.0\n" + enc), ("with a one-number version", "BagIt-Version: 9\n" + enc),
                   ("with an unknown encoding", ver + "Tag-File-Character-Encoding: UTF-99\n"), ("with a byte-order mark", u"\ufeff" + ver + enc),
                   ("with misspelled tags", ver.replace("Version", "Versio") + enc), ("without colons", (ver + enc).replace(":", ""))):
        yield "bagit.txt " + lab, wb(t.encode("utf-8")), dirs
    # size record
    if "bag-info.txt" in files and b"Payload-Oxum" in files["bag-info.txt"]:
        t = files["bag-info.txt"].decode("utf-8")
        n, k = map(int, M.oxum(files).split("."))
        for bad in ("%d.%d" % (n + 1, k), "%d.%d" % (max(0, n - 1), k + (n == 0)), "%d.%d" % (n, k + 1), "%d.%d" % (n, k - 1 if k else 5), "%d.%d" % (n * 10 + 3, k), "%d" % n, ".%d" % k,
                    "%d." % n, "x.%d" % k, "%d.x" % n, "-%d.%d" % (n + 1, k), "%d,%d" % (n, k), "%d.%d" % (k, n + 1)):
            yield "Payload-Oxum %s for %d.%d" % (bad, n, k), dict(files, **{"bag-info.txt": re.sub(r"Payload-Oxum: .*", "Payload-Oxum: " + bad, t).encode("utf-8")}), dirs
    # structure
    nodata = {p: c for p, c in files.items() if not p.startswith("data/")}
    yield "payload directory removed", nodata, {d for d in dirs if not d.startswith("data")} | {"!nodata"}
    yield "payload directory is a file", dict(nodata, data=b"x"), {d for d in dirs if not d.startswith("data")} | {"!nodata"}

def swapname(p):
    d, s, b = p.rpartition("/")
    b2 = b.swapcase()
    return d + s + (b2 if b2 != b else b + "_")

def intact(kind, files, dirs):
    """harmless variations: still valid"""
    yield "intact", files, dirs
    yield "empty directory added", files, dirs | {"data/newempty"}
    yield "unlisted tag file added", dict(files, **{"extra-tags/x": b"x"}), dirs
    yield "tag manifests removed", {p: c for p, c in files.items() if not p.startswith("tagmanifest-")}, dirs
    notag = {p: c for p, c in files.items() if not p.startswith("tagmanifest-")}
    if "bag-info.txt" in files and kind != "head":
        yield "metadata removed", {p: c for p, c in notag.items() if p != "bag-info.txt"}, dirs
        yield "metadata added", dict(notag, **{"bag-info.txt": files["bag-info.txt"] + b"More: x\n"}), dirs
    for mf in [p for p in notag if p.startswith("manifest-")]:
        t = notag[mf].decode("utf-8")
        for lab, f in (("binary marks", lambda h, p: "%s *%s\n" % (h, p)), ("TABs", lambda h, p: "%s\t%s\n" % (h, p)),
                       ("CRLF", lambda h, p: "%s  %s\r\n" % (h, p)), ("comments", lambda h, p: "# c\n\n%s  %s\n" % (h, p)),
                       ("upper case", lambda h, p: "%s  %s\n" % (h.upper(), p)), ("dot-slash", lambda h, p: "%s  ./%s\n" % (h, p))):
            yield "%s with %s" % (mf, lab), dict(notag, **{mf: "".join(f(*re.match(r"^(\S+)\s+(.*)$", l).groups()) for l in t.splitlines()).encode("utf-8")}), dirs

def materialize(root, files, dirs):
    nodata = "!nodata" in dirs
    if not nodata:
        os.makedirs(os.path.join(root, "data"), exist_ok=True)
    for d in dirs:
        if not d.startswith("!"):
            os.makedirs(os.path.join(root, d), exist_ok=True)
    for p, c in files.items():
        M.put(os.path.join(root, p), c)

class Tree(object):
    """keeps a directory in step with successive variants, rewriting only what differs"""
    def __init__(self, root):
        self.root, self.files, self.dirs = root, {}, set()
        os.makedirs(root)

    def become(self, files, dirs):
        plain = all(p in files for p in self.files) and all(p in self.files for p in files) and dirs == self.dirs
        if plain:
            for p, c in files.items():
                if self.files[p] != c:
                    M.put(os.path.join(self.root, p), c)
        else:
            shutil.rmtree(self.root)
            os.makedirs(self.root)
            materialize(self.root, files, dirs)
        self.files, self.dirs = files, dirs

def cases(tier):
    for kind in KINDS:
        for f in FORMS:
            if tier == "quick" and kind not in FULL and f not in ("dir", ".zip", ".tar.gz"):
                continue
            if kind == "big" and f not in ("dir", ".zip", ".tar"):
                continue
            full = (tier == "thorough" or f == "dir" and kind in FULL) and kind not in ("big",)
            for part in range(16 if full else 4):
                yield {"kind": kind, "form": f, "full": full, "part": part, "parts": 16 if full else 4}

def verdict(fn):
    try:
        return bool(fn())
    except Exception as ex:
        return "%s" % type(ex).__name__

def ensured(fn):
    fn()
    return True

def verdicts(kind, path, form):
    from multibag.access.bagit import Bag, open_bag
    from multibag.validate import BagValidator, MemberBagValidator, HeadBagValidator, validate_headbag, validate_memberbag, ERROR
    out = {}
    if form == "dir":
        out["Bag.is_valid"] = verdict(lambda: Bag(path).is_valid())
    out["open_bag().is_valid"] = verdict(lambda: open_bag(path).is_valid())
    out["BagValidator"] = verdict(lambda: BagValidator(path).is_valid())
    out["MemberBagValidator"] = verdict(lambda: MemberBagValidator(path).is_valid(ERROR))
    if kind == "head":
        out["HeadBagValidator"] = verdict(lambda: HeadBagValidator(path).is_valid(ERROR))
    return out

def more_verdicts(kind, path, form):
    from multibag.access.bagit import open_bag
    from multibag.validate import validate_headbag, validate_memberbag, BagValidator, MemberBagValidator, ERROR, ALL, PROB
    out = {"validate_memberbag": verdict(lambda: validate_memberbag(path) is None),
           "open_bag().validate": verdict(lambda: open_bag(path).validate() is not False),
           "BagValidator.ensure": verdict(lambda: BagValidator(path).ensure_valid() is None),
           "BagValidator.count": verdict(lambda: BagValidator(path).validate().count_failed(ERROR) == 0),
           "Member.ALL": verdict(lambda: not MemberBagValidator(path).validate(ALL).failed(ERROR))}
    if kind == "head":
        out["validate_headbag"] = verdict(lambda: validate_headbag(path) is None)
    return out

def run(case, ctx):
    kind, form = case["kind"], case["form"]
    _, src = build(kind, ctx.sub("src"))
    snap = M.snapshot(src)
    files, dirs = M.files_of(snap), {p for p, e in snap.items() if e[0] == "d"}
    # only empty directories matter
    dirs = M.empty_dirs(snap)
    tree = Tree(os.path.join(ctx.dir, "w", "bag1"))
    base = os.path.join(ctx.dir, "ar")
    os.mkdir(base)
    def variants():
        for i, v in enumerate(corruptions(kind, files, dirs, case["full"])):
            if i % case["parts"] == case["part"]:
                yield (True,) + v
        if case["part"] == 0:
            for v in intact(kind, files, dirs):
                yield (False,) + v
    n = 0
    for bad, label, fs, ds in variants():
        if bad and fs == files and ds == dirs:
            continue
        if bad and kind != "v096" and b"BagIt-Version: 0.96" in fs.get("bagit.txt", b""):
            continue    # now a proper bag of a version in which tag files are not verified
        tree.become(fs, ds)
        path = tree.root
        if form != "dir":
            path = os.path.join(base, "bag1" + form)
            M.serialize(tree.root, form, dest=path, keep=True)
        v = verdicts(kind, path, form)
        if n % 11 == 0 or not bad:
            v.update(more_verdicts(kind, path, form))
        n += 1
        ctx.step(len(v))
        ctx.state(kind, form, label, sorted(v.items()))
        if bad:
            passed = [k for k, x in v.items() if x is True]
            if passed:
                ctx.bad("%s: reported valid by %s" % (label, ", ".join(passed)))
        else:
            failed = ["%s: %s" % (k, x) for k, x in v.items() if x is not True]
            if failed:
                ctx.bad("%s: reported invalid by %s" % (label, ", ".join(failed)))
    ctx.info["variants"] = n
