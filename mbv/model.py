"""
The reference model: an independent writer, reader and checker of BagIt bags and of the multibag tag files, and the
"combine" semantics of the profile.  Nothing here uses the code under test (or the bagit package).
"""
import codecs, hashlib, io, os, re, stat, tarfile, unicodedata, zipfile

ALGS = {"md5": hashlib.md5, "sha1": hashlib.sha1, "sha256": hashlib.sha256, "sha512": hashlib.sha512,
        "sha384": hashlib.sha384, "sha3_256": hashlib.sha3_256, "blake2b": hashlib.blake2b}
FORMS = [".zip", ".tar", ".tar.gz", ".tar.bz2", ".tgz"]

def content(spec):
    """bytes of a content spec: a str, or [size, seed]"""
    if isinstance(spec, bytes):
        return spec
    if isinstance(spec, str):
        return spec.encode("utf-8")
    size, seed = spec
    if size == 0:
        return b""
    unit = (u"%s|" % seed).encode("utf-8")
    return (unit * (size // len(unit) + 1))[:size]

def digest(alg, data):
    return ALGS[alg](data).hexdigest()

def bagspec(name, files=None, dirs=(), info=None, algs=("sha256",), ver="0.97", tagman=True, fetch=(),
            noinfo=False, extra_manifest=None, upper=False):
    return {"name": name, "files": dict(files or {}), "dirs": list(dirs),
            "info": [list(i) for i in (info if info is not None else default_info(name))],
            "algs": list(algs), "ver": ver, "tagman": tagman, "fetch": [list(f) for f in fetch],
            "noinfo": noinfo, "extra_manifest": extra_manifest or {}, "upper": upper}

def default_info(name):
    return [["Source-Organization", "Org"], ["External-Identifier", "ark:/88434/" + name],
            ["Internal-Sender-Description", "about " + name]]

def info_text(info):
    out = []
    for k, v in info:
        lines = v.split("\n")
        out.append(u"%s: %s\n" % (k, lines[0]))
        for l in lines[1:]:
            out.append(u"   %s\n" % l)
    return "".join(out)

def is_special(path):
    """the files BagIt itself defines, at the bag's root only"""
    return path in ("bagit.txt", "bag-info.txt", "fetch.txt") or \
        re.match(r"^(tag)?manifest-\w+\.txt$", path) is not None

def payload(files):
    return {p: c for p, c in files.items() if p.startswith("data/")}

def oxum(files):
    pl = payload(files)
    return "%d.%d" % (sum(len(content(c)) for c in pl.values()), len(pl))

def put(path, data):
    d = os.path.dirname(path)
    if not os.path.isdir(d):
        os.makedirs(d)
    with open(path, "wb") as f:
        f.write(data)

def write_bag(parent, spec, with_oxum=True):
    """write the bag described by spec under parent; returns its directory"""
    root = os.path.join(parent, spec["name"])
    os.makedirs(os.path.join(root, "data"))
    files = {p: content(c) for p, c in spec["files"].items()}
    enc = spec.get("enc", "UTF-8")
    for p, c in files.items():
        put(os.path.join(root, p), c)
    for d in spec["dirs"]:
        os.makedirs(os.path.join(root, d), exist_ok=True)
    put(os.path.join(root, "bagit.txt"),
        (u"BagIt-Version: %s\nTag-File-Character-Encoding: %s\n" % (spec["ver"], enc)).encode())
    if not spec["noinfo"]:
        info = list(spec["info"])
        if with_oxum and not any(k == "Payload-Oxum" for k, v in info):
            info.append(["Payload-Oxum", oxum(files)])
        put(os.path.join(root, "bag-info.txt"), info_text(info).encode(enc))
    if spec["fetch"]:
        put(os.path.join(root, "fetch.txt"), "".join("%s %s %s\n" % tuple(f) for f in spec["fetch"]).encode(enc))
    style = spec.get("upper")
    for alg in spec["algs"]:
        ents = [(digest(alg, c), p) for p, c in sorted(files.items()) if p.startswith("data/")]
        for p, c in sorted(spec.get("extra_manifest", {}).items()):
            ents.append((digest(alg, content(c)), p))
        put(os.path.join(root, "manifest-%s.txt" % alg), manifest_text(ents, style, enc))
    if spec["tagman"]:
        write_tagmanifests(root, spec["algs"], style, enc)
    return root

def manifest_text(entries, style=False, enc="UTF-8"):
    """the layouts of a manifest: upper-case digests, separators, binary marker, ./, line ends, comments and blank lines"""
    fmt = {"one": "%s %s\n", "tab": "%s\t%s\n", "star": "%s *%s\n", "dot": "%s  ./%s\n", "crlf": "%s  %s\r\n",
           "notes": "%s  %s\n\n"}.get(style, "%s  %s\n")
    lines = [fmt % (h.upper() if style is True else h, p) for h, p in entries]
    if style == "notes":
        lines.insert(0, "# checksums\n")
    if style == "bom" and lines:
        lines.insert(0, u"\ufeff")
    if style in ("nfc", "nfd"):
        lines = [unicodedata.normalize(style.upper(), l) for l in lines]
    return "".join(lines).encode(enc)

def write_tagmanifests(root, algs, style=False, enc="UTF-8"):
    tags = {}
    for p, e in snapshot(root).items():
        if e[0] == "f" and not p.startswith("data/") and not re.match(r"^tagmanifest-\w+\.txt$", p):
            tags[p] = e[1]
    for alg in algs:
        put(os.path.join(root, "tagmanifest-%s.txt" % alg), manifest_text([(digest(alg, c), p) for p, c in sorted(tags.items())], style, enc))

def snapshot(root, meta=False):
    """{relative path: ('f', bytes[, mode, mtime_ns]) | ('d'[, mode]) | ('l', target)}"""
    out = {}
    root = root.rstrip("/")
    n = len(root) + 1
    stack = [root]
    while stack:
        d = stack.pop()
        with os.scandir(d) as it:
            for e in it:
                rel = e.path[n:]
                if e.is_symlink():
                    out[rel] = ("l", os.readlink(e.path))
                elif e.is_dir():
                    out[rel] = ("d", stat.S_IMODE(e.stat().st_mode)) if meta else ("d",)
                    stack.append(e.path)
                else:
                    with open(e.path, "rb") as f:
                        data = f.read()
                    if meta:
                        st = e.stat()
                        out[rel] = ("f", data, stat.S_IMODE(st.st_mode), st.st_mtime_ns)
                    else:
                        out[rel] = ("f", data)
    return out

def snap_any(path, meta=False):
    """snapshot of a directory or of a single file"""
    if os.path.isdir(path):
        return snapshot(path, meta)
    with open(path, "rb") as f:
        return {"": ("f", f.read())}

def diff_snap(a, b, what=""):
    out = []
    for p in sorted(set(a) | set(b)):
        if p not in b:
            out.append("%s%s removed" % (what, p))
        elif p not in a:
            out.append("%s%s added" % (what, p))
        elif a[p] != b[p]:
            if a[p][:2] != b[p][:2]:
                out.append("%s%s changed: %.80r -> %.80r" % (what, p, a[p][:2], b[p][:2]))
            else:
                out.append("%s%s mode/time changed" % (what, p))
    return out

def files_of(snap):
    return {p: e[1] for p, e in snap.items() if e[0] == "f"}

def empty_dirs(snap):
    dirs = {p for p, e in snap.items() if e[0] == "d"}
    parents = set()
    for p in snap:
        while "/" in p:
            p = p.rsplit("/", 1)[0]
            parents.add(p)
    return dirs - parents

def parse_tags(data):
    """[(name, value)] of a tag file; folded lines are joined; white space runs are normalised"""
    if isinstance(data, bytes):
        data = data.decode("utf-8-sig")
    out = []
    for line in re.split(r"\r\n|\n|\r", data):
        if not line.strip():
            continue
        if line[0] in " \t" and out:
            out[-1][1] += " " + line
        else:
            k, _, v = line.partition(":")
            out.append([k.strip(), v])
    return [(k, re.sub(r"\s+", " ", v).strip()) for k, v in out]

def tagmap(data):
    """{name: [values in order]}"""
    out = {}
    for k, v in (parse_tags(data) if isinstance(data, (bytes, str)) else data):
        out.setdefault(k, []).append(re.sub(r"\s+", " ", v).strip())
    return out

def encoding_of(files):
    """the encoding of the tag files, as declared by bagit.txt"""
    m = re.search(br"^Tag-File-Character-Encoding:\s*(\S+)", files.get("bagit.txt", b""), re.M)
    try:
        return codecs.lookup(m.group(1).decode()).name if m else "utf-8"
    except LookupError:
        return "utf-8"

def parse_manifest(data, problems=None, name="", enc="utf-8"):
    out = {}
    for line in data.decode(enc).lstrip(u"\ufeff").split("\n"):
        line = line.strip("\r")
        if not line.strip() or line.startswith("#"):
            continue
        m = re.match(r"^([0-9a-fA-F]+)[ \t]+\*?(?:\./)?(.+)$", line)
        if not m:
            if problems is not None:
                problems.append("%s: malformed line %r" % (name, line))
            continue
        h, p = m.group(1).lower(), m.group(2)
        p = re.sub("%0[Dd]", "\r", re.sub("%0[Aa]", "\n", p))
        if p in out and problems is not None:
            problems.append("%s: %s listed twice" % (name, p))
        out[p] = h
    return out

def manifests(files, problems=None):
    """{'manifest': {alg: {path: hash}}, 'tagmanifest': {...}} from {path: bytes}"""
    out = {"manifest": {}, "tagmanifest": {}}
    enc = encoding_of(files)
    for p, c in files.items():
        m = re.match(r"^(tagmanifest|manifest)-(\w+)\.txt$", p)
        if m:
            out[m.group(1)][m.group(2)] = parse_manifest(c, problems, p, enc)
    return out

def check_bag(root_or_files, every_alg=True, check_oxum=True, fetched_ok=False):
    """independent BagIt validity check; returns a list of problems"""
    probs = []
    if isinstance(root_or_files, dict):
        files = root_or_files
        hasdata = True
    else:
        snap = snapshot(root_or_files)
        files = files_of(snap)
        hasdata = snap.get("data", ("x",))[0] == "d"
    if not hasdata:
        probs.append("no data directory")
    if "bagit.txt" not in files:
        probs.append("no bagit.txt")
    else:
        t = dict(parse_tags(files["bagit.txt"]))
        if "BagIt-Version" not in t or "Tag-File-Character-Encoding" not in t:
            probs.append("bagit.txt incomplete")
    mans = manifests(files, probs)
    if not mans["manifest"]:
        probs.append("no payload manifest")
    pl = {p for p in files if p.startswith("data/")}
    listed = set()
    fetch = set()
    if fetched_ok and "fetch.txt" in files:
        for line in files["fetch.txt"].decode("utf-8").splitlines():
            if line.strip():
                fetch.add(line.strip().split(None, 2)[2])
    for alg, ents in mans["manifest"].items():
        listed |= set(ents)
        for p, h in ents.items():
            if p not in files:
                if p not in fetch:
                    probs.append("manifest-%s lists missing %s" % (alg, p))
            elif not p.startswith("data/"):
                probs.append("manifest-%s lists non-payload %s" % (alg, p))
            elif alg in ALGS and digest(alg, files[p]) != h:
                probs.append("manifest-%s: wrong checksum for %s" % (alg, p))
        if every_alg and pl - set(ents):
            probs.append("manifest-%s lacks %s" % (alg, sorted(pl - set(ents))))
    if pl - listed:
        probs.append("payload not in any manifest: %s" % sorted(pl - listed))
    for alg, ents in mans["tagmanifest"].items():
        for p, h in ents.items():
            if p not in files:
                probs.append("tagmanifest-%s lists missing %s" % (alg, p))
            elif p.startswith("data/"):
                probs.append("tagmanifest-%s lists payload %s" % (alg, p))
            elif alg in ALGS and digest(alg, files[p]) != h:
                probs.append("tagmanifest-%s: wrong checksum for %s" % (alg, p))
    if check_oxum and "bag-info.txt" in files:
        ox = tagmap(files["bag-info.txt"].decode(encoding_of(files))).get("Payload-Oxum")
        if ox and ox[-1] != oxum(files):
            probs.append("Payload-Oxum is %s, should be %s" % (ox[-1], oxum(files)))
        if ox and len(ox) > 1:
            probs.append("several Payload-Oxum values")
    return probs

# ---- multibag tag files (profile 0.3+)

def parse_members(data):
    """[(name, uri|None, [info], comment|None)]"""
    out = []
    for line in data.decode("utf-8").split("\n"):
        if not line.strip():
            continue
        flds = line.split("\t")
        comment = None
        for i, f in enumerate(flds):
            if i and f.startswith("# "):
                comment = "\t".join(flds[i:])[2:]
                flds = flds[:i]
                break
        name = flds[0].strip(" ")
        uri = flds[1] if len(flds) > 1 and flds[1] else None
        out.append((name, uri, flds[2:], comment))
    return out

def member_names(data):
    return [m[0] for m in parse_members(data)]

def parse_lookup(data):
    """[(path, bag)]"""
    out = []
    for line in data.decode("utf-8").split("\n"):
        if not line.strip():
            continue
        p, _, b = line.partition("\t")
        out.append((p.strip(" "), b.strip(" ")))
    return out

def parse_deleted(data):
    return [l.strip() for l in data.decode("utf-8").split("\n") if l.strip()]

def deleted_hit(path, deleted):
    return any(path == d or path.startswith(d + "/") for d in deleted)

def overlay(members, deleted=()):
    """combine semantics for ordinary files: [files, ...] in member order -> {path: bytes} (special files left out)"""
    out = {}
    for files in members:
        for p, c in files.items():
            if not is_special(p):
                out[p] = content(c)
    return {p: c for p, c in out.items() if not deleted_hit(p, deleted)}

# ---- serialization

def serialize(bagdir, form, dest=None, keep=False, prefix="", implicit_dirs=False, order=None):
    """archive a bag directory next to itself (or at dest); returns the archive's path"""
    bagdir = bagdir.rstrip("/")
    name = os.path.basename(bagdir)
    dest = dest or (bagdir + form)
    entries = sorted(snapshot(bagdir).items())
    if order == "rev":
        entries = entries[::-1]
    if form == ".zip":
        with zipfile.ZipFile(dest, "w", zipfile.ZIP_DEFLATED) as z:
            if not implicit_dirs:
                z.writestr(zipfile.ZipInfo(prefix + name + "/", (2020, 1, 1, 0, 0, 0)), b"")
            for p, e in entries:
                zi = zipfile.ZipInfo(prefix + name + "/" + p + ("/" if e[0] == "d" else ""), (2020, 1, 1, 0, 0, 0))
                if e[0] == "d":
                    if implicit_dirs:
                        continue
                    zi.external_attr = (0o40755 << 16) | 0x10
                    z.writestr(zi, b"")
                else:
                    zi.external_attr = 0o100644 << 16
                    zi.compress_type = zipfile.ZIP_DEFLATED
                    z.writestr(zi, e[1])
    else:
        mode = {".tar": "w", ".tar.gz": "w:gz", ".tgz": "w:gz", ".tar.bz2": "w:bz2"}[form]
        with tarfile.open(dest, mode) as t:
            if not implicit_dirs:
                ti = tarfile.TarInfo(prefix + name)
                ti.type = tarfile.DIRTYPE
                ti.mode = 0o755
                ti.mtime = 1577836800
                t.addfile(ti)
            for p, e in entries:
                ti = tarfile.TarInfo(prefix + name + "/" + p)
                ti.mtime = 1577836800
                if e[0] == "d":
                    if implicit_dirs:
                        continue
                    ti.type = tarfile.DIRTYPE
                    ti.mode = 0o755
                    t.addfile(ti)
                else:
                    ti.size = len(e[1])
                    ti.mode = 0o644
                    t.addfile(ti, io.BytesIO(e[1]))
        if mode == "w:gz":
            with open(dest, "r+b") as f:   # the archive's own time stamp, so that archives are reproducible
                f.seek(4)
                f.write(b"\0\0\0\0")
    if not keep:
        import shutil
        shutil.rmtree(bagdir)
    return dest
