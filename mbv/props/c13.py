"""
C13: all head bags with up to k simultaneous departures from a conforming one, in each profile generation and form; the
verdict of the real validator against an independently written checker of the profile.
"""
import os, re
from .. import model as M, space, agglab as A

LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of all head bags within k departures from a conforming one, on the real validator, against a reference checker of the profile"
RULE = "distinct (case, verdict) pairs"
BOUNDS = {"quick": "all combinations of <= 2 departures over 17 independent aspects (about 100 alternatives) of a head bag, all three profile versions",
          "thorough": "all combinations of <= 3 departures over the same aspects"}
ASSUMPTIONS = ["a repeated Multibag-Version is advisory while a repeated Multibag-Tag-Directory is an error, as the validator documents",
               "bags that cannot be opened at all (no bagit.txt) may be rejected by an exception of the documented kind",
               "hidden payload files (leading . or _) need not be in the lookup"]

DIMS = [
    ("ver", ["0.4", "0.3", "0.2", "missing", "empty", "twice", "0.5", "0.10"]),
    ("ref", ["ok", "missing", "empty", "relative", "nohost", "noscheme", "two", "twobad"]),
    ("tagdir", ["multibag", "default", "mb tags", "a/b", "absent", "empty", "twice", "isfile", "dotdot", "dotdotreal", "slash", "indata", "dotindata"]),
    ("hver", ["1", "missing", "empty", "twice"]),
    ("dep", ["none", "one", "named", "two", "empty", "three", "self", "selfbag", "twoself", "selftwo", "selfbagtwo", "emptytwo", "twoempty", "threetwo"]),
    ("isi", ["ok", "missing", "empty", "two"]),
    ("isd", ["ok", "missing", "empty"]),
    ("bgi", ["ok", "missing", "empty"]),
    ("members", ["ok", "nofile", "emptyfile", "blank", "url", "badurl", "lastbadurl", "emptyurl", "comment", "info", "nothead",
                 "notlast", "dup", "duphead", "noname", "nonl", "crlf", "spaces", "latin1", "bom", "isdir", "prefixname", "urnurl"]),
    ("lookup", ["ok", "nofile", "emptyfile", "blank", "three", "onecol", "emptybag", "dup", "dupother", "ghosthere", "ghostother", "dirhere",
                "unlisted", "unlistedhidden", "dotdot", "spaces", "latin1", "taghere", "isdir", "nonl", "nul"]),
    ("agg", ["none", "ok", "malformed", "empty", "latin1", "isdir", "late"]),
    ("bag", ["ok", "altered", "extra", "gone", "badoxum", "tagaltered", "nomanifest", "junkoxum", "nodata"]),
    ("payload", ["std", "none", "spaces", "nested"]),
    ("name", ["head", "my head", "h.mbag2", u"h\u00e9ad"]),
    ("form", ["dir", ".zip", ".tar.gz"]),
    ("api", ["validator", "results", "shortcuts", "parts"]),
    ("deleted", ["none", "ok"]),
]
PAYLOADS = {"std": {"data/a": "a", "data/d/b": "bb", "data/.hid": "h", "data/d/_u": "u"}, "none": {},
            "spaces": {"data/a b": "a", "data/d d/c": "c"}, "nested": {"data/1/2/3": "x", "data/1/a": "y", "data/a": "z"}}

def cases(tier):
    # a conforming bag in every profile version is the start of the departures
    for v in ("0.4", "0.3", "0.2"):
        dims = [(n, [v] + [a for a in alts if a not in ("0.4", "0.3", "0.2")]) if n == "ver" else (n, alts) for n, alts in DIMS]
        for c in space.deviations(dims, 2 if tier == "quick" else (3 if v != "0.3" else 2)):
            yield c
        # the same fault in several lines
        base = {n: (v if n == "ver" else alts[0]) for n, alts in DIMS}
        for k in range(2, 8 if tier == "quick" else 13):
            for f in ("badurls", "fmts", "dups"):
                yield dict(base, members=f, k=k)
            for f in ("fmts", "ghosts", "dups", "unlisted"):
                yield dict(base, lookup=f, payload="many" if f == "unlisted" else "std", k=k)
            yield dict(base, members="badurls", lookup="ghosts", k=k, api="shortcuts")

def build(case, parent):
    """returns the bag's directory; the files are written by hand"""
    name = case["name"]
    old = case["ver"] == "0.2"
    info = [["Source-Organization", "Org"]]
    v = {"missing": [], "empty": [""], "twice": ["0.4", "0.4"]}.get(case["ver"], [case["ver"]])
    info += [["Multibag-Version", x] for x in v]
    r = {"ok": [A.REF], "missing": [], "empty": [""], "relative": ["docs/spec.md"], "nohost": ["http:///x"], "noscheme": ["//host/path"],
         "two": [A.REF, "http://h/x"], "twobad": [A.REF, "nowhere"]}[case["ref"]]
    info += [["Multibag-Reference", x] for x in r]
    t = {"default": [], "absent": ["nosuchdir"], "empty": [""], "twice": ["multibag", "multibag"], "isfile": ["afile"],
         "dotdot": ["../nosuch"], "dotdotreal": ["../outside"], "slash": ["multibag/"], "indata": ["data/mb"], "dotindata": ["./data/mb"]}.get(case["tagdir"], [case["tagdir"]])
    info += [["Multibag-Tag-Directory", x] for x in t]
    info += [["Multibag-Head-Version", x] for x in
             {"1": ["1"], "missing": [], "empty": [""], "twice": ["1", "1"]}[case["hver"]]]
    info += [["Multibag-Head-Deprecates", x] for x in
             {"none": [], "one": ["0.9"], "named": ["0.9, oldhead"], "two": ["0.8", "0.9,oldhead"], "empty": [""],
              "three": ["0.9, a, b"], "self": ["1"], "selfbag": ["0.9, " + name], "twoself": ["0.8", "1, old"], "selftwo": ["1, old", "0.8"], "selfbagtwo": ["0.9, " + name, "0.8"], "emptytwo": ["", "0.8"], "twoempty": ["0.8", ""], "threetwo": ["0.9, a, b", "0.8"]}[case["dep"]]]
    for k, d in (("Internal-Sender-Identifier", "isi"), ("Internal-Sender-Description", "isd"), ("Bag-Group-Identifier", "bgi")):
        info += [[k, x] for x in {"ok": ["v " + d], "missing": [], "empty": [""], "two": ["v1", "v2"]}[case[d]]]
    files = dict(PAYLOADS[case["payload"]]) if case["payload"] != "many" else {"data/d%d/f" % i: str(i) for i in range(case["k"])}
    files["afile"] = "just a file"
    files["metadata/m.txt"] = "m"
    mb = t[-1].rstrip("/") if t and t[-1] else "multibag"
    if case["tagdir"] in ("absent", "isfile", "dotdot", "dotdotreal"):
        mb = "multibag"
    raw = {}
    # --- members
    m = case["members"]
    sep = " " if old else "\t"
    nm = name
    lines = ["m1", nm]
    nl = "\n"
    text = None
    if m == "emptyfile": lines = []
    elif m == "blank": lines = ["", "m1", "   ", nm, ""]
    elif m == "url": lines = ["m1" + sep + "http://h/m1.zip", nm + sep + "ark:/123/x"]
    elif m == "badurl": lines = ["m1" + sep + "noscheme", nm]
    elif m == "lastbadurl": lines = ["m1", nm + sep + "noscheme/x"]
    elif m == "urnurl": lines = ["m1" + sep + "urn:a:b", nm]
    elif m == "emptyurl": lines = ["m1\t", nm + "\t\tx=1"] if not old else ["m1 ", nm + " "]
    elif m == "comment": lines = ["m1\t# a comment", nm + "\thttp://h/x\t# last: one"] if not old else lines
    elif m == "info": lines = ["m1\thttp://h/x\tmd5=1\tq", nm] if not old else ["m1 http://h/x extra", nm]
    elif m == "nothead": lines = ["m1", "m2"]
    elif m == "notlast": lines = [nm, "m1"]
    elif m == "dup": lines = ["m1", "m2", "m1", nm]
    elif m == "duphead": lines = [nm, "m1", nm]
    elif m == "noname": lines = ["\thttp://h/x", nm] if not old else lines
    elif m == "nonl": text = "m1\n" + nm
    elif m == "crlf": nl = "\r\n"
    elif m == "spaces": lines = ["m1 \t http://h/x", nm + " "]
    elif m == "latin1": text = b"m\xe9\n" + nm.encode("utf-8") + b"\n"
    elif m == "bom": text = b"\xef\xbb\xbfm1\n" + nm.encode("utf-8") + b"\n"
    elif m == "badurls": lines = ["m%d%snoscheme" % (i, sep) for i in range(case["k"])] + [nm]
    elif m == "fmts": lines = [("\thttp://h/x" if not old else "m%d http://h/x extra" % i) for i in range(case["k"])] + [nm]
    elif m == "dups": lines = ["m1"] * (case["k"] + 1) + [nm]
    elif m == "prefixname": lines = [nm, nm + "x"]
    if text is None:
        text = "".join(l + nl for l in lines)
    memf = mb + ("/group-members.txt" if old else "/member-bags.tsv")
    if m == "isdir":
        raw[memf + "/x"] = "x"
    elif m != "nofile":
        raw[memf] = text
    # --- lookup
    l = case["lookup"]
    pl = sorted(p for p in files if p.startswith("data/") and p not in raw)
    here = [p for p in pl if not (p.split("/")[-1][0] in "._")]
    L = [p + sep + nm for p in here] + ["data/else" + sep + "m1"]
    text = None
    if l == "emptyfile": L = []
    elif l == "blank": L = [""] + L + [" ", ""]
    elif l == "three": L = L + ["data/q" + sep + "m1" + sep + "extra"]
    elif l == "onecol": L = L + ["data/q"]
    elif l == "fmts": L = ["data/q%d" % i for i in range(case["k"])] + L
    elif l == "ghosts": L = ["data/q%d" % i + sep + nm for i in range(case["k"])] + L
    elif l == "dups": L = L + L[-1:] * case["k"]
    elif l == "emptybag": L = L + ["data/q" + sep]
    elif l == "dup": L = L + L[-1:]
    elif l == "dupother": L = L + ["data/else" + sep + "m2"]
    elif l == "ghosthere": L = L + ["data/ghost" + sep + nm]
    elif l == "ghostother": L = L + ["data/ghost" + sep + "m9"]
    elif l == "dirhere": L = L + ["metadata" + sep + nm]
    elif l == "unlisted": L = L[-1:]
    elif l == "unlistedhidden": L = [p + sep + nm for p in pl]
    elif l == "dotdot": L = L + ["../outside/x" + sep + nm]
    elif l == "spaces": L = [x.replace("\t", " \t ") for x in L] if not old else [x.replace(" ", "  ") for x in L]
    elif l == "latin1": text = ("".join(x + "\n" for x in L)).encode("utf-8") + b"data/\xe9" + sep.encode() + b"m1\n"
    elif l == "nul": L = L + ["data/a\0b" + sep + nm]
    elif l == "taghere": L = L + ["metadata/m.txt" + sep + nm]
    elif l == "nonl": text = "\n".join(L)
    if text is None:
        text = "".join(x + "\n" for x in L)
    lookf = mb + ("/group-directory.txt" if old else "/file-lookup.tsv")
    if l == "isdir":
        raw[lookf + "/x"] = "x"
    elif l != "nofile":
        raw[lookf] = text
    if case["agg"] == "isdir":
        raw[mb + "/aggregation-info.txt/x"] = "x"
    elif case["agg"] != "none":
        raw[mb + "/aggregation-info.txt"] = {"ok": "A: b\nC: d\n  e\n", "malformed": "this is not a tag file\n", "empty": "", "late": "A: b\n\nC: d\nno tag here\n",
                                             "latin1": b"A: \xe9\n"}[case["agg"]]
    if case["deleted"] == "ok":
        raw[mb + "/deleted.txt"] = "data/gone\n"
    files.update(raw)
    spec = M.bagspec(name, files, [], info)
    ox = M.oxum(files)
    info.append(["Payload-Oxum", {"badoxum": "5.5", "junkoxum": "lots"}.get(case["bag"], ox)])
    spec["info"] = info
    root = M.write_bag(parent, spec)
    if case["tagdir"] == "dotdotreal" or case["lookup"] == "dotdot":
        M.put(os.path.join(parent, "outside", "x"), b"secret")
    b = case["bag"]
    anypl = sorted(p for p in files if p.startswith("data/"))
    if b == "altered" and anypl:
        M.put(os.path.join(root, anypl[0]), b"altered")
    elif b == "extra":
        M.put(os.path.join(root, "data/zz-extra"), b"extra")
    elif b == "gone" and anypl:
        os.remove(os.path.join(root, anypl[-1]))
    elif b == "tagaltered":
        M.put(os.path.join(root, "metadata/m.txt"), b"altered")
    elif b == "nomanifest":
        os.remove(os.path.join(root, "manifest-sha256.txt"))
    elif b == "nodata":
        import shutil
        shutil.rmtree(os.path.join(root, "data"))
    return root

def rfc_url(u):
    m = re.match(r"^([A-Za-z][A-Za-z0-9+.-]*):", u)
    return m is not None

def verdict(root, name):
    """reference checker: {severity: set of reasons}"""
    snap = M.snapshot(root)
    files = M.files_of(snap)
    isdir = lambda p: snap.get(p, ("x",))[0] == "d"
    info = M.tagmap(files["bag-info.txt"])
    E, W, R = set(), set(), set()
    probs = M.check_bag(root)
    ox = info.get("Payload-Oxum", [""])[-1]
    if probs or not re.match(r"^\d+\.\d+$", ox):
        E.add("bag")
    vers = info.get("Multibag-Version", [])
    ver = vers[-1] if vers else None
    if not vers or not ver:
        E.add("version")
    elif len(vers) > 1:
        W.add("version twice")
    ref = info.get("Multibag-Reference", [])
    if not any(ref):
        R.add("reference")
    elif not re.match(r"^[A-Za-z][A-Za-z0-9+.-]*://[^/]+", ref[-1]):
        E.add("reference")
    td = info.get("Multibag-Tag-Directory")
    mdir = "multibag"
    if td is not None:
        if not td[-1]:
            E.add("tagdir empty")
        else:
            mdir = os.path.normpath(td[-1])
            if len(td) > 1:
                E.add("tagdir twice")
    if not isdir(mdir):
        E.add("tagdir missing")
    if mdir == "data" or mdir.startswith("data/"):
        E.add("tagdir in payload")
    hv = info.get("Multibag-Head-Version")
    if hv is None:
        E.add("headver")
    else:
        if not hv[-1]:
            W.add("headver empty")
        if len(hv) > 1:
            W.add("headver twice")
    dep = info.get("Multibag-Head-Deprecates")
    if dep is not None:
        if not dep[0]:
            W.add("dep empty")
        else:
            for d in dep:
                parts = [p.strip() for p in d.split(",")]
                if len(parts) > 2:
                    E.add("dep format")
                if (hv and parts[0] == hv[-1]) or (len(parts) > 1 and parts[1] == name):
                    W.add("dep self")
    for k in ("Internal-Sender-Identifier", "Internal-Sender-Description", "Bag-Group-Identifier"):
        if not any(info.get(k, [])):
            R.add(k)
    if isdir(mdir):
        old = ver == "0.2"
        mf = files.get(mdir + ("/group-members.txt" if old else "/member-bags.tsv"))
        lf = files.get(mdir + ("/group-directory.txt" if old else "/file-lookup.tsv"))
        ag = files.get(mdir + "/aggregation-info.txt")
        def dec(b):
            try:
                return b.decode("utf-8-sig")
            except UnicodeDecodeError:
                E.add("encoding")
                return None
        if mf is None:
            E.add("members missing")
        else:
            text = dec(mf)
            if text is not None:
                names = []
                for line in re.split(r"\r\n|\n|\r", text):
                    if not line.strip():
                        continue
                    f = [x.strip() for x in (line.split() if old else line.rstrip().split("\t"))]
                    if not f[0]:
                        E.add("member format")
                        continue
                    names.append(f[0])
                    if old and len(f) > 2:
                        E.add("member format")
                    if len(f) > 1 and f[1] and not f[1].startswith("#") and not rfc_url(f[1]):
                        E.add("member url")
                if name not in names or (names and names[-1] != name) or not names:
                    E.add("head not last")
                if len(set(names)) < len(names):
                    W.add("member dup")
        if lf is None:
            E.add("lookup missing")
        else:
            text = dec(lf)
            if text is not None:
                paths = []
                for line in re.split(r"\r\n|\n|\r", text):
                    if not line.strip():
                        continue
                    f = [x.strip() for x in (line.split() if old else line.split("\t"))]
                    paths.append(f[0])
                    if len(f) != 2 or not all(f):
                        E.add("lookup format")
                    if len(f) > 1 and f[1] == name and f[0] not in files:
                        E.add("lookup ghost")
                if len(set(paths)) < len(paths):
                    W.add("lookup dup")
                for p in files:
                    if p.startswith("data/") and p.split("/")[-1][0] not in "._" and p not in paths:
                        R.add("unlisted")
        if isdir(mdir + "/aggregation-info.txt") and ver not in ("0.2", "0.3"):
            E.add("agg format")
        if ag is not None and ver not in ("0.2", "0.3"):
            text = dec(ag)
            if text is not None:
                first = True
                for line in text.split("\n"):
                    if not line.strip():
                        continue
                    if line[0] in " \t" and not first:
                        continue
                    if ":" not in line:
                        E.add("agg format")
                    first = False
    return E, W, R

def excluded(case):
    """combinations whose judgement the profile leaves open"""
    if case["ver"] == "0.2" and (" " in case["name"] or case["payload"] == "spaces" or case["members"] in ("emptyurl", "spaces")):
        return True     # the old format cannot express these
    if case["members"] == "latin1" and case["lookup"] in ("latin1",):
        return False
    return False

def run(case, ctx):
    from multibag.validate.headbag import HeadBagValidator
    from multibag.validate import headbag
    from multibag.validate.base import ValidationResults, ERROR, WARN, REC, ALL, PROB, MultibagValidationError
    if excluded(case):
        ctx.info["skipped"] = 1
        return
    root = build(case, ctx.dir)
    E, W, R = verdict(root, case["name"])
    enc = "encoding" in E
    path = root
    if case["form"] != "dir":
        path = M.serialize(root, case["form"], keep=True)
    before = M.snap_any(path)
    try:
        if case["api"] == "results":
            res = ValidationResults("x", ALL)
            out = HeadBagValidator(path).validate(ALL, res)
            ctx.expect(out is res, "the results given were not the ones returned")
        else:
            out = HeadBagValidator(path).validate(ALL)
    except Exception as ex:
        ctx.bad("validation failed with %s: %s" % (type(ex).__name__, ex))
        return
    ctx.step()
    ctx.trace()
    for sev, lab, why in ((ERROR, "error", E), (WARN, "warning", W), (REC, "recommendation", R)):
        got = out.failed(sev)
        if enc and sev != ERROR:
            continue        # the rest of the checks need not be carried out on unreadable files
        if bool(got) != bool(why):
            ctx.bad("%s: validator reports %s, profile says %s" % (lab, [str(g)[:150] for g in got] or "nothing", sorted(why) or "nothing"))
        # every requirement that was checked and broken is of the severity it is reported with
    ctx.expect(out.ok() == (not (E or W or R)) or enc, "overall verdict is %s" % out.ok())
    if case["api"] == "shortcuts":
        v = HeadBagValidator(path)
        for want, bad in ((ERROR, E), (PROB, E | W), (ALL, E | W | R)):
            if enc and want != ERROR:
                continue
            ctx.expect(v.is_valid(want) == (not bad), "is_valid(%d) is %s, broken: %s" % (want, v.is_valid(want), sorted(bad)))
            try:
                headbag.validate(path, want)
                ok = True
            except MultibagValidationError:
                ok = False
            ctx.step(2)
            ctx.expect(ok == (not bad), "validate(want=%d) %s, broken: %s" % (want, "passed" if ok else "raised", sorted(bad)))
    if case["api"] == "parts" and not enc:
        # the tests of the parts of the profile, each on its own
        v = HeadBagValidator(path)
        ver = v.bag.info.get("Multibag-Version")
        ver = ver[-1] if isinstance(ver, list) else ver
        got = {ERROR: [], WARN: [], REC: []}
        for part in ("version", "reference", "tag_directory", "head_version", "head_deprecates", "baginfo_recs", "member_bags", "file_lookup", "aggregation_info"):
            r = getattr(v, "validate_" + part)(ALL, None, ver)
            ctx.step()
            for sev in got:
                got[sev] += r.failed(sev)
        for sev, lab, why in ((ERROR, "error", E - {"bag"}), (WARN, "warning", W), (REC, "recommendation", R)):
            if bool(got[sev]) != bool(why):
                ctx.bad("%s: the parts report %s, profile says %s" % (lab, [str(g)[:150] for g in got[sev]] or "nothing", sorted(why) or "nothing"))
    if M.snap_any(path) != before:
        ctx.bad("validation modified the bag")
    ctx.state(sorted(case.items()), len(E), len(W), len(R))
