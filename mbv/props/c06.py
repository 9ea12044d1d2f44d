"""C06: amending yields a correct new head bag"""
import itertools, os
from .. import model as M, agglab as A
from ..space import deviations, interleave_unique

TECHNIQUE = "exhaustive exploration of presence/deletion patterns over old members, amending bags and new head x amendment settings on the real code, against a reference of the profile's update rules"
LEVEL = "model_checking"
PATS = ["", "o", "a", "h", "oa", "oh", "ah", "oah"]     # in the old bags / an amending bag / the new head
OLDDEL = [[], ["data/f"], ["data/d"], ["data/d/g"], ["data/f", "data/d"], ["data/gone", "nosuch"], ["data/d", "data/d/g"]]
OWNDEL = [[], ["data/f"], ["data/own", "data/d/x"]]
DIMS = [
    ("amendee", ["agg3", "plain", "single", "agg1", "agg12", "agg02"]),
    ("handle", ["path", "slash", "rw", "ro", ".zip", ".tar.gz"]),
    ("members", ["rich", "bare", "uris", "comments", "info"]),
    ("namend", [1, 0, 2, 3]),
    ("amform", ["dir", ".zip", ".tar", "rw", "ro"]),
    ("ampid", [False, True]),
    ("headpid", ["none", "pid", "comment", "info", "all"]),
    ("api", ["class", "func"]),
    ("incl", [None, ["data", "meta"], ["data/f"], "data/d", []]),
    ("excl", [None, ["data/d"], "data/f"]),
    ("olddel", list(range(len(OLDDEL)))),
    ("owndel", list(range(len(OWNDEL)))),
    ("deprecates", [[], ["0"], ["0", "0.5"], ["b", "a", "a1"]]),
    ("version", ["2", "1.1", "v 2 beta", "10"]),
    ("tagdir", ["multibag", "mbt", "mb/t x"]),
    ("oldtagdir", ["multibag", "oldmbt", "old/mbt"]),
    ("stale", [False, "tags", "rerun"]),
    ("newinfo", ["std", "multi", "head"]),
    ("keepver", [False, True]),
    ("oldlu", ["data", "tags"]),
    ("names", ["std", "space", "uni", "order"]),
    ("tree", ["std", "odd", "empty"]),
    ("algs", ["sha256", "two"]),
    ("p1", ["oh"] + [p for p in PATS if p != "oh"]),
    ("p2", ["o"] + [p for p in PATS if p != "o"]),
]
BOUNDS = {"quick": "complete product: 8 presence patterns of a file x 8 of a nested file (old members, amending bag, new head) x %d earlier deletions x %d own deletions x 2 amendees; "
                   "plus every combination of at most 2 departures over %d dimensions" % (len(OLDDEL), len(OWNDEL), len(DIMS)),
          "thorough": "the quick space plus every combination of at most 3 departures"}
RULE = "bounded-exhaustive enumeration of amendee, amending bags and options"
ASSUMPTIONS = ["amending bags have names not used before", "files below a deleted directory are listed in the old head's lookup",
               "the amended aggregation is kept at its profile version only if that is 0.3 or later"]
ABOUT = "complies with the Multibag BagIt profile"

def cases(tier):
    base = {n: v[0] for n, v in DIMS}
    def prod():
        for p1, p2, od, wd, am in itertools.product(PATS, PATS, range(len(OLDDEL)), range(len(OWNDEL)), ["agg3", "single"]):
            yield dict(base, p1=p1, p2=p2, olddel=od, owndel=wd, amendee=am)
    def dev():
        for c in deviations(DIMS, 3 if tier == "thorough" else 2):
            if c["keepver"] and c["amendee"] == "agg02":
                continue
            if c["amendee"] == "agg02" and c["names"] == "space":
                continue
            if c["amendee"] == "plain" and (c["olddel"] or c["deprecates"]):
                continue
            if c["api"] == "func" and (c["incl"] is not None or c["excl"] is not None or c["ampid"] or c["headpid"] != "none" or c["keepver"] or c["owndel"] == 2):
                continue
            yield c
    return interleave_unique(prod(), dev())

def old_lookup(case, ms):
    """what the amendee's lookup lists: at least the payload files"""
    out = A.lookup_of(ms)
    if case["oldlu"] == "tags" and case["amendee"] != "plain":
        for m in ms:
            out.update((p, m["name"]) for p in m["files"] if p.startswith("meta/"))
    return out

NM = {"std": "%s%d", "space": "%s bag %d", "uni": u"%s\u00e9%d", "order": None}

def nm(case, kind, i):
    if case["names"] == "order":
        return {"old": "z%02d", "am": "m%02d", "new": "a%02d"}[kind] % (50 - i)
    return NM[case["names"]] % (kind, i)

def make_old(case, out):
    kind = case["amendee"]
    n = {"agg3": 3, "agg1": 1, "agg12": 12, "agg02": 2, "plain": 1, "single": 1}[kind]
    ms = []
    for i in range(n):
        m = M.bagspec(nm(case, "old", i), {"data/own%d" % i: "own %d" % i, "meta/t%d" % i: "t"}, algs=["sha256", "md5"] if case["algs"] == "two" else ["sha256"])
        if "o" in case["p1"]:
            m["files"]["data/f"] = "f old %d" % i
        if "o" in case["p2"] and i < 2:
            m["files"]["data/d/g"] = "g old %d" % i
        ms.append(m)
    ms[0]["files"]["data/d/other"] = "other"
    ms[0]["files"]["data/dd"] = "dd"
    if case["tree"] == "odd":
        ms[0]["files"].update({u"data/caf\u00e9 x.txt": "u", "data/a  b": "2", "data/#hash": "h", "data/.dot": "d", "data/d/it's": "q"})
        if kind == "agg02":
            for p in (u"data/caf\u00e9 x.txt", "data/a  b"):
                del ms[0]["files"][p]
    elif case["tree"] == "empty":
        for m in ms:
            m["files"] = {p: c for p, c in m["files"].items() if p in ("data/f", "data/d/g")}
            m["dirs"].append("data/e")
    entries, lookup, ver, deps = None, None, None, []
    if kind != "plain":
        dels = OLDDEL[case["olddel"]]
        style = case["members"]
        entries = []
        for i, m in enumerate(ms):
            e = [m["name"], None, None, []]
            if style in ("rich", "uris") and i % 2 == 0:
                e[1] = "ark:/88434/x%d" % i
            if style in ("rich", "comments"):
                e[2] = "comment # %d: words" % i
            if style == "info" or (style == "rich" and i == 1):
                e[3] = ["extra one", "two"]
            entries.append(e)
        profver = "0.2" if kind == "agg02" else "0.3" if case["keepver"] else "0.4"
        head = ms[-1]
        td = case["oldtagdir"]
        deps = case["deprecates"]
        ver = "1" if kind == "single" else "1.0"
        head["info"] = A.head_info(head["info"], ver, td, profver, deps)
        if kind == "agg02":
            entries = [[e[0], None, None, []] for e in entries]
            A.tag_files(head, ms, dels, None, td, profver, entries=[e[0] for e in entries])
        else:
            A.tag_files(head, ms, dels, None, td, profver, entries=entries, lookup=old_lookup(case, ms))
        if kind == "agg02":
            lk = old_lookup(case, ms)
            head["files"][td + "/group-directory.txt"] = "".join("%s %s\n" % i for i in sorted(lk.items()))
    paths = [M.write_bag(out, m) for m in ms]
    return ms, paths, entries

def run(case, ctx):
    from multibag.amend import Amender, amend_bag_with
    from multibag.access.bagit import Bag
    from multibag import open_bag
    out = ctx.sub("bags")
    old, oldpaths, entries = make_old(case, out)
    olddel = OLDDEL[case["olddel"]] if case["amendee"] != "plain" else []
    owndel = OWNDEL[case["owndel"]]
    ams = []
    for i in range(case["namend"]):
        a = M.bagspec(nm(case, "am", i), {"data/am%d" % i: "am", "meta/am": "x%d" % i})
        if "a" in case["p1"]:
            a["files"]["data/f"] = "f am %d" % i
        if "a" in case["p2"]:
            a["files"]["data/d/g"] = "g am %d" % i
        ams.append(a)
    new = M.bagspec(nm(case, "new", 0), {"data/new": "new", "meta/new": "n"}, dirs=["data/ne"],
                    info={"std": [["Source-Organization", "New"], ["Internal-Sender-Description", "d1"]],
                          "multi": [["Contact-Name", "A"], ["Contact-Name", "B"], ["Bag-Count", "1 of 2"], ["Bag-Size", "1 B"]],
                          "head": A.head_info([["X", "y"]], "77", case["tagdir"], "0.3", ["66"])}[case["newinfo"]])
    if "h" in case["p1"]:
        new["files"]["data/f"] = "f new"
    if "h" in case["p2"]:
        new["files"]["data/d/g"] = "g new"
    if case["tagdir"] != "multibag" and case["newinfo"] != "head":
        new["info"].append(["Multibag-Tag-Directory", case["tagdir"]])
    td = case["tagdir"]
    if owndel and case["api"] == "func":
        new["files"][td + "/deleted.txt"] = "".join(d + "\n" for d in owndel)
    if case["stale"] == "tags":
        new["files"][td + "/member-bags.tsv"] = "ghost\nold1\n"
        new["files"][td + "/file-lookup.tsv"] = "data/ghost\tghost\n"
    ampaths = [M.write_bag(out, a) for a in ams]
    newpath = M.write_bag(out, new)
    before_new = M.snapshot(newpath)
    for i, p in enumerate(ampaths):
        f = case["amform"]
        if f.startswith("."):
            ampaths[i] = M.serialize(p, f)
    h = case["handle"]
    amendee = oldpaths[-1]
    inputs = list(oldpaths) + list(ampaths)
    if h.startswith("."):
        amendee = M.serialize(amendee, h)
        inputs = oldpaths[:-1] + list(ampaths) + [amendee]
    before = {p: M.snap_any(p, True) for p in inputs}
    if h == "slash":
        amendee += "/"
    elif h == "rw":
        amendee = Bag(amendee)
    elif h == "ro":
        amendee = open_bag(amendee)
    def am(p):
        return Bag(p) if case["amform"] == "rw" else open_bag(p) if case["amform"] == "ro" else p
    hp = case["headpid"]
    pid = "doi:10.1/new" if hp in ("pid", "all") else None
    comm = "the new # one" if hp in ("comment", "all") else None
    info = ["i1", "i 2"] if hp in ("info", "all") else []
    def amend():
        if case["api"] == "func":
            amend_bag_with(amendee, newpath, case["version"], *[am(p) for p in ampaths])
        else:
            kw = {}
            if case["ampid"]:
                kw = dict(pid="ark:/1/am", comment="amends", info=["z"])
            amd = Amender(amendee, newpath, pid, comm, info)
            amd.init_from_amendee(case["keepver"])
            for p in ampaths:
                amd.add_amending_bag(am(p), case["incl"], case["excl"], **kw)
            amd.finalize(case["version"], case["incl"], case["excl"])
        ctx.step(2 + len(ampaths))
    if owndel and case["api"] == "class":
        # a caller marks deletions in the new head before amending with it
        from multibag.access.multibag import HeadBag
        hb = HeadBag(newpath)
        for d in owndel:
            hb.set_deleted(d)
        hb.save_deleted()
    amend()
    if case["stale"] == "rerun":
        amend()
    for p in inputs:
        d = M.diff_snap(before[p], M.snap_any(p, True), os.path.basename(p) + "/")
        if d:
            ctx.bad("input bag changed: %s" % d[:3])
    check(case, ctx, old, entries, ams, new, newpath, before_new, olddel, owndel, pid, comm, info, td)

def selected(files, incl, excl):
    incl = ["data"] if incl is None else [incl] if isinstance(incl, str) else incl
    excl = [] if excl is None else [excl] if isinstance(excl, str) else excl
    out = set()
    for i in incl:
        if i in excl:
            continue
        for p in files:
            if p == i or (p.startswith(i + "/") and not M.deleted_hit(p, excl)):
                out.add(p)
    return out

def check(case, ctx, old, entries, ams, new, newpath, before, olddel, owndel, pid, comm, info, td):
    snap = M.snapshot(newpath)
    files = M.files_of(snap)
    # untouched content
    for p, e in before.items():
        if e[0] == "f" and not p.startswith(td + "/") and not M.is_special(p) and files.get(p) != e[1]:
            ctx.bad("%s of the new head bag changed" % p)
    for p in files:
        if p not in before and not p.startswith(td + "/") and not M.is_special(p):
            ctx.bad("new head bag got an unexpected file %s" % p)
    # members
    mb = files.get(td + "/member-bags.tsv")
    if mb is None:
        ctx.bad("no member-bags.tsv")
        return
    got = [(n, u, list(i), c) for n, u, i, c in M.parse_members(mb)]
    want = [(e[0], e[1], list(e[3]), e[2]) for e in entries] if entries else [(old[-1]["name"], None, [], None)]
    for a in ams:
        want.append((a["name"], "ark:/1/am" if case["ampid"] else None, ["z"] if case["ampid"] else [], "amends" if case["ampid"] else None))
    want.append((new["name"], pid, info, comm))
    if got != want:
        ctx.bad("members are %s, should be %s" % (got, want))
    # lookup
    look = old_lookup(case, old)
    for b in ams + [new]:
        for p in selected(b["files"], case["incl"], case["excl"]):
            look[p] = b["name"]
    gl = M.parse_lookup(files.get(td + "/file-lookup.tsv", b""))
    if len(dict(gl)) != len(gl):
        ctx.bad("lookup lists a path twice")
    gl = dict(gl)
    for p in sorted(set(gl) | set(look)):
        if gl.get(p) != look.get(p):
            ctx.bad("lookup of %s is %s, should be %s" % (p, gl.get(p), look.get(p)))
    # deletions
    nd = M.parse_deleted(files.get(td + "/deleted.txt", b""))
    brought = set()
    for b in ams + [new]:
        brought |= set(b["files"])
    for d in owndel:
        if d not in nd:
            ctx.bad("own deletion of %s lost" % d)
    allpaths = set(brought)
    for m in old:
        allpaths |= {p for p in m["files"] if p.startswith("data/")}
    for d in olddel:
        if d not in brought and not any(b.startswith(d + "/") for b in brought):
            allpaths.add(d)
    for p in sorted(allpaths):
        if M.deleted_hit(p, owndel):
            w = True
        elif p in brought:
            w = False
        else:
            w = M.deleted_hit(p, olddel)
        if M.deleted_hit(p, nd) != w:
            ctx.bad("%s is %sdeleted after amending (deleted list: %s)" % (p, "not " if w else "", nd))
    # metadata
    gi = M.tagmap(files.get("bag-info.txt", b""))
    wi = M.tagmap([(k, v) for k, v in new["info"]])
    for k in ("Multibag-Version", "Multibag-Head-Version", "Multibag-Head-Deprecates", "Multibag-Tag-Directory", "Multibag-Reference", "Bag-Size", "Bag-Count"):
        wi.pop(k, None)
    wi["Multibag-Version"] = ["0.3" if case["keepver"] and case["amendee"] != "plain" else "0.4"]
    wi["Multibag-Head-Version"] = [case["version"]]
    oldver = {"plain": "1", "single": "1"}.get(case["amendee"], "1.0")
    wi["Multibag-Head-Deprecates"] = (list(case["deprecates"]) if entries else []) + [oldver]
    wi["Multibag-Tag-Directory"] = [td]
    for k in wi:
        if k == "Internal-Sender-Description":
            if [v for v in gi.get(k, []) if ABOUT not in v] != wi[k]:
                ctx.bad("Internal-Sender-Description is %s" % gi.get(k))
        elif gi.get(k) != wi[k]:
            ctx.bad("bag-info %s is %s, should be %s" % (k, gi.get(k), wi[k]))
    extra = set(gi) - set(wi) - {"Bag-Size", "Multibag-Reference", "Payload-Oxum", "Internal-Sender-Description"}
    if extra:
        ctx.bad("bag-info got unexpected %s" % sorted(extra))
    if gi.get("Payload-Oxum") != [M.oxum(files)]:
        ctx.bad("Payload-Oxum is %s" % gi.get("Payload-Oxum"))
    for pr in M.check_bag(files):
        ctx.bad("new head bag: " + pr)
    from multibag import validate_headbag, open_headbag
    try:
        validate_headbag(newpath)
    except Exception as ex:
        ctx.bad("new head bag does not validate: %s" % ex)
    hb = open_headbag(newpath, True)
    if [m.name for m in hb.member_bags()] != [w[0] for w in want] or any(hb.lookup_file(p) != b for p, b in look.items()) \
       or set(hb.deleted_paths()) != set(nd) or hb.head_version != case["version"]:
        ctx.bad("reading the new head bag gives other data than its files")
    ctx.step(2)
    ctx.state(got, sorted(gl.items()), sorted(nd), sorted(gi.items()))
