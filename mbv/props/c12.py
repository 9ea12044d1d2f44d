"""C12: multibag tag files round-trip and are parsed as the profile says"""
import itertools, os
from .. import model as M, agglab as A

TECHNIQUE = "exhaustive enumeration of tag-file records x textual layouts on the real reader and writer, against an independent parser of the profile's grammar"
LEVEL = "model_checking"
NAMES = ["b", "my bag", "bag.v1", u"b\u00e9 \u6570", "#b", "a # b", "b,c;d", "-", "0", "a" * 120, "x  y", "b.mbag", "% 20"]
URIS = [None, "http://h/b.zip", "ark:/88434/mds2", "http://h/a b?q=#frag", "u", u"doi:10.1/\u00fc", "file:///x#"]
INFOS = [[], ["i"], ["i", "j"], ["two words", "x#y"], ["#x", "y"], ["", "z"], ["a", "", "b"], ["k=v", "http://h/", "%"], [u"\u00fc"]]
COMMENTS = [None, "c", "two words", "has # inside", "#", "# double", "with\ttab", u"\u00fcber", "a\t# b", "trailing.", "0"]
PATHS = ["data/a", "data/my file.txt", u"data/caf\u00e9/\u6570", "data/#h", "# x", "data/a # b", "data/x  y", "meta/t", "a", "data/it's", "data/\"q\"",
         "data/100%", "data/" + "d/" * 30 + "f", "data/-", "data/a,b", "data/.h", "data/a=b", "data/[x]*"]
TAGDIRS = [list(x) for n in range(3) for x in itertools.permutations(["multibag", "mbt", "a/b", "my tags"], n)]
EOLS = ["\n", "\r\n"]
PROFS = ["0.4", "0.3"]
BOUNDS = {"quick": "all combinations of %d member names x %d identifiers x %d extra field lists x %d comments, all %d paths x %d names, all subsets of size <= 2 of %d deleted paths; "
                   "each rendered in all layouts (spaces, blank lines, final newline, line ends, old format)" % (len(NAMES), len(URIS), len(INFOS), len(COMMENTS), len(PATHS), len(NAMES), len(PATHS)),
          "thorough": "the quick space plus all ordered pairs of member lines and all subsets of size 3 of deleted paths"}
RULE = "bounded-exhaustive enumeration of records and layouts"
ASSUMPTIONS = ["names, paths and fields do not contain TAB or line ends (the profile disallows them) and do not begin or end with white space",
               "extra fields do not begin with '# ' and the last field is not empty, identifiers do not begin with '#'"]

def ok_member(u, i, c):
    # a last field that starts with '#' is (leniently) taken as a comment
    last = (i[-1] if i else u) or ""
    if c is None and last.startswith("#"):
        return False
    if i and not i[-1] and c is None:
        return False
    return True

def cases(tier):
    for n in NAMES:
        for u in URIS:
            yield {"k": "member", "name": n, "uri": u}
    for n in NAMES:
        yield {"k": "memberlayout", "name": n}
    for n in NAMES:
        yield {"k": "lookup", "bag": n}
        yield {"k": "lookuplayout", "bag": n}
    for p in PATHS:
        yield {"k": "deleted", "first": p, "n": 3 if tier == "thorough" else 2}
    yield {"k": "old"}
    for dirs in TAGDIRS:
        yield {"k": "tagdir", "dirs": dirs}
    yield {"k": "reject"}
    for eol in EOLS:
        for bom in (False, True):
            for fin in (True, False):
                yield {"k": "file", "eol": eol, "bom": bom, "final": fin}
    if tier == "thorough":
        for n in NAMES:
            for u in URIS:
                yield {"k": "pairs", "name": n, "uri": u}

def mi(n, u, c, i):
    from multibag.access.multibag import MemberInfo
    return MemberInfo(n, u, c, *i)

def tup(m):
    return (m.name, m.uri, list(m.info), m.comment)

def head(ctx, name="hb", profver="0.4"):
    spec = M.bagspec(name, {"data/x": "x"})
    spec["info"] = A.head_info(spec["info"], "1", "multibag", profver)
    return M.write_bag(ctx.dir, spec)

def readers(bag, ctx):
    from multibag.access.multibag import HeadBag, open_headbag
    z = M.serialize(bag, ".zip", dest=bag + "-ser.zip", keep=True)
    return [("writable", HeadBag(bag)), ("read-only", open_headbag(bag, True)), ("zip", open_headbag(z))]

def run(case, ctx):
    globals()["run_" + case["k"]](case, ctx)
    ctx.state(sorted(case.items(), key=str))

def save_members(ctx, recs, bag=None):
    from multibag.access.multibag import HeadBag
    bag = bag or head(ctx)
    hb = HeadBag(bag)
    hb.set_member_bags([mi(n, u, c, i) for n, u, i, c in recs])
    hb.save_member_bags()
    ctx.step()
    return bag

def run_member(case, ctx):
    from multibag.access.multibag import MemberInfo
    recs = []
    for i, c in itertools.product(INFOS, COMMENTS):
        n, u = case["name"], case["uri"]
        if not ok_member(u, i, c):
            continue
        line = mi(n, u, c, i).format()
        ctx.step()
        ctx.state(line)
        if not line.endswith("\n") or line.count("\n") != 1:
            ctx.bad("format of %r is %r" % ((n, u, i, c), line))
            continue
        got = tup(MemberInfo.parse_line_03(line))
        if got != (n, u, i, c):
            ctx.bad("%r written as %r is read back as %r" % ((n, u, i, c), line, got))
        ref = M.parse_members(line.encode("utf-8"))
        if [(a, b, list(x), y) for a, b, x, y in ref] != [(n, u, i, c)]:
            ctx.bad("%r is written as %r, which the profile reads as %r" % ((n, u, i, c), line, ref))
        recs.append((n, u, i, c))
    bag = save_members(ctx, recs)
    for what, hb in readers(bag, ctx):
        got = [tup(m) for m in hb.member_bags()]
        if got != recs:
            ctx.bad("%s: member list read back differs: %s" % (what, [x for x in zip(got, recs) if x[0] != x[1]][:2] or (len(got), len(recs))))
        if hb.member_bag_names != [r[0] for r in recs]:
            ctx.bad("%s: member_bag_names differ" % what)

def run_pairs(case, ctx):
    recs = []
    for n, u, i, c in itertools.product(NAMES, URIS, INFOS, COMMENTS):
        if ok_member(u, i, c):
            recs.append((case["name"], case["uri"], [], None))
            recs.append((n, u, i, c))
    bag = save_members(ctx, recs)
    for what, hb in readers(bag, ctx):
        got = [tup(m) for m in hb.member_bags()]
        if got != recs:
            ctx.bad("%s: member list read back differs: %s" % (what, [x for x in zip(got, recs) if x[0] != x[1]][:2]))

def run_memberlayout(case, ctx):
    from multibag.access.multibag import MemberInfo
    n = case["name"]
    for u, i, c in itertools.product(URIS, INFOS, COMMENTS):
        if not ok_member(u, i, c):
            continue
        for nsp, emptyurl, nl in itertools.product(["", " ", "   "], [False, True], ["\n", "\r\n", ""]):
            line = n + nsp
            if u or i or emptyurl:
                line += "\t" + (u or "")
            for x in i:
                line += "\t" + x
            if c:
                line += "\t# " + c
            line += nl
            ctx.step()
            got = tup(MemberInfo.parse_line_03(line))
            if got != (n, u, i, c):
                ctx.bad("line %r is read as %r" % (line, got))

def run_lookup(case, ctx):
    from multibag.access.multibag import HeadBag, parse_file_lookup_line_03
    b = case["bag"]
    bag = head(ctx)
    hb = HeadBag(bag)
    for p in PATHS:
        hb.add_file_lookup(p, b)
    hb.save_file_lookup()
    ctx.step(len(PATHS))
    with open(os.path.join(bag, "multibag/file-lookup.tsv"), "rb") as f:
        ref = M.parse_lookup(f.read())
    if ref != [(p, b) for p in PATHS]:
        ctx.bad("file-lookup.tsv holds %s" % ref)
    for what, r in readers(bag, ctx):
        for p in PATHS:
            if r.lookup_file(p) != b:
                ctx.bad("%s: lookup of %r gives %r, not %r" % (what, p, r.lookup_file(p), b))
        if list(r.iter_file_lookup()) != [(p, b) for p in PATHS]:
            ctx.bad("%s: iter_file_lookup differs" % what)
        if sorted(r.files_in_member(b)) != sorted(PATHS):
            ctx.bad("%s: files_in_member differs" % what)
        if r.lookup_file("data/none") is not None or r.files_in_member("nobody") != []:
            ctx.bad("%s: unknown path or bag found" % what)

def run_lookuplayout(case, ctx):
    from multibag.access.multibag import parse_file_lookup_line_03
    b = case["bag"]
    for p in PATHS:
        for s1, s2, s3, nl in itertools.product(["", " ", "  "], ["", " ", "  "], ["", " "], ["\n", "\r\n", ""]):
            line = p + s1 + "\t" + s2 + b + s3 + nl
            ctx.step()
            got = tuple(parse_file_lookup_line_03(line))
            if got != (p, b):
                ctx.bad("line %r is read as %r" % (line, got))

def run_deleted(case, ctx):
    from multibag.access.multibag import HeadBag
    bag = head(ctx)
    for k in range(case["n"]):
        for rest in itertools.combinations(PATHS, k):
            want = {case["first"]} | set(rest)
            hb = HeadBag(bag)
            for d in hb.deleted_paths():
                hb.unset_deleted(d)
            for d in want:
                hb.set_deleted(d)
            hb.save_deleted()
            ctx.step()
            with open(os.path.join(bag, "multibag/deleted.txt"), "rb") as f:
                ref = M.parse_deleted(f.read())
            if sorted(ref) != sorted(want):
                ctx.bad("deleted.txt holds %s, should be %s" % (sorted(ref), sorted(want)))
            if sorted(HeadBag(bag).deleted_paths()) != sorted(want):
                ctx.bad("deleted paths read back as %s" % sorted(HeadBag(bag).deleted_paths()))
    for what, r in readers(bag, ctx):
        if sorted(r.deleted_paths()) != sorted(want):
            ctx.bad("%s: deleted paths read back as %s" % (what, sorted(r.deleted_paths())))
    from multibag.access.multibag import parse_deleted_line_04
    for p in PATHS:
        for l, t in itertools.product(["", " "], ["", " ", "\r"]):
            if parse_deleted_line_04(l + p + t + "\n") != p:
                ctx.bad("deleted line %r is read as %r" % (l + p + t, parse_deleted_line_04(l + p + t + "\n")))

def run_file(case, ctx):
    """whole files, with blank lines in every position"""
    from multibag.access.multibag import HeadBag
    mem = [("m one", "http://h/1", [], None), ("m2", None, [], "note"), ("m3", None, ["x"], None), ("hb", None, [], None)]
    look = [("data/a b", "m one"), ("data/c", "m2"), ("data/x", "hb")]
    dele = ["data/gone", "data/d x"]
    eol = case["eol"]
    for prof in PROFS:
        for gap in range(6):
            for blank in ("", "   ", "\t"):
                bag = head(ctx, "hb%s-%d-%d" % (prof, gap, len(blank) + (blank == "\t")), prof)
                def text(lines):
                    lines = list(lines)
                    if gap and gap <= len(lines):
                        lines.insert(gap, blank)
                    elif gap > len(lines):
                        lines.insert(0, blank)
                        lines.append(blank)
                    t = eol.join(lines) + (eol if case["final"] else "")
                    return ((u"\ufeff" if case["bom"] else u"") + t).encode("utf-8")
                M.put(bag + "/multibag/member-bags.tsv", text(l.rstrip("\n") for l in A.members_text([[n, u, c, i] for n, u, i, c in mem]).split("\n")[:-1]))
                M.put(bag + "/multibag/file-lookup.tsv", text("%s\t%s" % x for x in look))
                M.put(bag + "/multibag/deleted.txt", text(dele))
                for what, r in readers(bag, ctx):
                    ctx.step()
                    got = [tup(m) for m in r.member_bags()]
                    if got != mem:
                        ctx.bad("%s: members read as %s (gap %d %r)" % (what, got, gap, blank))
                    if list(r.iter_file_lookup()) != look:
                        ctx.bad("%s: lookup read as %s (gap %d %r)" % (what, list(r.iter_file_lookup()), gap, blank))
                    if sorted(r.deleted_paths()) != sorted(dele):
                        ctx.bad("%s: deleted read as %s (gap %d %r)" % (what, r.deleted_paths(), gap, blank))

def run_old(case, ctx):
    """the space-separated format of 0.2"""
    from multibag.access.multibag import MemberInfo, parse_group_directory_line
    names = [n for n in NAMES if " " not in n]
    uris = [u for u in URIS if not u or " " not in u]
    for n, u, s1, s2, nl in itertools.product(names, uris, [" ", "   "], ["", " "], ["\n", "\r\n", ""]):
        line = n + (s1 + u if u else "") + s2 + nl
        ctx.step()
        got = tup(MemberInfo.parse_line_02(line))
        if got != (n, u, [], None):
            ctx.bad("0.2 member line %r is read as %r" % (line, got))
    for p, n, s1, s2, nl in itertools.product([p for p in PATHS if " " not in p], names, [" ", "   "], ["", " "], ["\n", "\r\n", ""]):
        line = p + s1 + n + s2 + nl
        ctx.step()
        got = tuple(parse_group_directory_line(line))
        if got != (p, n):
            ctx.bad("0.2 lookup line %r is read as %r" % (line, got))
    spec = M.bagspec("hb", {"data/x": "x", "multibag/group-members.txt": "m1 http://h/1\n\nm2   http://h/2 \nhb",
                            "multibag/group-directory.txt": "data/a m1\n\ndata/b   m2\ndata/x hb"})
    spec["info"] = A.head_info(spec["info"], "1", "multibag", "0.2")
    bag = M.write_bag(ctx.dir, spec)
    for what, r in readers(bag, ctx):
        got = [tup(m) for m in r.member_bags()]
        if got != [("m1", "http://h/1", [], None), ("m2", "http://h/2", [], None), ("hb", None, [], None)]:
            ctx.bad("%s: 0.2 members read as %s" % (what, got))
        if list(r.iter_file_lookup()) != [("data/a", "m1"), ("data/b", "m2"), ("data/x", "hb")]:
            ctx.bad("%s: 0.2 lookup read as %s" % (what, list(r.iter_file_lookup())))

def run_reject(case, ctx):
    from multibag.access.multibag import MemberInfo, parse_file_lookup_line_03, parse_group_directory_line
    from multibag.access.exceptions import MultibagError
    def rejected(f, line):
        ctx.step()
        try:
            r = f(line)
        except MultibagError:
            return
        ctx.bad("line %r was accepted as %r" % (line, tup(r) if hasattr(r, "uri") else r))
    for line in ["\thttp://h/1", " \thttp://h/1\n", "\t\t# c\n", "\t# comment\n"]:
        rejected(MemberInfo.parse_line_03, line)
    for p in PATHS:
        if "\t" not in p:
            for line in [p, p + "\n", p + "\t\n", p + "\t  \n", "\t" + p + "\n", "  \t" + p]:
                rejected(parse_file_lookup_line_03, line)
            if " " not in p:
                rejected(parse_group_directory_line, p + "\n")
    # whole files: a bad line anywhere is reported, not skipped
    from multibag.access.multibag import HeadBag, open_headbag
    good = ["data/a\tm1", "data/b\tm2"]
    for pos in range(3):
        lines = list(good)
        lines.insert(pos, "data/nobag")
        bag = head(ctx, "bad%d" % pos)
        M.put(bag + "/multibag/file-lookup.tsv", ("\n".join(lines) + "\n").encode())
        M.put(bag + "/multibag/member-bags.tsv", ("\n".join(["m1"] * pos + ["\thttp://h"] + ["m2"] * (2 - pos)) + "\n").encode())
        for what, r in readers(bag, ctx):
            rejected(lambda l: r.lookup_file("data/zzz"), "(file) " + repr(lines))
            rejected(lambda l: r.member_bags(), "(member file %d)" % pos)

def run_tagdir(case, ctx):
    """where the tag files are: the directory that bag-info.txt names (the last one, should there be several), or the default"""
    dirs = case["dirs"]
    spec = M.bagspec("hb", {"data/x": "x"})
    spec["info"] = spec["info"] + [["Multibag-Version", "0.4"], ["Multibag-Head-Version", "old"], ["Multibag-Head-Version", "1"]] + [["Multibag-Tag-Directory", d] for d in dirs]
    for d in set(["multibag", "mbt", "a/b", "my tags"] + dirs):
        spec["files"].update({d + "/member-bags.tsv": "m of %s\nhb\n" % d, d + "/file-lookup.tsv": "data/x\tm of %s\n" % d, d + "/deleted.txt": "data/gone of %s\n" % d})
    bag = M.write_bag(ctx.dir, spec)
    real = dirs[-1] if dirs else "multibag"
    for what, hb in readers(bag, ctx):
        ctx.step()
        got = (hb.multibag_tag_dir, hb.member_bag_names, hb.lookup_file("data/x"), hb.deleted_paths(), hb.head_version, hb.profile_version)
        want = (real, ["m of " + real, "hb"], "m of " + real, ["data/gone of " + real], "1", "0.4")
        if got != want:
            ctx.bad("%s bag with tag directories %s: reads %s, should be %s" % (what, dirs, got, want))
