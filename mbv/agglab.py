"""writing multibag aggregations by hand (independently of the code under test), and what they must restore to"""
import os, shutil
from . import model as M

HEADKEYS = ("Multibag-Version", "Multibag-Reference", "Multibag-Tag-Directory", "Multibag-Head-Version",
            "Multibag-Head-Deprecates")
REF = "https://github.com/usnistgov/multibag-py/blob/1.0/docs/multibag-profile-spec.md"

def head_info(base, version="1", tagdir="multibag", profver="0.4", deprecates=()):
    return list(base) + [["Multibag-Version", profver], ["Multibag-Reference", REF],
                         ["Multibag-Tag-Directory", tagdir], ["Multibag-Head-Version", version]] + \
        [["Multibag-Head-Deprecates", d] for d in deprecates]

def lookup_of(members, deleted=()):
    out = {}
    for m in members:
        for p in m["files"]:
            if p.startswith("data/"):
                out[p] = m["name"]
    return {p: b for p, b in out.items() if not M.deleted_hit(p, deleted)}

def members_text(entries):
    """entries: [name | [name, uri, comment, [info]]]"""
    out = []
    for e in entries:
        if isinstance(e, str):
            e = [e, None, None, []]
        n, u, c, i = (list(e) + [None, None, []])[:4]
        line = n
        if u or i:
            line += "\t" + (u or "")
        for x in i or []:
            line += "\t" + x
        if c:
            line += "\t# " + c
        out.append(line + "\n")
    return "".join(out)

def tag_files(head, members, deleted=(), agginfo=None, tagdir="multibag", profver="0.4", entries=None, lookup=None):
    """add the multibag tag files to the head's spec"""
    entries = entries if entries is not None else [m["name"] for m in members]
    lookup = lookup_of(members, deleted) if lookup is None else lookup
    old = profver < "0.3"
    if old:
        head["files"][tagdir + "/group-members.txt"] = "".join("%s\n" % e for e in entries)
        head["files"][tagdir + "/group-directory.txt"] = "".join("%s %s\n" % i for i in sorted(lookup.items()))
    else:
        head["files"][tagdir + "/member-bags.tsv"] = members_text(entries)
        head["files"][tagdir + "/file-lookup.tsv"] = "".join("%s\t%s\n" % i for i in sorted(lookup.items()))
    if deleted:
        head["files"][tagdir + "/deleted.txt"] = "".join(d + "\n" for d in deleted)
    if agginfo is not None:
        head["files"][tagdir + "/aggregation-info.txt"] = M.info_text(agginfo)

def expected(members, deleted=(), tagdir="multibag"):
    """(files, dirs) of the restored bag, without BagIt's own files"""
    files, dirs = {}, set()
    for m in members:
        for p, c in m["files"].items():
            if p.startswith(tagdir + "/"):
                continue
            files[p] = M.content(c)
            dirs.update(parents(p))
        for d in m["dirs"]:
            dirs.add(d)
            dirs.update(parents(d))
    files = {p: c for p, c in files.items() if not M.deleted_hit(p, deleted)}
    dirs = {d for d in dirs if not M.deleted_hit(d, deleted)}
    dirs.add("data")
    return files, dirs

def parents(p):
    while "/" in p:
        p = p.rsplit("/", 1)[0]
        yield p

def expected_manifests(members, deleted=(), tagdir="multibag"):
    """{alg: {path: hash}}: entries of the surviving versions, plus those of files yet to be fetched"""
    src = {}
    for m in members:
        for p in m["files"]:
            if p.startswith("data/"):
                src[p] = m
    algs = {}
    for m in members:
        for a in m["algs"]:
            algs.setdefault(a, {})
    for p, m in src.items():
        if not M.deleted_hit(p, deleted):
            for a in m["algs"]:
                algs[a][p] = M.digest(a, M.content(m["files"][p]))
    for m in members:       # later ones win
        for p, c in m["extra_manifest"].items():
            if p not in src and not M.deleted_hit(p, deleted):
                for a in list(algs):
                    algs[a].pop(p, None)
                for a in m["algs"]:
                    algs[a][p] = M.digest(a, M.content(c))
    return algs

def expected_fetch(members, deleted=()):
    out = {}
    for m in members:
        for u, l, p in m["fetch"]:
            out[p] = (u, l)
    return {p: e for p, e in out.items() if not M.deleted_hit(p, deleted)}

def check_restored(ctx, dest, members, deleted=(), tagdir="multibag", what="", fetch=False):
    """contents of the restored bag, as C04 has it"""
    snap = M.snapshot(dest)
    files = {p: c for p, c in M.files_of(snap).items() if not M.is_special(p)}
    efiles, edirs = expected(members, deleted, tagdir)
    for p in sorted(set(files) | set(efiles)):
        if p not in files:
            ctx.bad(what + "restored bag lacks %s" % p)
        elif p not in efiles:
            ctx.bad(what + "restored bag has extra %s" % p)
        elif files[p] != efiles[p]:
            ctx.bad(what + "restored %s holds %.60r, should be %.60r" % (p, files[p], efiles[p]))
    dirs = {p for p, e in snap.items() if e[0] == "d"}
    may = set(parents(tagdir)) - edirs      # only the tag directory itself has to go
    dirs -= may
    if dirs != edirs:
        ctx.bad(what + "directories: extra %s, missing %s" % (sorted(dirs - edirs), sorted(edirs - dirs)))
    if any(e[0] == "l" for e in snap.values()):
        ctx.bad(what + "restored bag contains links")
    for pr in M.check_bag(dest, every_alg=False, fetched_ok=fetch):
        ctx.bad(what + "restored bag: " + pr)
    info = M.tagmap(M.files_of(snap).get("bag-info.txt", b""))
    left = [k for k in info if k in HEADKEYS]
    if left:
        ctx.bad(what + "restored bag-info.txt still has %s" % left)
    return snap
