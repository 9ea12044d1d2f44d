"""
C09: for every operation of the scenario family the file-system calls of a run are numbered (LD_PRELOAD injector); then
the operation is run once per call and per kind of failure, with exactly that call failing.  An operation that returns
normally must have written exactly what it writes without the failure.
"""
import errno, os, shutil
from .. import model as M, faultlab as F, shim, space

LEVEL = "model_checking"
TECHNIQUE = "exhaustive fault-point enumeration on the real code: LD_PRELOAD injector fails every single file-system call of every scenario in turn (EIO, EIO on that file from there on, EACCES, ENOSPC from there on, short write); result compared with the failure-free run"
RULE = "distinct (scenario, call that failed, outcome) triples"
ASSUMPTIONS = ["calls that only probe for a file's existence or type (stat, access) are not failed: Python's own os.path.exists() "
               "and isfile() answer False when they fail",
               "one failing call per run, or one file that stays unreadable or unwritable, or no space left from one call on",
               "directory listing order is that of the scratch file system"]
CASE_TIMEOUT = 240

def scenarios(tier):
    out = []
    for mx in (45, 1000):
        out.append(dict(op="split", max=mx))
    out.append(dict(op="split", nb=True))
    out.append(dict(op="split", head=True))
    out.append(dict(op="split", fetch=True))
    for op in ("plan", "planrw", "planro"):
        out.append(dict(op=op))
    out.append(dict(op="plan", form=".zip"))
    out.append(dict(op="plan", form=".tar.gz"))
    out.append(dict(op="plan", head=True))
    out.append(dict(op="plan", fetch=True))
    for form in ("dir", ".zip", ".tar.gz"):
        for ai in (False, True):
            if tier == "thorough" or ai == (form == "dir"):
                out.append(dict(op="restore", form=form, agginfo=ai))
        out.append(dict(op="inplace", form=form))
    out.append(dict(op="inplace", agginfo=True))
    out.append(dict(op="restore", headform=".zip"))
    out.append(dict(op="restore", headform=".tar"))
    out.append(dict(op="restore", fetcher=True))
    out.append(dict(op="restore", fetcher=True, form=".zip"))
    for head in (True, False):
        for form in ("dir", ".zip"):
            out.append(dict(op="amend", head=head, form=form))
        out.append(dict(op="amend", head=head, api="handle", moreform=".tar"))
    out.append(dict(op="convert"))
    out.append(dict(op="convertdir"))
    for s in (False, True):
        out.append(dict(op="edit", save=s))
        out.append(dict(op="edit", tagdir=True, save=s))
        out.append(dict(op="edit", clear=True, save=s))
    for v in ("bag", "member", "open", "head"):
        for form in ("dir", ".zip", ".tar"):
            for bad in ("data/a", "+data/new/x", "data/b/c", "meta/t2", "+data/b/deep/er/x"):
                if bad == "data/a" or (bad == "+data/new/x" and form == "dir") or tier == "thorough":
                    out.append(dict(op="validatebad", v=v, form=form, head=(v == "head"), bad=bad))
    out.append(dict(op="mkdata"))
    out.append(dict(op="mkfile"))
    if tier == "thorough":
        from .. import shapes
        for t in shapes.TREES:
            if t != "big":
                out.append(dict(op="split", tree=t, max=12))
                out.append(dict(op="convert", tree=t))
        for form in (".tar", ".tar.bz2", ".tgz"):
            out.append(dict(op="restore", form=form))
            out.append(dict(op="inplace", form=form))
            out.append(dict(op="amend", form=form))
    return out

KINDS = ["eio", "eacces", "full", "short", "bad"]
SHARDS = 8
BOUNDS = {"quick": "%d scenarios (split, plan, restore, in-place restore, amend, convert, edit and save, validate, generate data; directories and archives) x every file-system call x 5 kinds of failure" % len(scenarios("quick")),
          "thorough": "%d scenarios x every file-system call x 5 kinds of failure" % len(scenarios("thorough"))}

def cases(tier):
    for s in scenarios(tier):
        for part in range(SHARDS):
            yield dict(s, part=part)

def applicable(kind, t):
    if kind == "eacces":
        return t in ("openr", "list", "link")
    if kind == "full":
        return t in ("openw", "write", "mkdir", "link", "close")
    if kind == "short":
        return t == "write"
    if kind == "bad":      # the file stays unreadable or unwritable
        return t in ("write", "read")
    return True

MODE = {"eio": (shim.FAIL, errno.EIO), "eacces": (shim.FAIL, errno.EACCES), "full": (shim.STICKY, errno.ENOSPC), "short": (shim.SHORT, 0),
        "bad": (shim.BADFILE, errno.EIO)}

def run(case, ctx):
    w = F.build(case, ctx.sub("w"))
    pristine = ctx.dir + "/pristine"
    shutil.copytree(w.w, pristine, symlinks=True)
    st, ans, n, types, _ = F.in_child(case, w, shim.COUNT)
    ctx.step(n)
    if st != "ok":
        ctx.bad("%s fails without any fault: %s" % (case["op"], ans))
        return
    ref = F.results(w)
    ctx.state(case["op"], types)
    verdict = case["op"] == "validatebad"
    if verdict and ans != "false":
        ctx.bad("a damaged bag is accepted: %s" % ans)
        return
    idx = 0
    for k in range(n):
        for kind in KINDS:
            if not applicable(kind, types[k]):
                continue
            if kind != "short" and verdict and kind == "full":
                continue
            idx += 1
            if (idx - 1) % SHARDS != case["part"]:
                continue
            mode, err = MODE[kind]
            F.reset(w, pristine)
            s, a, m, _, hit = F.in_child(case, w, mode, k, err)
            ctx.step(max(1, m))
            ctx.trace(1)
            what = "%s of call %d (%s)" % (kind, k, hit or types[k])
            if s == "error":
                ctx.state(case["op"], kind, types[k], "error")
                if kind == "short":
                    ctx.bad("%s: reports %s although writing a part at first is no failure" % (what, a))
                continue
            if s == "broken":
                ctx.bad("%s: the process was ended: %s" % (what, a))
                return
            ctx.state(case["op"], kind, types[k], "ok")
            if verdict:
                ctx.expect(a == "false", "%s: a damaged bag is accepted" % what)
                continue
            if a != ans:
                ctx.bad("%s: returns %.300s instead of %.300s" % (what, a, ans))
            d = M.diff_snap(ref, F.results(w))
            if d:
                ctx.bad("%s: the operation returned normally but %s" % (what, "; ".join(d[:4])))
