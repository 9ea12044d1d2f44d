"""
C25: all sequences of findings up to a length x all severity masks, on the real result collection, against a plain list;
and all masks and all entry points on a family of bags.
"""
import itertools, os
from .. import model as M, agglab as A

LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of all finding sequences up to a depth and all severity masks on the real code, against a plain record"
RULE = "distinct (findings, masks) outcomes"
BOUNDS = {"quick": "all sequences of <= 4 findings over 3 severities x 2 outcomes x 8 requested masks x 8 query masks; all 7 masks x 3 validators x 3 entry points on 16 bags in 2 forms; all findings over 3 severities x 2 outcomes x 7 comment sets x 8 texts in each of their forms",
          "thorough": "the same with sequences of <= 6 findings"}
ASSUMPTIONS = ["known finding C25-member-results: the member validator drops its name and non-head checks unless a result collection is supplied"]

SEVS = (1, 2, 4)
BAGS = ["ok", "nover", "noref", "norecs", "corrupt", "badoxum", "notlast", "dupmember", "unlisted", "dupver", "plain", "plaincorrupt",
        "memberdep", "membertagdir", "memberdir", "membername"]

def cases(tier):
    n = 4 if tier == "quick" else 6
    alpha = [(s, p) for s in SEVS for p in (True, False)]
    for k in range(0, n + 1):
        for first in (itertools.product(range(6), repeat=min(k, 2))):
            yield {"kind": "seq", "len": k, "prefix": list(first)}
    yield {"kind": "issue"}
    yield {"kind": "forms"}
    for b in BAGS:
        for form in ("dir", ".zip"):
            for v in ("head", "member", "bag"):
                yield {"kind": "bag", "bag": b, "form": form, "validator": v}

def run(case, ctx):
    globals()["run_" + case["kind"]](case, ctx)

def run_seq(case, ctx):
    from multibag.validate.base import ValidationResults, Validator, MultibagValidationError
    alpha = [(s, p) for s in SEVS for p in (True, False)]
    rest = case["len"] - len(case["prefix"])
    for tail in itertools.product(range(6), repeat=rest):
        seq = [alpha[i] for i in case["prefix"] + list(tail)]
        for want in range(0, 8):
            res = ValidationResults("target", want)
            rec = []
            for i, (s, p) in enumerate(seq):
                t = res._issue("lab%d" % i, "spec %d" % i)
                com = [None, "c", ["c1", "c2"], ("t1",)][i % 4]
                {1: res._err, 2: res._warn, 4: res._rec}[s](t, p, com)
                rec.append((s, p, "lab%d" % i, [] if com is None else [com] if isinstance(com, str) else list(com)))
            ctx.step(len(seq))
            for q in range(0, 8):
                exp = [r for s in SEVS if s & q for r in rec if r[0] == s]
                for nm, sel in (("applied", exp), ("passed", [r for r in exp if r[1]]), ("failed", [r for r in exp if not r[1]])):
                    got = [(i.type, i.passed(), i.label, list(i.comments)) for i in getattr(res, nm)(q)]
                    if sorted(map(repr, got)) != sorted(map(repr, sel)):
                        ctx.bad("%s(%d) after %s gives %s, should be %s" % (nm, q, seq, got, sel))
                    c = getattr(res, "count_" + nm)(q)
                    if c != len(sel):
                        ctx.bad("count_%s(%d) after %s is %s, should be %d" % (nm, q, seq, c, len(sel)))
            exp = [r for s in SEVS for r in rec if r[0] == s]
            for nm, n in (("applied", len(exp)), ("passed", len([r for r in exp if r[1]])), ("failed", len([r for r in exp if not r[1]]))):
                if getattr(res, "count_" + nm)() != n or len(getattr(res, nm)()) != n:
                    ctx.bad("%s() of all severities after %s is wrong" % (nm, seq))
            # lists handed out are copies
            for nm in ("applied", "passed", "failed"):
                for q in (1, 7):
                    getattr(res, nm)(q).append("junk")
            if res.count_applied() != len(seq):
                ctx.bad("changing a returned list changed the results")
            ok = not any((not p) and (s & want) for s, p in seq)
            if res.ok() != ok:
                ctx.bad("ok() with want=%d after %s is %s" % (want, seq, res.ok()))
            # a validator with these findings
            class V(Validator):
                def validate(self, want=3, results=None):
                    out = super(V, self).validate(want, results)
                    for i, (s, p) in enumerate(seq):
                        {1: out._err, 2: out._warn, 4: out._rec}[s](out._issue("l%d" % i, "s"), p)
                    return out
            v = V("t")
            if v.is_valid(want) != ok:
                ctx.bad("is_valid(%d) with %s is %s" % (want, seq, v.is_valid(want)))
            try:
                v.ensure_valid(want)
                r = True
            except MultibagValidationError as ex:
                r = False
                if ex.results.count_failed() != len([1 for s, p in seq if not p]):
                    ctx.bad("the error raised carries %d failures" % ex.results.count_failed())
                nf = ex.results.count_failed()
                txt = str(ex)
                if nf > 1 and str(nf) not in txt:
                    ctx.bad("error text %r does not tell the number of failures, %d" % (txt[:200], nf))
            if r != ok:
                ctx.bad("ensure_valid(%d) with %s: %s" % (want, seq, r))
            ctx.step(3)
        okd = not any((not p) and s & 3 for s, p in seq)
        v = V("t")
        if v.is_valid() != okd:
            ctx.bad("is_valid() with %s is %s" % (seq, not okd))
        ctx.state(seq)
        ctx.trace()

def run_forms(case, ctx):
    """the forms of a finding tell what it is; a finding survives being made a tuple"""
    import json
    from multibag.validate.base import ValidationIssue, ValidationResults
    names = {1: "error", 2: "warning", 4: "recommendation"}
    for s, p, com, lab, spec, ver in itertools.product(SEVS, (True, False), (None, [], "one", ["c one"], ["c one", "c two"], ("t1", "t2", "t3"), [7]),
                                                       ("2-Lab", ""), ("must be so", ""), ("0.4", "0.2")):
        want = [] if not com else [com] if isinstance(com, str) else [str(c) for c in com]
        a = ValidationIssue(lab, s, spec, p, com, ver)
        res = ValidationResults("t", 7, ver)
        b = res._issue(lab, spec)
        {1: res._err, 2: res._warn, 4: res._rec}[s](b, p, com)
        c = ValidationIssue.from_tuple(a.to_tuple())
        d = ValidationIssue("x", 1, "y", True, None, "0.1")
        d.label, d.type, d.specification, d.profile_version, d._passed = lab, s, spec, ver, p
        for t in want:
            d.add_comment(t)
        e = res.applied(s)[0]
        for nm, i in (("new", a), ("recorded", b), ("tuple", c), ("changed", d), ("listed", e)):
            got = (i.label, i.type, i.specification, i.passed(), i.failed(), list(i.comments), i.profile_version)
            exp = (lab, s, spec, p, not p, want, ver)
            ctx.step(4)
            ctx.expect(got == exp, "%s issue is %s, should be %s" % (nm, got, exp))
            sm, ds, tx = i.summary, i.description, str(i)
            head = "PASSED" if p else names[s].upper()
            ctx.expect(sm.startswith(head + ":") and "\n" not in sm and ver in sm and lab in sm and spec in sm, "summary of %s is %r" % (exp, sm))
            ctx.expect(ds.startswith(sm) and [l.strip() for l in ds.split("\n")[1:]] == want, "description of %s is %r" % (exp, ds))
            ctx.expect(tx.startswith(sm) and (not want or want[0] in tx), "text of %s is %r" % (exp, tx))
            j = json.loads(json.dumps(i.to_json_obj()))
            ctx.expect((j["type"], j["profile_version"], j["label"], j["spec"], j["comments"]) == (names[s], ver, lab, spec, want), "JSON form of %s is %s" % (exp, j))
        ctx.state(s, p, want, lab, spec, ver)
    try:
        ValidationIssue("l", 3)
        ctx.bad("an unknown severity is accepted")
    except (ValueError, TypeError):
        pass

def run_issue(case, ctx):
    """an issue recorded keeps what was recorded, whatever is later done with the issue object"""
    from multibag.validate.base import ValidationResults, ValidationIssue
    for s in SEVS:
        for p in (True, False, 1, 0, "", "x", None, []):
            for s2 in SEVS:
                for p2 in (True, False):
                    res = ValidationResults("t", 7)
                    t = res._issue("lab", "spec")
                    {1: res._err, 2: res._warn, 4: res._rec}[s](t, p)
                    {1: res._err, 2: res._warn, 4: res._rec}[s2](t, p2, "again")
                    got = sorted((i.type, i.passed()) for i in res.applied())
                    if got != sorted([(s, bool(p)), (s2, p2)]):
                        ctx.bad("recording an issue twice (%s %r, %s %r) gives %s" % (s, p, s2, p2, got))
                    if t.failed() != (not p2):
                        ctx.bad("the issue does not tell its last outcome")
                    ctx.step(2)
                    ctx.state(s, repr(p), s2, p2)

def build(case, parent):
    b = case["bag"]
    name = " head " if b == "membername" else "head"
    files = {"data/a": "a", "data/b/c": "cc", "metadata/m": "m"}
    base = [["Source-Organization", "Org"], ["Internal-Sender-Identifier", "i"], ["Internal-Sender-Description", "d"],
            ["Bag-Group-Identifier", "g"]]
    if b.startswith("plain"):
        spec = M.bagspec(name, files, [], base)
    elif b.startswith("member"):
        info = base + [["Multibag-Version", "0.4"]]
        if b == "memberdep":
            info.append(["Multibag-Head-Deprecates", "1"])
        if b == "membertagdir":
            info.append(["Multibag-Tag-Directory", "elsewhere"])
        if b == "memberdir":
            files["multibag/x"] = "x"
        spec = M.bagspec(name, files, [], info)
    else:
        info = A.head_info([] if b == "norecs" else base)
        if b == "nover":
            info = [i for i in info if i[0] != "Multibag-Version"]
        if b == "noref":
            info = [i for i in info if i[0] != "Multibag-Reference"]
        if b == "dupver":
            info.append(["Multibag-Version", "0.4"])
        spec = M.bagspec(name, files, [], info)
        ents = {"notlast": [name, "m1"], "dupmember": ["m1", "m1", name]}.get(b, ["m1", name])
        look = {p: name for p in files if p.startswith("data/")}
        if b == "unlisted":
            look.pop("data/a")
        A.tag_files(spec, [], entries=ents, lookup=look)
        if b == "badoxum":
            spec["info"].append(["Payload-Oxum", "9.9"])
    root = M.write_bag(parent, spec)
    if b in ("corrupt", "plaincorrupt"):
        M.put(os.path.join(root, "data/a"), b"X")
    return root

# severities broken, as a head bag, as a member, as a plain bag (None: the validator is not meant for it)
EXP = {
    "ok": ({}, {}, {}), "nover": ({1}, {4}, {}), "noref": ({4}, {}, {}), "norecs": ({4}, {}, {}), "corrupt": ({1}, {1}, {1}),
    "badoxum": ({1}, {1}, {1}), "notlast": ({1}, {}, {}), "dupmember": ({2}, {}, {}), "unlisted": ({4}, {}, {}), "dupver": ({2}, {}, {}),
    "plain": ({1, 4}, {4}, {}), "plaincorrupt": ({1, 4}, {1, 4}, {1}),
    "memberdep": ({1, 4}, {2}, {}), "membertagdir": ({1, 4}, {2}, {}), "memberdir": ({1, 4}, {2}, {}), "membername": ({1, 4}, {1}, {}),
}

def run_bag(case, ctx):
    from multibag.validate import headbag, member, bag
    from multibag.validate.base import ValidationResults, MultibagValidationError
    path = build(case, ctx.dir)
    if case["form"] != "dir":
        path = M.serialize(path, case["form"], keep=True)
    mod, cls, ix = {"head": (headbag, headbag.HeadBagValidator, 0), "member": (member, member.MemberBagValidator, 1),
                    "bag": (bag, bag.BagValidator, 2)}[case["validator"]]
    broken = set(EXP[case["bag"]][ix])
    member_only = case["validator"] == "member" and case["bag"] in ("memberdep", "membertagdir", "memberdir", "membername")
    for want in range(1, 8):
        exp = not any(s & want for s in broken)
        given = ValidationResults("given", want)
        r1 = cls(path).validate(want, given)
        ctx.expect(r1 is given, "validate() with a result collection returned another one")
        if r1.ok() != exp:
            ctx.bad("validate(%d, results).ok() is %s, broken severities are %s: %s" % (want, r1.ok(), sorted(broken), [str(f) for f in r1.failed()]))
        for s in SEVS:
            if s & want and bool(r1.count_failed(s)) != (s in broken):
                ctx.bad("validate(%d, results): severity %d: %s" % (want, s, [str(f) for f in r1.failed(s)]))
        # without a collection, and with the convenience functions
        def val():
            return cls(path).validate(want).ok()
        def isv():
            return cls(path).is_valid(want)
        def ens():
            try:
                cls(path).ensure_valid(want)
                return True
            except MultibagValidationError as ex:
                if ex.results.ok():
                    ctx.bad("error raised with successful results")
                return False
        def modlevel():
            try:
                mod.validate(path, want)
                return True
            except MultibagValidationError:
                return False
        fns = [("validate().ok()", val), ("is_valid", isv), ("ensure_valid", ens)]
        if hasattr(mod, "validate"):
            fns.append(("module validate", modlevel))
        for nm, fn in fns:
            got = fn()
            ctx.step()
            if got != exp:
                if member_only and got is True:
                    ctx.known.append("C25-member-results")
                else:
                    ctx.bad("%s with want=%d is %s, broken severities are %s" % (nm, want, got, sorted(broken)))
        # a collection that already has findings keeps them
        pre = ValidationResults("given", want)
        pre._warn(pre._issue("x", "y"), False)
        n0 = pre.count_applied()
        r2 = cls(path).validate(want, pre)
        if not (r2 is pre and r2.count_applied() == n0 + r1.count_applied() and r2.ok() == (exp and not want & 2)):
            ctx.bad("findings recorded before were not kept")
        ctx.step()
        ctx.state(case, want, exp)
