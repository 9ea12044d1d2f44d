"""C16: version comparison is a consistent total order"""
import itertools
from .. import model as M

TECHNIQUE = "exhaustive enumeration of all version pairs and triples up to bounds in all forms on the real comparison, against numeric comparison"
LEVEL = "model_checking"
BOUNDS = {"quick": "all versions with 1..3 fields over {0,1,2,5,9,10,11,12,20,100}: all ordered pairs with <=2 fields in all form combinations (text, tuple, object); 3-field versions over {0,2,10}, 4-field ones over {0,10}, some of 5 fields and with very large fields; with leading zeros; all triples of a 40-version set",
          "thorough": "1..5 fields, all ordered pairs with <=3 fields, all triples of a 120-version set"}
RULE = "all pairs/triples"
ASSUMPTIONS = ["numeric dotted fields; versions that differ only by trailing zero fields are different versions, the shorter one first"]
F = [0, 1, 2, 5, 9, 10, 11, 12, 20, 100]

def versions(tier):
    out = []
    for n in (1, 2):
        out += list(itertools.product(F, repeat=n))
    out += list(itertools.product([0, 2, 10] if tier == "quick" else [0, 1, 2, 9, 10], repeat=3))
    out += list(itertools.product([0, 10] if tier == "quick" else [0, 3, 10], repeat=4))
    out += list(itertools.product([0, 11], repeat=5))[::1 if tier == "thorough" else 5]
    out += [(2 ** 31,), (2 ** 31 - 1, 1), (0, 2 ** 64), (0, 10 ** 30)]
    return out

def cases(tier):
    vs = versions(tier)
    for i in range(len(vs)):
        yield {"kind": "pairs", "v": list(vs[i])}
    n = 40 if tier == "quick" else 120
    step = max(1, len(vs) // n)
    sub = vs[::step]
    for v in sub:
        yield {"kind": "triples", "v": list(v), "step": step}
    yield {"kind": "sort"}

def ops(a, b):
    return (a < b, a <= b, a == b, a != b, a >= b, a > b)

def want(a, b):
    return (a < b, a <= b, a == b, a != b, a >= b, a > b)

def run(case, ctx):
    from multibag.constants import Version
    vs = versions(ctx.tier)
    txt = lambda t: ".".join(str(x) for x in t)
    if case["kind"] == "sort":
        import random
        r = [Version(txt(v)) for v in sorted(vs, key=lambda v: (str(v)[::-1]))]
        got = [str(x) for x in sorted(r)]
        ctx.step(len(vs))
        ctx.state(len(vs))
        ctx.expect(got == [txt(v) for v in sorted(vs)], "sorting versions gives a wrong order")
        return
    a = tuple(case["v"])
    if case["kind"] == "pairs":
        va = {"s": Version(txt(a)), "t": Version(a)}
        ctx.expect(str(va["s"]) == txt(a) and str(va["t"]) == txt(a), "str() of version %s" % (a,))
        for b in vs:
            w = want(a, b)
            others = {"s": Version(txt(b)), "t": Version(b), "rs": txt(b), "rt": b}
            if len(b) <= 3:      # leading zeros do not change a number
                others["z"] = Version(".".join("%03d" % x for x in b))
                others["rz"] = ".".join("0%d" % x for x in b)
            for ka, x in va.items():
                for kb, y in others.items():
                    g = ops(x, y)
                    ctx.step(6)
                    if g != w:
                        ctx.bad("comparing %s (%s) with %s (%s): <,<=,==,!=,>=,> gave %s, should be %s" % (txt(a), ka, txt(b), kb, g, w))
            for y in (txt(b), b):      # reflected operand
                g = ops(y, va["s"])
                ctx.step(6)
                if g != want(b, a):
                    ctx.bad("comparing plain %r with Version %s gave %s" % (y, txt(a), g))
            ctx.state(a, b, w)
            if len(ctx.problems) > 5:
                return
    else:
        sub = vs[::case["step"]]
        x = Version(txt(a))
        vers = [(Version(txt(v)) if i % 2 else Version(v)) for i, v in enumerate(sub)]
        lt = [x < y for y in vers]
        for i, y in enumerate(vers):
            if not lt[i]:
                continue
            for z in vers:
                ctx.step()
                if y < z and not x < z:
                    ctx.bad("not transitive: %s < %s < %s" % (x, y, z))
        ctx.state("triple", a)
