"""enumeration helpers: complete products, and deviation-bounded spaces (all combinations of <= k departures)"""
import itertools

def deviations(dims, k, fixed=None, minimum=0):
    """
    dims: [(name, [default, alt, ...])].  Yields every assignment that differs from the default in at most k dimensions
    (fewest departures first), as dicts.
    """
    names = [d[0] for d in dims]
    base = {n: v[0] for n, v in dims}
    if fixed:
        base.update(fixed)
    for n in range(minimum, k + 1):
        for combo in itertools.combinations(dims, n):
            for vals in itertools.product(*[c[1][1:] for c in combo]):
                out = dict(base)
                for c, v in zip(combo, vals):
                    out[c[0]] = v
                yield out

def product(dims):
    names = [d[0] for d in dims]
    for vals in itertools.product(*[d[1] for d in dims]):
        yield dict(zip(names, vals))

def subsets(items, lo=0, hi=None):
    items = list(items)
    hi = len(items) if hi is None else hi
    for n in range(lo, hi + 1):
        for c in itertools.combinations(items, n):
            yield list(c)

def interleave_unique(*gens):
    """chain, dropping repeats (by repr)"""
    seen = set()
    for g in gens:
        for x in g:
            r = repr(sorted(x.items())) if isinstance(x, dict) else repr(x)
            h = hash(r)
            if h in seen:
                continue
            seen.add(h)
            yield x
