"""Linear arithmetic over terms: normal forms and entailment of simple bounds from path conditions."""
from engine import *


def lin(t):
    """(frozenset-able dict atom -> coefficient, constant)"""
    if is_c(t):
        return {}, t[1]
    if t[0] == "app" and t[1] in ("+", "-"):
        a, ca = lin(t[2][0])
        b, cb = lin(t[2][1])
        sg = 1 if t[1] == "+" else -1
        d = dict(a)
        for k, v in b.items():
            d[k] = d.get(k, 0) + sg * v
            if not d[k]:
                del d[k]
        return d, ca + sg * cb
    if t[0] == "app" and t[1] == "*" and is_c(t[2][1]):
        a, ca = lin(t[2][0])
        k = t[2][1][1]
        return ({x: v * k for x, v in a.items()} if k else {}), ca * k
    if t[0] == "app" and t[1] == "max0":
        return lin(t[2][0])
    return {t: 1}, 0


def lkey(d):
    return tuple(sorted(d.items(), key=repr))


def lsame(a, b):
    da, ca = lin(a)
    db, cb = lin(b)
    return ca == cb and lkey(da) == lkey(db)


def bounds(conds, t, canon=lambda x: x):
    """(lo, hi, excluded) of linear term t from the conditions only"""
    d, c0 = lin(canon(t))
    lo, hi, ne = -INF, INF, set()
    if not d:
        return c0, c0, ne
    kd = lkey(d)
    kn = lkey({k: -v for k, v in d.items()})
    for c in conds:
        if c[0] != "rel":
            continue
        a, ca = lin(canon(c[1]))
        b, cb = lin(canon(c[2]))
        e = dict(a)
        for k, v in b.items():
            e[k] = e.get(k, 0) - v
            if not e[k]:
                del e[k]
        k = lkey(e)
        s = c[3] - {"un"}
        n = ca - cb          # e + n REL 0
        if k == kn and k != kd:
            s = frozenset(FLIP[x] for x in s)
            n = -n
        elif k != kd:
            continue
        # d + n REL 0  ->  t = d + c0 REL c0 - n
        v = c0 - n
        if s == {"lt"}:
            hi = min(hi, v - 1)
        elif s == {"lt", "eq"}:
            hi = min(hi, v)
        elif s == {"gt"}:
            lo = max(lo, v + 1)
        elif s == {"gt", "eq"}:
            lo = max(lo, v)
        elif s == {"eq"}:
            lo, hi = max(lo, v), min(hi, v)
        elif s == {"lt", "gt"}:
            ne.add(v)
    while lo in ne:
        lo += 1
    while hi in ne:
        hi -= 1
    return lo, hi, ne
