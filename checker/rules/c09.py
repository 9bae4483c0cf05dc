"""C09: only rows with begin <= timestamp < end are delivered, and all of those up to the first at/after end."""
from driver_model import *

RULE = ("Every unit of the driver's traces (loop iteration or whole path) that pulls a row from a source is classified "
        "as delivering, skipping (pulls again) or ending the source; the path condition must entail membership in "
        "[begin, end), timestamp < begin, respectively timestamp >= end. The truth table over begin/end "
        "None/Some and the three outcomes of each comparison is thereby covered for all values.")

TR = "chopper::types::TimestampRange"


def units(m):
    """(events, conds, state, next-values, kind, loop)"""
    for L in m.loops.values():
        for it in L["iters"]:
            yield it["events"], it["conds"], it["st"], list(it["next"].values()), "iter", L
    for s, o in m.outs:
        yield s.events(), s.conds(), s, [], "path:" + o[0], None


def has_row(t, row, tsf):
    """whole row occurs in t (not only its timestamp)"""
    if t == row:
        return True
    if not isinstance(t, tuple):
        return False
    if t and t[0] == "fld" and len(t) == 4 and t[1] == row and t[3] == tsf:
        return False
    return any(has_row(x, row, tsf) for x in t if isinstance(x, tuple))


def run(ctx):
    m = model(ctx)
    I = m.I
    B, E = set(), set()
    for ev, conds, st, nx, kind, L in units(m):
        for c in conds:
            for t in subterms(c):
                if t[0] == "fld" and t[3] == "begin":
                    B.add(t)
                if t[0] == "fld" and t[3] == "end":
                    E.add(t)
    ctx.ob("bounds-used", bool(B) and bool(E), "begin and end are both consulted")
    if not B or not E:
        return
    counts = {"deliver": 0, "skip": 0, "stop": 0}
    for ev, conds, st, nx, kind, L in units(m):
        direct = [e for e in ev if e[0] == "call" and e[7] == NEXT_ROW]
        if not direct:
            continue
        e = direct[-1]
        R = e[4]
        if variants(I, st, R, RESULT) != {"Ok"}:
            continue
        o = payload(I, R, "Ok")
        if variants(I, st, o, OPTION) != {"Some"}:
            continue
        if kind.startswith("path") and kind != "path:ret":
            continue
        row = payload(I, o)
        ts = timestamp(I, row)
        later = ev[ev.index(e) + 1:]
        deliv = any(has_row(x, row, "timestamp") for x in nx) or \
            any(has_row(x[2] if x[0] == "call" else x[1:], row, "timestamp") for x in later if x[0] != "loop")
        if kind.startswith("path") and not deliv:
            # an early return (error) after the pull: not a verdict on the row
            res = next((oo for ss, oo in m.outs if ss is st), None)
            if res and res[0] == "ret" and variants(I, st, res[1], RESULT) == {"Err"}:
                continue

        def b_in():
            return any(is_none(I, st, b) or (is_some(I, st, b) and cmp_set(I, st, ts, payload(I, b)) <= {"gt", "eq"}) for b in B)

        def e_in():
            return any(is_none(I, st, b) or (is_some(I, st, b) and cmp_set(I, st, ts, payload(I, b)) <= {"lt"}) for b in E)

        def b_out():
            return any(is_some(I, st, b) and cmp_set(I, st, ts, payload(I, b)) <= {"lt"} for b in B)

        def e_out():
            return any(is_some(I, st, b) and cmp_set(I, st, ts, payload(I, b)) <= {"gt", "eq"} for b in E)

        # the same source is asked again
        again = kind == "iter" and not deliv and not mentions(
            e[3][0], lambda t: t[0] == "lv" and t[1] == L["id"])
        why = " & ".join(show(c) for c in conds if mentions(c, lambda t: t == ts or t in B or t in E))
        if deliv:
            counts["deliver"] += 1
            ctx.ob("deliver-in-range", b_in() and e_in(), "delivered when " + why, e[5])
        elif again and not ends_source(m, later):
            counts["skip"] += 1
            ctx.ob("skip-before-begin", b_out() or e_out(), "skipped when " + why, e[5])
        else:
            counts["stop"] += 1
            ctx.ob("stop-at-end", e_out(), "source ended when " + why, e[5])
    ctx.ob("covers", counts["deliver"] >= 2 and counts["skip"] >= 1 and counts["stop"] >= 1,
           "delivering/skipping/ending traces: %s" % counts)
    # where the range comes from
    new = "chopper::types::TimestampRange::new"
    if ctx.F.has_body(new):
        I2, outs = ctx.explore(new, opaque=lambda p: "timestamp_util" in p)
        for st, o in outs:
            if o[0] != "ret" or variants(I2, st, o[1], RESULT) != {"Ok"}:
                continue
            v = payload(I2, o[1], "Ok")
            for name, i in (("begin", 0), ("end", 1)):
                f = fld_of(I2, v, name, TR)
                ps = {t[1] for t in subterms(f) if t[0] == "p"} | {
                    t[1] for c in st.events() if c[0] == "call" and mentions(f, lambda x, c=c: x == c[4])
                    for a in c[3] for t in subterms(a) if t[0] == "p"}
                okk = (is_none(I2, st, ("p", i)) and f == NONE) or (is_some(I2, st, f) and i in ps and (1 - i) not in ps)
                ctx.ob("range-from-args", okk, "%s bound comes from argument %d: %s" % (name, i, show(f)))


def ends_source(m, later):
    return any(e[0] == "vec.remove" for e in later) or any(
        e[0] == "call" and e[1] == m.flushfn for e in later)
