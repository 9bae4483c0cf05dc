"""C06: rows of several inputs are delivered in timestamp order (k-way merge)."""
from driver_model import *

RULE = ("All traces of the driver's merge loop (recursive chain walkers kept opaque): each delivered row belongs to "
        "element k of the pending vector where k is the arg-min over the whole vector of the pending timestamp, the "
        "key equals the row's own timestamp for every value that ever enters the vector, exactly element k is "
        "advanced from its own source or removed, and the loop ends only when nothing is pending.")


def run(ctx):
    m = model(ctx)
    I = m.I
    ctx.ob("deliver-in-loop", len(m.deliv) > 0, "merge loop delivers rows at %d trace points" % len(m.deliv))
    Vs = set()
    for it, e in m.deliv:
        row = e[2][m.row_i]
        el = elem_of(row)
        if not ctx.ob("row-from-pending", el is not None and el[1][0] == "lv",
                      "delivered row is %s" % show(row), e[5]):
            continue
        V, k = el[1], el[2]
        Vs.add(V)
        ok, text, key = argmin(ctx, m, it, V, k, e)
        ctx.ob("select-min", ok, text, e[5])
        if not ok:
            continue
        path = payload_path(row, el)
        # key is the timestamp of the row that will be delivered
        for x, st, where in fresh_elements(I, m, V):
            if x is None:
                ctx.ob("key-is-timestamp", False, "pending rows come from an unrecognised construct (%s)" % where)
                continue
            r = project(I, x, path)
            kk = at(I, key, ("sel", V, ("bv", 0)), x)
            base = x[1] if x[0] == "ov" else x
            same = kk == timestamp(I, r)
            # an element whose row slot is empty is never delivered: nothing to compare
            slot = project(I, x, path[:-2]) if len(path) >= 2 else r
            if slot[0] == "adt" and slot[2] == "None":
                ctx.ob("pending-has-row", False, "an exhausted source is kept among the pending rows")
                continue
            ctx.ob("key-is-timestamp", same, "pending key %s for row %s" % (show(kk), show(r)))
    for V in Vs:
        # what one iteration may do to the pending rows
        for it, e in m.deliv:
            el = elem_of(e[2][m.row_i])
            if el is None or el[1] != V:
                continue
            k = el[2]
            n = it["next"][V]
            if n == ("rm", V, k):
                ctx.ob("advance", True, "exhausted source removed")
                continue
            if n[0] == "store" and n[1] == V and n[2] == k:
                x = n[3]
            elif n[0] == "push" and n[1] == ("rm", V, k):
                x = n[2]
            else:
                ctx.ob("advance", False, "after a delivery the pending rows become %s" % show(n), e[5])
                continue
            path = payload_path(e[2][m.row_i], el)
            r = project(I, x, path)
            srcs = [c for c in all_events(it["events"]) if c[0] == "call" and c[7] == NEXT_ROW]
            pulled = [c for c in srcs if mentions(r, lambda t, c=c: t == c[4])]
            ctx.ob("advance-own-source", bool(pulled) and all(elem_of(c[3][0]) == el for c in pulled),
                   "the next row of the delivered row's source replaces it (%s)" % show(r), e[5])
        ok, text = empty_at_exit(m, V)
        ctx.ob("drains-all", ok, text)
