"""What the merge loop of the driver does, as traces (shared by C02, C06, C07, C08, C09)."""
from lib import *
from lin import *

DRIVER_TRAIT = "chopper::chopper::ChopperDriver"


class Model:
    pass


def usize_params(F, path):
    b = F.body(path)
    return [i for i in range(b["argc"]) if F.tys[b["locals"][i + 1]]["s"] == "usize"]


def row_param(F, path):
    b = F.body(path)
    for i in range(b["argc"]):
        t = F.tys[b["locals"][i + 1]]
        if t.get("p") == ROW:
            return i
    return None


def chain_param(ctx, path, opaque):
    """the usize parameter that selects the chain"""
    us = usize_params(ctx.F, path)
    if len(us) == 1:
        return us[0]
    I, outs = ctx.explore(path, opaque=opaque)
    for s, o in outs:
        for c in s.conds():
            for t in subterms(c):
                if t[0] == "sel" and t[2][0] == "p" and t[2][1] in us:
                    return t[2][1]
                if t[0] == "rel" and t[1][0] == "app" and t[1][1] == "len" or t[0] == "rel" and t[2][0] == "app":
                    for x, y in ((t[1], t[2]), (t[2], t[1])):
                        if y[0] == "p" and y[1] in us and x[0] == "app" and x[1] == "len" and \
                                any(z[0] == "fld" for z in subterms(x)):
                            return y[1]
    return us[0] if us else None


def model(ctx):
    if hasattr(ctx, "_dm"):
        return ctx._dm
    F = ctx.F
    m = Model()
    m.drive = ctx.impl_method(DRIVER_TRAIT, "drive", "driver::driver::Driver")
    if not m.drive:
        raise Undecided("no ChopperDriver::drive implementation for Driver")
    rent, rcyc = ctx.recursive_entry(m.drive, WRITE_ROW)
    fent, fcyc = ctx.recursive_entry(m.drive, FLUSH)
    if len(rent) != 1 or len(fent) != 1:
        raise Undecided("cannot identify the function that walks a chain (%s / %s)" % (rent, fent))
    m.rowfn, m.flushfn = rent[0], fent[0]
    m.rcyc, m.fcyc = rcyc, fcyc
    m.opaque = tuple(sorted(set(rcyc) | set(fcyc)))
    m.row_i = row_param(F, m.rowfn)
    m.chain_i = chain_param(ctx, m.rowfn, (m.rowfn,))
    m.fchain_i = chain_param(ctx, m.flushfn, (m.flushfn,))
    m.node_i = next((i for i in usize_params(F, m.rowfn) if i != m.chain_i), None)
    m.fnode_i = next((i for i in usize_params(F, m.flushfn) if i != m.fchain_i), None)
    m.I, m.outs = ctx.explore(m.drive, opaque=m.opaque)
    loops = {}
    for s, o in m.outs:
        collect_loops(s.events(), loops)
    m.loops = loops
    main = [L for L in loops.values() if any(any(True for _ in calls(it["events"], m.rowfn)) for it in L["iters"])]
    if len(main) != 1:
        raise Undecided("expected one loop delivering rows, found %d" % len(main))
    m.main = main[0]
    # the buffer vector and index
    m.deliv = []
    for it in m.main["iters"]:
        for e in calls(it["events"], m.rowfn):
            m.deliv.append((it, e))
    ctx._dm = m
    return m


def elem_of(t):
    """(V, k) such that t is a projection of element k of vector V"""
    while t[0] in ("fld", "dc", "deref"):
        t = t[1]
        if t[0] == "sel":
            return t
    return t if t[0] == "sel" else None


def subst(t, frm, to):
    if t == frm:
        return to
    if isinstance(t, tuple):
        return tuple(subst(x, frm, to) if isinstance(x, tuple) else x for x in t)
    return t


def resolve(I, t):
    """re-evaluate projections inside t after a substitution"""
    if not isinstance(t, tuple) or not t or not isinstance(t[0], str):
        return t
    if t[0] == "fld":
        return I.rd_proj(resolve(I, t[1]), ("f", t[2], t[3]))
    if t[0] == "dc":
        return I.rd_proj(resolve(I, t[1]), ("v", t[2]))
    if t[0] == "sel":
        return I.sel(resolve(I, t[1]), resolve(I, t[2]))
    return t


def at(I, t, frm, to):
    return resolve(I, subst(t, frm, to))


def fresh_elements(I, m, V):
    """[(element term, state, where)] for every value that enters the buffer vector V, except V itself"""
    out = []
    seen = set()

    def walk(t, st, where):
        k = t[0]
        if k == "lv":
            if t in seen:
                return
            seen.add(t)
            L = m.loops.get(t[1])
            if L is None or t not in L["init"]:
                out.append((None, st, "unknown origin %s" % show(t)))
                return
            walk(L["init"][t], st, where)
            for it in L["iters"]:
                walk(it["next"][t], it["st"], it)
            return
        if k in ("push",):
            walk(t[1], st, where)
            out.append((t[2], st, where))
        elif k == "store":
            walk(t[1], st, where)
            out.append((t[3], st, where))
        elif k in ("rm", "init", "trunc"):
            walk(t[1], st, where)
        elif k == "seq":
            for x in t[1]:
                out.append((x, st, where))
        elif k == "app" and t[1] in ("reverse", "reversed"):
            walk(t[2][0], st, where)
        elif k in ("app",) and t[1].startswith("sorted"):
            walk(t[2][0], st, where)
        elif k == "collect":
            out.append((None, st, "collect"))
        else:
            out.append((None, st, show(t)))

    walk(V, None, None)
    return out


def payload_path(t, base):
    """the projections leading from element `base` to t, outermost last"""
    p = []
    while t != base:
        if t[0] == "fld":
            p.append(("f", t[2], t[3]))
            t = t[1]
        elif t[0] == "dc":
            p.append(("v", t[2]))
            t = t[1]
        else:
            return None
    p.reverse()
    return p


def project(I, t, path):
    for pj in path:
        t = I.rd_proj(t, pj)
    return t


def timestamp(I, row):
    return I.rd_proj(row, ("f", I.F.field_index(ROW, "timestamp"), "timestamp"))


def const_flag(t):
    return t


def argmin(ctx, m, it, V, k, e):
    """why k is (not) the position of a minimal key over the whole of V: (ok, text, key(bv0))"""
    I = m.I
    for ev in it["events"]:
        if ev is e:
            break
        if ev[0] == "best" and ev[3] == k:
            d = ev[2][1]
            while d[0] in ("enum", "cloned"):
                d = d[1]
            if d[0] == "map" and d[1][0] == "range":
                d = d[1]
            if d[0] == "range" and (d[1] != C(0) or d[2] != I.len_of(V)) or d[0] != "range" and (d[0] not in ("iter", "into") or d[1] != V):
                return False, "the minimum is not taken over all pending rows", None
            if ev[1] != "min":
                return False, "the maximum is selected, not the minimum", None
            c = ev[4]
            if not c or c[0] != "app" or c[1] != "ord":
                return False, "the selection does not compare two keys", None
            a, b = c[2]
            if subst(a, ("bv", 0), ("bv", 1)) != b:
                return False, "the selection compares %s with %s" % (show(a), show(b)), None
            if not any(x == ("bv", 0) for x in subterms(a)):
                return False, "the selection compares the candidates in reverse", None
            return True, "min over all of the pending rows by " + show(a), a
    # hand-written scan
    r = scan_argmin(ctx, m, it, V, k)
    if r:
        return r
    return False, "the delivered row is not selected as the minimum of the pending rows", None


def scan_argmin(ctx, m, it, V, k):
    """k is (a function of) a variable of an earlier scanning loop over V"""
    I = m.I
    for ev in it["events"]:
        if ev[0] != "loop":
            continue
        L = ev[1]
        for kv in L["init"]:
            p = payload_path(k, kv)
            if p is not None:
                return scan_loop(I, L, V, kv, p, it)
    return None


def scan_loop(I, L, V, kv, path, outer):
    """the loop L leaves in kv (projection `path`) the index of a minimal element of V"""
    init = L["init"][kv]
    opt = init == NONE
    cur = project(I, kv, path)
    # the scan position: an index into V that moves by one
    pos = None
    for i in L["iters"]:
        for c in i["conds"]:
            for t in subterms(c):
                if t[0] == "sel" and t[1] == V and t[2] != cur and not is_c(t[2]):
                    if lsame(step(I, L, i, t[2]), add(t[2], C(1))):
                        pos = t[2]
    if pos is None:
        return False, "the scan of the pending rows does not advance by one", None
    for i in L["iters"]:
        if not lsame(step(I, L, i, pos), add(pos, C(1))):
            return False, "the scan of the pending rows does not advance by one", None
    first = start(I, L, pos)
    if not opt and not lsame(project(I, init, path), C(0)):
        return False, "the scan starts from candidate %s" % show(init), None
    if not (lsame(first, C(0)) or lsame(first, C(1)) and not opt):
        return False, "the scan skips the first pending rows", None
    lo, _, _ = bounds(outer["conds"], sub(pos, I.len_of(V)))
    if lo < 0:
        return False, "the scan does not reach the last pending row", None
    keys = []
    for i in L["iters"]:
        n = i["next"][kv]
        st = i["st"]
        took = n != kv
        if took and not lsame(project(I, n, path), pos):
            return False, "the scan sets the candidate to %s" % show(n), None
        if took and opt and is_none(I, st, kv):
            continue
        rels = []
        for c in i["conds"]:
            if c[0] != "rel":
                continue
            ma, mb = (any(x == ("sel", V, pos) for x in subterms(y)) for y in (c[1], c[2]))
            if ma != mb:
                a, b, s = c[1], c[2], c[3]
                if mb:
                    a, b, s = b, a, frozenset(FLIP[x] for x in s)
                rels.append((a, b, s - {"un"}))
        if not rels:
            return False, "the scan changes the candidate without comparing keys", None
        a, b, s = rels[-1]
        key = subst(a, ("sel", V, pos), ("sel", V, ("bv", 0)))
        if at(I, key, ("bv", 0), cur) != b and not tracks(I, L, b, kv, key, path):
            return False, "the scan compares %s with %s" % (show(a), show(b)), None
        keys.append(key)
        if took and not s <= {"lt", "eq"}:
            return False, "the scan takes a later row over an earlier one", None
        if not took and not s <= {"gt", "eq"}:
            return False, "the scan keeps a row although an earlier one is pending", None
    if not keys or any(x != keys[0] for x in keys):
        return False, "the scan does not compare keys consistently", None
    return True, "scan over all pending rows by " + show(keys[0]), keys[0]


def tracks(I, L, b, kv, key, path):
    """the value b (a projection of a loop variable) always is key(element kv)"""
    v = b
    while v[0] in ("dc", "fld") and v not in L["init"]:
        v = v[1]
    if v not in L["init"]:
        return False
    bp = payload_path(b, v)
    if L["init"][kv] != NONE and project(I, L["init"][v], bp) != at(I, key, ("bv", 0), C(0)):
        return False
    for i in L["iters"]:
        if i["next"][kv] == kv:
            if i["next"][v] != v:
                return False
        elif project(I, i["next"][v], bp) != at(I, key, ("bv", 0), project(I, i["next"][kv], path)):
            return False
    return True


def step(I, L, it, t):
    """term t one iteration later"""
    return resolve(I, _sub(t, it["next"]))


def start(I, L, t):
    return resolve(I, _sub(t, L["init"]))


def _sub(t, m):
    if isinstance(t, tuple):
        if t in m:
            return m[t]
        return tuple(_sub(x, m) if isinstance(x, tuple) else x for x in t)
    return t


def same_value(I, loops, a, b, depth=3):
    """a == b, by linear normal form and loop invariants (equal at the start, equal steps)"""
    if lsame(a, b):
        return True
    if not depth:
        return False
    for L in loops:
        if any(t in L["init"] for x in (a, b) for t in subterms(x)):
            if not same_value(I, loops, start(I, L, a), start(I, L, b), depth - 1):
                continue
            d = sub(a, b)
            if all(lsame(step(I, L, i, d), d) for i in L["iters"]):
                return True
    return False


def empty_at_exit(m, V):
    """(ok, text): every successful end of the merge loop happens with no pending rows left"""
    I, L = m.I, m.main
    mirrors = {V}
    for s in L["init"]:
        if s == V:
            continue
        if L["init"][s] == I.len_of(L["init"][V]) and all(i["next"][s] == I.len_of(i["next"][V]) for i in L["iters"]):
            mirrors.add(s)
    oks = 0
    for st, o in m.outs:
        if o[0] != "ret" or "Ok" not in variants(I, st, o[1], RESULT):
            continue
        seen = any(e[0] == "loop" and e[1]["id"] == L["id"] for e in st.events())
        if not seen:
            continue
        good = False
        for s in mirrors:
            n = I.len_of(V) if s == V else s
            lo, hi, ne = I.rng(st, n)
            if hi <= 0:
                good = True
        if not good:
            return False, "the merge loop can end successfully while rows are still pending"
        oks += 1
    if not oks:
        return False, "the merge loop has no successful end"
    return True, "%d successful ends, all with no pending row" % oks
