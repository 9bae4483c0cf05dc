"""C12: rows of a multi-file input carry the common columns, each under its own name."""
from driver_model import *

RULE = ("The function that matches a file's header with the common one is explored: its loop goes over all common columns in order, each "
        "iteration finds, at or behind its own position in a working copy of the file's columns, a column of the same name and type, "
        "notes its position and exchanges the two in the working copy. It succeeds only behind the last common column, with all the "
        "positions or, if every position was its own, with none; it fails only if there are too few columns, a name is missing or a "
        "type differs. Rows get exactly these exchanges, in order, and are then cut to the number of common columns; the positions in "
        "use are always those found for the file in use.")
TECHNIQUE = "loop-invariant matching over MIR paths (column matching against row rearrangement)"
LIMITS = ("Decides the exchange-based arrangement used here (and rewritings of it); another algorithm, such as an index map, is reported "
          "as undecided, not as a violation. That each file's own rows have as many values as its header has columns is not part of it.")

SRC = "chopper::chopper::Source"
HEADER = "chopper::types::Header"
MULTI = "source::multi_file_source::SerialMultiFileSource"
HDR = SRC + "::header"


def is_usize_vec(F, t):
    x = F.tys[F.strip_ty(t)]
    return x.get("s", "").replace("alloc::vec::", "").replace("std::vec::", "") == "Vec<usize>"


def builder(ctx, root):
    F = ctx.F
    out = []
    for p in ctx.reach(root):
        if not F.has_body(p) or "{closure" in p:
            continue
        b = F.body(p)
        ps = [F.tys[t] for t in b["locals"][1:b["argc"] + 1]]
        if b["argc"] == 2 and all(t["k"] == "ref" and F.tys[F.strip_ty(t["t"])].get("p") == HEADER for t in ps) and \
                "Vec<usize>" in F.tys[b["locals"][0]]["s"]:
            out.append(p)
    return out


def counts(L, t):
    return any(x in L["init"] for x in subterms(t))


def behind(pos, idx):
    """pos is idx plus the number of elements a search passed over"""
    d, c = lin(sub(pos, idx))
    return c >= 0 and all(t[0] == "k" and n > 0 for t, n in d.items())


def is_swap(old, new, i, p):
    if new[0] == "store" and new[1][0] == "store" and new[1][1] == old:
        k1, v1, k2, v2 = new[1][2], new[1][3], new[2], new[3]
        if {k1, k2} == {i, p}:
            return v1 == ("sel", old, k2) and v2 == ("sel", old, k1)
    return False


def over(I, L, it, i):
    return lsame(start(I, L, i), C(0)) and lsame(step(I, L, it, i), add(i, C(1)))


def match(ctx, p):
    """the header matching: returns (reference parameter, file parameter) or None"""
    F = ctx.F
    I, outs = ctx.explore(p)
    NI = {f[0]: i for i, f in enumerate(F.adts[HEADER]["variants"][0]["fields"])}

    def cols(k, n):
        return ("fld", ("deref", ("p", k)), NI[n], n)
    loops = {}
    for s, o in outs:
        collect_loops(s.events(), loops)
    main = []
    for L in loops.values():
        for it in L["iters"]:
            for e in it["events"]:
                if e[0] == "vec.push" and e[2] in L["init"] and e[2] not in [m for _, m in main]:
                    main.append((L, e[2]))
    if len({L["id"] for L, _ in main}) != 1 or len(main) != 1:
        ctx.undecided("%s: no single loop that collects positions" % p)
        return None
    L, M = main[0]
    oks = [(s, o) for s, o in outs if o[0] == "ret" and "Ok" in variants(I, s, o[1], RESULT)]
    # which parameter is walked over
    ref = next((k for k in (0, 1) for it in L["iters"] for c in it["conds"] for t in subterms(c)
                if t[0] == "sel" and t[1] == cols(k, "field_names") and counts(L, t[2])), None)
    if ref is None:
        ctx.undecided("%s: the loop does not go over the columns of one of the headers" % p)
        return None
    new = 1 - ref
    names = cols(ref, "field_names")
    flags = {}
    for it in L["iters"]:
        st, sp = it["st"], L["sp"]
        pushes = [e for e in all_events(it["events"]) if e[0] == "vec.push" and e[2] == M]
        ctx.ob("match:one-position", len(pushes) == 1, "%d position(s) noted for one common column" % len(pushes), sp)
        if len(pushes) != 1:
            continue
        pos = pushes[0][3]
        idx = next((t[2] for c in it["conds"] for t in subterms(c) if t[0] == "sel" and t[1] == names and counts(L, t[2])), None)
        if idx is None:
            ctx.ob("match:by-name", False, "a position is noted without a look at the name of the common column", sp)
            continue
        ctx.ob("match:in-order", over(I, L, it, idx), "the common columns are gone through one after the other (%s)" % show(step(I, L, it, idx)), sp)
        work = {}
        for n in ("field_names", "field_types"):
            # the working copy: a vector compared at `pos` with the common one at idx
            want = ("sel", cols(ref, n), idx)
            cand = [t for c in it["conds"] for t in subterms(c) if t[0] == "sel" and t[2] == pos and
                    (t[1] in L["init"] or t[1] == cols(new, n)) and entails(I, st, rel("Eq", want, t))]
            cand = [t for t in cand if L["init"].get(t[1], t[1]) == cols(new, n)]
            ctx.ob("match:%s" % n, bool(cand), "the position noted is that of a column with the same %s" % n[6:-1], sp)
            if cand:
                work[n] = cand[0][1]
        ctx.ob("match:not-taken", entails(I, st, rel("Ge", pos, idx)) or behind(pos, idx), "the position is not that of a column already matched", sp)
        own = entails(I, st, rel("Eq", pos, idx))
        for n, w in work.items():
            nx = it["next"].get(w, w)
            ctx.ob("match:exchange-%s" % n, is_swap(w, nx, idx, pos) or own and nx == w,
                   "the working copy of the %ss has the two columns exchanged" % n[6:-1], sp)
        ctx.ob("match:collected", it["next"].get(M) == ("push", M, pos), "the positions are kept in order", sp)
        for k in L["init"]:
            if L["init"][k] in (TRUE, FALSE):
                nx = it["next"].get(k, k)
                a = L["init"][k]
                flags.setdefault(k, True)
                # the flag leaves its initial value whenever a position is not its own, and never returns to it
                if not (nx == neg(a) or nx == k and own or
                        nx[0] == "app" and nx[1] == "and" and a == TRUE and k in nx[2] and rel("Eq", pos, idx) in nx[2] or
                        nx == k and entails(I, st, neg(k) if a == TRUE else k)):
                    flags[k] = False
    for s, o in oks:
        v = payload(I, o[1], "Ok")
        L0 = next((e[1] for e in s.events() if e[0] == "loop" and e[1]["id"] == L["id"]), None)
        ctx.ob("match:all-columns", L0 is not None and any(entails(I, s, rel("Ge", t[2], I.len_of(names))) for it in L["iters"] for c in it["conds"]
               for t in subterms(c) if t[0] == "sel" and t[1] == names and counts(L, t[2])),
               "success only behind the last common column")
        if v == M:
            ctx.ob("match:result", True, "success with all the positions")
        elif v == ("seq", ()) or show(v) == "seq(())":
            idle = any(ok and entails(I, s, k if L["init"][k] == TRUE else neg(k)) for k, ok in flags.items())
            idle = idle or any(e[0] == "forall" and own_places(I, s, e, M) for e in s.events())
            ctx.ob("match:none-only-if-own", idle, "success without positions only if every position was its own")
        else:
            ctx.ob("match:result", False, "success with %s" % show(v)[:80])
    for s, o in outs:
        if o[0] != "ret" or "Ok" in variants(I, s, o[1], RESULT):
            continue
        few = entails(I, s, rel("Lt", I.len_of(cols(new, "field_names")), I.len_of(cols(ref, "field_names")))) or \
            entails(I, s, rel("Lt", I.len_of(cols(new, "field_types")), I.len_of(cols(ref, "field_types"))))
        missing = any(e[0] in ("search-none", "forall") for e in s.events())
        differs = any(c[0] == "rel" and "eq" not in c[3] and any(t[0] == "sel" and t[1] == cols(ref, "field_types") for t in (c[1], c[2]))
                      for c in s.conds())
        ctx.ob("match:refusal", few or missing or differs, "a file is refused for missing columns, a missing name or another type only")
    return ref, new


def own_places(I, s, e, M):
    """forall event: every element of M equals its index"""
    name, d, rows = e[1], e[2][1], e[3]
    if d[0] != "enum" or not mentions(d, lambda t: t == M):
        return False
    for k, conds, r in rows:
        if name == "all":
            if r[0] == "rel" and r[3] == frozenset({"eq"}) and {r[1], r[2]} == {k, ("sel", M, k)}:
                continue
        return False
    return bool(rows)


def self_field(t, name):
    return t[0] == "fld" and t[3] == name or t[0] == "lv"


def run(ctx):
    F = ctx.F
    root = ctx.impl_method(SRC, "next_row", MULTI)
    hp = ctx.impl_method(SRC, "header", MULTI)
    if not root or not hp:
        ctx.undecided("no multi-file source")
        return
    bs = builder(ctx, root)
    if len(bs) != 1:
        ctx.undecided("%d functions match headers" % len(bs))
        return
    b = bs[0]
    # the common header
    I, outs = ctx.explore(hp)
    common = {I.deref(s, o[1]) for s, o in outs if o[0] == "ret"}
    if len(common) != 1:
        ctx.undecided("more than one common header")
        return
    common = common.pop()
    r = match(ctx, b)
    if r is None:
        return
    ref, new = r
    opq = (b, "input::single_file::SingleFileInputFactory::create_source_from_path")
    I, outs = ctx.explore(root, opaque=opq)
    width = [I.len_of(("fld", common, i, f[0])) for i, f in enumerate(F.adts[HEADER]["variants"][0]["fields"])]
    rows = 0
    for s, o in outs:
        if o[0] != "ret" or "Ok" not in variants(I, s, o[1], RESULT):
            continue
        x = payload(I, o[1], "Ok")
        if not is_some(I, s, x):
            continue
        rows += 1
        row = payload(I, x, "Some")
        src = [e for e in calls(s.events(), NEXT_ROW)]
        if not src:
            ctx.ob("row:from-file", False, "a row that does not come from a file")
            continue
        orig = payload(I, payload(I, src[-1][4], "Ok"), "Some")
        fv = fld_of(I, row, "field_values", ROW)
        ts = fld_of(I, row, "timestamp", ROW)
        ctx.ob("row:timestamp", ts == fld_of(I, orig, "timestamp", ROW), "the timestamp is the row's own (%s)" % show(ts)[:60])
        cut = fv[0] == "app" and fv[1] == "truncate" or fv[0] == "truncate"
        args = fv[2] if fv[0] == "app" else fv[1:]
        ctx.ob("row:cut", bool(cut) and args[1] in width, "the row is cut to the common columns (%s)" % show(fv)[:100])
        v = args[0] if cut else fv
        ov = fld_of(I, orig, "field_values", ROW)
        mp = in_use(I, F, s, src[-1])
        if v == ov:
            ctx.ob("row:exchanged", mp is not None and entails(I, s, rel("Eq", I.len_of(mp), C(0))),
                   "the values stay as they are only if no positions are noted")
            continue
        L = next((e[1] for e in s.events() if e[0] == "loop" and v in e[1]["init"]), None)
        if L is None or L["init"][v] != ov:
            ctx.ob("row:exchanged", False, "the values become %s" % show(v)[:100])
            continue
        for it in L["iters"]:
            nx = it["next"].get(v, v)
            sw = [e for e in all_events(it["events"]) if e[0] == "vec.swap"]
            idx = next((k for k in L["init"] if over(I, L, it, k)), None)
            ok = idx is not None and mp is not None
            pos = ("sel", mp, idx) if ok else None
            ctx.ob("row:same-exchange", ok and (is_swap(v, nx, idx, pos) or nx == v and entails(I, it["st"], rel("Eq", pos, idx))),
                   "the values are exchanged as the columns were (%s)" % show(nx)[:100], L["sp"])
            ctx.ob("row:all-exchanges", ok and entails(I, s, rel("Ge", idx, I.len_of(mp))), "all exchanges are made", L["sp"])
    ctx.ob("row", rows > 0, "%d path(s) that give a row" % rows)
    # the positions in use are those of the file in use
    loops = {}
    for s, o in outs:
        collect_loops(s.events(), loops)
    cur_i, map_i = field_ids(F)
    if cur_i is None or map_i is None:
        ctx.undecided("cannot tell the fields for the file in use and its positions")
        return
    n = 0
    for L in loops.values():
        for it in L["iters"]:
            for k, v in it["next"].items():
                if not is_field(k, L, cur_i) or v == k:
                    continue
                n += 1
                kv = next((w for q, w in it["next"].items() if is_field(q, L, map_i)), None)
                pair(ctx, I, it["st"], it["events"], v, kv, common, b, ref, new, L["sp"])
    for s, o in outs:
        if o[0] == "ret" and "Ok" in variants(I, s, o[1], RESULT):
            me = I.deref(s, ("p", 0))
            v, kv = by_index(me, cur_i), by_index(me, map_i)
            if v is not None and v[0] == "adt" and not any(v == w for L in loops.values() for it in L["iters"] for w in it["next"].values()):
                n += 1
                pair(ctx, I, s, s.events(), v, kv, common, b, ref, new, None)
    ctx.ob("next-file", n > 0, "%d place(s) that go on to another file" % n)
    # the first file
    np = [p for p in F.bodies if p.startswith(MULTI + "::") and F.tys[F.body(p)["locals"][0]]["s"].find("SerialMultiFileSource") >= 0]
    for p in np:
        I2, outs2 = ctx.explore(p, opaque=opq)
        for s, o in outs2:
            if o[0] != "ret" or "Ok" not in variants(I2, s, o[1], RESULT):
                continue
            me = payload(I2, o[1], "Ok")
            if me[0] != "adt":
                ctx.undecided("%s builds %s" % (p, show(me)[:60]))
                continue
            cur, mp, com = me[3][cur_i], me[3][map_i], me[3][common[2]] if common[0] == "fld" else None
            pair(ctx, I2, s, s.events(), cur, mp, com, b, ref, new, None, first=True)


def field_ids(F):
    cur = mp = None
    for i, f in enumerate(F.adts[MULTI]["variants"][0]["fields"]):
        s = F.tys[f[1]]["s"]
        if "Option<" in s and "dyn" in s:
            cur = i
        if "Vec<usize>" in s:
            mp = i
    return cur, mp


def by_index(me, i):
    if me[0] == "adt":
        return me[3][i]
    if me[0] == "ov":
        for k, x in me[2]:
            if k[0] == "f" and k[1] == i:
                return x
    return None


def is_field(k, L, i):
    v = L["init"].get(k)
    return k[0] == "lv" and v is not None and v[0] == "fld" and v[2] == i and v[1] == ("deref", ("p", 0))


def in_use(I, F, s, call):
    """the positions in use when `call` asked the current file for a row"""
    cur_i, map_i = field_ids(F)
    t = call[2][0]
    while t[0] in ("fld", "dc", "deref", "box") and not (t[0] == "fld" and t[1] == ("deref", ("p", 0))):
        t = t[1]
    if t[0] == "lv":
        L = next((e[1] for e in s.events() if e[0] == "loop" and t in e[1]["init"]), None)
        if L is None:
            return None
        return next((k for k in L["init"] if is_field(k, L, map_i)), ("fld", ("deref", ("p", 0)), map_i, F.adts[MULTI]["variants"][0]["fields"][map_i][0]))
    if t[0] == "fld":
        return ("fld", t[1], map_i, F.adts[MULTI]["variants"][0]["fields"][map_i][0])
    return None


def pair(ctx, I, st, events, cur, mp, common, b, ref, new, sp, first=False):
    """cur is the file in use from now on, mp its positions"""
    what = "first file" if first else "next file"
    if is_none(I, st, cur):
        return
    src = payload(I, cur, "Some")
    own = [e for e in all_events(events) if e[0] == "call" and e[7] == HDR and mentions(e[2][0], lambda t: t == src)]
    oh = {e[4] for e in own}
    bc = [e for e in all_events(events) if e[0] == "call" and e[1] == b]
    for e in bc:
        if payload(I, e[4], "Ok") == mp:
            a, c = e[2][ref], e[2][new]
            sref = e[3][ref]
            ctx.ob("%s:common-header" % what.replace(" ", "-"), sref == common or I.deref(st, a) == common, "%s: matched against the common header (%s)" % (what, show(sref)[:60]), e[5])
            ctx.ob("%s:own-header" % what.replace(" ", "-"), c in oh or e[3][new] in oh or any(I.deref(st, h) == e[3][new] for h in oh), "%s: its own header is matched (%s)" % (what, show(c)[:60]), e[5])
            return
    if first and (mp == ("seq", ()) or show(mp) == "seq(())"):
        own_common = any(common == I.deref(st, h) or common == h or common == ("deref", h) for h in oh)
        ctx.ob("first-file:is-common", own_common, "first file: no positions only if its header is the common one (%s)" % show(common)[:60], sp)
        return
    ctx.ob("%s:positions" % what.replace(" ", "-"), False, "%s: the positions in use are %s" % (what, show(mp)[:60] if mp else "those of another file"), sp)
