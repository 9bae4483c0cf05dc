"""C03: what the DC sink writes, the DC source reads back: same layout, types, values, order."""
import re
from dcmodel import *

RULE = ("The byte-level writes of the DC sink (header and row) and the byte-level reads of the DC source are extracted "
        "from every path as token sequences (width, byte order, constant/length/payload, loop) and matched token by "
        "token; the type-name table of the reader is inverted against the writer's for every field type, and for every "
        "value variant every writer path must be consumed by exactly the reader paths of the same column type, "
        "including the bounds of each length prefix.")
TECHNIQUE = "abstract interpretation of MIR; matching of extracted write/read grammars"
LEVEL = "other"

MAXOF = {"u8": 255, "i8": 127, "u16": 65535, "i16": 32767, "u32": 1 << 32, "i32": (1 << 31) - 1, "u64": INF, "i64": INF}


# what makes another text of a text
ALTERS = re.compile(r"(^|::)(trim\w*|to_(ascii_)?(lower|upper)case|replace\w*|strip_\w+|repeat)$")


def keeps(t, kind):
    """no cast along t loses bits of a value of this kind"""
    fl = kind in ("f32", "f64")
    while t[0] == "app" and t[1].startswith("as:"):
        c = t[1][3:]
        if c not in SIZE and c not in ("usize", "isize"):
            return False
        if (c in ("f32", "f64")) != fl or SIZE.get(c, 8) < SIZE[kind]:
            return False
        t = t[2][0]
    return True


VARKIND = {"Byte": "u8", "Char": "u16", "Double": "f64", "Float": "f32", "Int": "i32", "Long": "i64", "Short": "i16"}


def match_header(ctx, d):
    I, R = d.I1, d.I3
    w = [(s, toks(I, I.F, s.events())) for s, v in okpaths(I, d.o1)]
    r = [(s, toks(R, R.F, s.events()), v) for s, v in okpaths(R, d.o3)]
    if not w or not r:
        ctx.undecided("no successful header path")
        return
    for sw, tw in w:
        for sr, tr, v in r:
            match_header_pair(ctx, d, sw, tw, sr, tr, v)


def where(t):
    return t[1]["sp"] if t[0] == "loop" else t[4] if t[0] == "int" else t[3] if t[0] == "bytes" else t[2]


def match_header_pair(ctx, d, sw, tw, sr, tr, v):
    I, R = d.I1, d.I3
    if any(t[0] == "other" for t in tw + tr):
        ctx.undecided("header is read or written with a primitive outside the token alphabet")
        return
    i = 0
    j = 0
    count = None
    while j < len(tr):
        b = tr[j]
        a = tw[i] if i < len(tw) else None
        if a is None:
            ctx.ob("header-layout", False, "reader expects another token", where(b))
            return
        if b[0] == "int":
            if a[0] != "int":
                ctx.ob("header-layout", False, "writer and reader headers diverge", where(a))
                return
            ctx.ob("header-width", a[1:3] == b[1:3], "token %d: written as %s %s, read as %s %s" % (j, a[1], a[2], b[1], b[2]), where(a))
            nxt = tr[j + 1] if j + 1 < len(tr) else None
            val = strip(a[3])
            if nxt and nxt[0] == "bytes" and strip(b[3]) in [strip(x) for x in nxt[1]]:
                # length-prefixed block the reader skips or stores
                ctx.ob("header-block", is_c(val) and (val[1] == 0 or i + 1 < len(tw) and tw[i + 1][0] == "bytes"
                                                      and I.len_of(tw[i + 1][1]) == val),
                       "block of the written length follows its length", where(a))
                i += 1 if val == C(0) else 2
                j += 2
                continue
            if is_c(val):
                lo, hi, ne = R.rng(sr, b[3])
                ctx.ob("header-const", lo <= val[1] <= hi and val[1] not in ne,
                       "constant %d is accepted by the reader" % val[1], where(b))
            else:
                count = (val, b[3])
            i += 1
            j += 1
        elif b[0] == "loop":
            if a[0] != "loop" or count is None:
                ctx.ob("header-layout", False, "writer and reader headers diverge", where(a))
                return
            match_fields(ctx, d, a[1], b[1], count, v, sw)
            i += 1
            j += 1
        else:
            ctx.ob("header-layout", False, "reader reads bytes the writer does not announce", where(b))
            return
    ctx.ob("header-layout", i == len(tw), "every written header token is consumed", None)


def header_list(t, name):
    return mentions(t, lambda x: x[0] == "fld" and x[3] == name)


def same_count(I, st, n, x):
    if lsame(n, x) or entails(I, st, rel({"eq"}, n, x)):
        return True
    if x[0] == "app" and x[1] == "min":
        return all(same_count(I, st, n, y) for y in x[2])
    return False


DESCR = ("int", "bytes", "int", "bytes", "int")


def plain_writer(ts):
    """only integers, a column name as it is and constant text are written"""
    return all(t[0] == "int" or t[0] == "bytes" and (t[1][0] == "s" or enum_base(t[1]) is not None and header_list(t[1], "field_names"))
               for t in ts)


def plain_reader(ts):
    """only integers and blocks of a length read before"""
    ints = [strip(t[3]) for t in ts if t[0] == "int"]
    return all(t[0] == "int" or t[0] == "bytes" and any(strip(x) in ints for x in t[1]) for t in ts)


def match_fields(ctx, d, LW, LR, count, v, sw):
    I, R = d.I1, d.I3
    csym, cb = Rec(I, {}).counter(LW)
    rsym, rb = Rec(R, {}).counter(LR)
    if csym is None or rsym is None:
        ctx.undecided("field descriptor loops are not counted loops")
        return
    n = count[0]
    ctx.ob("field-count", any(same_count(I, sw, n, x) for x in cb),
           "as many descriptors are written as announced: %s, %s" % (show(n), ", ".join(show(x) for x in cb)), LW["sp"])
    ctx.ob("field-count", count[1] in rb or any(strip(x) == strip(count[1]) for x in rb),
           "as many descriptors are read as announced", LR["sp"])
    # writer table
    wt = {}
    shapes_r = {tuple(t[0] for t in ts) for conds, ts, st, nx, ev in units(R, LR)}
    shapes_w = {tuple(t[0] for t in ts) for conds, ts, st, nx, ev in units(I, LW)}
    if shapes_r == {DESCR} and shapes_w != {DESCR} and all(plain_writer(ts) for _, ts, _, _, _ in units(I, LW)) or \
            shapes_w == {DESCR} and shapes_r != {DESCR} and all(plain_reader(ts) for _, ts, _, _, _ in units(R, LR)):
        ctx.ob("descriptor-layout", False, "a descriptor is written as %s and read as %s" % (
            "|".join(sorted("+".join(x) for x in shapes_w)), "|".join(sorted("+".join(x) for x in shapes_r))), LW["sp"])
        return
    for conds, ts, st, nx, ev in units(I, LW):
        if [t[0] for t in ts] != ["int", "bytes", "int", "bytes", "int"]:
            ctx.undecided("descriptor written as %s" % [t[0] for t in ts])
            return
        name = ts[1][1]
        b = enum_base(name)
        ctx.ob("name-order", b is not None and header_list(name, "field_names") and b[2] == csym and
               lsame(strip(ts[0][3]), I.len_of(name)) and keeps(ts[0][3], ts[0][1]), "descriptor k carries name k and its length: %s" % show(name), ts[1][3])
        ty = ts[3][1]
        var = None
        for c in conds:
            for t in subterms(c):
                if t[0] == "sel" and header_list(t, "field_types"):
                    if t[2] == csym:
                        var = discr_variant(I, st, t, FT) or var
                    else:
                        ctx.ob("type-order", False, "descriptor k carries the type of column %s" % show(t[2]), ts[3][3])
        if var is None or ty[0] != "s" or not is_c(strip(ts[4][3])):
            ctx.undecided("type name written is not a constant per type")
            return
        ctx.ob("type-length", is_c(strip(ts[2][3])) and strip(ts[2][3]) == C(len(ty[1].encode())), "type name length of %s" % ty[1], ts[2][4])
        wt.setdefault(var, set()).add((ty[1], strip(ts[4][3])[1], tuple((t[1], t[2]) for t in ts if t[0] == "int")))
    # reader
    rt = []
    for conds, ts, st, nx, ev in units(R, LR):
        if [t[0] for t in ts] != ["int", "bytes", "int", "bytes", "int"]:
            ctx.undecided("descriptor read as %s" % [t[0] for t in ts])
            return
        for k in (0, 2):
            ctx.ob("sized-string", any(strip(x) == strip(ts[k][3]) and keeps(x, ts[k][1]) for x in ts[k + 1][1]),
                   "reads as many bytes as announced", ts[k][4])
        s1, s2 = ts[1][2], ts[3][2]
        tyname, typed1 = None, False
        for c in conds:
            if c[0] == "app" and c[1] == "streq":
                x, y = c[2] if c[2][0][0] == "s" else c[2][::-1]
                if x[0] != "s":
                    continue
                if uses(y, s2):
                    tyname = x[1]
                elif uses(y, s1) and x[1]:
                    typed1 = True
        pushed = {}
        for sym, val in nx.items():
            if val[0] == "push":
                pushed[sym] = val[2]
        tvar = next((x[2] for x in pushed.values() if x[0] == "adt" and x[1] == FT), None)
        names = [x for x in pushed.values() if uses(x, s1)]
        wrong = [x for x in pushed.values() if uses(x, s2) and not (x[0] == "adt" and x[1] == FT)]
        empty = [c for c in conds if c[0] == "rel" and uses(c, s1) and C(0) in (c[1], c[2]) and
                 any(x[0] == "app" and x[1] == "len" for x in (c[1], c[2]))]
        isempty = any((c[3] - {"un"}) == {"eq"} for c in empty) or \
            any(c[0] == "app" and c[1] == "streq" and ("s", "") in c[2] and uses(c, s1) for c in conds)
        ctx.ob("name-read", bool(names) or isempty and not wrong, "column name is the first string of the descriptor", ts[1][3])
        for x in names:
            altered = [y[1] for y in subterms(x) if y[0] == "app" and (ALTERS.search(y[1]) or re.search(r"(^|::)(slice|concat|fmt)$", y[1]))]
            ctx.ob("name-read", isempty or not altered, "a column name is handed on as it was read: %s" % show(x)[:80], ts[1][3])
        if tvar is not None and tyname is None and typed1:
            ctx.ob("type-source", False, "type looked up by the column name", LR["sp"])
            continue
        if tvar is None or tyname is None:
            ctx.undecided("type of a column is not looked up by the type name")
            return
        rt.append((tyname, tvar, R.rng(st, ts[4][3]), tuple((t[1], t[2]) for t in ts if t[0] == "int")))
    for var, es in sorted(wt.items()):
        for ty, hint, ints in es:
            m = [x for x in rt if x[0] == ty and x[2][0] <= hint <= x[2][1] and hint not in x[2][2]]
            ctx.ob("type-table:" + var, bool(m) and all(x[1] == var for x in m),
                   "type %s is written as '%s' and read back as %s" % (var, ty, sorted({x[1] for x in m})), LW["sp"])
            ctx.ob("descriptor-widths", all(x[3] == ints for x in m), "descriptor integers agree in width and byte order", LW["sp"])
    allv = {x["name"] for x in R.F.adts[FT]["variants"]} - UNSUPPORTED
    ctx.ob("type-table", allv <= set(wt), "every supported type is written: missing %s" % sorted(allv - set(wt)), LW["sp"])
    # header handed out: names and types in the order read
    h = fld_of(R, v, "header")
    if h and h[0] == "adt" and h[1] == HEADER:
        for x, nm in zip(h[3], ("field_names", "field_types")):
            if x[0] == "lv":
                ctx.ob("header-out", x in LR["init"] and LR["init"][x] == ("seq", ()) and
                       all(it["next"][x][0] == "push" and it["next"][x][1] == x for it in LR["iters"]),
                       "%s grow by one per descriptor, in order" % nm, LR["sp"])
                isty = all(it["next"][x][0] == "push" and it["next"][x][2][0] == "adt" and it["next"][x][2][1] == FT for it in LR["iters"])
                ctx.ob("header-out", isty == (nm == "field_types"), "%s hold the right list" % nm, LR["sp"])


def uses(t, ident):
    """t is built from the bytes read by the token with this identity"""
    if ident is None:
        return False
    if ident[0] == "res":
        return mentions(t, lambda x: x[0] == "post" and x[1] == ident[1] or x == ident)
    return mentions(t, lambda x: x[0] == "lv" and x[1] == ident)


def reader_units(ctx, d):
    """column type -> [(ints, stored value, state, tokens)]"""
    I = d.I4
    out = {}
    for L in d.loops(d.o4).values():
        for conds, ts, st, nx, ev in units(I, L):
            if any(e[0] == "loop" and toks(I, I.F, [e]) and over_types(e[1]) for e in ev):
                continue
            collect_reader(I, L, conds, ts, st, list(nx.values()), out)
        for x in L["exits"]:
            if x["out"][0] == "exit" and not any(e[0] == "loop" and toks(I, I.F, [e]) and over_types(e[1]) for e in x["events"]):
                s = x["st"]
                ts = toks(I, I.F, x["events"])
                # the store of the partial pass is in the state's memory
                collect_reader(I, L, x["conds"], ts, s, list(s.mem.values()), out, final=True)
    return out


def over_types(L):
    """the loop itself goes through the columns"""
    return any(t[0] == "sel" and header_list(t[1], "field_types") for it in L["iters"] for c in it["conds"] for t in subterms(c))


def collect_reader(I, L, conds, ts, st, vals, out, final=False):
    types = {t for c in conds for t in subterms(c) if t[0] == "sel" and header_list(t[1], "field_types")}
    for t in types:
        var = discr_variant(I, st, t, FT)
        if var is None:
            continue
        stored = set()
        for v in vals:
            for x in subterms(v):
                if x[0] == "store" and x[2] == t[2] and x[3][0] == "adt" and x[3][1] == FIELDVALUE:
                    stored.add(x[3])
                if x[0] == "push" and x[2][0] == "adt" and x[2][1] == FIELDVALUE:
                    stored.add(x[2])
        if final and not stored:
            continue        # leaves with an error
        out.setdefault(var, []).append((ts, stored, st, L["sp"]))


def writer_units(ctx, d):
    I = d.I2
    out = {}
    order = []
    for L in d.loops(d.o2).values():
        for conds, ts, st, nx, ev in units(I, L):
            fs = {t for c in conds for t in subterms(c) if t[0] == "sel" and first_row_values(t[1])}
            for f in fs:
                var = discr_variant(I, st, f, FIELDVALUE)
                if ts or (var and any(toks(I, I.F, it["events"]) for it in L["iters"])):
                    order.append((L, f))
                    out.setdefault(var, []).append((ts, f, st, conds, L))
    return out, order


def match_rows(ctx, d):
    I, R = d.I2, d.I4
    # prefix: timestamp, bitset, then the value loop
    for s, v in okpaths(I, d.o2):
        tw = toks(I, I.F, s.events())
        ok_ = len(tw) >= 2 and tw[0][0] == "int"
        if not ok_ or any(t[0] == "other" for t in tw):
            if tw and not any(t[0] == "other" for t in tw) and not any(
                    mentions(x, lambda y: y[0] == "fld" and y[3] == "timestamp") for e in all_events(s.events()) if e[0] == "call" for x in list(e[3]) + [e[4]]):
                ctx.ob("row-timestamp", False, "the row's timestamp is not written", tw[0][4] if tw[0][0] == "int" else None)
            ctx.undecided("row is not written as timestamp, null set, values")
            return
        ts = strip(tw[0][3])
        ctx.ob("row-timestamp", ts[0] == "fld" and ts[3] == "timestamp" and ts[1][0] == "sel" and ts[1][2] == C(0),
               "row starts with its own timestamp: %s" % show(ts), tw[0][4])
        for s2, v2 in okpaths(R, d.o4):
            if is_none(R, s2, v2):
                continue
            tr = toks(R, R.F, s2.events())
            if len(tr) < 2 or tr[0][0] != "int":
                ctx.undecided("row is not read as timestamp, null set, values")
                return
            ctx.ob("row-timestamp", tr[0][1:3] == tw[0][1:3], "timestamp width and byte order agree", tr[0][4])
            row = payload(R, v2)
            got = strip(fld_of(R, row, "timestamp", ROW) or ("?",))
            ctx.ob("row-timestamp", got == strip(tr[0][3]), "the timestamp read is the row's: %s" % show(got), tr[0][4])
            shape = [t[0] if t[0] != "int" else "bytes" for t in tw[1:]]
            shape_r = [t[0] if t[0] != "int" else "bytes" for t in tr[1:]]
            if shape != ["bytes", "loop"] or shape_r != ["bytes", "loop"]:
                ctx.undecided("row layout %s / %s" % (shape, shape_r))
                return
    wu, order = writer_units(ctx, d)
    ru = reader_units(ctx, d)
    if not wu or not ru:
        ctx.undecided("value loops not recognised")
        return
    for L, f in order:
        sym, bs = Rec(I, {}).counter(L)
        ctx.ob("value-order", sym is not None and f[2] == sym, "values are written first to last: %s" % show(f[2]), L["sp"])
    allv = {x["name"] for x in R.F.adts[FT]["variants"]} - UNSUPPORTED
    ctx.ob("value-cover", allv <= set(wu) and allv <= set(ru), "every supported type is written and read", None)
    for ts, f, st, conds, L in wu.get("None", []):
        ctx.ob("null-value", not ts, "a null value writes no bytes", L["sp"])
    for var in sorted(set(wu) & set(ru)):
        for ts, f, st, conds, L in wu[var]:
            pay = payload(I, f, var)
            match_value(ctx, I, R, var, pay, ts, st, conds, ru[var], L)


def match_value(ctx, I, R, var, pay, ts, st, conds, rus, L):
    wsig = []
    for i, t in enumerate(ts):
        if t[0] == "int":
            x = strip(t[3])
            if x[0] == "app" and x[1] in ("to_bits", "float_bits"):
                x = x[2][0]
            if is_c(x):
                wsig.append(("int", t[1], t[2], x[1], x[1]))
            elif x == pay:
                ctx.ob("value:" + var, keeps(t[3], VARKIND.get(var, t[1])), "the value is written unaltered: %s" % show(t[3]), t[4])
                wsig.append(("int", t[1], t[2], "payload", None))
            elif lsame(x, I.len_of(pay)):
                lo, hi, ne = bounds(conds, x)
                lo = max(lo, 0)
                ctx.ob("length-fits:" + var, (hi <= MAXOF[t[1]] or MAXOF[t[1]] >= 1 << 32) and keeps(t[3], t[1]),
                       "length %s written as %s" % (show(x), t[1]), t[4])
                wsig.append(("int", t[1], t[2], lo, min(hi, MAXOF[t[1]])))
            else:
                ctx.ob("value:" + var, False, "writes %s instead of the value" % show(x), t[4])
                return
        elif t[0] == "bytes" and t[1] == pay:
            wsig.append(("bytes",))
        else:
            ctx.undecided("value of type %s written in an unknown way" % var)
            return
    hit = 0
    for tr, stored, sr, sp in rus:
        # does this reader path accept what was written?
        acc = True
        for a, b in zip(wsig, tr):
            if a[0] == "int" and b[0] == "int" and a[3] != "payload":
                lo, hi, ne = R.rng(sr, b[3])
                if a[4] < lo or a[3] > hi or (a[3] == a[4] and a[3] in ne):
                    acc = False
                break
        if not acc:
            continue
        if any(t[0] not in ("int", "bytes") for t in tr):
            ctx.undecided("value of type %s read in an unknown way" % var)
            return
        shape = [("int",) + t[1:3] if t[0] == "int" else ("bytes",) for t in tr]
        want = [x[:3] if x[0] == "int" else x for x in wsig]
        hit += 1
        ctx.ob("value:" + var, shape == want, "%s written as %s, read as %s" % (var, want, shape), sp)
        if shape != want:
            continue
        okst = bool(stored) and all(x[2] == var for x in stored)
        ctx.ob("value:" + var, okst, "a %s column yields %s values" % (var, sorted(x[2] for x in stored)), sp)
        for x in stored:
            if not x[3]:
                continue
            if tr[-1][0] == "bytes":
                ln = tr[-2] if len(tr) > 1 else None
                ctx.ob("value:" + var, ln is not None and any(strip(y) == strip(ln[3]) and keeps(y, ln[1]) for y in tr[-1][1]) and uses(x[3][0], tr[-1][2]),
                       "exactly the announced bytes become the value", sp)
                altered = [y[1] for y in subterms(x[3][0]) if y[0] == "app" and ALTERS.search(y[1])]
                ctx.ob("value:" + var, not altered, "the text read is handed on as it is%s" % (": " + ", ".join(altered) if altered else ""), sp)
            else:
                ctx.ob("value:" + var, strip(x[3][0]) == strip(tr[-1][3]) and keeps(x[3][0], tr[-1][1]),
                       "the value read is the value stored", sp)
    ctx.ob("value:" + var, hit >= 1, "some reader path accepts what is written", L["sp"])


def run(ctx):
    d = dc(ctx)
    part = False
    for I, outs in ((d.I1, d.o1), (d.I2, d.o2), (d.I3, d.o3), (d.I4, d.o4)):
        part = bool(whole(ctx, I, outs)) or part
    if part:
        return
    ctx.ob("whole", True, "no read or write of a part goes unnoticed", None)
    match_header(ctx, d)
    match_rows(ctx, d)
