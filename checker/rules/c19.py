"""C19: filters let through exactly the rows, and drop exactly the column, they are asked to."""
from firstmatch import *
from vecs import *
from c15 import tyname, fn_by

RULE = ("Every constructor in the filter modules is followed to the sink it is set up as: the name and value given, the column found when the "
        "header comes, and the sink's handling of a row. The column has to be the first whose name equals the given one apart from ASCII case "
        "(the loop or search over the names is checked to pass over only names that do not), and an error is only allowed if none does. On "
        "every path of a row filter the row is left as it is exactly if the comparison of the value in that column with the given one, decided "
        "variant by variant from the path's conditions, holds, and the rows are empty exactly if it does not. Deleting has to remove "
        "position i, and only that, from names, types and values.")
TECHNIQUE = "symbolic MIR paths, first-match analysis, entailment of comparisons per value type"
LIMITS = "A row of a wrong number of values and a sink called with no row are left to the properties about chains and inputs."

SCALARS = ("Byte", "Char", "Double", "Float", "Int", "Long", "Short", "String")


class TermScan(Scan):
    """a scan whose predicate is a term of the path's conditions: pred(term) is the element compared, or None"""

    def __init__(self, ctx, I, s, events, pred):
        Scan.__init__(self, ctx, I, s, events, ())
        self.pred = pred

    def asks(self, events, st=None):
        for c in (st or self.s).conds():
            f = c[1] if c[0] == "not" else c
            x = self.pred(f)
            if x is None and f[0] == "rel":
                x = self.pred(rel("Eq", f[1], f[2]))
                f = rel("Eq", f[1], f[2])
            if x is not None:
                yield ("call", "compare", (x,), (x,), f, None, None, "compare")


def kind(p):
    n = p.split("::")[-2].lower() if "::" in p else p.lower()
    for k in ("delete", "greater", "equal"):
        if k in n:
            return k
    return None


def fields(F, ty):
    return [f[0] for f in F.adts[ty]["variants"][0]["fields"]]


def unopt(I, s, v):
    """the value in an option that is known to hold one, or the value itself"""
    if v[0] == "adt" and v[1] == OPTION:
        return v[3][0] if v[2] == "Some" else None
    return payload(I, v, "Some") if is_some(I, s, v) else v


def holds(I, s, t):
    """True / False / None: what the path knows of a condition"""
    return True if entails(I, s, t) else False if entails(I, s, neg(t)) else None


def greater(I, s, a, b):
    t = holds(I, s, rel("Gt", a, b))
    if t is not None:
        return t
    t = ordered(I, s, app("pord", a, b), "Greater")
    return ordered(I, s, app("pord", b, a), "Less") if t is None else t


def ordered(I, s, o, want):
    """is the result of a partial comparison the order wanted?"""
    if is_none(I, s, o):
        return False
    if is_some(I, s, o):
        v = variants(I, s, payload(I, o, "Some"), ORDERING)
        if v == {want}:
            return True
        if want not in v:
            return False
    elif not [1 for c in s.conds() if o in subterms(c)]:
        return None
    # None, or another order
    for v in ("None", "Some"):
        s2 = s.fork()
        if I.assume(s2, rel("Eq", I.discr_of(o), C(I.F.discr(OPTION, v))), True) and v == "Some" and \
                want in variants(I, s2, payload(I, o, "Some"), ORDERING):
            return None
    return False


def compared(I, s, k, a, b, FV):
    """what the comparison of two values is on a path: True, False, "exit" (not supported) or None"""
    va, vb = variants(I, s, a, FV), variants(I, s, b, FV)
    if not va & vb:
        return False if k == "equal" else "other"
    if len(va) != 1 or len(vb) != 1:
        return None
    v = va.pop()
    if v == "None":
        return k == "equal"
    if v not in SCALARS:
        x, y = payload(I, a, v), payload(I, b, v)
        t = holds(I, s, rel("Eq" if k == "equal" else "Gt", x, y))
        return "other" if t is None else t
    x, y = payload(I, a, v), payload(I, b, v)
    if k == "equal":
        return holds(I, s, rel("Eq", x, y))
    return greater(I, s, x, y)


def name_test(I, name):
    """the element of a list that a term compares with a name"""
    def pred(t):
        if t[0] == "app" and t[1] == "eqic":
            for a, b in (t[2], t[2][::-1]):
                if same(a, name):
                    return bare(b)
        return None
    return pred


def bare(t):
    while t[0] in ("deref", "vref"):
        t = t[1]
    return t


def same(a, b):
    return bare(a) == bare(b)


def setup(ctx, key, cons):
    """(sink type, field of the column, field of the value) of the filter that a constructor makes"""
    F = ctx.F
    I, outs = ctx.explore(cons)
    rets = [(s, o) for s, o in outs if o[0] == "ret"]
    if len(rets) != 1:
        ctx.undecided("%s: the constructor has %d outcomes" % (key, len(rets)))
        return None
    s, o = rets[0]
    cfg = I.deep(s, I.deref(s, o[1])) if o[1][0] == "box" else None
    if cfg is None or cfg[0] != "adt":
        ctx.undecided("%s: what is made" % key)
        return None
    cty = cfg[1]
    fn = fields(F, cty)
    nf = [f for f, v in zip(fn, cfg[3]) if same(v, ("p", 0))]
    vf = [f for f, v in zip(fn, cfg[3]) if v == ("p", 1)]
    need = 2 if F.body(cons)["argc"] == 2 else 1
    ok = len(nf) == 1 and len(vf) == need - 1
    ctx.ob(key + ":settings", ok, "the name%s given are kept" % (" and value" if need == 2 else ""))
    ph = ctx.impl_method("chopper::chopper::HeaderSink", "process_header", cty)
    if not ok or ph is None:
        return None
    cfgv = ("deref", ("p", 0))
    name = fld_of(I, cfgv, nf[0], cty)
    value = fld_of(I, cfgv, vf[0], cty) if vf else None
    HD = "chopper::types::Header"
    hdr = ("deref", ("p", 1))
    names, types = fld_of(I, hdr, "field_names", HD), fld_of(I, hdr, "field_types", HD)
    I, outs = ctx.explore(ph)
    got = None
    for s, o in outs:
        if o[0] == "panic":
            if o[1] in ("bounds", "remove", "index") or "remove" in str(o[1]) or "bound" in str(o[1]):
                if shorter(I, s, types, names) or overrun(ctx, I, s, names):
                    continue
            ctx.undecided("%s: a panic (%s at %s) while the header is handled" % (key, o[1], o[2]))
            continue
        if o[0] != "ret":
            ctx.undecided("%s: the process may end while the header is handled" % key)
            continue
        events = s.events()
        sc = TermScan(ctx, I, s, events, name_test(I, name))
        if variants(I, s, o[1], RESULT) == {"Err"}:
            ex = [W for a, W in sc.exhausted() if W == names]
            ctx.ob(key + ":refused", bool(ex), "only a header without such a column is refused")
            continue
        if variants(I, s, o[1], RESULT) != {"Ok"}:
            ctx.undecided("%s: an outcome that may be an error" % key)
            continue
        b = payload(I, o[1], "Ok")
        sink = I.deep(s, I.deref(s, b)) if b[0] == "box" else None
        if sink is None or sink[0] != "adt":
            ctx.undecided("%s: the sink made" % key)
            continue
        sty = sink[1]
        sf = fields(F, sty)
        fin = I.deref(s, ("p", 1))
        cols = []
        for f, v in zip(sf, sink[3]):
            i = unopt(I, s, v)
            if i is None:
                continue
            a = sc.accepted(I.sel(names, i))
            if not isinstance(a, str) and a[1] == names:
                cols.append((f, i))
        ctx.ob(key + ":column", len(cols) >= 1, "the column is the first one with the name given, apart from ASCII case")
        vals = [f for f, v in zip(sf, sink[3]) if value is not None and v == value]
        if value is not None:
            ctx.ob(key + ":value", bool(vals), "the sink compares with the value given")
            ctx.ob(key + ":header", fin == hdr, "a row filter leaves the header as it is")
        elif cols:
            i = cols[0][1]
            order = fields(F, HD)
            fn_ = [I.rd_proj(fin, ("f", order.index(x), x)) for x in ("field_names", "field_types")]
            ctx.ob(key + ":names", removed(fn_[0], names, i), "the column's name, and no other, is removed (%s)" % show(fn_[0])[:60])
            ctx.ob(key + ":types", removed(fn_[1], types, i), "the column's type, and no other, is removed (%s)" % show(fn_[1])[:60])
        if cols and (vals or value is None):
            got = (sty, cols[0][0], vals[0] if vals else None)
    ctx.ob(key + ":set-up", got is not None, "a header with the column is accepted")
    return got


def removed(v, old, i):
    return v == ("rm", old, i) or v[0] == "rm" and v[1] == old and v[2] == i


def overrun(ctx, I, s, names):
    """a counter that goes up by one from 0 and is not past the end only because it jumped over it"""
    n = app("len", names)
    rec = Rec(I, collect_loops(s.events()))
    for L in collect_loops(s.events()).values():
        sym, init = rec.counter(L)
        if sym is not None and L["init"].get(sym) == C(0) and entails(I, s, rel("Ne", sym, n)) and \
                all(entails(I, it["st"], rel("Ne", sym, n)) for it in L["iters"]) and proves(s.conds(), n, sym):
            return True
    return False


def shorter(I, s, types, names):
    """the path is one of a header with fewer types than names"""
    return proves(s.conds(), add(app("len", types), C(1)), app("len", names))


def sink(ctx, key, k, got):
    F = ctx.F
    sty, cf, vf = got
    wr = ctx.impl_method("chopper::chopper::DataSink", "write_row", sty)
    if wr is None:
        ctx.undecided("%s: no way to handle rows" % key)
        return
    FV, ROW = "chopper::types::FieldValue", "chopper::types::Row"
    I, outs = ctx.explore(wr)
    self_ = ("deref", ("p", 0))
    col = fld_of(I, self_, cf, sty)
    j = fields(F, sty).index(cf)
    opt = F.tys[F.adts[sty]["variants"][0]["fields"][j][1]].get("p") == OPTION
    i = payload(I, col) if opt else col
    val = fld_of(I, self_, vf, sty) if vf else None
    rows = ("deref", ("p", 1))
    row = I.sel(rows, C(0))
    values = fld_of(I, row, "field_values", ROW)
    cell = I.sel(values, i)
    n = {"pass": 0, "drop": 0, "?": 0}
    for s, o in outs:
        if opt and is_none(I, s, col):
            continue        # never set up like that
        if o[0] == "panic":
            if proves(s.conds(), app("len", rows), C(0)) or proves(s.conds(), app("len", values), i):
                continue
            if o[1] == "unwrap-err" and "error::" in str(o[3]):
                continue    # nowhere left to say why
            if "bounds" in o[1]:
                ctx.undecided("%s: whether an index is in range (%s)" % (key, o[2]))
                continue
            ctx.ob(key + ":panic", False, "a row may end in a panic (%s)" % o[1], o[2])
            continue
        if o[0] == "exitproc":
            ok = val is not None and compared(I, s, k, cell, val, FV) == "other"
            ctx.ob(key + ":exit", ok, "only a comparison that is not defined ends the run")
            if o[1] is not None:
                ctx.ob(key + ":exit-code", o[1] != C(0), "it does so with an error")
            continue
        if o[0] != "ret":
            ctx.undecided("%s: an outcome (%s)" % (key, o[0]))
            continue
        if variants(I, s, o[1], RESULT) == {"Err"}:
            if val is None:
                ok = proves(s.conds(), app("len", values), i) or proves(s.conds(), app("len", rows), C(0))
            else:
                ok = compared(I, s, k, cell, val, FV) == "other" or proves(s.conds(), app("len", rows), C(0)) or proves(s.conds(), app("len", values), i)
            ctx.ob(key + ":error", ok, "a row that can be handled is")
            continue
        fin = I.deref(s, ("p", 1))
        if val is None:
            if proves(s.conds(), app("len", rows), C(0)):
                continue
            if fin[0] != "store" and fin != rows:
                ctx.undecided("%s: what becomes of the rows (%s)" % (key, show(fin)[:60]))
                n["?"] += 1
                continue
            ok = fin[0] == "store" and fin[1] == rows and fin[2] == C(0)
            r2 = fin[3] if ok else None
            ok = ok and removed(fld_of(I, r2, "field_values", ROW), values, i) and \
                fld_of(I, r2, "timestamp", ROW) == fld_of(I, row, "timestamp", ROW)
            ctx.ob(key + ":row", ok, "the row loses its value of that column and nothing else (%s)" % show(fin)[:80])
            n["pass"] += 1
            continue
        if proves(s.conds(), app("len", rows), C(0)):
            continue
        c = compared(I, s, k, cell, val, FV)
        if c == "other":
            c = False
        if fin == rows:
            ctx.ob(key + ":kept", c is True, "a row is let through only if its value is %s the given one" % ("equal to" if k == "equal" else "greater than"))
            n["pass"] += 1
        elif proves(list(s.conds()) + [rel("Eq", app("len", rows), C(1))], I.len_of(fin), C(0)):
            ctx.ob(key + ":dropped", c is False, "a row is dropped only if its value is not %s the given one" % ("equal to" if k == "equal" else "greater than"))
            n["drop"] += 1
        elif fin[0] == "collect" and filtered(ctx, I, s, key, k, fin, row, cell, val, FV):
            n["pass"] += 1
            n["drop"] += 1
        elif fin[0] in ("store", "seq", "push", "ov", "rep"):
            ctx.ob(key + ":rows", False, "a row goes through as it is or not at all (%s)" % show(fin)[:60])
        else:
            n["?"] += 1
            ctx.undecided("%s: what becomes of the rows (%s)" % (key, show(fin)[:60]))
    ctx.ob(key + ":paths", n["?"] or n["pass"] > 0 and (val is None or n["drop"] > 0), "rows are handled")


def filtered(ctx, I, s, key, k, fin, row, cell, val, FV):
    """rows kept by a predicate: it holds for a row exactly if the comparison does"""
    save, I.rejected = I.rejected, []
    try:
        s0 = s.fork()
        I.assume(s0, rel("Gt", app("len", ("deref", ("p", 1))), C(0)), True)
        kept = I.it_elem(s0, fin[1], C(0), [], "")
        out = [x[1] for x in I.rejected]
    finally:
        I.rejected = save
    if not kept or not out or any(bare(I.deep(st, e)) != bare(row) for st, e in kept):
        return False
    for st, e in kept:
        ctx.ob(key + ":kept", compared(I, st, k, cell, val, FV) is True, "a row is let through only if the comparison holds")
    for st in out:
        ctx.ob(key + ":dropped", compared(I, st, k, cell, val, FV) in (False, "other"), "a row is dropped only if the comparison does not hold")
    return True


def run(ctx):
    F = ctx.F
    cons = fn_by(F, lambda p, b: p.startswith("filter::") and "HeaderSink" in F.tys[b["locals"][0]]["s"] and b["argc"] in (1, 2) and
                 "{closure" not in p and "process_header" not in p)
    found = set()
    for p in sorted(cons):
        k = kind(p)
        if k is None:
            ctx.undecided("what filter %s makes" % p)
            continue
        found.add(k)
        got = setup(ctx, k, p)
        if got:
            sink(ctx, k, k, got)
    for k in ("delete", "equal", "greater"):
        if k not in found:
            ctx.undecided("no %s filter" % k)
