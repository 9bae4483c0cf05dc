"""C05: CSV output lines: one per row, same columns in header and rows, configured delimiter, time column as configured."""
from dcmodel import okpaths, discr_variant, QUIET, HEADER
from text import *

RULE = ("The text written by the CSV sink is extracted from every path as tokens (literals, terms, loops); header and row "
        "lines must be time column (exactly when configured, on both), then one token per column in index order, "
        "separated by the configured delimiter on every feasible first/later iteration, then one line feed; every value "
        "variant must be its own plain display, quoted if it is a text that needs it, epoch times the timestamp divided by the unit, and the configuration "
        "object must keep each setting in its own field.")
TECHNIQUE = "abstract interpretation of MIR; output grammar extraction and separator analysis of list loops"
LEVEL = "other"

DIV = {"Seconds": 10 ** 9, "Millis": 10 ** 6, "Micros": 10 ** 3, "Nanos": 1}
FRAC = {"Seconds": "", "Millis": "%.3f", "Micros": "%.6f", "Nanos": "%.9f"}
STYLE = "source::csv_configs::TimestampStyle"
UNITS = "source::csv_timestamp::TimestampUnits"


def cfg(t, name):
    return t[0] == "fld" and t[3] == name


def shown(t):
    """x for display(x) / to_string(x) / dtoa(x)"""
    while t[0] == "app" and t[1] in ("display", "to_string", "dtoa") and len(t[2]) == 1:
        t = t[2][0]
    return t


def undigits(t):
    """the term behind value-preserving wrappers of a printed number"""
    t = shown(t)
    return t


def body_of(ctx, I, s, ts, what):
    """(time tokens, loop|join token) of a line"""
    if any(t[0] == "other" for t in ts):
        raise Undecided("%s is written by %s" % (what, next(t[1] for t in ts if t[0] == "other")))
    nl = bool(ts) and ts[-1][0] == "s" and ts[-1][1] == "\n"
    ctx.ob(what + "-line", nl, "the %s is one line: ends %s" % (what, show(ts[-1]) if ts else "empty"), None)
    if not nl:
        return None
    ts = ts[:-1]
    ls = [i for i, t in enumerate(ts) if t[0] == "loop" or t[0] == "v" and t[1][0] == "app" and t[1][1] == "join"]
    if len(ls) != 1 or ls[0] != len(ts) - 1:
        raise Undecided("%s line has the parts %s" % (what, [t[0] for t in ts]))
    return ts[:-1], ts[-1]


def time_cond(I, s):
    """the configuration says to print the time column on this path"""
    for c in s.conds():
        if cfg(c, "print_time_col"):
            return True
        if c[0] == "not" and cfg(c[1], "print_time_col"):
            return False
    return None


def delim_term(I, f):
    for L, sym in f:
        for it in L["iters"]:
            for t in iter_text(I, L, sym, it):
                if t[0] == "v" and cfg(shown(t[1]), "delimiter"):
                    return t[1]
    return None


def line(ctx, I, outs, what, listname):
    """check one kind of line; yields (state, time tokens, [(value tokens, iteration, list term, index)])"""
    rows = []
    for s, v in okpaths(I, outs):
        r = body_of(ctx, I, s, text_of(I, s.events()), what)
        if r:
            rows.append((s,) + r)
    if not rows:
        raise Undecided("%s is never written" % what)
    D = delim_term(I, [(t[1], t[2]) for s, h, t in rows if t[0] == "loop"])
    for s, head, t in rows:
        time = time_cond(I, s)
        lead = None
        if t[0] == "v":
            lst, sep = t[1][2]
            ctx.ob(what + "-delimiter", cfg(shown(sep), "delimiter"), "columns are joined by %s" % show(sep), None)
            ctx.ob(what + "-columns", mentions(lst, lambda x: cfg(x, listname)), "columns of the %s: %s" % (what, show(lst)), None)
            if head:
                # a separator between the time and the rest
                ctx.ob(what + "-delimiter", len(head) == 2 and head[1][0] == "v" and cfg(shown(head[1][1]), "delimiter"),
                       "time column separated from the rest", None)
                head = head[:1]
            yield s, time, head, None
            continue
        L, sym = t[1], t[2]
        if D is None:
            lits = [x for it in L["iters"] for x in iter_text(I, L, sym, it) if x[0] == "s"]
            ctx.ob(what + "-delimiter", False, "columns are separated by %s, not by the configured delimiter" %
                   (show(lits[0]) if lits else "nothing"), L["sp"])
            continue
        started = bool(head)
        if len(head) > 1 and head[-1] == ("v", D):
            head = head[:-1]
            started = False
        cnt, bs = Rec(I, {}).counter(L)
        sp = separated(I, L, sym, D, started, s)
        if sp is None or cnt is None:
            raise Undecided("separators of the %s loop" % what)
        for ok_, why, body, it in sp:
            ctx.ob(what + "-delimiter", ok_, "delimiter before the %s column%s" % (why, " after the time" if started else ""), L["sp"])
        ctx.ob(what + "-columns", any(b[0] == "app" and b[1] == "len" and mentions(b, lambda x: cfg(x, listname)) for b in bs),
               "one column per entry: %s" % ", ".join(show(b) for b in bs), L["sp"])
        yield s, time, head, (L, sp, cnt)


def header(ctx, I, outs):
    for s, time, head, lp in line(ctx, I, outs, "header", "field_names"):
        if lp is None or all(len(body) == 1 and body[0][0] == "v" and shown(body[0][1])[0] == "sel" and
                             not any(mentions(c, lambda t: t == shown(body[0][1])) for c in it["conds"]) for ok_, why, body, it in lp[1]):
            ctx.ob("quoted:names", False, "a column name that holds the delimiter, a quote or a line break is written without quotes", lp and lp[0]["sp"])
        head_time(ctx, "header", time, head)
        if head:
            ctx.ob("time-name", head == [("v", head[0][1])] and cfg(shown(head[0][1]), "time_col_name") if head[0][0] == "v" else False,
                   "time column is called %s" % show(head[0][1] if head[0][0] == "v" else head[0]), None)
        if lp:
            L, sp, cnt = lp
            for ok_, why, body, it in sp:
                good = len(body) == 1 and body[0][0] == "v"
                x = shown(body[0][1]) if good else None
                ctx.ob("header-columns", good and x[0] == "sel" and cfg(x[1], "field_names") and x[2] == cnt,
                       "column k is name k: %s" % [show(b) for b in body], L["sp"])


def head_time(ctx, what, time, head):
    if time is None:
        if head:
            ctx.ob("time-column", False, "%s has a time column whatever the configuration" % what, None)
        else:
            ctx.ob("time-column", False, "%s ignores whether a time column is wanted" % what, None)
    else:
        ctx.ob("time-column", bool(head) == time, "%s has a time column exactly when configured" % what, None)


def rows(ctx, I, outs):
    for s, time, head, lp in line(ctx, I, outs, "row", "field_values"):
        head_time(ctx, "row", time, head)
        if head:
            time_text(ctx, I, s, head)
        if lp is None:
            raise Undecided("values are not written one by one")
        L, sp, cnt = lp
        seen = set()
        for ok_, why, body, it in sp:
            vals = {t for c in it["conds"] for t in subterms(c) if t[0] == "sel" and cfg(t[1], "field_values") and
                    t[1][1][0] == "sel"}
            if len(vals) != 1:
                raise Undecided("value written")
            v = vals.pop()
            ctx.ob("row-columns", v[2] == cnt and v[1][1][2] == C(0), "column k is value k of the row: %s" % show(v), L["sp"])
            var = discr_variant(I, it["st"], v, FIELDVALUE)
            if var is None:
                raise Undecided("variant of a value")
            seen.add(var)
            if var == "None":
                ctx.ob("value:None", not body, "null is empty: %s" % [show(b) for b in body], L["sp"])
                continue
            pay = payload(I, v, var)
            if var == "String":
                looked = [c for c in it["conds"] if mentions(c, lambda t: t == pay)]
                if looked and any(b[0] == "s" and '"' in b[1] for b in body):
                    raise Undecided("a text is written in quotes if %s" % show(looked[0])[:80])
                if not looked:
                    ctx.ob("quoted:values", False, "a text that holds the delimiter, a quote or a line break is written without quotes", L["sp"])
            ctx.ob("value:" + var, len(body) == 1 and body[0][0] == "v" and shown(body[0][1]) == pay,
                   "%s is written as %s" % (var, [show(b) for b in body]), L["sp"])
        want = {x["name"] for x in I.F.adts[FIELDVALUE]["variants"]} - {"Boolean", "ByteBuf"}
        ctx.ob("row-columns", want <= seen, "every supported value is written: missing %s" % sorted(want - seen), L["sp"])


def time_text(ctx, I, s, head):
    style = unit = None
    for c in s.conds():
        for t in subterms(c):
            if cfg(t, "time_col_style"):
                style = discr_variant(I, s, t, STYLE)
            if cfg(t, "time_col_units"):
                unit = discr_variant(I, s, t, UNITS)
    if style is None or unit is None:
        raise Undecided("time column style and units")
    if len(head) != 1 or head[0][0] != "v":
        ctx.ob("time:%s:%s" % (style, unit), False, "time is written as %s" % [show(h) for h in head], None)
        return
    t = shown(head[0][1])
    if style == "Epoch":
        x, d = t, 1
        while x[0] == "app" and x[1] == "/" and is_c(x[2][1]):
            d *= x[2][1][1]
            x = x[2][0]
        ctx.ob("time:%s:%s" % (style, unit), d == DIV[unit] and cfg(x, "timestamp") and x[1][0] == "sel",
               "%s epoch time is %s" % (unit, show(t)), None)
    else:
        fs = [x for x in subterms(t) if x[0] == "s" and "%" in x[1]]
        if len(fs) != 1:
            raise Undecided("time format")
        ctx.ob("time:%s:%s" % (style, unit), fs[0][1] == "%Y-%m-%dT%H:%M:%S" + FRAC[unit] + "%:z", "time format is %s" % fs[0][1], None)
        ts = [x for x in subterms(t) if x[0] == "app" and x[1].endswith("TimeZone::timestamp")]
        ns = C(10 ** 9)
        good = ts and all(strip(x[2][1]) == app("/", x0(x), ns) and strip(x[2][2]) == app("%", x0(x), ns) and cfg(x0(x), "timestamp") for x in ts)
        if not ts:
            raise Undecided("time conversion")
        ctx.ob("time-instant", good, "seconds and nanoseconds of the row's own timestamp: %s" % show(ts[0])[:200], None)


def x0(t):
    a = strip(t[2][1])
    return a[2][0] if a[0] == "app" and len(a[2]) == 2 else a


def config(ctx):
    """the configuration keeps every setting in the field it is read from"""
    F = ctx.F
    p = "source::csv_configs::CSVOutputConfig::new"
    if not F.has_body(p):
        raise Undecided("no output configuration")
    I, outs = ctx.explore(p, opaque=QUIET)
    argn = arg_roles(F, F.bodies[p])
    for s, o in outs:
        if o[0] != "ret":
            continue
        for f in ("delimiter", "print_time_col", "time_col_style", "time_col_units", "timezone"):
            x = fld_of(I, o[1], f)
            k = argn.get(f)
            if x is None or k is None:
                continue
            x = shown(x)
            while x[0] in ("deref",) or x[0] == "app" and x[1] == "to_owned":
                x = x[1] if x[0] == "deref" else x[2][0]
            ctx.ob("config:" + f, x == ("p", k), "setting %s holds %s" % (f, show(x)), None)
        x = fld_of(I, o[1], "time_col_name")
        k = argn.get("time_col_name")
        if x is None or k is None:
            continue
        P = ("p", k)
        if is_some(I, s, P):
            ctx.ob("time-name", shown(x) == payload(I, P), "a given time column name is used: %s" % show(x), None)


ROLES = {"delimiter": "str", "print_time_col": "bool", "time_col_style": STYLE, "time_col_units": UNITS,
         "timezone": "util::tz::ChopperTz", "time_col_name": OPTION}


def arg_roles(F, b):
    """setting -> index of the only argument of its type"""
    tn = [F.tname(b["locals"][i + 1]) for i in range(b["argc"])]
    return {r: tn.index(t) for r, t in ROLES.items() if tn.count(t) == 1}


def run(ctx):
    g = ctx.impl_method(HEADERSINK, "process_header", "write::csv_sink::CSVSink")
    f = ctx.impl_method(DATASINK, "write_row", "write::csv_sink::CSVSink")
    if not f or not g:
        raise Undecided("CSV sink not found")
    I, o = ctx.explore(g, opaque=QUIET)
    J, w = ctx.explore(f, opaque=QUIET)
    for fn in (lambda: header(ctx, I, o), lambda: rows(ctx, J, w), lambda: config(ctx)):
        try:
            fn()
        except Undecided as e:
            ctx.undecided(str(e))
