"""C18: a timestamp is the exact instant its text names, or an error."""
from vecs import *
from c15 import tyname, fn_by
from c17 import ts_functions, rec_param, bare

RULE = ("The function that gives a record its timestamp and the one that reads a begin or end time are explored, machine arithmetic included. On "
        "every path that succeeds the result is rewritten to seconds and nanoseconds of the date and time parsed (or the integer parsed) and "
        "has to be, as a linear expression, exactly the instant: the integer times the unit of the path, or seconds times 10^9 plus "
        "nanoseconds of a date/time that was parsed with its own zone, or parsed without one and put into the configured zone where it is "
        "unique. That it is not negative has to follow from the path, and no path may overflow. A path that fails needs a reason: a parse, "
        "zone lookup or range check that failed. Units of begin and end times have to follow from the bounds on the path.")
TECHNIQUE = "symbolic MIR paths with overflow edges, linear arithmetic over abstract instants, interval entailment"
LIMITS = "How chrono parses by a format and what chrono-tz knows of time zones is taken from them."

E9 = 1000000000
SCALE = {"Seconds": E9, "Millis": 1000000, "Micros": 1000, "Nanos": 1}
LOW, HIGH = 630000000 * E9, 2000000000 * E9
SAFE = ("timestamp", "timestamp_subsec_nanos", "timestamp_subsec_micros", "timestamp_subsec_millis", "timestamp_nanos", "timestamp_nanos_opt",
        "timestamp_millis", "timestamp_micros", "naive_local", "naive_utc", "and_hms", "and_hms_opt", "and_hms_milli", "and_time", "parse_from_str",
        "from_local_datetime", "from_utc_datetime", "with_timezone", "from", "parse", "single", "earliest", "latest", "unwrap", "and_utc",
        "and_local_timezone", "fixed_offset", "to_utc", "from_local_date", "and_hms_micro", "and_hms_nano", "offset", "date", "time",
        "wrapping_mul", "saturating_mul", "wrapping_add", "saturating_add", "abs", "unsigned_abs", "max", "min", "pow", "trim", "parse_from_rfc3339",
        "parse_and_remainder", "datetime_from_str", "timestamp_subsec", "and_timezone", "naive", "utc", "to_string", "local_minus_utc",
        "add", "sub", "checked_add_signed", "checked_sub_signed", "hours", "minutes", "seconds", "milliseconds", "days", "with_nanosecond",
        "with_second", "with_minute", "with_hour", "trunc_subsecs", "round_subsecs", "duration_trunc", "duration_round", "wrapping_add", "clone")


def cname(t):
    """last part of the name of a library call in a term"""
    if t[0] == "app" and t[1].startswith("call:"):
        return t[1].split("::")[-1]
    return None


def got(t, var):
    """x if t is the payload of variant var of x"""
    t = bare(t)
    if t[0] == "fld" and t[1][0] == "dc" and t[1][2] == var:
        return bare(t[1][1])
    return None


def naive(t):
    """(kind, text, format) of a date and time without a zone"""
    x = got(t, "Ok")
    if x is not None and cname(x) == "parse_from_str" and "NaiveDateTime" in x[1]:
        return ("dt", x[2][0], x[2][1])
    t = bare(t)
    d = None
    if cname(t) == "and_hms" and t[2][1:] == (C(0), C(0), C(0)):
        d = t[2][0]
    y = got(t, "Some")
    if y is not None and cname(y) == "and_hms_opt" and y[2][1:] == (C(0), C(0), C(0)):
        d = y[2][0]
    if cname(t) == "and_time" and midnight(t[2][1]):
        d = t[2][0]
    if cname(t) == "from" and "NaiveDateTime" in t[1]:
        d = t[2][0]
    if d is not None:
        x = got(d, "Ok")
        if x is not None and cname(x) == "parse_from_str" and "NaiveDate" in x[1] and "NaiveDateTime" not in x[1]:
            return ("date", x[2][0], x[2][1])
    return None


def midnight(t):
    t = bare(t)
    y = got(t, "Some")
    if y is not None and cname(y) == "from_hms_opt" and y[2] == (C(0), C(0), C(0)):
        return True
    return cname(t) == "from_hms" and t[2] == (C(0), C(0), C(0)) or "MIN" in repr(t) and "NaiveTime" in repr(t) or cname(t) == "default"


def moment(t):
    """what instant a date/time term is: ("own", text, format) or ("zone", zone, naive)"""
    t = bare(t)
    while cname(t) in ("with_timezone", "fixed_offset", "to_utc", "naive_utc", "and_utc", "clone"):
        t = bare(t[2][0])
    x = got(t, "Ok")
    if x is not None and cname(x) == "parse_from_str" and "DateTime" in x[1] and "Naive" not in x[1]:
        return ("own", x[2][0], x[2][1])
    x = got(t, "Single")
    y = got(t, "Some")
    if y is not None and cname(y) == "single":
        x = bare(y[2][0])
    if x is not None and cname(x) == "from_local_datetime":
        n = naive(x[2][1])
        return ("zone", bare(x[2][0]), n) if n else None
    if x is not None and cname(x) == "and_local_timezone":
        n = naive(x[2][0])
        return ("zone", bare(x[2][1]), n) if n else None
    return None


class Inst:
    """values in seconds and nanoseconds of instants"""

    def __init__(self):
        self.seen = {}
        self.panics = set()

    def secs(self, m):
        return ("y", ("secs", m))

    def sub(self, m):
        return ("y", ("sub", m))

    def nanos(self, m):
        return add(mul(self.secs(m), C(E9)), self.sub(m))

    def rw(self, t):
        if not isinstance(t, tuple) or not t or not isinstance(t[0], str):
            return t
        n = cname(t)
        if n in ("timestamp", "timestamp_subsec_nanos", "timestamp_nanos", "timestamp_millis", "timestamp_micros"):
            m = moment(t[2][0])
            if m:
                self.seen[m] = 1
                if n == "timestamp":
                    return self.secs(m)
                if n == "timestamp_subsec_nanos":
                    return self.sub(m)
                if n == "timestamp_nanos":
                    self.panics.add(t)
                    return self.nanos(m)
        y = got(t, "Some")
        if y is not None and cname(y) == "timestamp_nanos_opt":
            m = moment(y[2][0])
            if m:
                self.seen[m] = 1
                return self.nanos(m)
        if n == "from" and "core::convert::num" in t[1]:
            return self.rw(t[2][0])
        if t[0] == "app":
            if t[1] in ("as:u64", "as:i64", "as:i128", "as:u128"):
                return self.rw(t[2][0])
            xs = [self.rw(x) for x in t[2]]
            if t[1] == "+":
                return add(*xs)
            if t[1] == "-":
                return sub(*xs)
            if t[1] == "*":
                return mul(*xs)
            return ("app", t[1], tuple(xs))
        if t[0] == "rel":
            return ("rel", self.rw(t[1]), self.rw(t[2]), t[3])
        if t[0] == "not":
            return ("not", self.rw(t[1]))
        return t

    def conds(self, cs):
        """conditions on values; what fits a type is in its range. A cast keeps the value if that is not negative, which has to follow
        from the conditions on what was not cast"""
        plain = self.some([c for c in cs if not cast(c)])
        if len(plain) < len(cs) and all(proves(plain, C(0), self.secs(m)) for m in self.seen):
            return self.some(cs)
        return plain

    def some(self, cs):
        out = []
        for c in cs:
            neg_ = c[0] == "not"
            f = c[1] if neg_ else c
            if f[0] == "app" and f[1] == "fits":
                x = self.rw(f[2][0])
                ty = f[2][1][1]
                if not neg_:
                    lo, hi = span(ty)
                    out.append(rel("Ge", x, C(lo)))
                    out.append(rel("Le", x, C(hi)))
            elif c[0] == "rel":
                out.append(self.rw(c))
        for m in self.seen:
            out.append(rel("Ge", self.sub(m), C(0)))
            out.append(rel("Lt", self.sub(m), C(2 * E9)))
            out.append(rel("Ge", self.secs(m), C(-(1 << 63))))
            out.append(rel("Lt", self.secs(m), C(1 << 63)))
        return out


def span(ty):
    n = {"usize": 64, "isize": 64}.get(ty) or int(ty[1:])
    return (0, (1 << n) - 1) if ty[0] == "u" else (-(1 << n - 1), (1 << n - 1) - 1)


def cast(c):
    return any(x[0] == "app" and x[1] in ("as:u64", "as:u128") for x in subterms(c))


def positive(cs, x, m, inst):
    return proves(cs, C(0), x) or proves(cs, C(0), inst.secs(m)) or proves(cs, C(0), inst.nanos(m))


def foreign(t):
    """library calls in a value whose meaning is not known here"""
    return sorted({x[1] for x in subterms(t) if cname(x) and cname(x) not in SAFE and not x[1].endswith("::parse")})


def why(I, F, s, tz):
    """a reason for a path to fail"""
    for e in calls(all_events(s.events())):
        t = e[9]
        if t is None or e[4] is None:
            continue
        n = tyname(F, t)
        if n == RESULT and variants(I, s, e[4], RESULT) == {"Err"}:
            return True
        if n.endswith("LocalResult") and (n not in F.adts or "Single" not in variants(I, s, e[4], n)) and not entails_single(I, s, e[4]):
            return True
        if n == OPTION and is_none(I, s, e[4]) and e[1].split("::")[-1] in ("timestamp_nanos_opt", "single"):
            return True
    if tz is not None and is_none(I, s, tz):
        return True
    return False


def entails_single(I, s, t):
    lo, hi, ne = I.rng(s, I.discr_of(t))
    return lo == hi == 0


def too_large(I, cs, inst, scales):
    """a value that does not fit into 64 bits unsigned"""
    for c in cs:
        if c[0] == "not" and c[1][0] == "app" and c[1][1] == "fits" and c[1][2][1][1] == "u64":
            x = inst.rw(c[1][2][0])
            for m in list(inst.seen):
                if lsame(x, inst.secs(m)) or lsame(x, mul(inst.secs(m), C(E9))) or lsame(x, inst.nanos(m)):
                    return True
            d, k = lin(x)
            if k == 0 and len(d) == 1:
                (a, n), = d.items()
                if n in scales and parsed(a) is not None:
                    return True
        if c[0] == "rel":
            r = inst.rw(c)
            for m in list(inst.seen):
                if proves([r], inst.secs(m), C(-1)) or proves([r], inst.nanos(m), C(-1)) or \
                        proves([r, rel("Ge", inst.sub(m), C(0))], C(1 << 64), inst.nanos(m)) or proves([r], C((1 << 64) // E9), inst.secs(m)):
                    return True
    return False


def parsed(t):
    """the text an integer was parsed from"""
    x = got(t, "Ok")
    if x is not None and x[0] == "app" and x[1].endswith("::parse"):
        return x[2][0]
    return None


def parse_type(x):
    """type an integer was parsed as"""
    return x[2][1][1].split("<")[-1].split(",")[0] if len(x[2]) == 2 else None


def panics(ctx, key, I, outs):
    F = ctx.F
    for s, o in outs:
        if o[0] != "panic":
            continue
        inst = Inst()
        if o[1] == "overflow":
            op, a, b, ty = o[4]
            ats = [x for y in (a, b) for x in lin(y)[0]]
            if all(x[0] == "app" and x[1] == "len" for x in ats):
                continue
            cs = inst.conds(s.conds())
            a, b = inst.rw(a), inst.rw(b)
            cs = inst.conds(s.conds())
            v = mul(a, b) if op == "Mul" else add(a, b) if op == "Add" else sub(a, b) if op == "Sub" else None
            lo, hi = span(ty)
            ok = v is not None and proves(cs, C(lo), v) and proves(cs, v, C(hi))
            if not ok and v is not None:
                # chrono gives more than 10^9 nanoseconds in leap seconds only
                cl = cs + [rel("Lt", inst.sub(m), C(E9)) for m in inst.seen]
                if proves(cl, C(lo), v) and proves(cl, v, C(hi)):
                    ctx.undecided("%s: an overflow in a leap second (%s)" % (key, o[2]))
                    continue
            ctx.ob(key + ":overflow", ok, "no text makes the arithmetic overflow (%s)" % show((("app", op, (a, b))))[:80], o[2])
        elif o[1] in ("unwrap", "expect"):
            r = [e for e in calls(s.events()) if e[9] is not None and tyname(F, e[9]) == OPTION and is_none(I, s, e[4])]
            if r and all(e[1].split("::")[-1] in ("and_hms_opt", "from_hms_opt") for e in r):
                continue
            bad = [e for e in calls(s.events()) if e[9] is not None and (tyname(F, e[9]) == RESULT and variants(I, s, e[4], RESULT) == {"Err"} or
                                                                         tyname(F, e[9]) == OPTION and is_none(I, s, e[4]))]
            if bad or too_large(I, s.conds(), inst, SCALE.values()):
                ctx.ob(key + ":panic", False, "a text can end the program (%s)" % o[1], o[2])
            else:
                ctx.undecided("%s: a panic (%s at %s) may be reached" % (key, o[1], o[2]))
    return True


def value(ctx, key, I, F, s, v, where=None):
    """(canonical instant | None): the obligations every timestamp from a date/time has"""
    inst = Inst()
    x = inst.rw(v)
    cs = inst.conds(s.conds())
    ms = {t[1][1] for t in lin(x)[0] if t[0] == "y" and isinstance(t[1], tuple) and t[1][0] in ("secs", "sub")}
    if len(ms) != 1:
        return None
    m = ms.pop()
    ctx.ob(key + ":exact", lsame(x, inst.nanos(m)), "the result is the instant in nanoseconds since 1970 (%s)" % show(v)[:60])
    ctx.ob(key + ":before-1970", positive(cs, x, m, inst), "an instant before 1970 is refused")
    ctx.ob(key + ":panic", not inst.panics, "an instant out of range is an error, not a panic")
    return m


def zone(I, m, tz):
    """the zone of m is the configured one"""
    return bare(m[1]) == bare(payload(I, tz, "Some"))


# ---------------------------------------------------------------- a record's timestamp
def record(ctx, p):
    F = ctx.F
    b = F.body(p)
    ps = [tyname(F, t) for t in b["locals"][1:b["argc"] + 1]]

    def par(end):
        i = [i for i, t in enumerate(ps) if t.endswith(end)]
        return i[0] if len(i) == 1 else None
    ir, ic, ifm, iz = par("StringRecord"), par("::TimestampCol"), par("::TimestampFmt"), par("::ChopperTz")
    if None in (ir, ic, ifm, iz):
        ctx.undecided("the parameters of " + p)
        return
    rec, col, fmt = ("deref", ("p", ir)), ("deref", ("p", ic)), ("deref", ("p", ifm))
    COL, FMT, TZ = ps[ic], ps[ifm], ps[iz]
    UNIT = next((a for a in F.adts if a.endswith("::TimestampUnits")), None)
    tz = fld_of(I0(ctx, p), ("deref", ("p", iz)), F.adts[TZ]["variants"][0]["fields"][0][0], TZ)
    I, outs = ctx.explore(p, overflow=True)
    panics(ctx, "row", I, outs)
    seen = set()
    for s, o in outs:
        if o[0] != "ret":
            continue
        cv, fv = variants(I, s, col, COL), variants(I, s, fmt, FMT)
        vr = variants(I, s, o[1], RESULT)
        if vr == {"Err"}:
            inst = Inst()
            for e in calls(s.events()):
                if e[9] is not None and len(e) > 4:
                    inst.rw(e[4])
            ok = why(I, F, s, tz) or too_large(I, s.conds(), inst, SCALE.values()) or short(I, s, rec, col, COL)
            ctx.ob("row:error", ok, "an error needs a reason in the text, the zone or the range of the instant")
            continue
        if vr != {"Ok"} or len(cv) != 1 or len(fv) != 1:
            ctx.undecided("row: a path that does not tell the column or the format")
            continue
        cv, fv = cv.pop(), fv.pop()
        v = payload(I, o[1], "Ok")
        # the text
        if cv == "Index":
            text = I.sel(rec, payload(I, col, "Index"))
        else:
            a, c = [I.rd_proj(I.rd_proj(col, ("v", cv)), ("f", i, str(i))) for i in (0, 1)]
            text = app("cat", I.sel(rec, a), S("#"), I.sel(rec, c))
        f = payload(I, fmt, fv)
        if fv == "Units":
            us = variants(I, s, f, UNIT)
            inst = Inst()
            d, k = lin(inst.rw(v))
            if len(us) != 1:
                ctx.undecided("row: a path that does not tell the unit")
                continue
            u = us.pop()
            seen.add((cv, u))
            if k or len(d) != 1 or parsed(next(iter(d))) is None:
                unknown(ctx, "row:epoch", v, "an integer is scaled by its unit (%s)" % show(v)[:60])
                continue
            (a, n), = d.items()
            ctx.ob("row:unit", n == SCALE[u], "%s are scaled by %d (%d)" % (u, SCALE[u], n))
            ctx.ob("row:text", same(parsed(a), text), "the integer is that in the timestamp's column (%s)" % show(parsed(a))[:50])
            ty = parse_type(got(a, "Ok"))
            ctx.ob("row:integer", ty in ("u64", "u128"), "every integer up to 64 bits is accepted, none is negative (%s)" % ty)
            continue
        seen.add((cv, fv))
        m = value(ctx, "row", I, F, s, v)
        if m is None:
            unknown(ctx, "row:instant", v, "the result is that of the date and time in the text (%s)" % show(v)[:60])
            continue
        n = m if m[0] == "own" else m[2]
        want = {"DateTimeIncludesTz": "own", "DateTimeNeedsExternalTz": "dt", "DateNeedsExternalTz": "date"}.get(fv)
        if want is None:
            ctx.undecided("row: format kind " + fv)
            continue
        ctx.ob("row:zone", (m[0] == "own") == (want == "own") and (m[0] == "own" or zone(I, m, tz)),
               "the zone is that of the text or the configured one, as the format says (%s)" % m[0])
        ctx.ob("row:kind", n[0] == want, "text by a format of that kind is parsed as that (%s)" % n[0])
        ctx.ob("row:text", same(n[1], text), "the text parsed is that in the timestamp's column (%s)" % show(n[1])[:50])
        ctx.ob("row:format", same(n[2], f), "it is parsed by the format found for it (%s)" % show(n[2])[:50])
    want = {(c, x) for c in variants(I, outs[0][0].fork(), ("y", "c"), COL) for x in list(SCALE) + ["DateTimeIncludesTz", "DateTimeNeedsExternalTz", "DateNeedsExternalTz"]}
    ctx.ob("row:paths", seen >= want, "every kind of column and format gives timestamps (%d of %d)" % (len(seen & want), len(want)))


def I0(ctx, p):
    return ctx.explore(p, overflow=True)[0]


def same(a, b):
    return strip_str(a) == strip_str(b)


def strip_str(t):
    t = bare(t)
    while t[0] == "app" and t[1] in ("to_string", "as:str", "display") and len(t[2]) == 1:
        t = bare(t[2][0])
    if t[0] == "app" and t[1] == "cat":
        return ("app", "cat", tuple(strip_str(x) for x in t[2]))
    return t


def short(I, s, rec, col, COL):
    """the record lacks the column"""
    for v in variants(I, s, col, COL):
        for i in (0, 1):
            x = I.rd_proj(I.rd_proj(col, ("v", v)), ("f", i, str(i)))
            if proves(s.conds(), app("len", rec), x):
                return True
    return False


def unknown(ctx, key, v, text):
    f = foreign(v)
    if f:
        ctx.undecided("%s: %s" % (key, ", ".join(f)[:120]))
    else:
        ctx.ob(key, False, text)


# ---------------------------------------------------------------- begin and end times
DONE = {4: "0101", 6: "01", 8: ""}


def completed(raw, text):
    """k if text is raw with what a date of k digits lacks for a date and time, 0 if it is raw, None otherwise"""
    if same(raw, text):
        return 0
    t = strip_str(text)
    if t[0] == "app" and t[1] == "cat" and same(t[2][0], raw):
        rest = "".join(x[1] if x[0] == "s" else "?" for x in t[2][1:])
        for k, d in DONE.items():
            if rest.startswith(d) and rest[len(d):] in [a + b for a in "-T " for b in ("00:00:00", "000000")]:
                return k
    return None


def bound(ctx, p):
    F = ctx.F
    b = F.body(p)
    ps = [tyname(F, t) for t in b["locals"][1:b["argc"] + 1]]
    iz = [i for i, t in enumerate(ps) if t.endswith("::ChopperTz")]
    if len(iz) != 1 or len(ps) != 2:
        ctx.undecided("the parameters of " + p)
        return
    iz, ir = iz[0], 1 - iz[0]
    raw = ("p", ir)
    TZ = ps[iz]
    I, outs = ctx.explore(p, overflow=True)
    tz = fld_of(I, ("deref", ("p", iz)), F.adts[TZ]["variants"][0]["fields"][0][0], TZ)
    panics(ctx, "bound", I, outs)
    seen, scales = set(), set()
    for s, o in outs:
        if o[0] != "ret":
            continue
        vr = variants(I, s, o[1], RESULT)
        if vr == {"Err"}:
            continue
        if vr != {"Ok"}:
            ctx.undecided("bound: a result that may be an error or not")
            continue
        v = payload(I, o[1], "Ok")
        inst = Inst()
        x = inst.rw(v)
        d, k = lin(x)
        if k == 0 and len(d) == 1 and parsed(next(iter(d))) is not None:
            (a, n), = d.items()
            scales.add(n)
            ctx.ob("bound:text", same(parsed(a), raw), "the integer is the one given")
            ty = parse_type(got(a, "Ok"))
            ctx.ob("bound:integer", ty in ("u64", "u128"), "an integer of up to 64 bits is read (%s)" % ty)
            cs = s.conds()
            ctx.ob("bound:unit", n in SCALE.values() and proves(cs, C(LOW), x) and proves(cs, x, C(HIGH - 1)),
                   "the unit of an integer is the one that puts it between 1989 and 2033 (times %d)" % n)
            continue
        m = value(ctx, "bound", I, F, s, v)
        if m is None:
            unknown(ctx, "bound:instant", v, "the result is that of the date and time given (%s)" % show(v)[:60])
            continue
        n = m if m[0] == "own" else m[2]
        c = completed(raw, n[1])
        ctx.ob("bound:text", c is not None, "the text parsed is the one given, or completed to the start of the year, month or day (%s)" % show(n[1])[:60])
        if c:
            ctx.ob("bound:completion", entails(I, s, rel("Eq", app("len", ("deref", raw)), C(c))) or entails(I, s, rel("Eq", app("len", raw), C(c))),
                   "only a date of %d digits is completed that way" % c)
            seen.add((m[0], c))
        else:
            seen.add((m[0], 0))
        if m[0] == "zone":
            ctx.ob("bound:zone", zone(I, m, tz), "a time without a zone is one in the configured zone")
            fs = formats(n[2])
            if fs is not None and c:
                rest = strip_str(n[1])[2][1:]
                tail = "".join(y[1] for y in rest)[len(DONE[c]):]
                want = "%Y%m%d" + tail[0] + ("%H:%M:%S" if ":" in tail else "%H%M%S")
                ctx.ob("bound:formats", want in fs, "what a date is completed to can be parsed (%s)" % want)
    for c in (0, 4, 6, 8):
        ctx.ob("bound:paths", ("zone", c) in seen, "dates of %s are accepted" % ("%d digits" % c if c else "other forms"))
    ctx.ob("bound:paths", ("own", 0) in seen, "dates with their own zone are accepted")
    ctx.ob("bound:paths", scales == set(SCALE.values()), "integers of all units are accepted (%s)" % sorted(scales))


def formats(t):
    """the formats a term can be, if it is picked from a known list"""
    t = bare(t)
    if t[0] == "s":
        return [t[1]]
    if t[0] == "sel" and t[1][0] == "seq":
        xs = [bare(x) for x in t[1][1]]
        return [x[1] for x in xs] if all(x[0] == "s" for x in xs) else None
    return None


def run(ctx):
    F = ctx.F
    ts, cf = ts_functions(F)
    if len(ts) != 1:
        ctx.undecided("the function that gives a record its timestamp (%d)" % len(ts))
    else:
        record(ctx, ts[0])
    bs = fn_by(F, lambda p, b: b["argc"] == 2 and F.tys[b["locals"][0]]["s"].split("<")[-1].startswith("u64") and tyname(F, b["locals"][0]) == RESULT and
               {tyname(F, t).split("::")[-1] for t in b["locals"][1:3]} == {"str", "ChopperTz"})
    if len(bs) != 1:
        ctx.undecided("the function that reads a begin or end time (%d)" % len(bs))
    else:
        bound(ctx, bs[0])
