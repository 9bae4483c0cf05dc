"""C17: every CSV record is one row."""
from vecs import *
from c15 import tyname, fn_by

RULE = ("The row function of the CSV source and its constructor are explored with the timestamp functions left out. The row handed out has "
        "to be the one staged, and the next record fetched, exactly once per call, has to be staged in its place or the end noted; a record "
        "comes only from the reader of the source. What is staged is compared with the record element by element: the loops, collects and "
        "stores that fill the values are put in closed form, and for an arbitrary index below the number of columns the value has to be the "
        "record's field of that index, or null behind its last one. An overlong record, a missing record and a failed fetch have to end in "
        "an error, nothing else may. Names, types and values have one length. The settings are followed from the options to the reader.")
TECHNIQUE = "symbolic loop summaries over MIR (element-wise array characterisation, linear arithmetic), typestate of the staged row"
LIMITS = ("How the csv crate splits text into records and fields is taken from it (no other than the settings named are changed). Whether "
          "the text has a header line, if the user does not say, is a guess and not part of it.")

SRC = "chopper::chopper::Source"
HEADER = "chopper::types::Header"
READER = "csv::reader::Reader"
BUILDER = "csv::reader::ReaderBuilder"
COLS = ("y0", "columns")
J = ("y0", "column")


def source_type(ctx):
    F = ctx.F
    out = []
    for t, n, p in F.impls_of(SRC, "next_row"):
        adt = t.get("p")
        if adt in F.adts and any(tyname(F, f[1]).startswith(READER) for v in F.adts[adt]["variants"] for f in v["fields"]):
            out.append((adt, p))
    return out[0] if len(out) == 1 else (None, None)


def ts_functions(F):
    """the functions that find the timestamp in a record, and the column and format for it"""
    def params(b):
        return [tyname(F, t) for t in b["locals"][1:b["argc"] + 1]]

    def ret(b):
        return F.tys[b["locals"][0]]["s"]
    rec = "csv::string_record::StringRecord"
    ts = fn_by(F, lambda p, b: rec in params(b) and "Result<u64" in ret(b))
    cf = fn_by(F, lambda p, b: rec in params(b) and HEADER in params(b) and "Result<(" in ret(b))
    return ts, cf


class Shape:
    def __init__(self, F, adt):
        self.adt = adt
        self.f = {}
        for i, f in enumerate(F.adts[adt]["variants"][0]["fields"]):
            n, t = f[0], F.tys[f[1]]
            ty = tyname(F, f[1])
            if ty.startswith(READER):
                self.f["reader"] = (i, n)
            elif ty == ROW:
                self.f["row"] = (i, n)
            elif ty == OPTION and ROW in t["s"] + self.inner(F, f[1]):
                self.f["opt"] = (i, n)
            elif t["s"] == "bool":
                self.f.setdefault("flag", (i, n))
            elif ty == HEADER:
                self.f["header"] = (i, n)

    def inner(self, F, t):
        s = F.tys[t]["s"]
        return ROW if s.endswith("<Row>") or "types::Row>" in s else s

    def entry(self, role):
        i, n = self.f[role]
        return ("fld", ("deref", ("p", 0)), i, n)

    def final(self, I, s, role):
        i, n = self.f[role]
        return I.read(s, (("D", ("p", 0)), (("f", i, n),)))


def fetches(events):
    """calls that take the next record off the text: (event, receiver chain)"""
    out = []
    for e in events:
        if e[0] == "call" and e[1].startswith("<csv::reader::StringRecords") and e[1].endswith("::next"):
            out.append(e)
        elif e[0] == "call" and e[1].startswith(READER) and e[1].split("::")[-1] in ("read_record", "read_byte_record", "byte_records", "deserialize", "into_deserialize", "into_byte_records"):
            raise Undecided("records are read by " + e[1])
    return out


def passed_over(ctx, key, loops):
    """a round of a loop that fetches a record and goes on to fetch another"""
    for L in loops.values():
        for it in L["iters"]:
            for e in fetches(all_events(it["events"])):
                ctx.ob(key + ":one-fetch", False, "a record fetched is passed over in a loop", e[5])


def record_of(I, e):
    return payload(I, payload(I, e[4], "Some"), "Ok")


def columns(sh, I, t):
    """one name for the number of columns"""
    return t


def canon_conds(vs, conds, m):
    return [subst(vs.norm(c), m) for c in conds]


def same_row(ctx, key, I, s, row, rec, tsfn, cols, vs, own, where):
    """row is what `rec` says; cols: term of the number of columns"""
    F = ctx.F
    values = fld_of(I, row, "field_values", ROW)
    ts = fld_of(I, row, "timestamp", ROW)
    evs = [e for e in calls(s.events(), *tsfn) if payload(I, e[4], "Ok") == ts]
    ctx.ob(key + ":timestamp", bool(evs) and I.deep(s, evs[0][3][[i for i, a in enumerate(evs[0][3]) if True][rec_param(F, tsfn[0])]]) == rec,
           "the row's timestamp is that of its own record", where)
    if own is not None and evs:
        for i, a in enumerate(evs[0][3]):
            if i != rec_param(F, tsfn[0]):
                ctx.ob(key + ":format", own(a), "it is looked up as the source was set up to (%s)" % show(a)[:60], where)
    nrec = app("len", rec)
    try:
        n = vs.length(values, vs.conds(s))
        ok = lsame(n, cols) or proves(vs.conds(s), n, cols) and proves(vs.conds(s), cols, n)
        ctx.ob(key + ":length", ok, "there is one value per column (%s)" % show(n)[:60], where)
        for case, cs in (("field", [rel("Lt", J, nrec)]), ("short", [rel("Ge", J, nrec)])):
            s2 = vs.fork(s, [rel("Ge", J, C(0)), rel("Lt", J, cols)] + cs)
            if s2 is None:
                continue
            for s3, v in vs.at(s2, values, J):
                if infeasible([r for c in vs.conds(s3) for r in _rows(c)] + [({t: 1}, 0) for t in naturals(vs.conds(s3))]):
                    continue
                v = I.deep(s3, v)
                if case == "field":
                    want = ("adt", FIELDVALUE, "String", (I.sel(rec, J),))
                    ok = v[0] == "adt" and v[2] == "String" and (v[3][0] == want[3][0] or same_elem(vs, s3, v[3][0], rec))
                    ctx.ob(key + ":field", ok, "column j holds field j of the record as it is (%s)" % show(v)[:70], where)
                else:
                    ctx.ob(key + ":short", v[0] == "adt" and v[1] == FIELDVALUE and v[2] == "None",
                           "a column behind the record's last field is null (%s)" % show(v)[:70], where)
    except Unknown as e:
        ctx.undecided("%s: %s" % (key, e))


def _rows(c):
    from vecs import _row
    return _row(c)


def naturals(conds):
    return {t for c in conds for t in subterms(c) if natural(t)}


def same_elem(vs, s, t, rec):
    if t[0] == "sel" and t[1] == rec:
        cs = vs.conds(s)
        return proves(cs, t[2], J) and proves(cs, J, t[2])
    return False


def rec_param(F, p):
    b = F.body(p)
    return next(i for i, t in enumerate(b["locals"][1:b["argc"] + 1]) if tyname(F, t) == "csv::string_record::StringRecord")


def fetched(ctx, key, I, s, fs, reader, where=None):
    for e in fs:
        src = e[3][0] if e[3] else None
        recv = None
        for r in calls(s.events()):
            if r[4] == src and r[1].startswith(READER):
                recv = r[3][0]
        ctx.ob(key + ":reader", recv is not None and (recv == reader), "records come from the source's own reader", e[5])


# ---------------------------------------------------------------- the row function
def rows(ctx, adt, p, tsfn):
    F = ctx.F
    sh = Shape(F, adt)
    I, outs = ctx.explore(p, opaque=tuple(tsfn))
    model = "M1" if "row" in sh.f and "flag" in sh.f else "M2" if "opt" in sh.f else None
    if "reader" not in sh.f or "header" not in sh.f or model is None:
        ctx.undecided("the CSV source keeps neither a staged row and a flag nor an optional row")
        return None
    hdr = sh.entry("header")
    staged0 = sh.entry("row") if model == "M1" else payload(I, sh.entry("opt"), "Some")
    cols = app("len", fld_of(I, staged0, "field_values", ROW))
    same = [app("len", fld_of(I, hdr, n, HEADER)) for n in ("field_names", "field_types")]
    inv = [rel("Eq", x, cols) for x in same]
    live, done = None, None
    seen = {"row": 0, "last": 0, "end": 0}

    def own(a):
        return mentions(a, lambda t: t == ("deref", ("p", 0))) and not mentions(a, lambda t: t[0] == "res")

    flagged = []
    for s0, o in outs:
        vs = Vals(I, collect_loops(s0.events()))
        passed_over(ctx, "next", vs.loops)
        s = vs.fork(s0, inv)
        if s is None:
            continue
        if o[0] == "panic":
            cs = vs.conds(s)
            if infeasible([r for c in cs for r in _rows(c)] + [({t: 1}, 0) for t in naturals(cs)]):
                continue
            fs = fetches(s.events())
            rec = record_of(I, fs[-1]) if fs else None
            long_ = rec is not None and proves(cs, add(cols, C(1)), app("len", rec))
            fit = rec is not None and infeasible([r for c in cs + [rel("Le", app("len", rec), cols)] for r in _rows(c)] + [({t: 1}, 0) for t in naturals(cs)])
            if long_ or fit:
                ctx.ob("next:overlong", False, "a record with more fields than columns ends in a panic (%s)" % o[1], o[2])
            elif o[1] in ("unwrap", "expect"):
                ctx.undecided("next: a panic (%s at %s) may be reached" % (o[1], o[2]))
            continue
        if o[0] != "ret":
            continue
        r = o[1]
        vr = variants(I, s, r, RESULT)
        fs = fetches(s.events())
        fetched(ctx, "next", I, s, fs, sh.entry("reader"))
        got = [variants(I, s, e[4], OPTION) for e in fs]
        if vr == {"Err"}:
            # a reason
            good = any(v == {"Some"} and variants(I, s, payload(I, e[4], "Some"), RESULT) == {"Err"} for e, v in zip(fs, got))
            good = good or any(variants(I, s, e[4], RESULT) == {"Err"} for e in calls(s.events(), *tsfn))
            cs = vs.conds(s)
            good = good or any(v == {"Some"} and proves(cs, add(cols, C(1)), app("len", record_of(I, e))) for e, v in zip(fs, got))
            ctx.ob("next:error", good, "an error needs a failed fetch, a missing timestamp or an overlong record")
            continue
        if vr != {"Ok"}:
            ctx.undecided("next: a result that may be an error or not")
            continue
        row = payload(I, r, "Ok")
        vo = variants(I, s, row, OPTION)
        for e, v in zip(fs, got):
            if v == {"Some"}:
                ok = variants(I, s, payload(I, e[4], "Some"), RESULT) == {"Ok"}
                ctx.ob("next:fetch-error", ok, "a record that cannot be read is an error", e[5])
        if vo == {"Some"}:
            row = payload(I, row, "Some")
            ctx.ob("next:staged", I.deep(s, row) == staged0, "the row handed out is the one staged, unchanged (%s)" % show(row)[:60])
            ctx.ob("next:one-fetch", len(fs) == 1, "one record is fetched for every row handed out (%d)" % len(fs))
            if len(fs) != 1:
                continue
            if model == "M1":
                fl = sh.entry("flag")
                v = True if entails(I, s, fl) else False if entails(I, s, neg(fl)) else None
                ctx.ob("next:live", v is not None, "a row is handed out only before the end is noted")
                flagged.append(("live", v))
                ff = sh.final(I, s, "flag")
            if got[0] == {"None"}:
                seen["last"] += 1
                if model == "M1":
                    done = ff[1] if ff[0] == "b" else v if ff == fl else None
                    flagged.append(("done", done))
                else:
                    ctx.ob("next:end-noted", is_none(I, s, sh.final(I, s, "opt")), "the end of the records is noted")
            elif got[0] == {"Some"}:
                seen["row"] += 1
                if model == "M1":
                    ctx.ob("next:still-live", ff == fl or ff == ("b", v), "with a record fetched, the end is not noted")
                    new = sh.final(I, s, "row")
                else:
                    f = sh.final(I, s, "opt")
                    ctx.ob("next:still-live", is_some(I, s, f), "with a record fetched, there is a row staged")
                    if not is_some(I, s, f):
                        continue
                    new = payload(I, f, "Some")
                rec = record_of(I, fs[0])
                cs = vs.conds(s)
                ctx.ob("next:overlong", proves(cs, app("len", rec), cols), "a record with more fields than columns is refused")
                same_row(ctx, "next", I, s, new, rec, tsfn, cols, vs, own, fs[0][5])
            else:
                ctx.undecided("next: the fetched record is not looked at")
        elif vo == {"None"}:
            seen["end"] += 1
            ctx.ob("next:end", not any(v != {"None"} for v in got), "a record fetched is not dropped at the end")
            if model == "M1":
                fl = sh.entry("flag")
                v = True if entails(I, s, fl) else False if entails(I, s, neg(fl)) else None
                flagged.append(("done", v))
                ff = sh.final(I, s, "flag")
                ctx.ob("next:stays-ended", ff == fl or ff == ("b", v), "the end stays noted")
            else:
                ctx.ob("next:end", is_none(I, s, sh.entry("opt")), "the source ends only with no row staged")
                ctx.ob("next:stays-ended", is_none(I, s, sh.final(I, s, "opt")), "the end stays noted")
        else:
            ctx.undecided("next: a result that may be a row or not")
    if model == "M1":
        l = {v for k, v in flagged if k == "live"}
        d = {v for k, v in flagged if k == "done"}
        ok = len(l) == 1 and len(d) == 1 and l != d and None not in l | d
        ctx.ob("next:flag", ok, "rows are handed out with the flag at one value, the end is noted by the other one (%s, %s)" % (l, d))
        live = l.pop() if len(l) == 1 else None
    for k, n in seen.items():
        ctx.ob("next:paths", n > 0, "%d path(s): %s" % (n, k))
    return sh, model, live


# ---------------------------------------------------------------- the constructor
def settings(events):
    out = {}
    for e in events:
        if e[0] == "call" and e[1].startswith(BUILDER + "::"):
            out.setdefault(e[1].split("::")[-1], []).append(e)
    return out


def constructor(ctx, adt, tsfn, cffn, sh, model, live):
    F = ctx.F
    news = fn_by(F, lambda p, b: adt.split("::")[-1] in F.tys[b["locals"][0]]["s"] and tyname(F, b["locals"][0]) == RESULT and
                 any("CSVInputConfig" in tyname(F, t) for t in b["locals"][1:b["argc"] + 1]))
    if len(news) != 1:
        ctx.undecided("the constructor of the CSV source (%d)" % len(news))
        return
    p = news[0]
    b = F.body(p)
    cfgp = next(i for i, t in enumerate(b["locals"][1:b["argc"] + 1]) if "CSVInputConfig" in tyname(F, t))
    guess = fn_by(F, lambda q, b: q.startswith("util::csv_util::"))
    news_r = [q for q in F.bodies if q.startswith("util::reader::") and q.endswith("::new")]
    I, outs = ctx.explore(p, opaque=tuple(sorted(set(news_r) | set(tsfn) | set(cffn) | set(guess))))
    cfg = ("deref", ("p", cfgp))
    CFG = tyname(F, b["locals"][1 + cfgp])
    cdel = fld_of(I, cfg, "delimiter", CFG)
    chas = fld_of(I, cfg, "has_header", CFG)
    YNA = next((a for a in F.adts if a.endswith("YesNoAuto")), None)
    n = {"named": 0, "numbered": 0}
    done = set()
    for s, o in outs:
        if o[0] == "panic":
            fs = fetches(s.events())
            if o[1] in ("unwrap", "expect") and any(variants(I, s, e[4], OPTION) == {"None"} for e in fs):
                ctx.ob("new:empty", False, "text without a record ends in a panic", o[2])
            continue
        if o[0] != "ret":
            continue
        vr = variants(I, s, o[1], RESULT)
        fs = fetches(s.events())
        got = [variants(I, s, e[4], OPTION) for e in fs]
        vs = Vals(I, collect_loops(s.events()))
        passed_over(ctx, "new", vs.loops)
        if vr == {"Err"}:
            good = got == [{"None"}] or any(e[9] is not None and tyname(F, e[9]) == RESULT and variants(I, s, e[4], RESULT) == {"Err"} for e in calls(all_events(s.events())))
            good = good or any(v == {"Some"} and variants(I, s, payload(I, e[4], "Some"), RESULT) == {"Err"} for e, v in zip(fs, got))
            if not good:
                rec = record_of(I, fs[0]) if fs else None
                cs = vs.conds(s)
                hi = [next(i for i, t in enumerate(F.body(q)["locals"][1:]) if tyname(F, t) == HEADER) for q in cffn][0]
                try:
                    names = [fld_of(I, I.deep(s, e[3][hi]), "field_names", HEADER) for e in calls(s.events(), *cffn)]
                    good = rec is not None and any(proves(cs, add(vs.length(x, cs), C(1)), app("len", rec)) for x in names)
                except Unknown as e:
                    ctx.undecided("new: %s" % e)
                    continue
            ctx.ob("new:error", good, "an error needs a failed call, no record or an overlong one")
            continue
        if vr != {"Ok"}:
            continue
        src = payload(I, o[1], "Ok")
        me = src
        if me[0] != "adt":
            ctx.undecided("new: the source is not built in its constructor")
            continue

        def role(r):
            return me[3][sh.f[r][0]] if r in sh.f else None
        reader = role("reader")
        fetched(ctx, "new", I, s, fs, reader)
        row = role("row") if model == "M1" else role("opt")
        if got == [{"None"}]:
            ended = model == "M1" and role("flag") == ("b", not live) or model == "M2" and is_none(I, s, row)
            ctx.ob("new:empty", ended, "text without a record is an error or an empty source")
            continue
        ctx.ob("new:one-fetch", got == [{"Some"}], "one record is fetched (%d)" % len(fs))
        if got != [{"Some"}]:
            continue
        ctx.ob("new:fetch-error", variants(I, s, payload(I, fs[0][4], "Some"), RESULT) == {"Ok"}, "a record that cannot be read is an error", fs[0][5])
        rec = record_of(I, fs[0])
        if model == "M1":
            ctx.ob("new:live", role("flag") == ("b", live), "the source starts with a row to hand out (%s)" % show(role("flag")))
        else:
            ctx.ob("new:live", is_some(I, s, row), "the source starts with a row to hand out")
            row = payload(I, row, "Some")
        hd = role("header")
        names, types = fld_of(I, hd, "field_names", HEADER), fld_of(I, hd, "field_types", HEADER)
        cfs = [e for e in calls(s.events(), *cffn)]
        cfok = [payload(I, e[4], "Ok") for e in cfs]

        def own(a):
            return any(mentions(a, lambda t: t == x) for x in cfok) or mentions(a, lambda t: t == cfg)
        # settings of the reader
        st = settings(all_events(s.events()))
        flag = st["has_headers"][-1][3][1] if "has_headers" in st else TRUE
        for k in st:
            if k not in ("new", "delimiter", "has_headers", "trim", "flexible", "from_reader", "buffer_capacity"):
                ctx.ob("set:other", False, "the reader is set up with %s" % k, st[k][0][5])
        ctx.ob("set:flexible", "flexible" in st and st["flexible"][-1][3][1] == TRUE, "records may have different numbers of fields")
        tr = st["trim"][-1][3][1] if "trim" in st else None
        ctx.ob("set:trim", tr is not None and tr[0] == "adt" and tr[2] == "All", "white space around fields and names is removed")
        d = st["delimiter"][-1][3][1] if "delimiter" in st else None
        if is_some(I, s, cdel):
            ctx.ob("set:delimiter", d == payload(I, cdel, "Some"), "the delimiter given is used (%s)" % (show(d) if d else "none"))
        if YNA:
            vh = variants(I, s, chas, YNA)
            if vh == {"Yes"}:
                ctx.ob("set:header-yes", flag == TRUE or entails(I, s, flag), "with a header line announced, the first line is the header")
            elif vh == {"No"}:
                ctx.ob("set:header-no", flag == FALSE or entails(I, s, neg(flag)), "with no header line announced, the first line is a row")
        # what the path takes the flag for
        hs = [e[4] for e in calls(s.events()) if e[1].startswith(READER) and e[1].endswith("::has_headers")]
        says = {True if entails(I, s, x) else False if entails(I, s, neg(x)) else None for x in [flag] + hs} - {None}
        if len(says) > 1:
            continue
        with_header = says.pop() if says else None
        hrec = [payload(I, e[4], "Ok") for e in calls(s.events()) if e[1].startswith(READER) and e[1].endswith("::headers")]
        hrec = [h for h in hrec]
        if with_header is None:
            ctx.undecided("new: it is not seen whether there is a header line")
            continue
        base = hrec[-1] if with_header and hrec else rec
        if with_header:
            n["named"] += 1
            ctx.ob("new:header-line", bool(hrec), "the names come from the header line")
        else:
            n["numbered"] += 1
        try:
            nn = vs.length(names, vs.conds(s))
        except Unknown as e:
            ctx.undecided("new: %s" % e)
            continue
        cs = vs.conds(s)
        ctx.ob("new:names-length", lsame(nn, app("len", base)) or lsame(nn, app("len", ("deref", base))) or proves(cs, nn, app("len", base)) and proves(cs, app("len", base), nn),
               "there is one name per %s (%s)" % ("entry of the header line" if with_header else "field of the first record", show(nn)[:60]))
        try:
            nt = vs.length(types, cs)
            ctx.ob("new:types-length", lsame(nt, nn) or proves(cs, nt, nn) and proves(cs, nn, nt), "there is one type per name (%s)" % show(nt)[:60])
            s2 = vs.fork(s, [rel("Ge", J, C(0)), rel("Lt", J, nn)])
            for s3, v in vs.at(s2, types, J):
                ctx.ob("new:type", v[0] == "adt" and v[2] == "String", "every column is of text (%s)" % show(v)[:40])
            for s3, v in vs.at(s2, names, J):
                v = I.deep(s3, v)
                if with_header:
                    ok = v[0] == "sel" and bare(v[1]) == bare(base) and lsame(v[2], J)
                else:
                    ok = v[0] == "app" and v[1] == "cat" and v[2][0] == S("col_") and len(v[2]) == 2 and number(v[2][1])
                ctx.ob("new:name", ok, "column j is named %s (%s)" % ("by entry j of the header line" if with_header else "col_j", show(v)[:60]))
        except Unknown as e:
            ctx.undecided("new: %s" % e)
        if model == "M2" or row is not None:
            ctx.ob("new:overlong", proves(cs, app("len", rec), nn), "a record with more fields than columns is refused")
            same_row(ctx, "new", I, s, row, rec, tsfn, nn, vs, own, fs[0][5])
        for e in cfs:
            i = rec_param(F, cffn[0])
            ctx.ob("new:column", I.deep(s, e[3][i]) == rec, "column and format of the timestamp are looked for in the first record", e[5])
    for k, v in n.items():
        ctx.ob("new:paths", v > 0, "%d path(s): %s" % (v, k))


def bare(t):
    while t[0] in ("deref", "vref"):
        t = t[1]
    return t


def number(t):
    return t[0] == "app" and t[1] == "display" and lsame(t[2][0], J) or t == ("app", "to_string", (J,))


# ---------------------------------------------------------------- the settings
def config(ctx):
    F = ctx.F
    CFG = next((a for a in F.adts if a.endswith("::CSVInputConfig")), None)
    mk = fn_by(F, lambda p, b: CFG and "CSVInputConfig" in F.tys[b["locals"][0]]["s"] and tyname(F, b["locals"][0]) == RESULT and b["argc"] == 3 and
               "Option<" in F.tys[b["locals"][1]]["s"])
    pd = fn_by(F, lambda p, b: b["argc"] == 1 and "Result<u8" in F.tys[b["locals"][0]]["s"])
    if len(mk) != 1:
        ctx.undecided("the constructor of the CSV input settings")
        return
    I, outs = ctx.explore(mk[0])
    given = ("p", 0)
    n = 0
    for s, o in outs:
        if o[0] != "ret" or "Ok" not in variants(I, s, o[1], RESULT):
            if o[0] == "ret":
                ctx.ob("config:error", is_some(I, s, given), "settings without a delimiter are accepted")
            continue
        c = payload(I, o[1], "Ok")
        d = fld_of(I, c, "delimiter", CFG)
        if is_none(I, s, given):
            ctx.ob("config:no-delimiter", is_none(I, s, d), "without a delimiter given there is none in the settings")
        else:
            n += 1
            text = payload(I, given, "Some")
            d = payload(I, d, "Some")
            ctx.ob("config:delimiter", delimiter(I, s, d, text), "the delimiter is the one character given, or a tab for \\t (%s)" % show(d)[:60])
        for k, i in (("has_header", 1), ("timestamp_config", 2)):
            ctx.ob("config:" + k, fld_of(I, c, k, CFG) == ("p", i), "%s is kept as given" % k)
    ctx.ob("config:paths", n > 0, "%d path(s) with a delimiter given" % n)


def delimiter(I, s, d, text):
    t = ("deref", text)
    tab = [c for c in s.conds() if c[0] == "app" and c[1] == "streq"]
    istab = any(c[2][1] == S("\\t") and bare(c[2][0]) == bare(text) or c[2][0] == S("\\t") and bare(c[2][1]) == bare(text) for c in tab)
    if d == C(9) and istab:
        return True
    nottab = any(c[0] == "not" and c[1][0] == "app" and c[1][1] == "streq" and S("\\t") in c[1][2] for c in s.conds())
    one = any(entails(I, s, rel("Eq", app("len", x), C(1))) for x in (t, text))
    if not one or istab:
        return False
    if d[0] == "sel" and d[2] == C(0) and mentions(d, lambda x: x == text):
        return True
    if d[0] == "app" and d[1] == "as:u8" and d[2][0][0] == "app" and d[2][0][1] == "elem" and d[2][0][2][1] == C(0):
        # one byte long and so one ASCII character
        return mentions(d, lambda x: x == ("app", "chars", (t,)) or x == ("app", "chars", (text,)) or x == ("app", "bytes", (t,)))
    return False


def run(ctx):
    F = ctx.F
    adt, p = source_type(ctx)
    if adt is None:
        ctx.undecided("no source that reads by the csv reader")
        return
    ts, cf = ts_functions(F)
    if not ts or not cf:
        ctx.undecided("the functions that find the timestamp (%d, %d)" % (len(ts), len(cf)))
        return
    ts = ts[:1] if len(ts) == 1 else ts
    r = rows(ctx, adt, p, ts)
    if r:
        constructor(ctx, adt, ts, cf, *r)
    config(ctx)
