"""C21: the time of a row is read from the column and in the format asked for, or from the one found."""
import itertools
from vecs import *
from c15 import tyname, fn_by
from c17 import ts_functions, bare
from c18 import cname, got, same, strip_str
from c19 import TermScan
from firstmatch import is_opt

RULE = ("The function that settles the timestamp's column and format for a file is explored once for every kind of column asked for and every "
        "kind of format. A position, a name, a pair, units or a format given has to come out as it went in (a name: the first column of that "
        "name; a pair: in order; two formats: joined as the two columns' text is). Without a column, the loop over the header is decided by "
        "what each of its paths notes for which names: the paths' conditions are evaluated for witness names of every class the documented "
        "order of preference distinguishes, one variable per class keeps the first column of it, and the choice among them is compared with "
        "that order for every combination of classes present. A format found has to be one the first row's text parses in, on that path, of "
        "the kind without loss; units have to follow from the range of the number; an error needs its reason.")
TECHNIQUE = "path exploration per configuration, loop invariants by name classes, interval entailment"
LIMITS = "What text chrono's formats accept is taken from it. A search for columns not written as one loop over the header is left undecided."

E9 = 1000000000
SCALE = {"Seconds": E9, "Millis": 1000000, "Micros": 1000, "Nanos": 1}
WORD = {"seconds": "Seconds", "millis": "Millis", "micros": "Micros", "nanos": "Nanos"}
SINGLE = ("%+", "%Y%m%d.%H%M%S", "%Y%m%d %H%M%S", "%Y%m%d %H:%M:%S", "%Y/%m/%d-%H:%M:%S", "%Y%m%d")
JOINED = ("%Y%m%d#%H%M%S%3f", "%Y%m%d#%H%M%S", "%Y%m%d#%H:%M:%S", "%Y%m%d#%-H:%M")
KIND = {"DateTimeIncludesTz": "own", "DateTimeNeedsExternalTz": "dt", "DateNeedsExternalTz": "date"}
WHAT = {"own": "a date and time with its zone", "dt": "a date and time", "date": "a date"}
FALSE, TRUE = ("b", False), ("b", True)
CLASSES = ("TU", "D", "T", "PTU", "PD", "PT")


def kind_of(f):
    """what a format reads, as documented for chrono"""
    if "%+" in f or "%z" in f or "%:z" in f or "%#z" in f:
        return "own"
    return "dt" if any("%" + x in f for x in ("H", "-H", "_H", "I", "T", "R", "X", "k", "s", "c")) else "date"


def parser(t):
    """(kind, text, format) of a call that reads a date"""
    if cname(t) != "parse_from_str":
        return None
    k = "dt" if "NaiveDateTime" in t[1] else "date" if "NaiveDate" in t[1] else "own" if "DateTime" in t[1] else None
    return (k, t[2][0], t[2][1]) if k and len(t[2]) == 2 else None


# ---------------------------------------------------------------- names
def witnesses():
    toks = ["x", "time", "date", "seconds", "millis", "micros", "nanos", "_"]
    out = []
    for n in (1, 2, 3):
        for c in itertools.product(toks, repeat=n):
            out.append("".join(c))
    out += ["timestamp", "tim", "dat", "times", "updated", ""]
    out += [a + b + c for a in ("x ", "x-", "x y ", "x.", "0") for b in ("date", "time") for c in ("", "seconds", "micros", " nanos", " ")]
    up = [w.title() for w in out if len(w) < 16] + [w.upper() for w in out if len(w) < 12]
    return list(dict.fromkeys(out + up))


def classify(w):
    """(class, unit or None, prefix or None) in the documented order of preference"""
    l = w.lower()
    if l == "time":
        return ("T", None, None)
    if l == "date":
        return ("D", None, None)
    if l.startswith("time"):
        return ("TU", WORD[l[4:]], None) if l[4:] in WORD else (None, None, None)
    if l.endswith("date"):
        return ("PD", None, l[:-4])
    if l.endswith("time"):
        return ("PT", None, l[:-4])
    if "time" in l:
        a, _, b = l.rpartition("time")
        return ("PTU", WORD[b], a) if b in WORD else (None, None, None)
    return (None, None, None)


def fold(t, m):
    """a term with texts put in for some of its parts, evaluated as far as possible"""
    if not isinstance(t, tuple) or not t or not isinstance(t[0], str):
        return t
    b = bare(t)
    if b in m:
        return m[b]
    if b[0] in ("c", "b", "s", "ch", "y", "p", "lv", "res"):
        return b
    if b[0] == "not":
        return neg(fold(b[1], m))
    if b[0] == "rel":
        x, y = fold(b[1], m), fold(b[2], m)
        if x[0] == "s" and y[0] == "s":
            return ("b", ("eq" if x[1] == y[1] else "lt" if x[1] < y[1] else "gt") in b[3])
        if is_c(x) and is_c(y):
            return ("b", ("eq" if x[1] == y[1] else "lt" if x[1] < y[1] else "gt") in b[3])
        return rel(b[3], x, y)
    if b[0] != "app":
        return tuple(fold(x, m) if isinstance(x, tuple) else x for x in b)
    f, a = b[1], tuple(fold(x, m) for x in b[2])
    n = f.rsplit("::", 1)[-1]
    if a and a[0][0] == "s":
        x = a[0][1]
        y = a[1][1] if len(a) > 1 and a[1][0] in ("s", "ch") else None
        if n in ("to_lowercase", "to_ascii_lowercase"):
            return S(x.lower())
        if n in ("to_uppercase", "to_ascii_uppercase"):
            return S(x.upper())
        if f in ("len",) or n == "len":
            return C(len(x))
        if n == "is_empty":
            return ("b", not x)
        if n in ("to_string", "to_owned", "as_str", "clone", "trim_") and len(a) == 1:
            return a[0]
        if n in ("trim", "trim_start", "trim_end") and len(a) == 1:
            return S({"trim": x.strip, "trim_start": x.lstrip, "trim_end": x.rstrip}[n]())
        if y is not None:
            if f in ("streq", "eqic"):
                return ("b", x == y if f == "streq" else x.lower() == y.lower())
            if f in ("starts_with", "ends_with", "contains"):
                return ("b", getattr(x, {"starts_with": "startswith", "ends_with": "endswith", "contains": "__contains__"}[f])(y))
            if f in ("before", "after", "rbefore", "rafter"):
                p = x.rpartition(y) if f[0] == "r" else x.partition(y)
                return S(p[2 if f.endswith("after") else 0])
            if f == "cat" and all(z[0] == "s" for z in a):
                return S("".join(z[1] for z in a))
        if f == "slice" and len(a) == 3 and is_c(a[1]) and is_c(a[2]):
            return S(x[a[1][1]:a[2][1]])
    if f == "+" and all(is_c(x) for x in a):
        return C(sum(x[1] for x in a))
    if f == "-" and all(is_c(x) for x in a) and len(a) == 2:
        return C(a[0][1] - a[1][1])
    if f == "+":
        r = C(0)
        for x in a:
            r = add(r, x)
        return r
    if f == "-" and len(a) == 2:
        return sub(a[0], a[1])
    return ("app", f, a)


# ---------------------------------------------------------------- one configuration
class Set:
    """the paths of the function for one kind of column and one kind of format"""

    def __init__(self, ctx, top, idx, cols, fmts, cv, fv):
        self.ctx, self.F, self.top = ctx, ctx.F, top
        self.cv, self.fv = cv, fv
        self.key = "%s/%s" % (cv["name"], fv["name"])
        self.given = {}
        args = [("p", i) for i in range(ctx.F.body(top)["argc"])]
        for what, adt, v, i in (("col", cols, cv, idx["col"]), ("fmt", fmts, fv, idx["fmt"])):
            xs = tuple(("app", "given", (S(what), C(j))) for j in range(len(v["fields"])))
            self.given[what] = xs
            args[i] = ("vref", ("adt", adt, v["name"], xs))
        self.I, self.outs = ctx.explore(top, args=args)
        I = self.I
        self.row = ("deref", ("p", idx["row"]))
        H = next(a for a in ctx.F.adts if a.endswith("chopper::types::Header"))
        self.names = fld_of(I, ("deref", ("p", idx["header"])), "field_names", H)
        tz = ("deref", ("p", idx["tz"]))
        TZ = next(a for a in ctx.F.adts if a.endswith("::ChopperTz"))
        self.tz = fld_of(I, tz, ctx.F.adts[TZ]["variants"][0]["fields"][0][0], TZ)

    def text(self, ix):
        xs = [strip_str(self.I.sel(self.row, i)) for i in ix]
        return xs[0] if len(xs) == 1 else ("app", "cat", (xs[0], S("#"), xs[1]))


def columns(col):
    """the positions in a column setting"""
    return tuple(bare(x) for x in col[3]) if col[0] == "adt" and col[2] in ("Index", "DateTimeIndex") else None


def first_of(ctx, k, s, name):
    """the columns found by name on a path"""
    I = k.I

    def pred(f):
        if f[0] == "rel" and f[3] - {"un"} == {"eq"} or f[0] == "app" and f[1] == "streq":
            xs = [bare(x) for x in (f[2] if f[0] == "app" else f[1:3])]
            if bare(name) in xs:
                o = [x for x in xs if x != bare(name)]
                return o[0] if len(o) == 1 else None
        return None
    return TermScan(ctx, I, s, s.events(), pred)


def column(ctx, k, s, col):
    """the column on a path that succeeds is the one asked for"""
    I, key, given = k.I, "column:" + k.cv["name"], k.given["col"]
    ix = columns(col)
    v = k.cv["name"]
    want = {"Index": "Index", "Name": "Index"}.get(v, "DateTimeIndex")
    if ix is None or col[2] != want:
        ctx.ob(key, False, "%s column is what was asked for (%s)" % ("one" if want == "Index" else "a date and a time", show(col)[:60]), k.top)
        return
    if v in ("Index", "DateTimeIndex"):
        ctx.ob(key, ix == given, "positions given are the columns read, in their order (%s)" % show(col)[:60], k.top)
        return
    for n, (i, name) in enumerate(zip(ix, given)):
        r = first_of(ctx, k, s, name).accepted(I.sel(k.names, i))
        ctx.ob(key, not isinstance(r, str) and bare(r[1]) == bare(k.names), "the %scolumn is the first one of the name given%s" %
               (("date ", "time ")[n] if len(ix) == 2 else "", " (%s)" % r if isinstance(r, str) else ""), k.top)


# ---------------------------------------------------------------- the first row
def known(k, s, t):
    """parsers tried on a path: {(kind, text, format): variants of the result}"""
    out = {}
    for c in s.conds():
        for x in subterms(c):
            p = parser(x)
            if p:
                out[(p[0], strip_str(p[1]), strip_str(p[2]))] = frozenset(variants(k.I, s, x, RESULT))
    return out


def numbers(k, s, text):
    """[(integer, parse result)] read from a text"""
    out = []
    for c in s.conds():
        for x in subterms(c):
            if x[0] == "app" and x[1].endswith("<impl str>::parse") and strip_str(x[2][0]) == text and x not in out:
                out.append(x)
    return out


def zone_fails(k, s, text):
    """a date of this text is not one moment in the zone"""
    I = k.I
    if is_none(I, s, k.tz):
        return any(v == {"Ok"} and p[1] == text and p[0] != "own" for p, v in known(k, s, text).items())
    for e in calls(s.events()):
        if e[1].split("::")[-1] in ("from_local_datetime", "and_local_timezone"):
            lo, hi, ne = I.rng(s, I.discr_of(e[4]))
            if not (lo == hi == 0) and mentions(e[4], lambda t: strip_str(t) == text):
                return True
    return False


def missing(k, s):
    """a column that the row does not have"""
    n = app("len", k.row)
    return any(c[0] == "rel" and n in (c[1], c[2]) and entails(k.I, s, rel("Ge", c[1] if c[2] == n else c[2], n)) for c in s.conds())


def explicit(ctx, k, s, fmt, text, f):
    """a format given: kept, and of the fullest kind the first row's text has in it"""
    key = "format:" + k.fv["name"]
    tried = known(k, s, text)
    kind = KIND.get(fmt[2])
    if kind is None:
        ctx.ob(key, False, "a format given is the one used (%s)" % show(fmt)[:60], k.top)
        return
    x = strip_str(fmt[3][0])
    ctx.ob(key, x == f, "a format given is the one used (%s)" % show(x)[:60], k.top)
    ctx.ob(key + ":kind", tried.get((kind, text, f)) == {"Ok"}, "the text of the first row is %s in it" % WHAT[kind], k.top)
    for other in ("own", "dt", "date")[:("own", "dt", "date").index(kind)]:
        ctx.ob(key + ":fullest", tried.get((other, text, f)) == {"Err"}, "it is not read as %s if it is %s" % (WHAT[kind], WHAT[other]), k.top)


def found(ctx, k, s, fmt, text):
    """a format found fits the first row"""
    key = "found"
    tried = known(k, s, text)
    if fmt[2] == "Units":
        u = fmt[3][0]
        if u[0] != "adt":
            ctx.undecided("found: units %s" % show(u)[:60])
            return
        lo, hi = 630000000 * E9 // SCALE[u[2]], 2000000000 * E9 // SCALE[u[2]]
        ok = False
        for x in numbers(k, s, text):
            n = payload(k.I, x, "Ok")
            ok = ok or variants(k.I, s, x, RESULT) == {"Ok"} and entails(k.I, s, rel("Ge", n, C(lo))) and entails(k.I, s, rel("Lt", n, C(hi)))
        ctx.ob("found:units:" + u[2], ok, "a number counts in %s exactly if that lies between 1989-12 and 2033-05" % u[2].lower(), k.top)
        return
    kind = KIND.get(fmt[2])
    f = bare(fmt[3][0])
    if kind is None or f[0] != "s":
        ctx.undecided("found: format %s" % show(fmt)[:60])
        return
    ctx.ob("found:fits", tried.get((kind, text, f)) == {"Ok"}, "the text of the first row is %s in format %s" % (WHAT[kind], f[1]), k.top)
    ctx.ob("found:kind", kind_of(f[1]) == kind, "%s stands for %s" % (f[1], WHAT[kind_of(f[1])]), k.top)


def refuses_digits(c, text):
    """no digit in the text satisfies the condition: the text is not all digits"""
    els = {x for x in subterms(c) if (x[0] == "sel" or x[:2] == ("app", "elem")) and mentions(x, lambda t: t[0] == "app" and t[1] in ("chars", "bytes", "as_bytes") and strip_str(t[2][0]) == text)}
    if len(els) != 1:
        return False
    el, = els

    def ev(t):
        if t == el:
            return d
        if t[0] == "ch":
            return ord(t[1])
        if is_c(t) or t[0] == "b":
            return t[1]
        if t[0] == "not":
            x = ev(t[1])
            return None if x is None else not x
        if t[0] == "rel":
            x, y = ev(t[1]), ev(t[2])
            return None if x is None or y is None else ("eq" if x == y else "lt" if x < y else "gt") in t[3]
        if t[0] in ("deref", "vref"):
            return ev(t[1])
        if t[0] == "app" and t[1].rsplit("::", 1)[-1] in ("is_ascii_digit", "is_numeric", "is_digit") and ev(t[2][0]) == d:
            return True
        return None
    for d in range(48, 58):
        if ev(c) is not False:
            return False
    return True


def none_fits(ctx, k, s, text, joined):
    """None if no documented format fits, else one that may"""
    tried = known(k, s, text)
    for f in JOINED if joined else SINGLE:
        if tried.get((kind_of(f), text, S(f))) != {"Err"}:
            return f
    if joined:
        return None
    I = k.I
    xs = numbers(k, s, text)
    for x in xs:
        if variants(I, s, x, RESULT) == {"Err"}:
            return None
        n = payload(I, x, "Ok")
        for u, c in SCALE.items():
            s2 = s.fork()
            if I.assume(s2, rel("Ge", n, C(630000000 * E9 // c)), True) and I.assume(s2, rel("Lt", n, C(2000000000 * E9 // c)), True):
                return "a number of " + u.lower()
        return None
    digit = any(refuses_digits(c, text) for c in s.conds())
    return None if digit else "a number"


def error(ctx, k, s, texts):
    """why a path may fail"""
    if k.cv["name"] in ("Name", "DateTimeName"):
        for name in k.given["col"]:
            if any(bare(W) == bare(k.names) for a, W in first_of(ctx, k, s, name).exhausted()):
                ctx.ob("error:name", True, "a name that no column has is an error", k.top)
                return
    if k.fv["name"] == "Epoch":
        ctx.ob("error:epoch", False, "with units given, the first row is not asked", k.top)
        return
    if missing(k, s):
        ctx.ob("error:short", True, "a first row without the column is an error", k.top)
        return
    for t in texts:
        if zone_fails(k, s, t):
            ctx.ob("error:zone", True, "a date that is not one moment in the zone is an error", k.top)
            return
    if len(texts) != 1:
        ctx.undecided("%s: an error without a text read" % k.key)
        return
    t = texts[0]
    if k.fv["name"] == "Auto":
        f = none_fits(ctx, k, s, t, t[0] == "app" and t[1] == "cat")
        ctx.ob("error:found", f is None, "text in a usual format is recognised%s" % (": " + f if f else ""), k.top)
    else:
        f = wanted(k)
        tried = known(k, s, t)
        ctx.ob("error:explicit", all(tried.get((x, t, f)) == {"Err"} for x in ("own", "dt", "date")), "only text that is not in the format given is refused", k.top)


def wanted(k):
    g = k.given["fmt"]
    return g[0] if len(g) == 1 else ("app", "cat", (g[0], S("#"), g[1]))


# ---------------------------------------------------------------- the name of a column asked for tells its units
def hint(k, s):
    """units that the name of the column asked for stands for: (set of units a name fitting the path has, whether one has none)"""
    I = k.I
    if k.cv["name"] == "Name":
        el = bare(k.given["col"][0])
        may = True
    elif k.cv["name"] == "Index":
        g = k.given["col"][0]
        el = bare(I.sel(k.names, g))
        n = app("len", k.names)
        if entails(I, s, rel("Ge", g, n)):
            return set(), True
        may = entails(I, s, rel("Lt", g, n))
    else:
        return set(), True
    us, without = set(), not may
    cs = [c for c in s.conds() if mentions(c, lambda t: bare(t) == el)]
    for w in ["x" + "".join(c) for n in (0, 1, 2) for c in itertools.product(["x", "time", "seconds", "millis", "micros", "nanos"], repeat=n)]:
        if w.endswith(("milliseconds", "microseconds", "nanoseconds", "millisseconds", "microsseconds", "nanosseconds")):
            continue
        if any(fold(c, {el: S(w)}) == FALSE for c in cs):
            continue
        u = [WORD[x] for x in WORD if w.endswith(x)]
        if u:
            us.add(u[0])
        else:
            without = True
    return us, without


# ---------------------------------------------------------------- no column asked for
class Ladder:
    """what the loop over the header notes, and what follows from it"""

    def __init__(self, ctx, k):
        self.ctx, self.k = ctx, k
        self.roles = {}      # class -> (variable, {part: selector})
        self.loop = None

    def find(self):
        ctx, k, I = self.ctx, self.k, self.k.I
        loops = {}
        for s, o in k.outs:
            for L in collect_loops(s.events()).values():
                if any(is_opt(v) for v in L["init"].values()) and any(mentions(c, lambda t: bare(t) == bare(k.names)) for it in L["iters"] for c in it["conds"]):
                    loops[L["id"]] = L
        if len(loops) != 1:
            raise Unknown("%d loops over the header look for the timestamp's columns" % len(loops))
        self.loop, = loops.values()

    def scan(self):
        """the classes of names the variables stand for"""
        ctx, k, I, L = self.ctx, self.k, self.k.I, self.loop
        vs = Vals(I, {L["id"]: L})
        cnt = [(q, b) for q, b, bs in vs.counters(L) if b == C(0)]
        n = app("len", k.names)
        sym = cnt[0][0] if cnt else next((sub(n, v) for v, x in L["init"].items() if lsame(x, n) and L["iters"] and
                                          all(lsame(it["next"].get(v, v), sub(v, C(1))) for it in L["iters"])), None)
        if sym is None:
            raise Unknown("the counter of the loop over the header")
        ixs = {x[2] for it in L["iters"] for c in it["conds"] for x in subterms(c) if x[0] == "sel" and bare(x[1]) == bare(k.names)}
        if len(ixs) != 1:
            raise Unknown("the loop over the header looks at %d columns at once" % len(ixs))
        ix = ixs.pop()
        up = lsame(ix, sym)
        if not up and not lsame(ix, sub(sub(n, C(1)), sym)):
            raise Unknown("the order of the loop over the header (%s)" % show(ix)[:60])
        self.done = rel("Ge", sym, n) if cnt else next(rel("Le", v, C(0)) for v in L["init"] if lsame(sym, sub(n, v)))
        el = bare(I.sel(k.names, ix))
        opts = [v for v, x in L["init"].items() if is_opt(x) and x[2] == "None"]
        rows = []
        for it in L["iters"]:
            cs = [c for c in it["conds"] if mentions(c, lambda t: bare(t) == el)]
            ch = {v: it["next"].get(v) for v in opts if it["next"].get(v) not in (None, v, some(payload(I, v, "Some")))}
            if any(not (is_opt(x) and x[2] == "Some") for x in ch.values()):
                raise Unknown("what the loop over the header notes")
            rows.append((it, cs, ch))
        owner, parts, fits, first = {}, {}, {}, {}
        wit = witnesses()
        for w in wit:
            m = {el: S(w)}
            K, unit, prefix = classify(w)
            hits = []
            for it, cs, ch in rows:
                f = [fold(c, m) for c in cs]
                if FALSE in f:
                    continue
                if any(x != TRUE and not self.guard(x, opts) for x in f):
                    raise Unknown("the condition on a name: %s" % show([x for x in f if x != TRUE][0])[:100])
                hits.append((it, ch))
            fits[w] = hits
            for it, ch in hits:
                for v, x in ch.items():
                    owner.setdefault(v, {}).setdefault(K, w)
        for v, c in owner.items():
            if len(c) > 1 or None in c:
                a = sorted((str(x), y) for x, y in c.items())
                ctx.ob("auto:class", False, "columns are told apart by their names as documented (%s)" % ", ".join('"%s"' % y for x, y in a[:3]), k.top)
                return False
        of = {}
        for v, c in owner.items():
            of.setdefault(next(iter(c)), []).append(v)
        good = True
        for K in CLASSES:
            good = ctx.ob("auto:class:" + K, len(of.get(K, [])) == 1, "the columns \"%s\" are noted" %
                          {"TU": "timeMillis", "D": "date", "T": "time", "PTU": "xTimeMillis", "PD": "xDate", "PT": "xTime"}[K], k.top) and good
        if not good:
            return False
        sel_ = {}
        for w in wit:
            K, unit, prefix = classify(w)
            m = {el: S(w)}
            for it, ch in fits[w]:
                mine = of[K][0] if K else None
                if mine is None:
                    ctx.ob("auto:none", not ch, "a column \"%s\" is not taken for the timestamp's" % w, k.top)
                    continue
                if up:
                    st = it["st"]
                    ok = is_none(I, st, mine) and set(ch) == {mine} or is_some(I, st, mine) and not ch
                else:
                    ok = set(ch) == {mine}
                if not ctx.ob("auto:first", ok, "the first column of a kind is noted, and nothing else (\"%s\")" % w, k.top):
                    return False
                if not ch:
                    continue
                for part, p in self.parts(ch[mine][3][0], ()):
                    if lsame(p, ix) if p[0] not in ("adt", "s") else False:
                        sel_.setdefault(K, {}).setdefault("ix", set()).add(part)
                    elif p[0] == "adt":
                        ctx.ob("auto:unit", unit is not None and p[2] == unit, "the name's unit is noted (\"%s\": %s)" % (w, p[2]), k.top)
                        sel_.setdefault(K, {}).setdefault("unit", set()).add(part)
                    else:
                        t = fold(p, m)
                        if t == S(prefix or ""):
                            sel_.setdefault(K, {}).setdefault("prefix", set()).add(part)
                        else:
                            sel_.setdefault(K, {}).setdefault("other", set()).add(part)
        for K in CLASSES:
            d = sel_.get(K, {})
            need = ["ix"] + (["unit"] if K in ("TU", "PTU") else []) + (["prefix"] if K in ("PD", "PT") else [])
            bad = d.get("other", set()) & d.get("prefix", set())
            if not ctx.ob("auto:noted:" + K, all(len(d.get(x, ())) == 1 for x in need) and not bad, "position%s of the column %s noted" %
                          ({"TU": " and unit", "PTU": " and unit", "PD": " and prefix", "PT": " and prefix"}.get(K, ""), "are" if len(need) > 1 else "is"), k.top):
                return False
            self.roles[K] = (of[K][0], {x: next(iter(d[x])) for x in need})
        return True

    @staticmethod
    def guard(x, opts):
        return any(t in opts for t in subterms(x)) and not any(t[0] == "s" for t in subterms(x))

    def parts(self, t, at):
        if t[0] == "tup":
            for j, x in enumerate(t[1]):
                yield from self.parts(x, at + (j,))
        else:
            yield at, t

    def part(self, K, what):
        v, d = self.roles[K]
        t = payload(self.k.I, v, "Some")
        for j in d[what]:
            t = self.k.I.rd_proj(t, ("f", j, str(j)))
        return t

    def check(self, s, col, units):
        """the column chosen, for every combination of columns that may be there; units: the one the name tells, None for none, False if not asked"""
        ctx, k, I = self.ctx, self.k, self.k.I
        ctx.ob("auto:all", entails(I, s, self.done), "all columns are looked at", k.top)
        P = {K: self.part(K, "ix") for K in CLASSES}
        ix = columns(col)
        if ix is None:
            ctx.undecided("auto: column %s" % show(col)[:60])
            return
        a, b = self.part("PD", "prefix"), self.part("PT", "prefix")
        e = None
        for t in (rel("Eq", a, b), app("streq", a, b), app("streq", b, a)):
            e = True if entails(I, s, t) else False if entails(I, s, neg(t)) else e
        for combo in itertools.product((False, True), repeat=len(CLASSES)):
            has = dict(zip(CLASSES, combo))
            if any(is_none(I, s, self.roles[K][0]) if h else is_some(I, s, self.roles[K][0]) for K, h in has.items()):
                continue
            for eq in ((False, True) if has["PD"] and has["PT"] else (False,)):
                if has["PD"] and has["PT"] and e is not None and e != eq:
                    continue
                u = None
                if has["TU"]:
                    want, u = (P["TU"],), self.part("TU", "unit")
                elif has["D"] and has["T"]:
                    want = (P["D"], P["T"])
                elif has["D"] or has["T"]:
                    want = (P["D" if has["D"] else "T"],)
                elif has["PTU"]:
                    want, u = (P["PTU"],), self.part("PTU", "unit")
                elif has["PD"] and has["PT"] and eq:
                    want = (P["PD"], P["PT"])
                elif has["PD"] or has["PT"]:
                    want = (P["PD" if has["PD"] else "PT"],)
                else:
                    want = (C(0),)
                there = [{"TU": "timeMillis", "D": "date", "T": "time", "PTU": "xTimeMillis", "PD": "aDate", "PT": "aTime" if eq else "bTime"}[K] for K in CLASSES if has[K]]
                names = ", ".join(there) or "no such column"
                ctx.ob("auto:order", tuple(map(bare, want)) == ix and (col[2] == "Index") == (len(want) == 1),
                       "with %s the columns are chosen in the order documented" % names, k.top)
                if units is not False:
                    ctx.ob("auto:units", (units is None) == (u is None) and (u is None or bare(u) == bare(units)), "with %s the units are those of the name" % names, k.top)


# ---------------------------------------------------------------- the rule
def run(ctx):
    F = ctx.F
    _, cf = ts_functions(F)
    if len(cf) != 1:
        ctx.undecided("%d functions settle the timestamp's column and format" % len(cf))
        return
    top = cf[0]
    b = F.body(top)
    ps = [tyname(F, t) for t in b["locals"][1:b["argc"] + 1]]

    def par(end):
        i = [i for i, t in enumerate(ps) if t.endswith(end)]
        return i[0] if len(i) == 1 else None
    idx = {"col": par("::TimestampColConfig"), "fmt": par("::TimestampFmtConfig"), "row": par("StringRecord"), "header": par("types::Header"), "tz": par("::ChopperTz")}
    if None in idx.values():
        ctx.undecided("the parameters of " + top)
        return
    cols, fmts = ps[idx["col"]], ps[idx["fmt"]]
    n = {}
    for cv in F.adts[cols]["variants"]:
        for fv in F.adts[fmts]["variants"]:
            if cv["name"] not in ("Auto", "Index", "Name", "DateTimeIndex", "DateTimeName") or fv["name"] not in ("Auto", "Epoch", "Explicit", "DateTimeExplicit"):
                ctx.undecided("a kind of setting not known: %s, %s" % (cv["name"], fv["name"]))
                continue
            one(ctx, Set(ctx, top, idx, cols, fmts, cv, fv), n)
    for what in ("column", "found", "hint", "explicit", "epoch", "auto"):
        if not n.get(what) and ctx.undec:
            continue
        ctx.ob("paths:" + what, n.get(what, 0) > 0, "%d path(s): %s" % (n.get(what, 0), what), top)


def one(ctx, k, n):
    I = k.I
    lad = None
    if k.cv["name"] == "Auto":
        lad = Ladder(ctx, k)
        try:
            lad.find()
            if not lad.scan():
                lad = None
        except Unknown as e:
            ctx.undecided("auto: %s" % e)
            lad = None
    for s, o in k.outs:
        if o[0] == "panic":
            if any(proves(s.conds(), add(a, C(1)), b) for a, b in bounds(s)):
                continue
            ctx.undecided("%s: a panic (%s at %s) may be reached" % (k.key, o[1], o[2]))
            continue
        if o[0] != "ret":
            continue
        r = I.deep(s, o[1])
        v = variants(I, s, r, RESULT)
        if v == {"Err"}:
            texts = list(dict.fromkeys(p[1] for p in known(k, s, None)))
            if not texts:
                texts = list(dict.fromkeys(strip_str(x[2][0]) for c in s.conds() for x in subterms(c) if x[0] == "app" and x[1].endswith("<impl str>::parse")))
            error(ctx, k, s, texts)
            if lad is not None and len(texts) == 1:
                col = read(k, texts[0])
                if col is not None:
                    lad.check(s, col, None if k.fv["name"] == "Auto" else False)
            continue
        p = payload(I, r, "Ok") if v == {"Ok"} else None
        if p is None or p[0] != "tup" or len(p[1]) != 2:
            ctx.undecided("%s: the result %s" % (k.key, show(r)[:60]))
            continue
        col, fmt = bare(I.deep(s, p[1][0])), bare(I.deep(s, p[1][1]))
        ix = columns(col)
        if ix is None or fmt[0] != "adt":
            ctx.undecided("%s: the result %s" % (k.key, show(r)[:80]))
            continue
        text = k.text(ix)
        fv = k.fv["name"]
        if k.cv["name"] != "Auto":
            n["column"] = n.get("column", 0) + 1
            column(ctx, k, s, col)
        read_row = any(q[1] == text for q in known(k, s, text))
        if k.cv["name"] == "Auto" and lad is not None:
            n["auto"] = n.get("auto", 0) + 1
            lad.check(s, col, False if fv != "Auto" else None if read_row or fmt[2] != "Units" else fmt[3][0])
        if fv == "Epoch":
            n["epoch"] = n.get("epoch", 0) + 1
            ctx.ob("format:Epoch", fmt[2] == "Units" and bare(fmt[3][0]) == k.given["fmt"][0], "units given are the ones used (%s)" % show(fmt)[:60], k.top)
        elif fv != "Auto":
            n["explicit"] = n.get("explicit", 0) + 1
            explicit(ctx, k, s, fmt, text, wanted(k))
        else:
            us, without = hint(k, s)
            for u in sorted(us):
                n["hint"] = n.get("hint", 0) + 1
                ctx.ob("hint", fmt[2] == "Units" and fmt[3][0][0] == "adt" and fmt[3][0][2] == u, "a column asked for whose name ends in %s counts in them" %
                       {v: w for w, v in WORD.items()}[u], k.top)
            if without and not (k.cv["name"] == "Auto" and fmt[2] == "Units" and not read_row):
                n["found"] = n.get("found", 0) + 1
                found(ctx, k, s, fmt, text)


def bounds(s):
    """(a, b): a path has a >= b"""
    for c in s.conds():
        if c[0] == "rel" and c[3] <= {"gt", "eq"}:
            yield c[1], c[2]
        if c[0] == "rel" and c[3] <= {"lt", "eq"}:
            yield c[2], c[1]


def read(k, text):
    """the column setting a text stands for"""
    def pos(t):
        return t[2] if t[0] == "sel" and bare(t[1]) == bare(k.row) else None
    if text[0] == "app" and text[1] == "cat":
        xs = [pos(bare(x)) for x in text[2] if bare(x)[0] == "sel"]
        return ("adt", "", "DateTimeIndex", tuple(xs)) if len(xs) == 2 and None not in xs else None
    x = pos(bare(text))
    return ("adt", "", "Index", (x,)) if x is not None else None
