"""C20: every option of the command line sets what it documents."""
import itertools
from vecs import *
from vecs import _row
from c15 import tyname, fn_by

RULE = ("The declaration of the command line is evaluated to its table of options: long and short name, value or flag, values accepted (in "
        "which case), default, and which options require or exclude which. The functions that turn the parsed arguments into settings are "
        "followed on every path, and each path is evaluated for every combination of values of the options concerned that the table accepts: "
        "the setting must be the one documented for these values, and no path that panics may be open to a combination accepted. "
        "Exclusions and requirements must refuse the contradictions named. For formats and inputs, the lists that the loops build are decided "
        "element by element: input j has to be opened with format min(j, last), detection for \"auto\" or none.")
TECHNIQUE = "abstract evaluation of the option table, path-by-path evaluation of option readers over the accepted values, loop summaries"
LIMITS = ("How clap itself applies the table (parsing, usage errors) is taken from its documentation. An option table built by loops or macros "
          "that do not end in a chain of calls is left undecided.")

ARG = "clap::args::arg::Arg::"
FREE, FLAG, LIST = "value", "flag", "list"
UNITS = {"s": "Seconds", "ms": "Millis", "us": "Micros", "ns": "Nanos"}
# long name: (kind, short name, values documented, default documented)
DOC = {
    "output": (FREE, "o", None, None), "format": (LIST, "f", None, None), "timezone": (FREE, "z", None, None),
    "begin": (FREE, "b", None, None), "end": (FREE, "e", None, None),
    "time-col-name": (FREE, None, None, None), "epoch": (FLAG, "E", None, None), "human": (FLAG, "H", None, None),
    "granularity": (FREE, "g", tuple(UNITS), "ns"), "csv-in-delimiter": (FREE, None, None, None), "delimiter": (FREE, None, None, ","),
    "csv-in-has-header": (FREE, None, ("yes", "no", "auto"), "auto"), "print-time": (FREE, None, ("yes", "no"), "yes"),
    "csv-in-ts-col": (FREE, None, None, None), "csv-in-ts-col-date": (FREE, None, None, None), "csv-in-ts-col-time": (FREE, None, None, None),
    "csv-in-ts-fmt": (FREE, None, None, None), "csv-in-ts-fmt-date": (FREE, None, None, None), "csv-in-ts-fmt-time": (FREE, None, None, None),
    "csv-in-epoch": (FREE, None, tuple(UNITS), None),
}
REFUSED = [("csv-in-ts-col", "csv-in-ts-col-date"), ("csv-in-ts-fmt", "csv-in-ts-fmt-date"), ("csv-in-epoch", "csv-in-ts-fmt"),
           ("csv-in-epoch", "csv-in-ts-fmt-date"), ("csv-in-epoch", "csv-in-ts-col-date"), ("csv-in-ts-col-date", "csv-in-ts-fmt"),
           ("csv-in-ts-col", "csv-in-ts-fmt-date"), ("epoch", "human")]
HALVES = [("csv-in-ts-col-date", "csv-in-ts-col-time"), ("csv-in-ts-fmt-date", "csv-in-ts-fmt-time")]
FALSE, TRUE = ("b", False), ("b", True)


def bare(t):
    while t[0] in ("deref", "vref"):
        t = t[1]
    return t


# ---------------------------------------------------------------- the table of options
class Opt:
    def __init__(self):
        self.id = self.long = self.short = self.default = self.values = None
        self.takes = self.multiple = self.ignore_case = self.delimited = self.required = False
        self.requires, self.excludes = [], []

    def kind(self):
        return LIST if self.multiple or self.takes and self.delimited else FREE if self.takes or self.long is None and self.short is None else FLAG


def texts(t):
    t = bare(t)
    if t[0] == "s":
        return [t[1]]
    if t[0] == "seq" and all(bare(x)[0] == "s" for x in t[1]):
        return [bare(x)[1] for x in t[1]]
    raise Unknown("option text " + show(t)[:60])


def flag(t):
    if t[0] != "b":
        raise Unknown("option switch " + show(t)[:60])
    return t[1]


def option(t):
    chain = []
    while t[0] == "app" and t[1].startswith("call:") and ARG in t[1]:
        chain.append((t[1].rsplit("::", 1)[1], t[2]))
        if chain[-1][0] in ("with_name", "new"):
            break
        t = t[2][0]
    else:
        raise Unknown("option " + show(t)[:80])
    o = Opt()
    for m, a in reversed(chain):
        if m in ("with_name", "new"):
            o.id, = texts(a[0])
        elif m in ("long", "name"):
            o.long, = texts(a[1])
            o.long = o.long.lstrip("-")
        elif m == "short":
            o.short, = texts(a[1])
            o.short = o.short.lstrip("-")[:1]
        elif m == "takes_value":
            o.takes = flag(a[1])
        elif m in ("value_name", "value_names", "number_of_values"):
            o.takes = True
        elif m == "multiple":
            o.multiple = flag(a[1])
        elif m == "case_insensitive":
            o.ignore_case = flag(a[1])
        elif m in ("require_delimiter", "use_delimiter"):
            o.delimited = flag(a[1])
            o.takes = o.takes or o.delimited
        elif m == "value_delimiter":
            o.delimited = o.takes = True
            if texts(a[1]) != [","]:
                raise Unknown("another delimiter of values")
        elif m == "default_value":
            o.default, = texts(a[1])
            o.takes = True
        elif m == "possible_values":
            o.values = (o.values or []) + texts(a[1])
            o.takes = True
        elif m == "possible_value":
            o.values = (o.values or []) + texts(a[1])
            o.takes = True
        elif m == "required":
            o.required = flag(a[1])
        elif m in ("requires", "requires_all"):
            o.requires += texts(a[1])
        elif m in ("conflicts_with", "conflicts_with_all"):
            o.excludes += texts(a[1])
        elif m in ("help", "long_help", "hidden", "display_order", "next_line_help", "hide_default_value", "hide_possible_values", "hide_env_values",
                   "hidden_short_help", "hidden_long_help"):
            pass
        else:
            raise Unknown("option setting " + m)
    return o


def table(ctx, path):
    I, outs = ctx.explore(path)
    rets = [(s, o) for s, o in outs if o[0] == "ret"]
    if len(rets) != 1:
        raise Unknown("the declaration of options has %d outcomes" % len(rets))
    s, o = rets[0]
    t = I.deep(s, o[1])
    opts = []
    while t[0] == "app" and t[1].startswith("call:clap::app::App::"):
        m = t[1].rsplit("::", 1)[1]
        if m == "arg":
            opts.append(option(I.deep(s, t[2][1])))
        elif m == "args":
            xs = bare(I.deep(s, t[2][1]))
            if xs[0] != "seq":
                raise Unknown("options " + show(xs)[:60])
            opts += [option(bare(x)) for x in xs[1]][::-1]
        elif m in ("new", "with_defaults"):
            break
        elif m not in ("version", "about", "author", "long_about", "long_version", "after_help", "before_help", "name", "bin_name", "usage", "help",
                       "version_short", "help_short", "version_message", "help_message", "template", "max_term_width", "set_term_width"):
            raise Unknown("setting of the command line: " + m)
        t = t[2][0]
    else:
        raise Unknown("command line " + show(t)[:80])
    return opts[::-1]


class Table:
    def __init__(self, opts):
        self.opts = opts
        self.by = {o.id: o for o in opts}
        self.long = {o.long: o.id for o in opts if o.long}

    def closure(self, ids):
        todo, got = list(ids), set()
        while todo:
            x = todo.pop()
            if x not in got:
                got.add(x)
                if x in self.by:
                    todo += self.by[x].requires
        return got

    def refused(self, present, absent=()):
        """the options cannot be given together (and without those absent)"""
        c = self.closure(present)
        if c & set(absent) or any(x not in self.by for x in c):
            return True
        return any(y in c for x in c for y in self.by[x].excludes if y in self.by)

    def given(self, present, absent):
        return not self.refused(present, absent) and not any(self.by[a].required for a in absent if a in self.by)


# ---------------------------------------------------------------- evaluation for given values of options
def casings(v):
    return ["".join(x) for x in itertools.product(*[sorted({c.lower(), c.upper()}) for c in v])]


class Given:
    """a value of an option: None, text known, or any text (is it a number?)"""

    def __init__(self, id, text=None, num=None, flag=False):
        self.id, self.text, self.num, self.flag = id, text, num, flag

    def term(self):
        return S(self.text) if self.text is not None else ("app", "text", (S(self.id),))


def domain(o):
    """every way in which the program may see an option"""
    if o is None:
        return [None]
    if o.kind() == FLAG:
        return [None, Given(o.id, flag=True)]
    out = [] if o.default is not None or o.required else [None]
    vs = o.values
    if vs is None:
        if o.default is not None:
            out.append(Given(o.id, o.default))
        return out + [Given(o.id, num=n) for n in (False, True)]
    if o.ignore_case:
        vs = [c for v in vs for c in casings(v)]
    return out + [Given(o.id, v) for v in vs] + ([Given(o.id, o.default)] if o.default is not None and o.default not in vs else [])


class Eval:
    def __init__(self, ctx, I, given):
        self.ctx, self.I, self.given = ctx, I, given

    def ev(self, t):
        I = self.I
        if not isinstance(t, tuple) or not t or not isinstance(t[0], str) or t[0] in ("c", "b", "s", "ch", "y", "p", "lv", "res"):
            return t
        if t[0] in ("deref", "vref"):
            x = self.ev(t[1])
            return x if x[0] in ("s", "adt") or x[0] == "app" and x[1] in ("text", "num") else (t[0], x)
        if t[0] == "fld":
            x = self.ev(t[1])
            if x[0] == "dc":
                x = x if x[1][0] != "adt" else x[1]
            return x[3][t[2]] if x[0] == "adt" and t[2] < len(x[3]) else ("fld", x) + t[2:]
        if t[0] == "dc":
            x = self.ev(t[1])
            return x if x[0] == "adt" and x[2] == t[2] else ("dc", x) + t[2:]
        if t[0] == "discr":
            x = self.ev(t[1])
            return I.discr_of(x) if x[0] == "adt" else ("discr", x)
        if t[0] == "not":
            return neg(self.ev(t[1]))
        if t[0] == "rel":
            return rel(t[3], self.ev(t[1]), self.ev(t[2]))
        if t[0] == "adt":
            return t[:3] + (tuple(self.ev(x) for x in t[3]),) + t[4:]
        if t[0] == "app":
            return self.app(t[1], t[2])
        return tuple(self.ev(x) if isinstance(x, tuple) else x for x in t)

    def app(self, f, a):
        if f.startswith("call:clap::"):
            m = f.rsplit("::", 1)[1]
            if m in ("value_of", "value_of_lossy", "values_of", "is_present", "occurrences_of"):
                k = bare(a[1])
                if k[0] == "s" and k[1] in self.given:
                    g = self.given[k[1]]
                    if m == "is_present":
                        return ("b", g is not None)
                    if m == "value_of":
                        return ("adt", OPTION, "None", ()) if g is None or g.flag else ("adt", OPTION, "Some", (g.term(),))
                return ("app", f, a)
        a = tuple(self.ev(x) for x in a)
        b = [bare(x) for x in a]
        known = all(x[0] == "s" for x in b)
        if f == "streq" and known:
            return ("b", b[0][1] == b[1][1])
        if f == "eqic" and known:
            return ("b", low(b[0][1]) == low(b[1][1]))
        if f in ("to_ascii_lowercase", "to_lowercase", "lower") and known:
            return S(low(b[0][1]))
        if f in ("to_ascii_uppercase", "to_uppercase") and known:
            return S(b[0][1].upper())
        if f == "trim" and known:
            return S(b[0][1].strip())
        if f == "cat" and known:
            return S("".join(x[1] for x in b))
        if f.startswith("call:core::str::<impl str>::parse"):
            r = self.parse(b[0], b[1])
            if r is not None:
                return r
        return ("app", f, a)

    def parse(self, x, ty):
        ty = ty[1] if ty[0] == "s" else ty
        if not isinstance(ty, str) or not ty.startswith("std::result::Result<"):
            return None
        ty = ty[len("std::result::Result<"):].split(",")[0].strip()
        if ty in ("usize", "u64", "u32"):
            num = None
            if x[0] == "s":
                num = x[1].lstrip("+").isdigit()
            elif x[0] == "app" and x[1] == "text":
                g = self.given.get(x[2][0][1])
                num = g.num if g is not None else None
            if num is None:
                return None
            return ("adt", RESULT, "Ok", (("app", "num", (x,)),)) if num else ("adt", RESULT, "Err", (("app", "nonum", (x,)),))
        p = self.ctx.impl_method("core::str::traits::FromStr", "from_str", ty)
        if p is None or x[0] != "s":
            return None
        I, outs = self.ctx.explore(p)
        got = []
        for s, o in outs:
            m = {("p", 0): x, ("deref", ("p", 0)): x}
            cs = [self.ev(subst(c, m)) for c in s.conds()]
            if FALSE in cs:
                continue
            if any(c != TRUE for c in cs) or o[0] != "ret":
                return None
            got.append(self.ev(subst(I.deep(s, o[1]), m)))
        return got[0] if got and all(g == got[0] for g in got) else None


def low(s):
    return s.lower() if s.isascii() else s


def ids_of(t):
    return {bare(x[2][1])[1] for x in subterms(t) if x[0] == "app" and x[1].startswith("call:clap::") and
            x[1].rsplit("::", 1)[1] in ("value_of", "values_of", "is_present") and bare(x[2][1])[0] == "s"}


class Reader:
    """a function that reads options: its paths with the values of options each is open to"""

    def __init__(self, ctx, tab, path, opaque=()):
        self.ctx, self.tab, self.path = ctx, tab, path
        self.I, self.outs = ctx.explore(path, opaque=opaque) if opaque else ctx.explore(path)
        self.rows = []
        memo = {}
        for s, o in self.outs:
            cs = list(s.conds())
            per = {}
            for c in cs:
                for i in ids_of(c):
                    per.setdefault(i, []).append(c)
            doms = {}
            for i, xs in per.items():
                d = []
                for n, g in enumerate(domain(tab.by.get(i))):
                    ok = True
                    for c in xs:
                        if ids_of(c) != {i}:
                            continue
                        k = (c, i, n)
                        if k not in memo:
                            memo[k] = Eval(ctx, self.I, {i: g}).ev(c)
                        if memo[k] == FALSE:
                            ok = False
                            break
                    if ok:
                        d.append(g)
                doms[i] = d
            if any(not d for d in doms.values()):
                continue
            present = [i for i, d in doms.items() if None not in d and i in tab.by]
            absent = [i for i, d in doms.items() if d == [None]]
            own = [i for i in present if tab.by[i].default is None]      # a default is not "given"
            if not tab.given(own, absent):
                continue
            self.rows.append((s, o, doms))

    def over(self, longs):
        """(state, outcome, {long: value}) for every accepted combination of these options and every path open to it"""
        ids = [self.tab.long.get(x) for x in longs]
        for s, o, doms in self.rows:
            ds = [doms.get(i) or domain(self.tab.by.get(i)) for i in ids]
            for c in itertools.product(*ds):
                g = dict(zip(ids, c))
                if not self.tab.given([i for i, x in g.items() if x is not None and self.tab.by[i].default is None], [i for i, x in g.items() if x is None]):
                    continue
                E = Eval(self.ctx, self.I, g)
                if any(E.ev(x) == FALSE for x in s.conds() if len(ids_of(x)) > 1):
                    continue
                yield s, o, dict(zip(longs, c)), E


def said(g):
    return ", ".join("--%s %s" % (k, "" if v.flag else repr(v.text) if v.text is not None else "<number>" if v.num else "<text>") for k, v in sorted(g.items()) if v is not None) or "none given"


# ---------------------------------------------------------------- settings
def setting(ctx, F, adt, want, hint=None):
    """index of the field of a struct by the type in it (and, among several, its name)"""
    fs = F.adts[adt]["variants"][0]["fields"]
    c = [i for i, f in enumerate(fs) if want(F.tys[F.strip_ty(f[1])], F.tys[f[1]])]
    if len(c) > 1 and hint:
        c = [i for i in c if hint in fs[i][0]] or c
    return c[0] if len(c) == 1 else None


def named(suffix):
    return lambda t, t0: (t.get("p") or t.get("s", "")).endswith(suffix)


def variant(t, name, n=None):
    return t[0] == "adt" and t[2] == name and (n is None or len(t[3]) == n)


def check(ctx, key, rd, longs, get, expect, text, allowed_err=None):
    n, bad, odd = 0, None, None
    for s, o, g, E in rd.over(longs):
        if o[0] != "ret":
            continue
        r = get(rd.I, s, o[1])
        if r is None:
            continue
        n += 1
        v = E.ev(r)
        e = expect(g, v)
        if e is None:
            odd = odd or (said(g), show(v)[:80])
        elif not e and not bad:
            bad = (said(g), show(v)[:80])
    if n == 0:
        ctx.undecided("%s: no path makes the setting" % key)
        return
    if bad:
        ctx.ob(key, False, "%s (with %s it is %s)" % (text, bad[0], bad[1]), rd.path)
    elif odd:
        ctx.undecided("%s: with %s it is %s" % (key, odd[0], odd[1]))
    else:
        ctx.ob(key, True, "%s (%d cases)" % (text, n), rd.path)


def readers(ctx, tab, app):
    F = ctx.F

    def ret(b):
        return F.tys[b["locals"][0]]["s"]

    def takes(b, s):
        return any(s in F.tys[t]["s"] for t in b["locals"][1:b["argc"] + 1])
    cin = fn_by(F, lambda p, b: "CSVInputConfig" in ret(b) and takes(b, "clap::ArgMatches"))
    cout = fn_by(F, lambda p, b: "CSVOutputConfig" in ret(b) and takes(b, "clap::ArgMatches"))
    return cin, cout


def tz_param(F, p):
    b = F.body(p)
    for i, t in enumerate(b["locals"][1:b["argc"] + 1]):
        if tyname(F, t).endswith("::ChopperTz"):
            return i
    return None


def is_text(v, g):
    return bare(v) == g.term()


def crashes(ctx, key, rd):
    n = 0
    for s, o, doms in rd.rows:
        if o[0] != "panic":
            continue
        x = ", ".join("--%s %s" % (rd.tab.by[i].long, {(g.text if g.text is not None else "<text>") if g else "absent" for g in d if True} if len(d) < 9 else "...")
                      for i, d in sorted(doms.items()) if i in rd.tab.by)
        if not [i for i in doms]:
            ctx.undecided("%s: a panic that does not hang on an option (%s)" % (key, o[1]))
            continue
        n += 1
        ctx.ob(key + ":crash", False, "options that are accepted end in a panic (%s) with %s" % (o[1], x[:200]), o[2].rstrip("!"))
    if not n:
        ctx.ob(key + ":crash", True, "no accepted combination of options reaches any of the panics (%d paths)" % len(rd.outs), rd.path)


def inputs_config(ctx, tab, p):
    F = ctx.F
    delim = fn_by(F, lambda q, b: F.tys[b["locals"][0]]["s"].startswith("std::result::Result<u8, ") and b["argc"] == 1 and q in ctx.reach(p))
    rd = Reader(ctx, tab, p, tuple(delim))
    crashes(ctx, "in", rd)
    IN = next(a for a in F.adts if a.endswith("::CSVInputConfig"))
    TC = next(a for a in F.adts if a.endswith("::TimestampConfig"))
    fi = {"delim": setting(ctx, F, IN, named("u8"), "delim"), "header": setting(ctx, F, IN, named("::YesNoAuto"))}
    if fi["delim"] is None:
        fi["delim"] = setting(ctx, F, IN, lambda t, t0: "u8" in t0["s"], "delim")
    ti = setting(ctx, F, IN, named("::TimestampConfig"))
    tf = {"col": setting(ctx, F, TC, named("::TimestampColConfig")), "fmt": setting(ctx, F, TC, named("::TimestampFmtConfig")),
          "tz": setting(ctx, F, TC, named("::ChopperTz"))}

    def cfg(I, s, r):
        v = I.deep(s, r)
        if v[0] == "adt" and v[1] == RESULT:
            return v[3][0] if v[2] == "Ok" else None
        return v if v[0] == "adt" else None

    def top(k):
        def get(I, s, r):
            v = cfg(I, s, r)
            return I.deep(s, v[3][fi[k]]) if v is not None and v[0] == "adt" and fi[k] is not None else None
        return get

    def sub_(k):
        def get(I, s, r):
            v = cfg(I, s, r)
            if v is None or v[0] != "adt" or ti is None or tf[k] is None:
                return None
            w = I.deep(s, v[3][ti])
            return I.deep(s, w[3][tf[k]]) if w[0] == "adt" else None
        return get

    def parsed_by(v, g):
        return any(t[0] == "res" and t[2] in delim for t in subterms(v)) and v[0] == "fld"

    # errors come from a bad delimiter only
    bad = None
    n = 0
    for s, o, doms in rd.rows:
        if o[0] != "ret":
            continue
        v = variants(rd.I, s, o[1], RESULT) if o[1][0] != "adt" or o[1][1] == RESULT else {"Ok"}
        if v == {"Err"}:
            n += 1
            es = [e for e in calls(s.events(), *delim)]
            if not any(variants(rd.I, s, e[4], RESULT) == {"Err"} for e in es):
                bad = bad or (show(o[1])[:80], o)
    if delim:
        ctx.ob("in:error", bad is None, "only a delimiter that is none is an error%s" % (": " + bad[0] if bad else ""), p)
    given = {}

    def delimiter(g, v):
        d = g["csv-in-delimiter"]
        if d is None:
            return variant(v, "None")
        if not variant(v, "Some"):
            return False
        x = bare(v[3][0])
        rs = [t for t in subterms(x) if t[0] == "res"]
        return bool(rs) and payload(rd.I, rs[0], "Ok") == x and rs[0] in given and all(bare(y) == d.term() for y in given[rs[0]])
    for s, o in rd.outs:
        for e in calls(s.events(), *delim):
            for g in domain(tab.by.get(tab.long.get("csv-in-delimiter"))):
                if g is not None:
                    given.setdefault(e[4], set()).add(Eval(ctx, rd.I, {tab.long["csv-in-delimiter"]: g}).ev(bare(e[3][0])))
    if delim:
        check(ctx, "in:delimiter", rd, ["csv-in-delimiter"], top("delim"), delimiter, "the input delimiter is the one given, else guessed")
        for q in delim:
            one_byte(ctx, q)
    else:
        ctx.undecided("in:delimiter: no function makes a delimiter of text")
    check(ctx, "in:header", rd, ["csv-in-has-header"], top("header"),
          lambda g, v: v[0] == "adt" and v[2].lower() == (g["csv-in-has-header"].text.lower() if g["csv-in-has-header"] else "auto") if v[0] == "adt" else None,
          "whether there is a header line is as given")

    def fmt(g, v):
        d, t, f, e = (g[k] for k in ("csv-in-ts-fmt-date", "csv-in-ts-fmt-time", "csv-in-ts-fmt", "csv-in-epoch"))
        if v[0] != "adt":
            return None
        if d is not None:
            return t is not None and variant(v, "DateTimeExplicit", 2) and is_text(v[3][0], d) and is_text(v[3][1], t)
        if f is not None:
            return variant(v, "Explicit", 1) and is_text(v[3][0], f)
        if e is not None:
            return variant(v, "Epoch", 1) and v[3][0][0] == "adt" and v[3][0][2] == UNITS.get(e.text)
        return t is None and variant(v, "Auto")
    check(ctx, "in:format", rd, ["csv-in-ts-fmt-date", "csv-in-ts-fmt-time", "csv-in-ts-fmt", "csv-in-epoch"], sub_("fmt"), fmt,
          "the timestamp format is the one given")

    def num(v, g):
        return v == ("app", "num", (g.term(),))

    def col(g, v):
        d, t, c = (g[k] for k in ("csv-in-ts-col-date", "csv-in-ts-col-time", "csv-in-ts-col"))
        if v[0] != "adt":
            return None
        if d is not None:
            if t is None:
                return False
            if d.num and t.num:
                return variant(v, "DateTimeIndex", 2) and num(v[3][0], d) and num(v[3][1], t)
            return variant(v, "DateTimeName", 2) and is_text(v[3][0], d) and is_text(v[3][1], t)
        if c is not None:
            return variant(v, "Index", 1) and num(v[3][0], c) if c.num else variant(v, "Name", 1) and is_text(v[3][0], c)
        return t is None and variant(v, "Auto")
    check(ctx, "in:column", rd, ["csv-in-ts-col-date", "csv-in-ts-col-time", "csv-in-ts-col"], sub_("col"), col,
          "the timestamp column is the one given, a number being a position and other text a name")
    k = tz_param(F, p)
    check(ctx, "in:zone", rd, [], sub_("tz"), lambda g, v: bare(v) == ("p", k), "the time zone is the one given")


def one_byte(ctx, q):
    """text -> delimiter: the two characters \\t, or the only byte of the text"""
    I, outs = ctx.explore(q)
    T = ("p", 0)
    seen = set()
    for s, o in outs:
        if o[0] == "panic":
            one = any(t[0] == "app" and t[1] == "len" and entails(I, s, rel("Ge", t, C(1))) for c in s.conds() for t in subterms(c))
            ends = any(c[0] == "not" and c[1][0] == "app" and c[1][1] == "more" and c[1][2][1] == C(0) for c in s.conds())
            if one and ends or infeasible([r for c in s.conds() for r in _row(c)]):
                continue      # a text of one byte has a first character
            ctx.undecided("delimiter: a panic (%s) may be reached" % o[1])
            continue
        if o[0] != "ret":
            continue
        esc = [t for c in s.conds() for t in subterms(c) if t[0] == "app" and t[1] == "streq" and S("\\t") in map(bare, t[2])]
        tab_ = any(entails(I, s, t) for t in esc)
        v = variants(I, s, o[1], RESULT)
        ln = [t for c in s.conds() for t in subterms(c) if t[0] == "app" and t[1] == "len" and mentions(t, lambda x: x == T)]
        one = any(entails(I, s, rel("Eq", t, C(1))) for t in ln)
        if v == {"Ok"}:
            x = payload(I, o[1], "Ok")
            if tab_:
                seen.add("tab")
                ctx.ob("delimiter:tab", x == C(9), "\\t stands for a tab (%s)" % show(x)[:40], q)
            elif one and mentions(x, lambda t: t == T):
                seen.add("one")
                ctx.ob("delimiter:byte", True, "a delimiter is the only byte of the text", q)
            elif is_c(x):
                ctx.ob("delimiter:byte", False, "a delimiter is the only byte of the text (%s)" % show(x)[:40], q)
            else:
                ctx.ob("delimiter:byte", not ln or one, "a delimiter is the only byte of the text (%s)" % show(x)[:60], q)
        elif v == {"Err"}:
            ctx.ob("delimiter:refused", not tab_ and (not one or mentions_ascii(s)), "only text that is no single byte is refused", q)
    ctx.ob("delimiter:paths", "one" in seen, "one byte is a delimiter", q)


def mentions_ascii(s):
    return any("ascii" in t[1] for c in s.conds() for t in subterms(c) if t[0] == "app") or any(
        is_c(t) and t[1] in (127, 128) for c in s.conds() for t in subterms(c))


def output_config(ctx, tab, p):
    F = ctx.F
    rd = Reader(ctx, tab, p)
    crashes(ctx, "out", rd)
    OUT = next(a for a in F.adts if a.endswith("::CSVOutputConfig"))
    fi = {"delim": setting(ctx, F, OUT, named("String"), "delim"), "name": setting(ctx, F, OUT, named("String"), "name"),
          "print": setting(ctx, F, OUT, named("bool")), "style": setting(ctx, F, OUT, named("::TimestampStyle")),
          "units": setting(ctx, F, OUT, named("::TimestampUnits")), "tz": setting(ctx, F, OUT, named("::ChopperTz"))}

    def top(k):
        def get(I, s, r):
            v = I.deep(s, r)
            if v[0] == "adt" and v[1] == RESULT:
                if v[2] != "Ok":
                    return None
                v = v[3][0]
            return I.deep(s, v[3][fi[k]]) if v[0] == "adt" and fi[k] is not None else None
        return get
    for s, o, doms in rd.rows:
        if o[0] == "ret" and o[1][0] == "adt" and o[1][1] == RESULT and o[1][2] == "Err":
            ctx.ob("out:error", False, "no accepted combination of options is an error", p)

    def val(g, k):
        return g[k].text.lower() if g[k] is not None and g[k].text is not None else None if g[k] is not None else DOC[k][3]
    check(ctx, "out:delimiter", rd, ["delimiter"], top("delim"),
          lambda g, v: is_text(v, g["delimiter"]) if g["delimiter"] is not None else bare(v) == S(","), "the output delimiter is the one given, else a comma")
    check(ctx, "out:print-time", rd, ["print-time"], top("print"),
          lambda g, v: v[1] == (val(g, "print-time") == "yes") if v[0] == "b" else None, "the time column is printed as asked")
    check(ctx, "out:style", rd, ["epoch", "human"], top("style"),
          lambda g, v: v[2] == ("Epoch" if g["epoch"] is not None else "HumanReadable") if v[0] == "adt" else None, "times are epochs exactly if asked for")
    check(ctx, "out:units", rd, ["granularity"], top("units"),
          lambda g, v: v[2] == UNITS.get(val(g, "granularity")) if v[0] == "adt" else None, "the units of the time column are the ones given, else nanoseconds")

    def name(g, v):
        n = g["time-col-name"]
        if n is not None:
            return is_text(v, n)
        v = bare(v)
        if v[0] != "s":
            return None
        return v == S("timestamp" + UNITS[val(g, "granularity")] if g["epoch"] is not None else "time")
    check(ctx, "out:name", rd, ["time-col-name", "epoch", "granularity", "human"], top("name"), name, "the time column has the name given, else that of its style and units")
    k = tz_param(F, p)
    check(ctx, "out:zone", rd, [], top("tz"), lambda g, v: bare(v) == ("p", k), "the time zone is the one given")


# ---------------------------------------------------------------- the run
def reached(conds):
    """there surely is a command line for these conditions: they are about numbers of values given, positions and outcomes of calls"""
    rows = []
    for c in conds:
        r = _row(c)
        free = c[1] if c[0] == "not" else c
        if free[0] == "app" and free[1].endswith("::is_present"):
            continue
        if c[0] == "rel" and set(c[3]) - {"un"} == {"lt", "gt"}:
            d = lin_diff(c[1], c[2])
            if d is None:
                return False
            rows.append((d[0], d[1], True))
            continue
        if c[0] != "rel" or not r:
            return False
        rows += [(a, k, False) for a, k in r]
    atoms = sorted({x for a, k, n in rows for x in a}, key=repr)
    for x in atoms:
        ok_ = x[0] == "discr" and (x[1][0] == "res" or x[1][0] == "app" and x[1][1].endswith("::values_of")) or \
            x[0] == "app" and x[1] == "len" and ids_of(x[2][0]) or x[0] == "lv" and x[2].endswith(".itpos")
        if not ok_:
            return False
    if len(atoms) > 8:
        return False
    for vs_ in itertools.product(*[range(2) if x[0] == "discr" else range(4) for x in atoms]):
        v = dict(zip(atoms, vs_))
        def at(a, k):
            return sum(c * v[x] for x, c in a.items()) + k
        if all(at(a, k) != 0 if n else at(a, k) >= 0 for a, k, n in rows):
            return True
    return False


def lin_diff(x, y):
    r = _row(rel("Ge", x, y))
    return r[0] if r else None


def run_args(ctx, tab, top_, app, cin, cout):
    F = ctx.F
    J = ("app", "J", ())

    def sig(f):
        return tuple(fn_by(F, lambda p, b: f(p, F.tys[b["locals"][0]]["s"], [F.tys[t]["s"] for t in b["locals"][1:b["argc"] + 1]])))
    rng = sig(lambda p, r, a: r.startswith("std::result::Result<chopper::types::TimestampRange") and a[:2] == ["std::option::Option<&str>"] * 2)
    zone = sig(lambda p, r, a: "util::tz::ChopperTz" in r and a[:1] == ["std::option::Option<&str>"])
    fact = sig(lambda p, r, a: "input_factory::InputFactory" in r and len(a) == 3 and "CSVInputConfig" in a[0] and "Option" not in a[0])
    src = sig(lambda p, r, a: len(a) == 2 and "InputFactory" in a[0] and a[1] == "&input::input::Input")
    sink = sig(lambda p, r, a: "dyn chopper::chopper::HeaderSink" in r and a[:1] == ["std::option::Option<&str>"])
    other = sig(lambda p, r, a: r.startswith("std::result::Result<driver::driver::Driver") or "dyn chopper::chopper::MergeHeaderSink" in r and a == ["usize"])
    for what, x in (("time range", rng), ("zone", zone), ("factory", fact), ("source", src), ("sink", sink)):
        if len(x) != 1:
            ctx.undecided("run: the function for the %s is not found" % what)
            return
    bt = tuple(fn_by(F, lambda p, b: p.startswith("error::") and b["argc"] == 0))
    I, outs = ctx.explore(top_, opaque=tuple(cin) + tuple(cout) + (app,) + rng + zone + fact + src + sink + other + bt)
    TZ = next(a for a in F.adts if a.endswith("::ChopperTz"))
    ids = {k: tab.long.get(k) for k in DOC}
    pos = [o.id for o in tab.opts if o.long is None and o.short is None]
    n = {"files": 0, "standard input": 0}
    for s, o in outs:
        evs = s.events()
        cs = calls(all_events(evs))
        ms = {x for e in calls(evs) if e[7].startswith("clap::") and e[7].rsplit("::", 1)[1].startswith("get_matches") for x in [e[4]]}

        def got(t, m, id_):
            """t is what the parsed command line holds for an option"""
            t = bare(I.deep(s, t))
            return t[0] == "app" and t[1].startswith("call:clap::") and t[1].endswith("::" + m) and bare(t[2][0]) in ms and bare(t[2][1]) == S(id_ or "")
        if o[0] == "panic":
            vals = [t for c in s.conds() for t in subterms(c) if t[0] == "app" and t[1] == "len" and ids_of(t[2][0])]
            vs = Vals(I, collect_loops(evs))
            cs_ = vs.conds(s) + [rel("Ge", t, C(1)) for t in vals]
            if not infeasible([r for c in cs_ for r in _row(c)]) and not infeasible([r for c in [vs.norm(x) for x in cs_] for r in _row(c)]):
                if reached([vs.norm(x) for x in cs_]):
                    ctx.ob("run:no-crash", False, "an accepted command line crashes (%s)" % o[1], o[2])
                else:
                    ctx.undecided("run: a panic (%s at %s) may be reached" % (o[1], o[2]))
            continue
        if o[0] != "ret" or variants(I, s, o[1], RESULT) != {"Ok"}:
            continue
        for e in calls(evs):
            if e[7].startswith("clap::") and e[7].rsplit("::", 1)[1].startswith("get_matches"):
                ctx.ob("run:table", any(t[0] == "res" and t[2] == app for t in subterms(e[3][0])), "the command line is parsed by the table of options", e[5])
        zs = list(calls(evs, *zone))
        ctx.ob("run:zone", len(zs) == 1 and got(zs[0][3][0], "value_of", ids["timezone"]), "the time zone is the one given", top_)
        if len(zs) != 1:
            continue
        z = zs[0][4]
        zt = payload(I, z, "Ok") if zs[0][9] is not None and tyname(F, zs[0][9]) == RESULT else z

        def is_zone(t):
            return bare(I.deep(s, t)) == bare(zt)
        rs = list(calls(evs, *rng))
        ctx.ob("run:range", len(rs) == 1 and got(rs[0][3][0], "value_of", ids["begin"]) and got(rs[0][3][1], "value_of", ids["end"]) and is_zone(rs[0][3][2]),
               "begin and end of the range are the ones given, in the zone given", top_)
        ci, co = list(calls(evs, *cin)), list(calls(evs, *cout))

        def from_(e, p):
            m = next((i for i, t in enumerate(F.body(p)["locals"][1:F.body(p)["argc"] + 1]) if "ArgMatches" in F.tys[t]["s"]), None)
            k = tz_param(F, p)
            return m is not None and bare(I.deep(s, e[3][m])) in ms and k is not None and is_zone(e[3][k])
        ctx.ob("run:input-settings", len(ci) == 1 and from_(ci[0], cin[0]), "the input settings are read from the command line, with the zone given", top_)
        ctx.ob("run:output-settings", len(co) == 1 and from_(co[0], cout[0]), "the output settings are read from the command line, with the zone given", top_)
        fs = list(calls(evs, *fact))
        if len(ci) == 1:
            ctx.ob("run:input-used", len(fs) == 1 and bare(I.deep(s, fs[0][3][0])) == payload(I, ci[0][4], "Ok"), "the input settings are those inputs are opened with", top_)
        ks = list(calls(evs, *sink))
        if len(co) == 1:
            c = payload(I, co[0][4], "Ok") if tyname(F, co[0][9]) == RESULT else co[0][4]
            ctx.ob("run:output", len(ks) == 1 and got(ks[0][3][0], "value_of", ids["output"]), "the output is the one given", top_)
            a = I.deep(s, ks[0][3][1]) if len(ks) == 1 else None
            ctx.ob("run:output-used", a is not None and (variant(a, "Some", 1) and bare(a[3][0]) == c or bare(a) == c), "the output settings are those the output is made with", top_)
        opened(ctx, I, s, evs, src, tab, pos, ids["format"], got, J, n)
    for k, v in n.items():
        ctx.ob("run:paths", v > 0, "%d path(s) with %s" % (v, k), top_)


def opened(ctx, I, s, evs, src, tab, pos, fid, got, J, n):
    F = ctx.F
    loops = [e[1] for e in evs if e[0] == "loop" and any(True for it in e[1]["iters"] for _ in calls(all_events(it["events"]), *src))]
    vs = Vals(I, collect_loops(evs))
    vals = {t for c in s.conds() for t in subterms(c) if t[0] == "app" and t[1].startswith("call:clap::") and t[1].endswith("::values_of")}
    files = next((t for t in vals if bare(t[2][1])[1] in pos), None)
    fmts = next((t for t in vals if bare(t[2][1]) == S(fid)), None)
    if files is None or fmts is None or not got(files, "values_of", pos[0]) or not got(fmts, "values_of", fid):
        ctx.ob("run:lists", False, "inputs and formats are those of the command line")
        return
    f, m = is_some(I, s, files), is_some(I, s, fmts)
    if not f and not is_none(I, s, files) or not m and not is_none(I, s, fmts):
        ctx.undecided("run: a path on which it is open whether there are inputs")
        return
    P, M = payload(I, files, "Some"), payload(I, fmts, "Some")
    count, nf = app("len", P), app("len", M)
    facts = [rel("Ge", J, C(0))] + ([rel("Ge", count, C(1))] if f else []) + ([rel("Ge", nf, C(1))] if m else [])
    s0 = vs.fork(s, facts)
    if s0 is None:
        return
    direct = [e for e in calls(evs, *src)]
    rows = []
    try:
        if len(loops) == 1 and not direct:
            L = loops[0]
            cs = vs.conds(s0)
            sym, first, k = vs.count(L, cs)
            want = count if f else C(1)
            ctx.ob("run:all", proves(cs, k, want) and proves(cs, want, k), "every input is opened, once (%s)" % show(k)[:60])
            s1 = vs.fork(s0, [rel("Lt", J, k)])
            for it in L["iters"]:
                es = list(calls(all_events(it["events"]), *src))
                if len(es) != 1:
                    ctx.ob("run:all", False, "every input is opened, once (%d times)" % len(es))
                    continue
                for s2 in vs.iteration(s1, L, it, (sym, first), J) if s1 is not None else []:
                    rows.append((s2, vs.value(I.deep(it["st"], es[0][3][1]), L, it, (sym, first), J, None)))
        elif len(direct) == 1 and not loops:
            rows.append((s0, I.deep(s0, direct[0][3][1])))
        else:
            ctx.undecided("run: inputs are opened in %d places" % (len(loops) + len(direct)))
            return
        todo = []
        for s2, v in rows:
            v = bare(v)
            while v[0] == "app" and v[1].startswith("as:"):
                v = v[2][0]
            if v[0] == "sel":
                todo += [(s3, bare(I.deep(s3, w))) for s3, w in vs.at(s2, v[1], v[2])]
            else:
                todo.append((s2, v))
        for s2, v in todo:
            if v[0] != "adt":
                ctx.undecided("run: input %s" % show(v)[:80])
                continue
            ii = setting(ctx, F, v[1], named("::InputType"))
            fi = setting(ctx, F, v[1], named("::InputFormat"))
            w = bare(I.deep(s2, v[3][ii]))
            if f:
                n["files"] += 1
                x = bare(w[3][0]) if variant(w, "Path", 1) else None
                ctx.ob("run:input", x is not None and x[0] == "sel" and bare(x[1]) == bare(P) and at(vs, s2, x[2], J), "input j is the j-th file given (%s)" % show(w)[:80])
            else:
                n["standard input"] += 1
                ctx.ob("run:input", variant(w, "StdIn"), "without files, standard input is read (%s)" % show(w)[:80])
            y = bare(I.deep(s2, v[3][fi]))
            ys = [(s2, y)]
            if y[0] == "sel":
                ys = [(s3, bare(I.deep(s3, q))) for s3, q in vs.at(s2, y[1], y[2])]
            for s3, q in ys:
                if infeasible([r for c in vs.conds(s3) for r in _row(c)]):
                    continue
                if q[0] != "adt":
                    ctx.undecided("run: format %s" % show(q)[:80])
                    continue
                if not m:
                    ctx.ob("run:no-format", variant(q, "Auto"), "without a format, it is detected (%s)" % show(q)[:60])
                    continue
                if variant(q, "Extension", 1):
                    x = bare(q[3][0])
                    ok = x[0] == "sel" and bare(x[1]) == bare(M) and place(vs, s3, x[2], J if f else C(0), nf)
                    ctx.ob("run:format", ok, "input j has the j-th format, those left over the last (%s)" % show(q)[-100:])
                    ctx.ob("run:auto", not auto(I, s3, x), "\"auto\" means detection")
                elif variant(q, "Auto"):
                    xs = [bare(y) for c in s3.conds() for t in subterms(c) if t[0] == "app" and t[1] in ("streq", "eqic") and S("auto") in map(bare, t[2]) and entails(I, s3, t)
                          for y in t[2] if bare(y) != S("auto")]
                    ok = any(x[0] == "sel" and bare(x[1]) == bare(M) and place(vs, s3, x[2], J if f else C(0), nf) for x in xs)
                    ctx.ob("run:detect", ok, "the format is detected exactly if \"auto\" is given for the input")
    except Unknown as e:
        ctx.undecided("run: %s" % e)


def auto(I, s, x):
    """the path may have x = "auto" """
    ts = [t for c in s.conds() for t in subterms(c) if t[0] == "app" and t[1] == "streq" and S("auto") in map(bare, t[2]) and bare(x) in map(bare, t[2])]
    return not any(entails(I, s, neg(t)) for t in ts)


def at(vs, s, ix, j):
    cs = vs.conds(s)
    ix = vs.norm(ix)
    return ix == j or proves(cs, ix, j) and proves(cs, j, ix)


def place(vs, s, ix, j, nf):
    """index ix is min(j, nf - 1)"""
    cs = vs.conds(s)
    ix = vs.norm(ix)
    last = sub(nf, C(1))
    if at(vs, s, ix, j) and proves(cs, j, last):
        return True
    if ix[0] == "app" and ix[1] == "min" and {ix[2][0], ix[2][1]} == {j, last}:
        return True
    return at(vs, s, ix, last) and proves(cs, last, j)


def zones(ctx, path):
    """option -> zone: the one named, else that of CHOPPER_TZ, else none"""
    F = ctx.F
    I, outs = ctx.explore(path)
    TZ = next(a for a in F.adts if a.endswith("::ChopperTz"))
    A = ("p", 0)
    n = {"option": 0, "environment": 0, "none": 0}
    for s, o in outs:
        if o[0] == "panic":
            ctx.ob("zone:crash", False, "a zone that is not known is an error (%s)" % o[1], o[2])
            continue
        if o[0] != "ret":
            continue
        r = I.deep(s, o[1])
        isres = r[0] == "adt" and r[1] == RESULT
        envs = [e for e in calls(s.events()) if e[7].startswith("std::env::var")]
        name = payload(I, A, "Some") if is_some(I, s, A) else None
        if name is None and is_none(I, s, A):
            ok = [e for e in envs if bare(e[3][0]) == S("CHOPPER_TZ") or S("CHOPPER_TZ") in subterms(e[3][0])]
            if not ok:
                ctx.ob("zone:environment", False, "without the option, CHOPPER_TZ gives the zone", path)
                continue
            e = ok[-1]
            rt = tyname(F, e[9]) if e[9] is not None else RESULT
            here = variants(I, s, e[4], rt) == {"Ok" if rt == RESULT else "Some"}
            name = payload(I, e[4], "Ok" if rt == RESULT else "Some") if here else None
        if isres and r[2] == "Err":
            ps = [t for c in s.conds() for t in subterms(c) if parse_of(t, name)]
            ctx.ob("zone:error", name is not None and any(variants(I, s, t, RESULT) == {"Err"} for t in ps), "only a name that is no zone is an error", path)
            continue
        z = r[3][0] if isres else r
        v = z[3][0] if z[0] == "adt" and z[1] == TZ and len(z[3]) == 1 else None
        if v is None:
            ctx.undecided("zone: %s" % show(r)[:80])
            continue
        if name is None:
            n["none"] += 1
            ctx.ob("zone:none", is_none(I, s, v), "without any name there is no zone", path)
            continue
        n["option" if is_some(I, s, A) else "environment"] += 1
        if not is_some(I, s, v):
            ctx.ob("zone:named", False, "the zone is the one named", path)
            continue
        v = bare(payload(I, v, "Some"))
        gets = [e[4] for e in calls(s.events()) if "::HashMap::" in e[7] and e[7].endswith("::get") or e[7].endswith("HashMap::<K, V, S, A>::get")]
        mapped = [t for t in gets if is_some(I, s, t)]
        if mapped:
            ctx.ob("zone:mapped", v == bare(payload(I, mapped[-1], "Some")) and any(same_text(x, name) for x in mapped[-1][2][1:]) if mapped[-1][0] == "app" else None,
                   "a zone the caller's table has is taken from it, by the name given", path)
        else:
            ps = [t for t in subterms(v) if parse_of(t, name)]
            ctx.ob("zone:named", any(v == payload(I, t, "Ok") for t in ps), "the zone is the one named (%s)" % show(v)[:100], path)
    for k, c in n.items():
        ctx.ob("zone:paths", c > 0, "%d path(s): zone from %s" % (c, k), path)


def same_text(a, b):
    return bare(a) == bare(b)


def parse_of(t, name):
    return t[0] == "app" and ("::parse" in t[1] or "from_str" in t[1]) and name is not None and same_text(t[2][0], name)


# ---------------------------------------------------------------- the rule
def run(ctx):
    F = ctx.F
    app = fn_by(F, lambda p, b: F.tys[b["locals"][0]]["s"].startswith("clap::App<"))
    if len(app) != 1:
        ctx.undecided("%d functions declare a command line" % len(app))
        return
    app = app[0]
    try:
        tab = Table(table(ctx, app))
    except Unknown as e:
        ctx.undecided("table: %s" % e)
        return
    # the table
    ls, ss = [o.long for o in tab.opts if o.long], [o.short for o in tab.opts if o.short]
    ctx.ob("table:unique", len(set(ls)) == len(ls) and len(set(ss)) == len(ss) and len(tab.by) == len(tab.opts), "no name stands for two options", app)
    for k, (kind, short, vals, default) in DOC.items():
        o = tab.by.get(tab.long.get(k))
        if not ctx.ob("table:" + k, o is not None, "there is an option --%s" % k, app):
            continue
        ctx.ob("table:%s:kind" % k, o.kind() == kind, "--%s takes %s" % (k, "no value" if kind == FLAG else "a list of values" if kind == LIST else "one value"), app)
        if short:
            ctx.ob("table:%s:short" % k, o.short == short, "--%s is -%s" % (k, short), app)
        if vals:
            ctx.ob("table:%s:values" % k, o.values is None or all(v in o.values for v in vals), "--%s accepts %s" % (k, ", ".join(vals)), app)
        if kind != FLAG:
            free = vals is None
            ctx.ob("table:%s:any" % k, not free or o.values is None, "--%s accepts any text" % k, app)
        ctx.ob("table:%s:optional" % k, not o.required, "--%s may be left out" % k, app)
        if o.default is not None:
            ok = default is not None and (o.default == default or o.ignore_case and o.default.lower() == default.lower())
            ctx.ob("table:%s:default" % k, ok, "without --%s, %s" % (k, "it is %s" % default if default is not None else "nothing is set"), app)
    pos = [o for o in tab.opts if o.long is None and o.short is None]
    ctx.ob("table:inputs", len(pos) == 1 and pos[0].multiple and not pos[0].required, "any number of inputs may be given", app)
    for o in tab.opts:
        for x in o.requires + o.excludes:
            ctx.ob("table:names", x in tab.by, "--%s refers to an option declared (%s)" % (o.long, x), app)
    for a, b in REFUSED:
        if a in tab.long and b in tab.long:
            ctx.ob("refuse:%s+%s" % (a, b), tab.refused([tab.long[a], tab.long[b]]), "--%s and --%s are not accepted together" % (a, b), app)
    for a, b in HALVES:
        if a in tab.long and b in tab.long:
            for x, y in ((a, b), (b, a)):
                ctx.ob("refuse:%s-%s" % (x, y), tab.refused([tab.long[x]], [tab.long[y]]), "--%s is not accepted without --%s" % (x, y), app)
    # what should not be refused
    for a in DOC:
        if a in tab.long:
            ctx.ob("accept:" + a, not tab.refused([tab.long[a]]), "--%s can be given" % a, app)
    # readers
    cin, cout = readers(ctx, tab, app)
    if len(cin) == 1:
        inputs_config(ctx, tab, cin[0])
    else:
        ctx.undecided("%d functions read the input settings" % len(cin))
    if len(cout) == 1:
        output_config(ctx, tab, cout[0])
    else:
        ctx.undecided("%d functions read the output settings" % len(cout))
    tops = fn_by(F, lambda p, b: "dyn chopper::chopper::ChopperDriver" in F.tys[b["locals"][0]]["s"] and app in ctx.reach(p))
    tops = [p for p in tops if not any(p in ctx.reach(q) for q in tops if q != p)]
    if len(tops) == 1 and len(cin) == 1 and len(cout) == 1:
        run_args(ctx, tab, tops[0], app, cin, cout)
    else:
        ctx.undecided("%d functions set up a run from the command line" % len(tops))
    zone = fn_by(F, lambda p, b: "util::tz::ChopperTz" in F.tys[b["locals"][0]]["s"] and b["argc"] >= 1 and F.tys[b["locals"][1]]["s"] == "std::option::Option<&str>")
    if len(zone) == 1:
        zones(ctx, zone[0])
    else:
        ctx.undecided("%d functions look up the zone" % len(zone))
