"""C26: what is not said about a CSV file is found out from its first two lines."""
from vecs import *
from rules.c15 import fn_by, tyname
from rules.c17 import settings

RULE = ("The constructor of the CSV source is followed together with what it calls to look at the preview. On each path without a delimiter given, the one "
        "set is the first of comma, tab, space once these are put in order of their counts, greatest first and otherwise as they were, where every byte of the "
        "first line is counted once for the delimiter it equals. On each path on which the header line is to be found out, there is none unless two lines are there, "
        "and else the flag set is the inequality of the lists of the kinds of the cells of these two lines, split at the delimiter that was set; the kind of a cell is "
        "one of three, for trimmed text that is a 64 bit integer, that is another number, and that is neither.")
TECHNIQUE = "abstract interpretation of MIR; provenance of the flag and the delimiter handed to the CSV reader"
LIMITS = ("What parses as a number is left to the standard library. A count or a comparison in a form that is not recognised is left undecided, and so is a list of "
          "possible delimiters that is not a constant. Delimiters within quotes count.")

STR = "call:core::str::<impl str>::"
DELIMS = b",\t "


class Other(Exception):
    """a form that is not known"""


def callname(t):
    return t[1][len(STR):] if t[0] == "app" and str(t[1]).startswith(STR) else None


def strip(t):
    while t[0] in ("deref", "vref") or t[0] == "app" and t[1] in ("as_str", "deref", "to_string", "clone"):
        t = t[1] if t[0] != "app" else t[2][0]
    return t


class Look:
    def __init__(self, ctx, I):
        self.ctx, self.I = ctx, I
        self.lists = set()

    def line(self, t):
        """the number of the line that t is, remembering the list of lines"""
        t = strip(t)
        if t[0] == "sel" and is_c(t[2]):
            self.lists.add(t[1])
            return t[2][1]
        if t[0] == "sel" and t[2] == add(app("len", t[1]), C(-1)):
            raise ValueError("the last line of the preview is looked at")
        raise Other("a line is %s" % show(t)[:80])

    def present(self, s, n):
        """True / False / None: is line n there?"""
        for v in self.lists:
            o = v[1][1] if v[0] == "fld" and v[1][0] == "dc" else None
            if o is not None and is_none(self.I, s, o):
                return False
            if entails(self.I, s, rel("Gt", app("len", v), C(n))):
                return True
            if entails(self.I, s, rel("Le", app("len", v), C(n))):
                return False
        return None

    # ---------------------------------------------------------------- delimiter
    def bytes_of(self, d):
        """descriptor of an iterator over the bytes of line 0, else Other; ValueError(what) for one over something else"""
        while d[0] in ("d", "opq", "cloned", "copied"):
            d = d[1]
        if d[0] in ("skip", "take", "filter", "takewhile", "skipwhile", "stepby"):
            self.bytes_of(d[1])
            raise ValueError("not every character of the line is counted")
        if d[0] == "app" and d[1] in ("bytes", "chars", "as_bytes"):
            n = self.line(d[2][0])
            if n != 0:
                raise ValueError("line %d is looked at" % (n + 1))
            return d[1]
        if d[0] in ("iter", "into"):
            return self.bytes_of(d[1])
        raise Other("characters of %s" % show(d)[:80])

    def counter(self, s, loops, t, x):
        """t is how often delimiter x occurs in line 0"""
        t = strip(t)
        if t[0] == "app" and t[1] in ("as:u32", "as:u64", "as:usize", "as:i32", "as:i64", "as:isize"):
            t = strip(t[2][0])
        if t[0] == "app" and t[1] == "as:u8" or t[0] == "app" and t[1] in ("as:u16", "as:i8", "as:i16"):
            raise ValueError("counts are cut down")
        if t[0] == "app" and t[1] == "mapget":
            m, k = t[2]
            if strip(k) != x:
                if not mentions(k, lambda y: y == x):
                    raise Other("count of %s" % show(k)[:40])
            return self.counted(s, loops, m)
        if t[0] == "app" and t[1] == "count":
            d = t[2][0]
            d = d[1] if d[0] == "d" else d
            if d[0] == "filter":
                kind = self.bytes_of(d[1])
                for s2, e in self.I.it_elem(s.fork(), d, ("k", s.fresh()), [], None):
                    cs = [c for c in s2.conds()[len(s.conds()):] if mentions(c, lambda y: y == x)]
                    if len(cs) != 1 or cs[0][0] != "rel" or {plain(cs[0][1]), plain(cs[0][2])} != {plain(e), x}:
                        raise Other("a filter of characters")
                    if "eq" not in cs[0][3]:
                        raise ValueError("the characters other than the delimiter are counted")
                    if len(cs[0][3] - {"un"}) > 1:
                        raise ValueError("more than the delimiter is counted")
                    if kind == "chars" and mentions(cs[0], lambda y: y[0] == "app" and y[1] == "as:u8" and mentions(y, lambda z: z == plain(e))):
                        raise ValueError("characters are cut down to a byte before they are counted")
                return
        if self.of_matches(t, x):
            return
        raise Other("a count is %s" % show(t)[:80])

    def of_matches(self, t, x):
        for y in subterms(t):
            if callname(y) in ("matches", "match_indices") and len(y[2]) == 2 and plain(y[2][1]) == x and t[0] == "app" and t[1] == "count":
                if self.line(y[2][0]) != 0:
                    raise ValueError("another line than the first is looked at")
                return True
        return False

    def counted(self, s, loops, m):
        m = strip(m)
        L = next((l for l in loops if m in l["init"]), None)
        if L is None:
            raise Other("counts of %s" % show(m)[:60])
        steps = [it for it in L["iters"] if it["next"].get(m) != m]
        if not steps:
            raise ValueError("nothing is counted")
        for it in L["iters"]:
            entry = [e for e in own(it["events"]) if e[7].startswith("std::collections::hash::map::HashMap") and e[7].endswith(("::entry", "::get_mut", "::index_mut"))]
            if len(entry) != 1:
                raise Other("a pass of the count with %d accesses" % len(entry))
            key = strip(entry[0][3][1])
            cut = key[0] == "app" and key[1] == "as:u8"
            e = plain(key)
            if not (e[0] == "app" and e[1] == "elem" or e[0] in ("sel",)):
                raise Other("counted under %s" % show(key)[:80])
            d = e[2][0] if e[0] == "app" else ("iter", e[1])
            kind = self.bytes_of(d)
            if cut and kind == "chars":
                raise ValueError("characters are cut down to a byte before they are counted")
            for c in it["conds"]:
                if c[0] == "app" and c[1] == "more" and e[0] == "app" and e[2][1] == c[2][1]:
                    self.bytes_of(c[2][0])
                if not (c[0] == "app" and c[1] == "more") and not (c[0] == "rel" and mentions(c, lambda y: y[0] == "lv" and str(y[2]).endswith("itpos"))) and \
                        not mentions(c, lambda y: y == entry[0][4]):
                    raise Other("counted if %s" % show(c)[:80])
            self.plus_one(it, entry[0])
        before = L["init"][m]
        if before[0] == "lv":
            first = next((l for l in loops if before in l["init"]), None)
            ins = [e for it in first["iters"] for e in own(it["events"]) if e[7].endswith("::insert")] if first else []
            if not ins:
                raise Other("what was counted before")
            for e in ins:
                if e[3][2] != C(0):
                    raise ValueError("counts start from %s" % show(e[3][2])[:30])

    def plus_one(self, it, entry):
        F = self.ctx.F
        for e in own(it["events"]):
            if e is entry or not mentions(e[2][0] if e[2] else UNIT, lambda y: y == entry[4]):
                continue
            n = e[7].rsplit("::", 1)[-1]
            if n == "and_modify":
                b = e[3][1]
                if b[0] != "clo":
                    raise Other("and_modify")
                I, outs = self.ctx.explore(b[1])
                for s, o in outs:
                    if o[0] != "ret":
                        continue
                    v = [I.read(s, (r, ())) for r in s.mem if r == ("D", ("p", 1))]
                    if v and v[0] != ("deref", ("p", 1)):
                        if v[0] != add(("deref", ("p", 1)), C(1)):
                            raise ValueError("a character counts as %s" % show(v[0])[:40])
                        return
                raise Other("a count step")
        raise Other("a count step")

    def order(self, s, loops, ev, t):
        """t is the delimiter found; ev: events of the path"""
        t = strip(t)
        if t[0] == "sel" and t[1][0] == "app" and t[1][1] == "sorted" and not is_c(t[2]):
            if t[2] in (C(2), add(app("len", t[1]), C(-1))):
                raise ValueError("not the first in the order is taken")
        best = next((e for e in ev if e[0] == "best" and mentions(t, lambda y: y == e[3])), None)
        if best:
            which, desc, k, cmpv = best[1], best[2], best[3], best[4]
            d = desc[1] if desc[0] == "d" else desc
            rev = False
            while d[0] in ("rev", "cloned", "copied"):
                rev = rev != (d[0] == "rev")
                d = d[1]
            lst = d[1] if d[0] in ("iter", "into") else None
            if lst is None:
                raise Other("the best of %s" % show(d)[:60])
            xs = [("bv", 0), ("bv", 1)]
            a, b, up = self.compared(cmpv, lst, rev)
        elif t[0] == "sel" and t[1][0] == "app" and t[1][1] == "sorted":
            cmpv, lst = t[1][2]
            if not is_c(t[2]):
                raise Other("a choice")
            a, b, up = self.compared(cmpv, None, False)
            self.counter(s, loops, a, ("bv", 0))
            self.counter(s, loops, b, ("bv", 1))
            self.constant(lst)
            if t[2][1] != 0:
                raise ValueError("not the first in the order is taken")
            if up:
                raise ValueError("the delimiter with the fewest occurrences is taken")
            return "sorted by falling count"
        else:
            raise Other("the delimiter is %s" % show(t)[:80])
        self.counter(s, loops, a, ("bv", 0))
        self.counter(s, loops, b, ("bv", 1))
        self.constant(lst)
        greatest = (which == "max") == up
        if not greatest:
            raise ValueError("the delimiter with the fewest occurrences is taken")
        # max takes the last of the greatest, min the first of the least
        first = (which == "min") != rev
        if not first:
            raise ValueError("of delimiters that occur as often the last is taken")
        return "the first with the greatest count"

    def compared(self, c, lst, rev):
        """(count of bv 0, count of bv 1, do greater counts come later?)"""
        flip = False
        while c[0] == "app" and c[1] in ("reverse",) or callrev(c):
            flip, c = not flip, c[2][0]
        if not (c[0] == "app" and c[1] == "ord" and len(c[2]) == 2):
            raise Other("compared by %s" % show(c)[:80])
        x, y = c[2]
        while x[0] == "adt" and x[1].endswith("::Reverse") and y[0] == "adt":
            x, y, flip = x[3][0], y[3][0], not flip
        hx, hy = [mentions(x, lambda t, i=i: t == ("bv", i)) for i in (0, 1)], [mentions(y, lambda t, i=i: t == ("bv", i)) for i in (0, 1)]
        if hx == [True, False] and hy == [False, True]:
            return x, y, not flip
        if hx == [False, True] and hy == [True, False]:
            return y, x, flip
        raise Other("compared by %s" % show(c)[:80])

    def constant(self, lst):
        lst = strip(lst)
        if lst[0] != "y":
            raise Other("possible delimiters %s" % show(lst)[:60])
        if bytes(lst[1]) != DELIMS:
            raise ValueError("the possible delimiters are %r" % bytes(lst[1]))

    # ---------------------------------------------------------------- header
    def cells(self, s, t, used):
        """t is the list of the kinds of the cells of a line: the number of the line"""
        t = strip(t)
        if t[0] == "it":
            t = ("collect", t[1])
        if t[0] != "collect":
            raise Other("%s is compared" % show(t)[:80])
        d = t[1]
        base, left_out = d, None
        while base[0] in ("map", "filter", "skip", "take", "takewhile", "skipwhile", "stepby", "rev", "cloned", "copied"):
            if base[0] not in ("map", "cloned", "copied"):
                left_out = base[0]
            base = base[1]
        if base[0] != "opq" or callname(base[1]) is None:
            raise Other("cells %s" % show(base)[:80])
        sp = base[1]
        n = self.line(sp[2][0])
        if callname(sp) != "split":
            raise ValueError("cells are made by %s" % callname(sp))
        if left_out == "rev":
            raise Other("cells in reverse")
        if left_out:
            raise ValueError("some cells are left out")
        if plain(sp[2][1]) != plain(used):
            if not mentions(sp[2][1], lambda y: y[0] in ("p", "res", "post", "lv", "dc", "sel", "elem", "clo")) or mentions(sp[2][1], lambda y: y[0] == "c"):
                raise ValueError("lines are split at %s, not at the delimiter that is set" % show(sp[2][1])[:60])
            raise Other("split at %s" % show(sp[2][1])[:60])
        self.kinds(s, d)
        return n

    def kinds(self, s, d):
        I = self.I
        k = ("k", s.fresh())
        n0 = len(s.conds())
        vals = {1: {}, 2: {}, 3: {}}
        rows = I.it_elem(s.fork(), d, k, [], None)
        for s2, v in rows:
            v = I.deep(s2, v)
            state = {"i": None, "f": None}
            extra = []
            for c in s2.conds()[n0:]:
                p = parsed(c)
                if p is None:
                    extra.append(c)
                    continue
                ty, arg, ok = p
                a = strip(arg)
                if not (a[0] == "app" and a[1] == "trim"):
                    if mentions(a, lambda y: y[0] == "app" and "trim" in str(y[1])):
                        raise ValueError("white space around a cell is not taken off on both sides")
                    raise ValueError("white space around a cell makes a difference")
                if ty in ("f64", "f32"):
                    state["f"] = ok
                elif ty == "i64":
                    state["i"] = ok
                else:
                    raise ValueError("a cell is told by whether it is %s" % ty)
            cls = [n for n, (i, f) in ((1, (True, True)), (2, (False, True)), (3, (False, False))) if state["i"] in (None, i) and state["f"] in (None, f)]
            for n in cls:
                vals[n].setdefault(v, []).append(extra)
        for n, vs in vals.items():
            if not vs:
                raise Other("no kind for a cell")
            if len(vs) > 1:
                ex = next((e for es in vs.values() for e in es if e), None)
                if ex:
                    raise ValueError("the kind of a cell depends on more: %s" % show(ex[0][0] if isinstance(ex[0][0], tuple) else ex[0])[:80])
                raise Other("several kinds for a cell")
        one = [next(iter(vals[n])) for n in (1, 2, 3)]
        if any(v[0] not in ("adt", "c", "b") for v in one):
            raise Other("kind %s" % show(one[0])[:60])
        if len(set(one)) < 3:
            names = {1: "integers", 2: "other numbers", 3: "other text"}
            a, b = next((a, b) for a in (1, 2, 3) for b in (1, 2, 3) if a < b and one[a - 1] == one[b - 1])
            raise ValueError("%s and %s are of one kind" % (names[a], names[b]))

    def pair(self, s, a, b, used):
        n = [self.cells(s, x, used) for x in (a, b)]
        if sorted(n) != [0, 1]:
            raise ValueError("lines %s are compared" % " and ".join(str(x + 1) for x in n))

    def header(self, s, h, used, ev):
        I = self.I
        h = s_eval(I, s, h)
        if h[0] == "rel" and all(x[0] == "app" and x[1] == "len" and x[2][0][0] == "collect" for x in h[1:3]):
            self.pair(s, h[1][2][0], h[2][2][0], used)
            raise ValueError("only the numbers of cells are compared")
        if h[0] == "app" and str(h[1]).endswith(("Iterator::ne", "Iterator::eq")) and len(h[2]) == 2:
            self.pair(s, h[2][0], h[2][1], used)
            if h[1].endswith("eq"):
                raise ValueError("lines of the same kinds are taken for a header and a row")
            if not self.both(s):
                raise ValueError("a second line is taken for granted")
            return "kinds of both lines are compared"
        if h[0] == "rel":
            self.pair(s, h[1], h[2], used)
            if "eq" in h[3]:
                raise ValueError("lines of the same kinds are taken for a header and a row")
            if not self.both(s):
                raise ValueError("a second line is taken for granted")
            return "kinds of both lines are compared"
        if h[0] != "b":
            raise Other("the flag is %s" % show(h)[:80])
        rels = [c for c in s.conds() if c[0] == "rel" and any(mentions(x, lambda y: callname(y) in ("split",)) for x in (c[1], c[2]))]
        whole = [c for c in rels if c[1][0] == "collect" and c[2][0] == "collect"]
        if whole:
            for c in whole:
                self.pair(s, c[1], c[2], used)
                if ("eq" in c[3]) == h[1]:
                    raise ValueError("lines of the same kinds are taken for a header and a row")
            return "kinds of both lines are compared"
        if not h[1] and (self.present(s, 0) is False or self.present(s, 1) is False):
            return "there are no two lines"
        zips = [e for e in ev if e[0] in ("search", "search-none") and e[1] in ("any", "all", "position") and self.zipped(e[2])]
        if zips:
            return self.zips(s, zips, h[1], rels, used)
        lens = [c for c in rels if all(x[0] == "app" and x[1] == "len" and x[2][0][0] == "collect" for x in c[1:3])]
        if h[1] and any("eq" not in c[3] for c in lens):
            for c in lens:
                self.pair(s, c[1][2][0], c[2][2][0], used)
            return "the numbers of cells differ"
        if any(mentions(x, lambda y: callname(y) is not None and "split" in callname(y)) for e in ev if e[0] in ("search", "search-none", "forall", "loop", "call") for x in flat(e)):
            raise Other("cells are compared one by one")
        asked = {e[4] for e in own(ev) if any(mentions(a, lambda y: y in self.lists) for a in e[3])}
        if any(mentions(c, lambda y: y in asked) for c in s.conds()) or not self.lists:
            raise Other("whether there are two lines")
        if self.present(s, 1) is False:
            raise ValueError("a header is found although there is no second line")
        raise ValueError("the flag is %s whatever the cells are" % ("set" if h[1] else "not set"))

    def zipped(self, d):
        d = d[1] if d[0] == "d" else d
        return d if d[0] == "zip" and all(x[0] in ("iter", "into") and x[1][0] == "collect" for x in d[1:3]) else None

    def zips(self, s, evs, flag, rels, used):
        z = self.zipped(evs[-1][2])
        a, b = z[1][1], z[2][1]
        self.pair(s, a, b, used)
        la, lb = app("len", a), app("len", b)
        lens = [c[3] - {"un"} for c in rels if {c[1], c[2]} == {la, lb}]
        if flag:
            if evs[-1][0] == "search" and any({x[1] for x in (c[1], c[2]) if x[0] == "sel"} == {a, b} and "eq" not in c[3] for c in rels):
                return "the kinds of two cells differ"
            raise Other("cells are compared one by one")
        if not any(c == {"eq"} for c in lens):
            raise ValueError("the numbers of cells are not compared")
        if evs[-1][0] == "search-none" and evs[-1][1] in ("any", "position"):
            return "no cell differs in kind"
        raise Other("cells are compared one by one")

    def both(self, s):
        return self.present(s, 1) is True


def flat(e):
    for x in e:
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            yield x
        elif isinstance(x, (tuple, list)):
            for y in flat(x):
                yield y


def callrev(c):
    return c[0] == "app" and str(c[1]).endswith("Ordering::reverse")


def s_eval(I, s, h):
    if h[0] == "b":
        return h
    if entails(I, s, h):
        return ("b", True) if h[0] != "rel" or not mentions(h, lambda y: y[0] == "collect") else h
    return h


def own(events):
    return [e for e in events if e[0] == "call"]


def plain(t):
    t = strip(t)
    while t[0] == "app" and str(t[1]).startswith("as:") and len(t[2]) == 1:
        t = strip(t[2][0])
    return t


def parsed(c):
    """(type, text, did it parse?) for a condition on the outcome of a parse"""
    if c[0] != "rel" or c[1][0] != "discr" or callname(c[1][1]) != "parse":
        return None
    t = c[1][1]
    ty = str(t[2][1]).split("Result<", 1)[-1].split(",", 1)[0].strip() if len(t[2]) > 1 else "?"
    ops = c[3] - {"un"}
    k = c[2]
    if not is_c(k):
        return None
    ok = ("eq" in ops) if k[1] == 0 else ("eq" not in ops)
    return ty, t[2][0], ok


def run(ctx):
    F = ctx.F
    news = fn_by(F, lambda p, b: tyname(F, b["locals"][0]) == RESULT and "CSVSource" in F.tys[b["locals"][0]]["s"] and
                 any("CSVInputConfig" in tyname(F, t) for t in b["locals"][1:b["argc"] + 1]))
    if len(news) != 1:
        ctx.undecided("the constructor of the CSV source (%d)" % len(news))
        return
    p = news[0]
    b = F.body(p)
    cfgp = next(i for i, t in enumerate(b["locals"][1:b["argc"] + 1]) if "CSVInputConfig" in tyname(F, t))
    far = [q for q in F.bodies if q.startswith("source::csv_timestamp::") or q.startswith("util::reader::") and q.endswith("::new")]
    I, outs = ctx.explore(p, opaque=tuple(sorted(far)))
    CFG = tyname(F, b["locals"][1 + cfgp])
    cfg = ("deref", ("p", cfgp))
    cdel, chas = fld_of(I, cfg, "delimiter", CFG), fld_of(I, cfg, "has_header", CFG)
    YNA = next((a for a in F.adts if a.endswith("YesNoAuto")), None)
    look = Look(ctx, I)
    todo = []
    for s, o in outs:
        if o[0] != "ret":
            continue
        st = settings(all_events(s.events()))
        if "new" not in st:
            continue
        d = st["delimiter"][-1] if "delimiter" in st else None
        h = st["has_headers"][-1] if "has_headers" in st else None
        todo.append((s, d, h))
        for t in [d[3][1] if d else None, h[3][1] if h else None] + list(s.conds()):
            for y in subterms(t) if t else ():
                if callname(y) == "split" or y[0] == "app" and y[1] in ("bytes", "chars"):
                    try:
                        look.line(y[2][0])
                    except (Other, ValueError):
                        pass
    n = {"delimiter": 0, "header": 0}
    seen = set()
    for s, d, h in todo:
        used = d[3][1] if d else C(44)
        ev = s.events()
        loops = list(collect_loops(ev).values())
        try:
            if is_none(I, s, cdel) and look.present(s, 0) is not False:
                what = look.order(s, loops, ev, used) if not is_c(used) else None
                if what is None:
                    if look.present(s, 0) is None:
                        raise Other("whether there is a first line")
                    raise ValueError("%s is set whatever the first line is" % show(used))
                n["delimiter"] += 1
                ctx.ob("delimiter:most-frequent", True, "the delimiter is that of comma, tab, space with the most occurrences: " + what, d[5])
        except ValueError as e:
            ctx.ob("delimiter:most-frequent", False, "the delimiter that is not given: %s" % e, d[5] if d else p)
            n["delimiter"] += 1
        except Other as e:
            ctx.undecided("delimiter: %s" % e)
            n["delimiter"] += 1
        if YNA is None or variants(I, s, chas, YNA) != {"Auto"}:
            continue
        flag = h[3][1] if h else TRUE
        k = (repr(flag), repr(used), look.present(s, 0), look.present(s, 1))
        try:
            what = look.header(s, flag, used, ev)
            ctx.ob("header:found-out", True, "a header line is found out: " + what, h[5])
        except ValueError as e:
            ctx.ob("header:found-out", False, "whether the first line is a header: %s" % e, h[5] if h else p)
        except Other as e:
            ctx.undecided("header: %s" % e)
        n["header"] += 1
    for k, v in n.items():
        ctx.ob("paths:" + k, v > 0, "%d path(s) on which the %s is found out" % (v, k))
