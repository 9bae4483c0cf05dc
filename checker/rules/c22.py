"""C22: trouble with what is read or written is an error, never a crash."""
import re
from vecs import *
from vecs import _row
from c15 import tyname
from c17 import bare
from models import seqloc

RULE = ("Every function of the library is explored, callees included. Where a path ends in a panic (a missing value or an error unwrapped, an "
        "explicit panic, an index out of bounds, a division by zero, a number out of the range of its type), what decides it is looked at: the outcome of a call that "
        "reads, writes, opens or decodes, or something computed from what such a call gave (a number, a text, a conversion or lookup of it, also when carried around a "
        "loop, kept in a field or handed to another function). Then the panic is one that the content or state of an input or output can set off, and a violation, "
        "unless the path's conditions rule it out (linear arithmetic over what is known of lengths and numbers). Parts taken of texts and bytes that are read have to "
        "be there on every path, and calls of the library that end the program for some numbers have to be given none of them. "
        "An allocation is held against the range of the number it is sized by.")
TECHNIQUE = "path-sensitive taint analysis from reads and writes to panics, partial library calls and allocation sizes"
LIMITS = ("Panics that depend on how the parts are put together only (numbers of nodes, chains, columns of the header) are not judged, nor are sums over many "
          "rounds of a loop, panics inside the libraries used (but for those listed), and bounds that need an invariant between fields: those are other properties' subject.")

READS = ("io::read::Read", "io::buf_read::BufRead", "io::seek::Seek", "io::ReadBytesExt", "std::fs::", "std::io::Read", "std::io::Seek", "std::io::BufRead",
         "csv::reader::", "ureq::", "ruzstd::", "lz_fear::", "lz4::", "flate2::", "bzip2::", "paku::", "zstd::", "std::path::Path::read_dir", "ReadDir", "DirEntry")
WRITES = ("io::write::Write", "io::WriteBytesExt", "dtoa::", "std::fs::File::create", "OpenOptions", "csv::writer::")
# what may fail on account of the text or number it is given
CONVERTS = ("::parse", "from_utf8", "::parse_from_str", "from_str_radix", "utf8", "from_digit", "::to_digit", "::to_str", "try_from", "try_into", "checked_", "::get", "mapget", "from_u32", "pord",
            "Path::extension", "::first", "::last", "::pop", "::nth")


def source(x):
    """a call that reads or writes"""
    if x[0] in ("res", "post"):
        p = next((y for y in x[1:] if isinstance(y, str)), "")
    elif x[0] == "app" and x[1].startswith("call:"):
        p = x[1][5:]
    else:
        return None
    return "read" if any(r in p for r in READS) else "written" if any(w in p for w in WRITES) else None


ARITH = ("+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "cast", "neg", "min", "max", "swap_bytes")
MADE = ("collect", "sorted", "filter", "map", "opq", "d", "rev", "skip", "take", "enumerate", "filter_map", "cloned")
COUNTS = ("len", "more", "count", "capacity", "max0")


def parts(t):
    """what a sequence is made of"""
    xs = t[2] if t[0] == "app" and t[1] in MADE else t[1:] if t[0] in MADE else ()
    return [x for x in xs if isinstance(x, tuple) and x and isinstance(x[0], str)]


def chain(t):
    """a term and what it is a part of"""
    while True:
        yield t
        if t[0] not in ("fld", "dc", "deref", "vref", "sel"):
            return
        t = t[1]


TEXTS = ("csv::string_record::StringRecord", "alloc::string::String", "str", "[u8]", "std::boxed::Box<[u8]>")


def how_many(t):
    """the number of bytes a read gave, which a file does not get to choose"""
    if t[0] != "fld":
        return False
    x = t[1][1] if t[1][0] == "dc" else t[1]
    return x[0] == "res" and str(x[2]).endswith("::read")


def holds(t, f):
    """f of t or a part of it, numbers of bytes read apart"""
    seen, work = set(), [t]
    while work:
        x = work.pop()
        if not isinstance(x, tuple) or not x or id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x[0], str):
            if how_many(x):
                continue
            if f(x):
                return True
        work.extend(x)
    return False


class Types:
    """what type a term has, where that can be told"""

    def __init__(self, F, body, loops, rets):
        self.F, self.body, self.loops, self.rets, self.memo = F, body, loops, rets, {}

    def of(self, t):
        if t not in self.memo:
            self.memo[t] = None
            self.memo[t] = self._of(t)
        return self.memo[t]

    def _of(self, t):
        F, k = self.F, t[0]
        if k == "p" and isinstance(t[1], int) and t[1] < self.body["argc"]:
            return self.body["locals"][1 + t[1]]
        if k == "lv":
            L = self.loops.get(t[1])
            return self.of(L["init"][t]) if L is not None and t in L["init"] else None
        if k == "res":
            return self.rets.get(t)
        if k == "vref":
            return self.of(t[1])
        if k not in ("deref", "fld", "dc", "sel"):
            return None
        ty = self.of(t[1])
        if ty is None:
            return None
        if k in ("deref", "dc"):
            if k == "dc":
                return ty
            x = F.tys[ty]
            return x["t"] if x["k"] in ("ref", "ptr") else x["a"][0] if x.get("p") == "alloc::boxed::Box" else None
        ty = F.strip_ty(ty)
        x = F.tys[ty]
        if k == "sel":
            return x.get("t") if x["k"] in ("slice", "array") else x["a"][0] if x.get("p") == "alloc::vec::Vec" else None
        return self.field(ty, t[1][2] if t[1][0] == "dc" else None, t[2])

    def field(self, ty, variant, i):
        x = self.F.tys[self.F.strip_ty(ty)]
        if not isinstance(i, int):
            return None
        if x["k"] == "tuple":
            return x["a"][i] if 0 <= i < len(x["a"]) else None
        if x["k"] != "adt":
            return None
        if x["p"] == "core::option::Option" and variant == "Some" and i == 0:
            return x["a"][0]
        if x["p"] == RESULT and i == 0:
            return x["a"][0 if variant == "Ok" else 1]
        a = self.F.adts.get(x["p"])
        for v in a["variants"] if a else []:
            if (variant is None or v["name"] == variant) and 0 <= i < len(v["fields"]):
                return v["fields"][i][1]
        return None

    def adt(self, t):
        ty = self.of(t)
        return self.F.tname(ty) if ty is not None else None


KNOWN = {}


class Taint:
    """what on a path comes from an input"""

    def __init__(self, ctx, F, s, local, records, body, held, passed):
        self.F, self.local, self.records, self.held, self.passed = F, local, records, held, passed
        self.loops = collect_loops(s.events())
        self.ty = Types(F, body, self.loops, {e[4]: e[9] for e in calls(s.events(), into=True) if len(e) > 9 and e[9] is not None})
        self.carried, self.numbers, self.asked = set(), set(), set()
        key = (body["path"], len(local), len(records), len(held), tuple(sorted(id(L) for L in self.loops.values())))
        if key in KNOWN:
            self.carried, self.numbers = KNOWN[key][:2]
            return
        while True:
            n = len(self.carried) + len(self.numbers)
            for L in self.loops.values():
                for v in list(L["init"]) + [v for it in L["iters"] for v in it["next"]]:
                    xs = [L["init"].get(v)] + [it["next"].get(v) for it in L["iters"]]
                    if any(x is not None and x != v and self.tainted(x) for x in xs):
                        self.carried.add(v)
                    if any(x is not None and x != v and self.number(x) for x in xs):
                        self.numbers.add(v)
            if len(self.carried) + len(self.numbers) == n:
                break
        KNOWN[key] = (self.carried, self.numbers, list(self.loops.values()))

    def is_source(self, x):
        k = source(x)
        if k is None and x[0] == "res":
            p = next((y for y in x[1:] if isinstance(y, str)), "")
            return "read" if p in self.local else None
        return k

    def is_held(self, t):
        """what something was filled with from an input"""
        return t[0] == "fld" and (self.ty.adt(t[1][1] if t[1][0] == "dc" else t[1]), t[2]) in self.held

    def wide(self, t, seen=()):
        """the values of a row, or the names or types of a header"""
        if any(x[0] == "fld" and (self.ty.adt(x[1]), x[2]) in ROWS for x in chain(t)):
            return True
        if t[0] == "lv" and t not in seen and t[1] in self.loops:
            v = self.loops[t[1]]["init"].get(t)
            return v is not None and self.wide(v, seen + (t,))
        return t[0] in ("app", "push") and any(self.wide(x, seen) for x in (t[2] if t[0] == "app" else t[1:]) if isinstance(x, tuple) and x and isinstance(x[0], str))

    def tainted(self, t):
        return holds(t, lambda x: self.is_source(x) == "read" or x[0] == "lv" and x in self.carried or x in self.records or self.is_held(x))

    def fills(self, ty, v):
        """[(type, field)] that are given something from an input"""
        out = []
        if v[0] == "box":
            out += self.fills(None, self.unbox(v))
        if v[0] == "adt" and v[1] in self.F.adts and self.F.adts[v[1]]["local"]:
            for i, x in enumerate(v[3]):
                if x[0] != "ov" and not (x[0] == "adt" and x[1] in self.F.adts and self.F.adts[x[1]]["local"]) and self.tainted(x):
                    out.append((v[1], i))
                out += self.fills(None, x)
        elif v[0] == "adt":
            for x in v[3]:
                out += self.fills(None, x)
        elif v[0] == "tup":
            for x in v[1]:
                out += self.fills(None, x)
        elif v[0] == "ov" and ty is not None:
            out += self.fills(ty, v[1])
            for kk, x in v[2]:
                if kk[0] != "f":
                    continue
                if x[0] != "ov" and self.tainted(x):
                    out.append((self.F.tname(ty), kk[1]))
                out += self.fills(self.ty.field(ty, None, kk[1]), x)
        return out

    def raw(self, t):
        """a record, text or bytes as they were read, not something made up from them"""
        if t[0] == "app" and t[1].startswith("call:") and len(t[2]) == 1:
            return self.raw(t[2][0])
        if parts(t):
            return any(self.raw(x) for x in parts(t))
        for x in chain(t):
            ty = self.ty.of(x)
            name = self.F.tname(ty) if ty is not None else None
            if name in TEXTS and self.tainted(t):
                return True
            if x in self.records and x not in self.passed or x[0] == "res" and self.is_source(x) or self.is_held(x) and (self.ty.adt(x[1]), x[2]) not in ROWS:
                return True
        return False

    def number(self, t):
        """a number that an input gives"""
        if is_c(t):
            return False
        if t[0] == "app" and t[1] in COUNTS:
            return any(self.raw(x) for x in t[2])
        if any(self.is_held(x) for x in chain(t)):
            return True
        if t[0] == "app" and t[1] in ARITH:
            return any(self.number(x) for x in t[2])
        if t[0] in ("fld", "dc", "deref", "vref"):
            x = t
            while x[0] in ("fld", "dc", "deref", "vref"):
                x = x[1]
            if how_many(t):
                return False
            if any(c[0] == "fld" and c[1][0] != "dc" for c in chain(t)) and self.is_source(x) is None:
                return False
            t = x
        if t[0] == "lv":
            return t in self.numbers
        if t[0] == "sel" and any(x[0] == "lv" for x in chain(t)):
            return False
        return self.tainted(t)

    def outcome(self, t):
        """what kind of outcome of a call this Option or Result is"""
        x = t
        while x[0] in ("fld", "dc", "deref", "vref"):
            x = x[1]
        k = self.is_source(x)
        if k:
            return "what is %s" % k
        if x[0] == "app" and any(x[1].endswith(c) or c in x[1] for c in CONVERTS) and any(self.tainted(y) for y in x[2] if isinstance(y, tuple)):
            return "a conversion of what is read"
        if x[0] == "lv" and x in self.carried and x not in self.records:
            # what was put there is the outcome of a call, not made up from the outcome of the loop
            if x in self.asked:
                return None
            self.asked.add(x)
            L = self.loops.get(x[1])
            vs = [v for v in [L["init"].get(x)] + [it["next"].get(x) for it in L["iters"]] if v is not None and v != x and v[0] != "adt"] if L else []
            why = next((w for w in map(self.outcome, vs) if w), None)
            self.asked.discard(x)
            return why
        if x in self.records or any(self.is_held(y) for y in chain(t)) or x[0] == "app" and x[1] == "elem" and self.tainted(x):
            return "what is read"
        return None

    def cause(self, c, others):
        """why a condition may hold on account of an input or output"""
        while c[0] == "not":
            c = c[1]
        if c[0] == "rel":
            for a, b in (c[1:3], c[2:0:-1]):
                if a[0] == "discr":
                    return self.outcome(a[1])
            if self.number(c[1]) or self.number(c[2]):
                return "a number that is read"
            # what counts up to a number that is read
            steps = {x for y in c[1:3] for x in lin(y)[0] if x[0] == "lv" and str(x[2]).endswith(".itpos")}
            if any(d[0] == "rel" and steps & set(d[1:3]) and (self.number(d[1]) or self.number(d[2])) for d in others):
                return "a number that is read"
            return None
        if c[0] == "app" and c[1] == "fits" and self.number(c[2][0]):
            return "a number that is read"
        if c[0] == "app" and c[1] in ("streq", "eqic", "starts_with", "ends_with", "contains") and any(self.tainted(x) for x in c[2]):
            return "a text that is read"
        if c[0] == "app" and c[1].startswith("call:") and any(self.tainted(x) for x in c[2] if isinstance(x, tuple)) and "::is_" in c[1]:
            return "what is read"
        return None


ALLOCS = {"with_capacity": 0, "from_elem": 1, "reserve": 1, "reserve_exact": 1, "resize": 1}
WIDTH = {"read_u8": 2 ** 8, "read_i8": 2 ** 7, "read_u16": 2 ** 16, "read_i16": 2 ** 15, "read_u32": 2 ** 32, "read_i32": 2 ** 31, "read_u64": 2 ** 64, "read_i64": 2 ** 63}
INTS = {"u8": 2 ** 8, "i8": 2 ** 7, "u16": 2 ** 16, "i16": 2 ** 15, "u32": 2 ** 32, "i32": 2 ** 31, "u64": 2 ** 64, "i64": 2 ** 63, "usize": 2 ** 64}
# what library functions end the program for: {function: {argument: largest value that is accepted}}
STRICT = {"::timestamp_nanos": {0: -1}, "TimeZone::timestamp": {1: 8_000_000_000_000, 2: 1_999_999_999}, "NaiveDateTime::from_timestamp": {0: 8_000_000_000_000, 1: 1_999_999_999},
          "TimeZone::timestamp_millis": {1: 8_000_000_000_000_000}, "NaiveDate::and_hms": {1: 23, 2: 59, 3: 59}, "NaiveTime::from_hms": {0: 23, 1: 59, 2: 59},
          "NaiveDate::from_ymd": {0: 9999, 1: -1, 2: -1}, "TimeZone::ymd": {1: 9999, 2: -1, 3: -1},
          "NaiveTime::from_num_seconds_from_midnight": {0: 86399, 1: 1_999_999_999}}
# parts of what there is: {function: argument that must not be above the length}
WITHIN = {"split_at": 1, "split_at_mut": 1, "split_off": 1, "rotate_left": 1, "rotate_right": 1}
MOST = 2 ** 32      # as much as the longest text of the DC format takes


def remains(t):
    """c if t is x - x / c * c"""
    if t[0] == "app" and t[1] == "-":
        x, y = t[2][0], t[2][1]
        if y[0] == "app" and y[1] == "*":
            for q, m in (y[2], y[2][::-1]):
                if is_c(m) and q == app("/", x, m):
                    return m[1]
    return None


def not_negative(I, s, t, T=None):
    """a number that cannot be below zero"""
    if I.rng(s, t)[0] >= 0 or remains(t) is not None and not_negative(I, s, t[2][0], T):
        return True
    if t[0] == "app" and t[1] in ("+", "*", "/", "%", "min", "max", ">>"):
        return all(not_negative(I, s, x, T) for x in t[2] if isinstance(x, tuple))
    if t[0] == "app":
        return t[1] in COUNTS or t[1].startswith("as:u") or t[1] == "&" and any(not_negative(I, s, x, T) for x in t[2])
    for x in chain(t):
        if x[0] == "res":
            n = str(x[2]).rsplit("::", 1)[-1]
            if n in WIDTH:
                return n.startswith("read_u")
    ty = T.ty.of(t) if T is not None else None
    return ty is not None and T.F.tys[ty]["s"].startswith("u")


def bound(I, s, t, T=None):
    """the largest value a number may have"""
    lo, hi, ne = I.rng(s, t)
    if hi < INF:
        return hi
    if remains(t) is not None:
        return remains(t) - 1
    if t[0] == "app" and t[1].startswith("as:"):
        x = bound(I, s, t[2][0], T) if not_negative(I, s, t[2][0], T) or t[1][3] == "i" else INF
        w = {"u8": 8, "u16": 16, "u32": 32}.get(t[1][3:])
        return min(x, 2 ** w - 1) if w else x
    if t[0] == "app" and t[1] in ("+", "*", "/", "%", "min", "&", ">>", "-", "cast"):
        xs = [bound(I, s, x, T) for x in t[2] if isinstance(x, tuple)]
        if t[1] == "+":
            return sum(xs)
        if t[1] == "*":
            r = 1
            for x in xs:
                r *= x
            return r
        if t[1] in ("min", "&"):
            return min(xs)
        if t[1] == "%":
            return min(xs[0], xs[1] - 1) if xs[1] < INF else xs[0]
        if t[1] == "/" and is_c(t[2][1]) and xs[0] < INF:
            return xs[0] // max(1, t[2][1][1])
        return xs[0]
    for x in chain(t):
        if x[0] == "res":
            return WIDTH.get(str(x[2]).rsplit("::", 1)[-1], INF)
    ty = T.ty.of(t) if T is not None else None
    return INTS.get(T.F.tys[ty]["s"], INF) if ty is not None else INF


def without_counts(t):
    """what is there already bounds its own size"""
    return C(0) if t[0] == "app" and t[1] in COUNTS else ("app", t[1], tuple(without_counts(x) for x in t[2])) if t[0] == "app" and t[1] in ARITH else t


def stderr_only(s, t):
    """the outcome of writing to standard error"""
    for e in calls(s.events(), into=True):
        if e[4] == t:
            return any(mentions(x, lambda y: y[0] in ("res", "app") and "stdio::stderr" in str(y[1:3])) for x in list(e[2]) + list(e[3]) if isinstance(x, tuple))
    return False


def locals_that_read(F, ctx):
    """functions that read or write, themselves or through others, and tell how it went"""
    cg = ctx.callgraph()
    impls = {}
    for p in F.bodies:
        if p.startswith("<") and " as " in p:
            tr, m = p.split(" as ", 1)[1].rsplit(">::", 1)
            impls.setdefault(tr.split("<")[0] + "::" + m, set()).add(p)
    direct = {p for p, cs in cg.items() if any(any(r in c for r in READS + WRITES) for c in cs)}
    while True:
        more = {p for p, cs in cg.items() if p not in direct and any(c in direct or impls.get(c, set()) & direct for c in cs)}
        if not more:
            break
        direct |= more
    ok = {p for p in direct if F.has_body(p) and tyname(F, F.body(p)["locals"][0]) == RESULT}
    return ok | {t for t, ps in impls.items() if ps & ok}


def fallible(F, t):
    """the type of the outcome of a read or write"""
    return re.match(r"(std|core)::result::Result<.*(io::error::Error|io::Error|csv::error::Error|csv::Error|error::Error)>$", F.tys[t]["s"]) is not None


def long_enough(s):
    """what starts or ends with a text is as long as that"""
    return [rel("Ge", app("len", c[2][0]), C(len(c[2][1][1].encode()))) for c in s.conds()
            if c[0] == "app" and c[1] in ("starts_with", "ends_with") and c[2][1][0] == "s"]


def slice_trouble(I, T, s, v, r, text):
    """taking a part of a text or of bytes that may not have it"""
    v = I.deep(s, I.read(s, seqloc(I, s, v)))
    if T.wide(v):
        return None         # as wide as the header, which is not judged here
    n = I.len_of(v)
    name = r[1].rsplit("::", 1)[-1]
    lo, hi = (r[3][i] if i is not None else None for i in PARTS[name])
    if "Inclusive" in name and hi is not None:
        hi = add(hi, C(1))
    known = lambda x: all(T.number(a) or a == n or a[0] == "app" and a[1] == "len" and T.raw(a[2][0]) for a in lin(x)[0])
    if not all(x is None or known(x) for x in (lo, hi)):
        return None
    if not T.raw(v) and not any(x is not None and T.number(x) for x in (lo, hi)):
        return None
    V = Vals(I, T.loops)
    cs = V.conds(s) + long_enough(s)
    first = lo if lo is not None else C(0)
    last = hi if hi is not None else n
    if not proves(cs, V.norm(last), V.norm(n)):
        return "a part up to %s is taken of %s, which may be shorter" % (show(last)[:60], show(v)[:60])
    if not proves(cs, V.norm(first), V.norm(last)):
        return "a part from %s up to %s is taken of %s, which may be shorter" % (show(first)[:60], show(last)[:60], show(v)[:60])
    if text and not any(mentions(c, lambda x: x == v) and not only_length(c, v) for c in s.conds()):
        for x in (lo, hi):
            if x is not None and x not in (C(0), n) and all(is_c(x) or a[0] == "app" and a[1] == "len" for a in lin(x)[0]) and lin(x)[1]:
                return "a part is cut off at byte %s of %s, which may be inside of a character" % (show(x)[:60], show(v)[:60])
    return None


def only_length(c, v):
    return not mentions(("c", 0) if c == app("len", v) else tuple(("c", 0) if x == app("len", v) else x for x in c), lambda x: x == v)


def textual(F, fn):
    """str or String is what is cut"""
    if "str::<impl str>" in fn["p"]:
        return True
    a = fn.get("a") or []
    return bool(a) and isinstance(a[0], int) and F.tname(a[0]) in ("str", "alloc::string::String", "std::string::String")


PLUMBING = ("chopper::data_graph::", "chopper::header_graph::", "driver::driver::", "error::")
ROWS = {("chopper::types::Row", 0), ("chopper::types::Row", 1), ("chopper::types::Header", 0), ("chopper::types::Header", 1)}


EXPLICIT = ("panic", "panic_fmt", "begin_panic", "panic_display", "unreachable_default_msg", "assert_failed", "unreachable_display", "panic_explicit")
PARTS = {"Range": (0, 1), "RangeFrom": (0, None), "RangeTo": (None, 0), "RangeInclusive": (0, 1), "RangeToInclusive": (None, 0)}


def straight(body):
    """no branches: makes something up from what it is given"""
    return len(body["bbs"]) < 12 and not any(b["t"]["k"] == "switch" for b in body["bbs"])


def explored(ctx, p):
    """[(state, outcome)] and the allocations on the way"""
    F = ctx.F
    allocs, slices, strict = [], [], []

    def on_call(I, st, fn, args, sp, stack, body):
        n = fn["p"].rsplit("::", 1)[-1]
        if n in ALLOCS and len(args) > ALLOCS[n] and body is not None and not is_c(args[ALLOCS[n]]):
            ret = fn.get("ret")
            allocs.append((st.fork(), args[ALLOCS[n]], F.tys[ret]["s"] if ret is not None else "", n, body["path"]))
        if n in ("index", "index_mut") and len(args) == 2 and body is not None and args[1][0] == "adt" and args[1][1].rsplit("::", 1)[-1] in PARTS:
            slices.append((st.fork(), args[0], args[1], body["path"], textual(F, fn)))
        if n in WITHIN and body is not None and len(args) > WITHIN[n] and "core::" in fn["p"] + "core::":
            slices.append((st.fork(), args[0], ("adt", "core::ops::range::RangeTo", "RangeTo", (args[WITHIN[n]],)), body["path"], textual(F, fn)))
        lim = next((l for f, l in STRICT.items() if fn["p"].endswith(f)), None)
        if lim and body is not None:
            strict.append((st.fork(), args, lim, fn["p"], body["path"]))
        return None
    for kw in ({"max_states": 6000, "overflow": True}, {"max_states": 6000, "opaque": lambda q: F.has_body(q) and not straight(F.body(q)), "overflow": True}):
        del allocs[:], slices[:], strict[:]
        try:
            I, outs = ctx.explore(p, on_call=on_call, **kw)
            return (I, outs, allocs, slices, strict), len(kw) > 2
        except Budget:
            continue
    return None, True


def handed(T, F, ty, x):
    """what is passed on comes from an input"""
    return F.tys[F.strip_ty(ty)]["k"] not in ("int", "bool", "closure", "dyn", "param") and T.tainted(x)


def taken(T, ts):
    """closures that are given what is read, one by one"""
    out = set()
    for t in ts:
        for x in subterms(t):
            ys = parts(x)
            if any(T.tainted(y) for y in ys if y[0] != "clo"):
                out.update(y[1] for y in ys if y[0] == "clo")
    return out


def lent(I, s, x):
    """what a reference is to"""
    while x[0] == "vref":
        x = x[1]
    return I.deep(s, I.read(s, (x[1], x[2]))) if x[0] == "ref" else I.deep(s, x)


def excluded_values(s, t):
    """what a number is known not to be"""
    out = set()
    for c in s.conds():
        if c[0] == "rel":
            for a, b in (c[1:3], c[2:0:-1]):
                if a == t and is_c(b) and set(c[3]) == {"lt", "gt"}:
                    out.add(b[1])
    return out


def ruled_out(I, T, s):
    """the conditions of the path exclude each other"""
    for c in s.conds()[-1:]:
        if c[0] == "rel" and c[1][0] == "discr" and c[1][1][0] == "app" and c[1][1][1].endswith("char::from_u32") and bound(I, s, c[1][1][2][0], T) < 0xd800:
            return True         # always is a character
        for t in (c[1:3] if c[0] == "rel" else ()):
            if is_c(t):
                continue
            lo, hi, ne = I.rng(s, t)
            hi = min(hi, bound(I, s, t, T))
            ne = set(ne) | excluded_values(s, t)
            if t[0] == "app" and t[1] in ("&", "%"):
                lo = max(lo, 0) if t[1] == "&" and any(is_c(x) and x[1] >= 0 for x in t[2]) else lo
            while lo in ne and lo <= hi:
                lo += 1
            while hi in ne and lo <= hi:
                hi -= 1
            if lo > hi:
                return True
    try:
        V = Vals(I, T.loops)
        rows = [r for c in V.conds(s) for r in _row(c)]
        return infeasible(rows + [({t: 1}, 0) for d, n in rows for t in d if natural(t)])
    except (Unknown, RecursionError):
        return False


def divided(I, T, s, ts):
    """what is known of quotients and remainders"""
    out = []
    for t in ts:
        for x in subterms(t):
            if x[0] == "app" and x[1] in ("/", "%") and is_c(x[2][1]) and x[2][1][1] > 0 and not_negative(I, s, x[2][0], T):
                n, c = x[2]
                out.append(rel("Ge", n, mul(x, c) if x[1] == "/" else x))
                if x[1] == "%":
                    out.append(rel("Lt", x, c))
    return out


def contract(I, s, c):
    """what a call gives by its contract: seek from the start gives the position asked for"""
    if c[0] != "rel":
        return False
    for a, b in (c[1:3], c[2:0:-1]):
        r = a[1][1] if a[0] == "fld" and a[1][0] == "dc" else None
        if r is None or r[0] != "res" or not str(r[2]).endswith("::seek"):
            continue
        for e in calls(s.events(), into=True):
            if e[4] == r and len(e[2]) > 1:
                x = I.deep(s, e[2][1])
                if x[0] == "adt" and x[2] == "Start" and x[3][0] == b:
                    return True
    return False


def exceeds(I, T, s, extra):
    """what a number that is read takes beyond the range of its type"""
    op, x, y, ty = extra
    V = Vals(I, T.loops)
    cs = V.conds(s) + long_enough(s)
    x, y = V.norm(I.deep(s, x)), V.norm(I.deep(s, y))
    known = lambda n: all(T.number(a) for a in lin(n)[0])
    if not known(x) or not known(y) or is_c(x) and is_c(y):
        return None
    if op == "Sub" and ty[0] == "u":
        return None if y == C(0) or proves(cs + divided(I, T, s, (x, y)) + [rel("Ge", x, C(0)), rel("Ge", y, C(0))], y, x) else "taking %s from %s, which may be less and" % (show(y)[:60], show(x)[:60])
    a, b = bound(I, s, x), bound(I, s, y)
    n = (a + b if op == "Add" else a * b if op == "Mul" else 0) if max(a, b) < INF else 0
    return "%s of %s and %s, more than %s holds," % (op, show(x)[:60], show(y)[:60], ty) if n >= INTS.get(ty, INF) else None


def run(ctx):
    F = ctx.F
    local = locals_that_read(F, ctx)
    runs, given, passed, bareonly = {}, {}, {}, {}
    for p in sorted(F.bodies):
        b = F.body(p)
        runs[p], bareonly[p] = explored(ctx, p)
        if runs[p] is None:
            del runs[p]
            ctx.undecided("%s is too large to explore" % p)
        direct = any(any(r in q for r in READS) for q in ctx.callgraph().get(p.split("::{closure")[0], ())) if "{closure" in p else False
        given[p] = {x for i, t in enumerate(b["locals"][1:b["argc"] + 1]) if "StringRecord" in F.tys[t]["s"] or "{closure" in p and (fallible(F, t) or direct and i > 0)
                    for x in (("p", i), ("deref", ("p", i)))}
    held = set(ROWS)
    while True:
        more, again = set(), False
        for p, (I, outs, _, _, _) in runs.items():
            b = F.body(p)
            for s, o in outs:
                T = Taint(ctx, F, s, local, given[p], b, held, passed.get(p, set()))
                T.unbox = lambda v, I=I, s=s: I.deep(s, I.read(s, (v[1], ())))
                if bareonly[p]:
                    # its callees were not entered: what they are given
                    for e in calls(s.events(), into=True):
                        if e[1] in given:
                            for i, x in enumerate(e[2]):
                                if isinstance(x, tuple) and ("p", i) not in given[e[1]] and handed(T, F, F.body(e[1])["locals"][1 + i], I.deep(s, x)):
                                    given[e[1]] |= {("p", i), ("deref", ("p", i))}
                                    passed.setdefault(e[1], set()).update({("p", i), ("deref", ("p", i))})
                                    again = True
                for q in taken(T, [o[1]] * (o[0] == "ret") + s.conds()):
                    if q in given:
                        new = {x for i in range(1, F.body(q)["argc"]) for x in (("p", i), ("deref", ("p", i)))} - given[q]
                        given[q] |= new
                        again = again or bool(new)
                if o[0] == "ret" and p not in local and any(T.is_held(x) for x in chain(lent(I, s, o[1]))):
                    local.add(p)
                    again = True
                if o[0] == "ret":
                    more.update(T.fills(None, I.deep(s, o[1])))
                for i in range(b["argc"]):
                    v = s.mem.get(("D", ("p", i)))
                    if v is not None:
                        x = F.tys[b["locals"][1 + i]]
                        more.update(T.fills(x["t"] if x["k"] == "ref" else None, v))
        more = {h for h in more if not h[0].startswith(PLUMBING)}
        if more <= held and not again:
            break
        held |= more
    for p, (I, outs, _, _, _) in runs.items():
        if not (p.startswith("<error::Error as core::convert::From<") and p.endswith("::from")):
            continue
        for s, o in outs:
            if o[0] == "panic":
                # the kind of a csv error is that of its io error exactly if it says that it is one
                known = "csv::error::Error" in p and any(c[0] == "app" and c[1] == "call:csv::error::Error::is_io_error" for c in s.conds())
                ctx.ob("conversion:%s" % p, known, "%s: a failure ends in a panic (%s)" % (p, o[1]), o[2])
    seen, panics, sized = set(), 0, 0
    for p, (I, outs, allocs, slices, strict) in runs.items():
        b = F.body(p)
        for s, n, ty, what, at in allocs:
            key = "alloc:%s:%s" % (at, ty)
            if key in seen:
                continue
            T = Taint(ctx, F, s, local, given[p], b, held, passed.get(p, set()))
            n = I.deep(s, n)
            if not T.number(without_counts(n)):
                continue
            sized += 1
            size = 1 if re.search(r"Vec<(u8|i8|bool)>$|String$", ty) else 8
            most = bound(I, s, n, T) * size
            if most > MOST:
                seen.add(key)
            ctx.ob(key, most <= MOST, "room is made for as many as the input says: %s %s" % ("no more than %d" % most if most < INF else "any number", show(n)[:60]), at)
        for s, args, lim, f, at in strict:
            T = Taint(ctx, F, s, local, given[p], b, held, passed.get(p, set()))
            for i, most in sorted(lim.items()):
                if i >= len(args) or is_c(args[i]):
                    continue
                x = I.deep(s, args[i])
                if not T.number(x) and not (most < 0 and T.tainted(lent(I, s, args[i]))):
                    continue
                key = "%s:%s:%d" % (at, bare(f), i)
                n = bound(I, s, x, T)
                if (key, n <= most) in seen:
                    continue
                seen.add((key, n <= most))
                sized += 1
                ctx.ob(key, n <= most, "%s takes no more than %d: %s%s" % (bare(f), most, show(x)[:60], "" if n <= most else " may be more") if most >= 0 else "%s of %s, which is not there for all" % (bare(f), show(x)[:60]), at)
        for s, v, r, at, text in slices:
            key = "slice:%s" % at
            if key in seen:
                continue
            T = Taint(ctx, F, s, local, given[p], b, held, passed.get(p, set()))
            why = slice_trouble(I, T, s, v, r, text)
            if why:
                seen.add(key)
                ctx.ob(key, False, why, at)
        for s, o in outs:
            if o[0] != "panic":
                continue
            panics += 1
            _, kind, sp, at, extra = o
            T = Taint(ctx, F, s, local, given[p], b, held, passed.get(p, set()))
            cs = [c for c in s.conds() if not mentions(c, lambda x: x[0] == "app" and "sync::atomic" in x[1])]
            why = None
            if kind == "overflow":
                why = exceeds(I, T, s, extra)
                cs = cs if why else []
            elif kind.startswith("unwrap") and extra is not None:
                t = I.deep(s, extra)
                if stderr_only(s, t):
                    continue
                why = T.outcome(t) if t[0] != "adt" else None
                if why is None and t[0] == "adt" and cs:
                    why = T.cause(cs[-1], cs[:-1])
            elif cs:
                why = T.cause(cs[-1], cs[:-1])
                if why is None and kind in EXPLICIT and any(T.wide(x) for x in subterms(cs[-1]) if x[0] == "fld"):
                    why = "what is read"
            if why is None:
                continue
            key = "%s:%s" % (at, kind)
            if key in seen or ruled_out(I, T, s) or cs and contract(I, s, cs[-1]):
                continue
            seen.add(key)
            ctx.ob("panic:" + key, False, "a panic is set off by %s (%s)" % (why, show(cs[-1])[:80] if cs else ""), at)
    ctx.ob("functions", len(runs) > 0, "%d functions explored, %d paths end in a panic, %d allocations sized by an input" % (len(runs), panics, sized), None)
