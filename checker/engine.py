"""Abstract interpreter over the MIR facts (see driver/).

Values are syntactic terms (hash-consed by tuple equality); the state is a memory (root -> term),
a set of facts (integer intervals / disequalities per term, trichotomy sets per pair of terms,
truth values of opaque booleans) and the list of events met so far.  Control flow is split per
branch (trace partitioning); loop heads are widened: every location some iteration may change is
replaced by a fresh symbol, so one abstract iteration stands for all.  Nothing is executed and no
formula is handed to a solver: a branch is dropped only when the facts contradict it syntactically.
"""
import itertools
import sys

sys.setrecursionlimit(20000)

UNIT = ("tup", ())
TRUE = ("b", True)
FALSE = ("b", False)
INF = 1 << 200
OPTION = "core::option::Option"
RESULT = "core::result::Result"
CFLOW = "core::ops::control_flow::ControlFlow"
ORDERING = "core::cmp::Ordering"

BUILTIN_DISCR = {
    OPTION: {"None": 0, "Some": 1},
    RESULT: {"Ok": 0, "Err": 1},
    CFLOW: {"Continue": 0, "Break": 1},
    ORDERING: {"Less": 255, "Equal": 0, "Greater": 1},
}


def C(n):
    return ("c", n)


def S(s):
    return ("s", s)


def some(v):
    return ("adt", OPTION, "Some", (v,))


NONE = ("adt", OPTION, "None", ())


def ok(v):
    return ("adt", RESULT, "Ok", (v,))


def err(v):
    return ("adt", RESULT, "Err", (v,))


class Budget(Exception):
    pass


# ---------------------------------------------------------------- term construction
def app(op, *args):
    return ("app", op, tuple(args))


def is_c(t):
    return t[0] == "c"


def add(a, b):
    if is_c(a) and is_c(b):
        return C(a[1] + b[1])
    if is_c(a):
        a, b = b, a
    if is_c(b):
        if b[1] == 0:
            return a
        if a[0] == "app" and a[1] == "+" and is_c(a[2][1]):
            return add(a[2][0], C(a[2][1][1] + b[1]))
        return app("+", a, b)
    # a + (b - a) = b is left alone; sort for canonical form
    x, y = sorted((a, b), key=repr)
    return app("+", x, y)


def sub(a, b):
    if is_c(b):
        return add(a, C(-b[1]))
    if a == b:
        return C(0)
    # (x + c) - x
    if a[0] == "app" and a[1] == "+":
        x, y = a[2]
        if x == b:
            return y
        if y == b:
            return x
    return app("-", a, b)


def mul(a, b):
    if is_c(a) and is_c(b):
        return C(a[1] * b[1])
    if is_c(a):
        a, b = b, a
    if is_c(b) and b[1] == 1:
        return a
    if not is_c(b):
        a, b = sorted((a, b), key=repr)
    return app("*", a, b)


REL_ALL = frozenset(("lt", "eq", "gt"))
FLIP = {"lt": "gt", "gt": "lt", "eq": "eq", "un": "un"}
OPS = {
    "Lt": frozenset(("lt",)),
    "Le": frozenset(("lt", "eq")),
    "Gt": frozenset(("gt",)),
    "Ge": frozenset(("gt", "eq")),
    "Eq": frozenset(("eq",)),
    "Ne": frozenset(("lt", "gt", "un")),
}


def split_off(t):
    """x + c -> (x, c)"""
    if t[0] == "app" and t[1] == "+" and is_c(t[2][1]):
        return t[2][0], t[2][1][1]
    return t, 0


def rel(op, a, b):
    """boolean term for a comparison; op is a set of outcomes"""
    s = OPS[op] if isinstance(op, str) else frozenset(op)
    if is_c(a) and is_c(b):
        o = "lt" if a[1] < b[1] else "gt" if a[1] > b[1] else "eq"
        return ("b", o in s)
    if a == b and a[0] not in ("f",):
        return ("b", "eq" in s)
    if a[0] == "b" and b[0] == "b":
        return ("b", ("eq" in s) == (a[1] == b[1]))
    for x, y in ((a, b), (b, a)):
        if y[0] == "b" and s in (OPS["Eq"], OPS["Ne"]):
            want = (s == OPS["Eq"]) == y[1]
            return x if want else neg(x)
    if a[0] == "ch" and b[0] == "ch":
        o = "lt" if a[1] < b[1] else "gt" if a[1] > b[1] else "eq"
        return ("b", o in s)
    # normalise constants to the right and offsets away
    if is_c(a) and not is_c(b):
        a, b = b, a
        s = frozenset(FLIP[x] for x in s)
    xa, ca = split_off(a)
    xb, cb = split_off(b) if not is_c(b) else (None, 0)
    if is_c(b):
        return ("rel", xa, C(b[1] - ca), s)
    if ca or cb:
        if xa == xb:
            o = "lt" if ca < cb else "gt" if ca > cb else "eq"
            return ("b", o in s)
        a, b = (xa, add(xb, C(cb - ca))) if cb >= ca else (add(xa, C(ca - cb)), xb)
    if repr(a) > repr(b):
        a, b = b, a
        s = frozenset(FLIP[x] for x in s)
    return ("rel", a, b, s)


def neg(t):
    if t[0] == "b":
        return ("b", not t[1])
    if t[0] == "not":
        return t[1]
    if t[0] == "rel":
        return ("rel", t[1], t[2], frozenset(("lt", "eq", "gt", "un")) - t[3])
    return ("not", t)


def strip(t):
    """drop value-preserving wrappers (casts, reference-of-value)"""
    while t[0] == "app" and (t[1].startswith("as:") or t[1] in ("cast",)):
        t = t[2][0]
    return t


def subterms(t):
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            for y in x:
                if isinstance(y, tuple):
                    stack.append(y)


def mentions(t, pred):
    return any(pred(x) for x in subterms(t))


def eta(v):
    """S { a: x.a, b: x.b } -> x"""
    xs = v[3]
    if xs and all(x[0] == "fld" and x[2] == i for i, x in enumerate(xs)):
        base = xs[0][1]
        if all(x[1] == base for x in xs) and base[0] != "dc" and v[1].rsplit("::", 1)[-1] == v[2]:
            n = base
            if n[0] in ("deref", "sel", "lv", "res", "p", "fld", "app", "post"):
                return n
    return v


# ---------------------------------------------------------------- state
class State:
    __slots__ = ("mem", "facts", "trace", "n", "loops", "pc")

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.trace = None  # linked list (prev, event)
        self.n = 0
        self.pc = None  # linked list of assumed branch conditions

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.trace = self.trace
        s.n = self.n
        s.pc = self.pc
        return s

    def event(self, *ev):
        self.trace = (self.trace, ev)

    def events(self, upto=None):
        out = []
        t = self.trace
        while t is not None and t is not upto:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out

    def conds(self, upto=None):
        out = []
        t = self.pc
        while t is not None and t is not upto:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out

    def fresh(self):
        self.n += 1
        return self.n


UNSIGNED_APPS = ("len", "count")


AGAIN = ("again",)


class Interp:
    def __init__(self, facts, opaque=(), inline_depth=12, max_states=60000, on_call=None,
                 overflow=False):
        self.F = facts
        self._probe = None
        self.opaque = opaque if callable(opaque) else (lambda p, _o=set(opaque): p in _o)
        self.depth = inline_depth
        self.budget = max_states
        self.steps = 0
        self.on_call = on_call
        self.overflow = overflow  # record arithmetic-overflow asserts as panics
        self.loops = []
        self.frame_ctr = itertools.count()
        self.inlined = set()
        self.unmodelled = {}

    # ------------------------------------------------ facts
    def rng(self, st, t):
        if is_c(t):
            return (t[1], t[1], frozenset())
        f = st.facts.get(("int", t))
        if f:
            return f
        if t[0] == "app" and t[1] in UNSIGNED_APPS or t[0] == "discr":
            return (0, INF, frozenset())
        if t[0] == "app" and t[1] == "+" and is_c(t[2][1]):
            lo, hi, ne = self.rng(st, t[2][0])
            c = t[2][1][1]
            return (lo + c if lo > -INF else lo, hi + c if hi < INF else hi, frozenset())
        return (-INF, INF, frozenset())

    def set_rng(self, st, t, lo, hi, ne):
        ne = set(x for x in ne if lo <= x <= hi)
        while lo in ne:
            ne.discard(lo)
            lo += 1
        while hi in ne:
            ne.discard(hi)
            hi -= 1
        if lo > hi:
            return False
        st.facts[("int", t)] = (lo, hi, frozenset(ne))
        return True

    def assume_rel(self, st, t):
        """add fact; False if contradictory"""
        _, a, b, s = t
        if is_c(b):
            lo, hi, ne = self.rng(st, a)
            c = b[1]
            s3 = s & REL_ALL
            if s3 == {"eq"}:
                if not (lo <= c <= hi) or c in ne:
                    return False
                return self.set_rng(st, a, c, c, ne)
            if s3 == {"lt"}:
                return self.set_rng(st, a, lo, min(hi, c - 1), ne)
            if s3 == {"gt"}:
                return self.set_rng(st, a, max(lo, c + 1), hi, ne)
            if s3 == {"lt", "eq"}:
                return self.set_rng(st, a, lo, min(hi, c), ne)
            if s3 == {"gt", "eq"}:
                return self.set_rng(st, a, max(lo, c), hi, ne)
            if s3 == {"lt", "gt"}:
                return self.set_rng(st, a, lo, hi, set(ne) | {c})
            return bool(s3)
        key = ("cmp", a, b)
        cur = st.facts.get(key, frozenset(("lt", "eq", "gt", "un")))
        # interval information
        la, ha, _ = self.rng(st, a)
        lb, hb, _ = self.rng(st, b)
        if ha < lb:
            cur = cur & {"lt"}
        if la > hb:
            cur = cur & {"gt"}
        new = cur & s
        # ints have no 'un'; an only-unordered outcome is possible for floats alone
        if not new:
            return False
        if new == {"un"} and ("flt", a) not in st.facts:
            return False
        st.facts[key] = new
        if new == {"eq"}:
            # propagate constants
            la, ha, na = self.rng(st, a)
            lb, hb, nb = self.rng(st, b)
            if not self.set_rng(st, a, max(la, lb), min(ha, hb), na | nb):
                return False
            if not self.set_rng(st, b, max(la, lb), min(ha, hb), na | nb):
                return False
        return True

    def assume(self, st, t, val):
        """st (mutated) := st and (t == val); returns False when contradictory"""
        if not val:
            t = neg(t)
        if t[0] == "b":
            return t[1]
        st.pc = (st.pc, t)
        if t[0] == "rel":
            return self.assume_rel(st, t)
        if t[0] == "app" and t[1] == "and":
            return self.assume(st, t[2][0], True) and self.assume(st, t[2][1], True)
        if t[0] == "not" and t[1][0] == "app" and t[1][1] == "or":
            return self.assume(st, t[1][2][0], False) and self.assume(st, t[1][2][1], False)
        base, v = (t[1], False) if t[0] == "not" else (t, True)
        if base[0] == "app" and base[1] == "streq" and base[2][0][0] == "s":
            known = st.facts.get(("str", base[2][1]))
            if known is not None:
                return (known == base[2][0]) == v
            if v:
                st.facts[("str", base[2][1])] = base[2][0]
        cur = st.facts.get(("bool", base))
        if cur is not None:
            return cur == v
        st.facts[("bool", base)] = v
        return True

    def split(self, st, t):
        """[(state, bool)] for a boolean term"""
        if t[0] == "b":
            return [(st, t[1])]
        base, flip = (t[1], True) if t[0] == "not" else (t, False)
        if base[0] == "app" and base[1] in ("and", "or") :
            out = []
            x, y = base[2]
            for s1, v1 in self.split(st, x):
                if (base[1] == "and") != v1:
                    out.append((s1, v1 != flip))
                else:
                    for s2, v2 in self.split(s1, y):
                        out.append((s2, v2 != flip))
            return out
        out = []
        for v in (True, False):
            s2 = st.fork()
            if self.assume(s2, t, v):
                out.append((s2, v))
        return out

    # ------------------------------------------------ memory
    def root_val(self, st, root):
        if root in st.mem:
            return st.mem[root]
        if root[0] == "D":
            t = root[1]
            return ("deref", t)
        if root[0] == "V":
            return root[1]
        if root[0] == "ST":
            v = self.F.static_value(root[1])
            return v
        return ("undef",)

    def rd_proj(self, v, pj):
        k = pj[0]
        if k == "f":
            i = pj[1]
            if v[0] == "adt":
                if i < len(v[3]):
                    return v[3][i]
            elif v[0] == "tup":
                if i < len(v[1]):
                    return v[1][i]
            elif v[0] == "clo":
                if i < len(v[2]):
                    return v[2][i]
            elif v[0] == "ov":
                for kk, x in v[2]:
                    if kk == pj[:2] or kk == pj:
                        return x
                return self.rd_proj(v[1], pj)
            return ("fld", v, i, pj[2] if len(pj) > 2 else str(i))
        if k == "v":
            if v[0] == "adt":
                return v
            if v[0] == "ov":
                for kk, x in v[2]:
                    if kk == pj:
                        return x
                return self.rd_proj(v[1], pj)
            return ("dc", v, pj[1])
        if k == "ix":
            return self.sel(v, pj[1])
        if k == "rg":
            return self.slice_of(v, pj[1])
        if k == "itpos":
            return v[2] if v[0] == "it" else ("fld", v, -2, "itpos")
        return ("proj", v, pj)

    def slice_of(self, v, r):
        lo, hi = None, None
        if r[0] == "adt":
            n = r[1].rsplit("::", 1)[-1]
            if n == "Range":
                lo, hi = r[3][0], r[3][1]
            elif n == "RangeFrom":
                lo = r[3][0]
            elif n == "RangeTo":
                hi = r[3][0]
            elif n == "RangeFull":
                return v
        if lo is None and hi is None:
            return app("slice", v, r)
        lo = lo or C(0)
        hi = hi or self.len_of(v)
        if lo == C(0) and hi == self.len_of(v):
            return v
        return app("slice", v, lo, hi)

    def sel(self, v, i):
        if v[0] == "seq" and is_c(i) and 0 <= i[1] < len(v[1]):
            return v[1][i[1]]
        if v[0] == "rep":
            return v[1]
        if v[0] == "push":
            n = self.len_of(v[1])
            if i == n:
                return v[2]
            if is_c(i) and is_c(n) and i[1] < n[1]:
                return self.sel(v[1], i)
        if v[0] == "store":
            if v[2] == i:
                return v[3]
            if is_c(v[2]) and is_c(i):
                return self.sel(v[1], i)
        if v[0] == "rm" and is_c(v[2]) and v[2][1] == 0:
            return self.sel(v[1], add(i, C(1)))
        if v[0] == "init":
            return self.sel(v[1], i)
        if v[0] == "tail":
            return self.sel(v[1], add(i, v[2]))
        if v[0] == "append":
            n = self.len_of(v[1])
            if is_c(n) and is_c(i):
                return self.sel(v[1], i) if i[1] < n[1] else self.sel(v[2], sub(i, n))
        if v[0] == "app" and v[1] == "slice" and len(v[2]) == 3:
            return self.sel(v[2][0], add(v[2][1], i))
        if v[0] == "y" and is_c(i) and 0 <= i[1] < len(v[1]):
            return C(v[1][i[1]])
        return ("sel", v, i)

    def len_of(self, v):
        k = v[0]
        if k == "seq":
            return C(len(v[1]))
        if k == "y":
            return C(len(v[1]))
        if k == "s":
            return C(len(v[1].encode()))
        if k == "rep":
            return v[2]
        if k == "push":
            return add(self.len_of(v[1]), C(1))
        if k == "init":
            return sub(self.len_of(v[1]), C(1))
        if k == "rm":
            return sub(self.len_of(v[1]), C(1))
        if k == "store":
            return self.len_of(v[1])
        if k == "append":
            return add(self.len_of(v[1]), self.len_of(v[2]))
        if k == "trunc":
            return v[2]
        if k == "tail":
            return sub(self.len_of(v[1]), v[2])
        if k == "app" and v[1] == "slice" and len(v[2]) == 3:
            return sub(v[2][2], v[2][1])
        if k == "app" and v[1] == "cat":
            n = C(0)
            for x in v[2]:
                n = add(n, self.len_of(x))
            return n
        if k == "collect":
            n = self.it_len(v[1])
            if n is not None:
                return n
        return app("len", v)

    def wr_proj(self, v, projs, new):
        if not projs:
            return new
        pj = projs[0]
        rest = projs[1:]
        k = pj[0]
        if k == "f":
            i = pj[1]
            inner = self.wr_proj(self.rd_proj(v, pj), rest, new)
            if v[0] == "adt" and i < len(v[3]):
                f = list(v[3])
                f[i] = inner
                return ("adt", v[1], v[2], tuple(f))
            if v[0] == "tup" and i < len(v[1]):
                f = list(v[1])
                f[i] = inner
                return ("tup", tuple(f))
            if v[0] == "clo" and i < len(v[2]):
                f = list(v[2])
                f[i] = inner
                return ("clo", v[1], tuple(f))
            key = pj
            if v[0] == "ov":
                d = [(kk, x) for kk, x in v[2] if kk != key]
                base = v[1]
            else:
                d = []
                base = v
            if inner == self.rd_proj(base, pj):
                pass
            else:
                d.append((key, inner))
            d.sort(key=repr)
            return ("ov", base, tuple(d)) if d else base
        if k == "v":
            if v[0] == "adt":
                return self.wr_proj(v, rest, new)
            inner = self.wr_proj(self.rd_proj(v, pj), rest, new)
            if v[0] == "ov":
                d = [(kk, x) for kk, x in v[2] if kk != pj]
                base = v[1]
            else:
                d = []
                base = v
            d.append((pj, inner))
            d.sort(key=repr)
            return ("ov", base, tuple(d))
        if k == "ix":
            inner = self.wr_proj(self.rd_proj(v, pj), rest, new)
            return self.store(v, pj[1], inner)
        if k == "rg":
            inner = self.wr_proj(self.rd_proj(v, pj), rest, new)
            return ("storerg", v, pj[1], inner)
        if k == "itpos" and v[0] == "it":
            return ("it", v[1], new)
        return ("stale", v, pj, new)

    def store(self, v, i, x):
        if v[0] == "seq" and is_c(i) and 0 <= i[1] < len(v[1]):
            l = list(v[1])
            l[i[1]] = x
            return ("seq", tuple(l))
        if v[0] == "store" and v[2] == i:
            return self.store(v[1], i, x)
        if self.sel(v, i) == x:
            return v
        return ("store", v, i, x)

    def read(self, st, loc):
        root, projs = loc
        v = self.root_val(st, root)
        for pj in projs:
            v = self.rd_proj(v, pj)
        return v

    def write(self, st, loc, new):
        root, projs = loc
        st.mem[root] = self.wr_proj(self.root_val(st, root), projs, new) if projs else new

    def deref_loc(self, v):
        if v[0] == "ref":
            return (v[1], v[2])
        if v[0] == "box":
            return (v[1], ())
        if v[0] == "st":
            return (("ST", v[1]), ())
        if v[0] == "vref":  # reference to a pure value
            return (("V", v[1]), ())
        if v[0] in ("s", "y"):
            return (("V", v), ())
        return (("D", v), ())

    def mkref(self, loc, m=False):
        root, projs = loc
        if root[0] == "D" and not projs:
            return root[1]
        if root[0] == "V" and not projs:
            return root[1] if root[1][0] in ("s", "y") else ("vref", root[1])
        return ("ref", root, projs)

    def deref(self, st, v):
        root, projs = self.deref_loc(v)
        if root[0] == "V" and root not in st.mem:
            x = root[1]
            for pj in projs:
                x = self.rd_proj(x, pj)
            return x
        return self.read(st, (root, projs))

    def deep(self, st, v, n=4):
        """value behind (chains of) references"""
        while n and v[0] in ("ref", "vref", "box", "st"):
            v = self.deref(st, v)
            n -= 1
        return v

    def place_loc(self, st, fr, p):
        root = ("L", fr, p[0])
        projs = ()
        for e in p[1:]:
            if e == "*":
                v = self.read(st, (root, projs))
                root, projs = self.deref_loc(v)
                if root[0] == "V" and root not in st.mem:
                    st.mem[root] = root[1]
            elif "f" in e:
                v = self.read(st, (root, projs))
                if v[0] in ("box", "ref", "vref") :
                    continue  # internals of Box/Unique/NonNull: stay on the pointer
                projs = projs + (("f", e["i"], e["f"]),)
            elif "v" in e:
                projs = projs + (("v", e["v"]),)
            elif "ix" in e:
                i = st.mem.get(("L", fr, e["ix"]), ("undef",))
                projs = projs + (("ix", i),)
            elif "cix" in e:
                if e.get("end"):
                    v = self.read(st, (root, projs))
                    projs = projs + (("ix", sub(self.len_of(v), C(e["cix"]))),)
                else:
                    projs = projs + (("ix", C(e["cix"])),)
            elif "sub" in e:
                v = self.read(st, (root, projs))
                hi = C(e["to"]) if not e.get("end") else sub(self.len_of(v), C(e["to"]))
                r = ("adt", "core::ops::range::Range", "Range", (C(e["sub"]), hi))
                projs = projs + (("rg", r),)
            else:
                projs = projs + (("?",),)
        return (root, projs)

    # ------------------------------------------------ constants & operands
    def konst(self, c):
        if "fn" in c:
            return ("fn", c["fn"]["p"], _freeze(c["fn"]))
        t = self.cv(c.get("v") or {}, c.get("t"))
        return t

    def cv(self, v, ty=None):
        if "int" in v:
            return C(int(v["int"]))
        if "bool" in v:
            return ("b", v["bool"])
        if "str" in v:
            return S(v["str"])
        if "char" in v:
            return ("ch", v["char"])
        if "bytes" in v:
            return ("y", bytes(v["bytes"]))
        if "float" in v:
            return ("f", v["float"])
        if "static" in v:
            return ("st", v["static"])
        if "fnptr" in v:
            return ("fn", v["fnptr"], None)
        if "ref" in v:
            return ("vref", self.cv(v["ref"]))
        if "zst" in v:
            tt = self.F.tys[v["zst"]] if isinstance(v["zst"], int) else None
            if tt:
                if tt["k"] == "adt":
                    return ("adt", tt["p"], tt["p"].rsplit("::", 1)[-1], ())
                if tt["k"] == "closure":
                    return ("clo", tt["p"], ())
                if tt["k"] == "fndef":
                    return ("fn", tt["p"], None)
            return UNIT
        if "agg" in v:
            fs = tuple(self.cv(x) for x in v["fields"])
            ty = v["agg"]
            if ty is None:
                return ("seq", fs)
            tt = self.F.tys[ty]
            if tt["k"] == "adt":
                return ("adt", tt["p"], v.get("variant"), fs)
            if tt["k"] == "tuple":
                return ("tup", fs)
            return ("seq", fs)
        return ("opaqueconst", repr(v))

    def operand(self, st, fr, x):
        if "c" in x:
            v = self.konst(x["c"])
            return v
        p = x.get("cp") or x.get("mv")
        if p is None:
            return ("rt", repr(x))
        return self.read(st, self.place_loc(st, fr, p))

    def opty(self, body, x):
        if "c" in x:
            return x["c"]["t"]
        p = x.get("cp") or x.get("mv")
        return self.F.place_ty(body, p)

    def discr_of(self, v):
        if v[0] == "adt":
            d = self.F.discr(v[1], v[2])
            if d is not None:
                return C(d)
        if v[0] == "ov":
            return self.discr_of(v[1])
        if v[0] == "app" and v[1] == "ord":
            return ("ordd", v[2][0], v[2][1])
        return ("discr", v)

    def unsigned(self, body, xo):
        try:
            return self.F.tys[self.opty(body, xo["x"])]["s"] in ("u8", "u16", "u32", "u64", "u128", "usize")
        except Exception:
            return False

    def binop(self, st, op, a, b, body, xo):
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if base in OPS:
            if not (is_c(a) and is_c(b)) and self.unsigned(body, xo):
                for x in (a, b):
                    if x[0] in ("fld", "p", "deref", "sel", "lv", "res") and ("int", x) not in st.facts:
                        st.facts[("int", x)] = (0, INF, frozenset())
            if C(0) in (a, b) and self.unsigned(body, xo):
                if base == "Lt" and b == C(0) or base == "Gt" and a == C(0):
                    return FALSE
                if base == "Ge" and b == C(0) or base == "Le" and a == C(0):
                    return TRUE
                if base == "Le" and b == C(0) or base == "Ge" and a == C(0):
                    base = "Eq"
                if base == "Gt" and b == C(0) or base == "Lt" and a == C(0):
                    base = "Ne"
            return rel(base, a, b)
        if base == "Cmp":
            return app("ord", a, b)
        r = None
        if base == "Add":
            r = add(a, b)
        elif base == "Sub":
            r = sub(a, b)
        elif base == "Mul":
            r = mul(a, b)
        elif base in ("BitAnd", "BitOr", "BitXor"):
            if a[0] == "b" and b[0] == "b":
                x, y = a[1], b[1]
                r = ("b", {"BitAnd": x and y, "BitOr": x or y, "BitXor": x != y}[base])
            elif a[0] in ("b", "rel", "not") or b[0] in ("b", "rel", "not"):
                if base == "BitAnd":
                    r = FALSE if FALSE in (a, b) else b if a == TRUE else a if b == TRUE else app("and", a, b)
                elif base == "BitOr":
                    r = TRUE if TRUE in (a, b) else b if a == FALSE else a if b == FALSE else app("or", a, b)
            elif is_c(a) and is_c(b):
                x, y = a[1], b[1]
                r = C({"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}[base])
            if r is None:
                x, y = (a, b)
                if is_c(x) or (not is_c(y) and repr(x) > repr(y)):
                    x, y = y, x
                r = app({"BitAnd": "&", "BitOr": "|", "BitXor": "^"}[base], x, y)
        elif is_c(a) and is_c(b) and base in ("Div", "Rem", "Shl", "Shr"):
            x, y = a[1], b[1]
            if base == "Div" and y and x >= 0:
                r = C(x // y)
            elif base == "Rem" and y and x >= 0:
                r = C(x % y)
            elif base == "Shl":
                r = C(x << y)
            elif base == "Shr":
                r = C(x >> y)
        if r is None:
            n = {"Div": "/", "Rem": "%", "Shl": "<<", "Shr": ">>"}.get(base, base)
            r = app(n, a, b)
        if op.endswith("WithOverflow"):
            return ("tup", (r, app("ovf", C(0) if is_c(r) else r)))
        return r

    def rvalue(self, st, fr, body, rv):
        k = rv["k"]
        if k == "use":
            return self.operand(st, fr, rv["x"])
        if k == "ref":
            return self.mkref(self.place_loc(st, fr, rv["p"]), rv["m"])
        if k == "cast":
            v = self.operand(st, fr, rv["x"])
            ck = rv["ck"]
            if ck == "BoxDerefTransmute":
                while v[0] == "fld" and v[3] == "pointer":
                    v = v[1]
                return v[1] if v[0] == "fld" and v[2] == 0 and v[3] == "0" else v
            if ck.startswith("IntToInt") or ck.startswith("IntToFloat") or ck.startswith("FloatTo"):
                t = self.F.tys[rv["t"]]["s"]
                if is_c(v):
                    if v[1] >= 0 and t[0] in "ui" and v[1] < (1 << 31):
                        if t == "u8":
                            return C(v[1] & 255)
                        return v
                    if t in ("i64", "i32", "i128", "isize"):
                        return v
                if v[0] == "ch" and t in ("u8", "u32"):
                    return C(ord(v[1]) & (255 if t == "u8" else 0xFFFFFFFF))
                if v[0] == "b":
                    return C(1 if v[1] else 0)
                src = self.F.tys[self.opty(body, rv["x"])]
                if src.get("s") == t:
                    return v
                if v[0] in ("discr", "ordd") or src["k"] == "adt":
                    return v if src["k"] != "adt" else self.discr_of(v)
                # widening casts of unsigned values keep the value
                W = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "char": 21,
                     "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "u128": 128, "i128": 128}
                s = src.get("s")
                if s in W and t in W:
                    if s[0] in "uc" and (W[t] > W[s] or (t[0] == "u" and W[t] >= W[s])):
                        return v
                    if s[0] == "i" and t[0] == "i" and W[t] >= W[s]:
                        return v
                return app("as:" + t, v)
            return v
        if k == "bin":
            a = self.operand(st, fr, rv["x"])
            b = self.operand(st, fr, rv["y"])
            op = rv["op"]
            if op in OPS:
                try:
                    ty = self.F.tys[self.opty(body, rv["x"])]
                except Exception:
                    ty = {}
                if ty.get("k") == "float":
                    st.facts[("flt", a)] = True
                    st.facts[("flt", b)] = True
            return self.binop(st, op, a, b, body, rv)
        if k == "un":
            a = self.operand(st, fr, rv["x"])
            if rv["op"] == "Not":
                ty = self.F.tys[self.opty(body, rv["x"])]
                if ty["k"] == "bool":
                    return neg(a)
                return app("!", a)
            if rv["op"] == "Neg":
                return C(-a[1]) if is_c(a) else app("neg", a)
            if rv["op"] == "PtrMetadata":
                return self.len_of(self.deep(st, a))
            return app(rv["op"], a)
        if k == "discr":
            return self.discr_of(self.read(st, self.place_loc(st, fr, rv["p"])))
        if k == "agg":
            xs = tuple(self.operand(st, fr, x) for x in rv["xs"])
            ak = rv["ak"]
            if ak == "adt":
                return eta(("adt", rv["p"], rv["v"], xs))
            if ak == "tuple":
                return ("tup", xs)
            if ak == "array":
                return ("seq", xs)
            if ak == "closure":
                return ("clo", rv["p"], xs)
            return ("agg?", xs)
        if k == "repeat":
            return ("rep", self.operand(st, fr, rv["x"]), C(rv["n"]) if rv.get("n") is not None else app("n?"))
        return ("rv?", rv.get("d", k))

    # ------------------------------------------------ running
    def explore(self, path, args=None, st=None):
        """all abstract traces of function `path` on symbolic arguments"""
        body = self.F.body(path)
        st = st or State()
        if args is None:
            args = [("p", i) for i in range(body["argc"])]
        return self.run(body, list(args), st, [])

    def run(self, body, args, st, stack):
        fr = next(self.frame_ctr)
        for i, a in enumerate(args):
            st.mem[("L", fr, i + 1)] = a
        outs = self.walk(body, fr, 0, st, stack + [body["path"]], {}, None)
        res = []
        for s, o in outs:
            if o[0] == "ret":
                v = s.mem.get(("L", fr, 0), UNIT)
                if body_ret_unit(self.F, body) and v[0] == "undef":
                    v = UNIT
                o = ("ret", v)
            res.append((s, o))
        # free the frame's plain locals that nobody can point to any more is not needed
        return res

    def walk(self, body, fr, start, st0, stack, active, bound):
        """depth-first over blocks.  active: loop heads being analysed -> list collecting back-edge
        states.  bound: (set of blocks) -> leaving it stops with ('exit', bb)."""
        outs = []
        work = [(start, st0, True)]
        heads = self.F.loops(body)
        while work:
            bi, st, first = work.pop()
            self.steps += 1
            if self.steps > self.budget:
                raise Budget(body["path"])
            if bound is not None and bi not in bound:
                outs.append((st, ("exit", bi)))
                continue
            if bi in active:
                if not (first and bi == start):
                    active[bi].append(st)
                    continue
            elif bi in heads:
                tr = self.trial(body, fr, bi, st, stack, active)
                if tr is not None:
                    backs, touts = tr
                    for s in backs:
                        work.append((bi, s, False))
                    for s, o in touts:
                        if o[0] == "exit":
                            work.append((o[1], s, False))
                        else:
                            outs.append((s, o))
                    continue
                for s, o in self.loop(body, fr, bi, st, stack, active):
                    if o[0] == "exit":
                        work.append((o[1], s, False))
                    else:
                        outs.append((s, o))
                continue
            bb = body["bbs"][bi]
            for place, rv, sp in bb["s"]:
                if rv["k"] == "setdiscr":
                    continue
                v = self.rvalue(st, fr, body, rv)
                self.write(st, self.place_loc(st, fr, place), v)
            t = bb["t"]
            k = t["k"]
            sp = bb.get("sp")
            if k == "goto" or k == "drop" or k == "false":
                work.append((t["to"], st, False))
            elif k == "return":
                outs.append((st, ("ret", None)))
            elif k == "unreachable":
                pass
            elif k == "switch":
                for s2, to in self.switch(st, fr, t):
                    work.append((to, s2, False))
            elif k == "assert":
                for s2, o in self.do_assert(st, fr, t, body, sp):
                    if o is None:
                        work.append((t["to"], s2, False))
                    else:
                        outs.append((s2, o))
            elif k == "call":
                self.at_head = bi in active
                for s2, o in self.call(st, fr, body, t, sp, stack):
                    if o[0] == "ret" and o[1] == AGAIN:
                        # an element was left out: the loop goes on with the next one
                        active[bi].append(s2)
                    elif o[0] == "ret":
                        if t.get("to") is None:
                            outs.append((s2, ("diverge", sp)))
                            continue
                        self.write(s2, self.place_loc(s2, fr, t["dst"]), o[1])
                        work.append((t["to"], s2, False))
                    else:
                        outs.append((s2, o))
            elif k in ("resume", "abort"):
                pass
            else:
                outs.append((st, ("unknown-term", k)))
        return outs

    def switch(self, st, fr, t):
        v = self.operand(st, fr, t["x"])
        cs = [(int(c), to) for c, to in t["cs"]]
        els = t.get("else")
        tys = self.F.tys[t["t"]].get("s")
        w = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}.get(tys)
        if w and v[0] not in ("discr", "ordd"):
            cs = [(c - (1 << w) if c >= 1 << (w - 1) else c, to) for c, to in cs]
        isbool = v[0] in ("b", "rel", "not") or self.F.tys[t["t"]]["k"] == "bool"
        out = []
        if isbool:
            tmap = dict(cs)
            for s2, b in self.split(st, v):
                to = tmap.get(1 if b else 0, els)
                if to is not None:
                    out.append((s2, to))
            return out
        if v[0] == "ch":
            v = C(ord(v[1]))
        if v[0] == "ordd":
            a, b = v[1], v[2]
            seen = set()
            for c, to in cs:
                o = {255: "lt", -1: "lt", 0: "eq", 1: "gt"}.get(c)
                seen.add(o)
                s2 = st.fork()
                if self.assume(s2, rel({o}, a, b), True):
                    out.append((s2, to))
            rest = REL_ALL - seen
            if rest and els is not None:
                s2 = st.fork()
                if self.assume(s2, rel(rest, a, b), True):
                    out.append((s2, els))
            return out
        if is_c(v):
            for c, to in cs:
                if c == v[1] or w and (c - v[1]) % (1 << w) == 0:
                    return [(st, to)]
            return [(st, els)] if els is not None else []
        for c, to in cs:
            s2 = st.fork()
            if self.assume(s2, rel("Eq", v, C(c)), True):
                out.append((s2, to))
        if els is not None:
            s2 = st.fork()
            good = True
            for c, _ in cs:
                good = good and self.assume(s2, rel("Ne", v, C(c)), True)
            if good and not self.exhausted(s2, v, cs):
                out.append((s2, els))
        return out

    def exhausted(self, st, v, cs):
        if v[0] != "discr":
            return False
        return False

    def do_assert(self, st, fr, t, body, sp):
        cond = self.operand(st, fr, t["x"])
        if not t["e"]:
            cond = neg(cond)
        msg = t["m"]["k"]
        if msg == "overflow":
            op = t["m"]["op"]
            out = [(st, None)]
            if self.overflow and cond[0] != "b":
                s2 = st.fork()
                xs = (op, self.operand(st, fr, t["m"]["x"]), self.operand(st, fr, t["m"]["y"]),
                      self.F.tys[self.opty(body, t["m"]["x"])]["s"])
                out.append((s2, ("panic", "overflow", sp, body["path"], xs)))
            return out
        if msg == "other":  # null / alignment / coroutine checks inserted by the compiler
            return [(st, None)]
        out = []
        for s2, b in self.split(st, cond):
            if b:
                out.append((s2, None))
            else:
                kind = msg
                out.append((s2, ("panic", kind, sp, body["path"], cond)))
        return out

    # ------------------------------------------------ loops
    def trial(self, body, fr, head, st, stack, active):
        """one concrete iteration when the loop is driven by an iterator over a short sequence of known
        contents (an array of constants, a vector built just before); None: not such a loop"""
        if not self.short_iter(st, fr):
            return None
        save, self._probe = self._probe, {"pc": st.pc, "seen": None, "trace": st.trace}
        act = dict(active)
        act[head] = []
        steps = self.steps
        try:
            outs = self.walk(body, fr, head, st.fork(), stack, act, self.F.loops(body)[head])
            seen = self._probe["seen"]
        finally:
            self._probe = save
        if not seen:
            self.steps = steps
            return None
        return act[head], outs

    def short_iter(self, st, fr):
        for r, v in st.mem.items():
            if r[0] == "L" and r[1] == fr and v[0] == "it" and is_c(v[2]) and self.short(v):
                return True
        return False

    def short(self, it):
        d = it[1]
        while d[0] in ("enum", "cloned", "map", "rev", "skip", "copied"):
            d = d[1]
        if d[0] not in ("iter", "into") or d[1][0] != "seq":
            return False
        n = self.it_len(it[1])
        return n is not None and is_c(n) and 0 < n[1] <= 6

    def loop(self, body, fr, head, st, stack, active):
        region = self.F.loops(body)[head]
        base_n = st.n
        lid = ("loop", body["path"], head, st.fresh())
        widened = {}  # loc -> symbol
        entry = st
        for it in range(8):
            s0 = entry.fork()
            for loc, sym in widened.items():
                self.write(s0, loc, sym)
            s0.n = entry.n
            mark, pcmark = s0.trace, s0.pc
            roots = set(s0.mem)
            act = dict(active)
            act[head] = []
            outs = self.walk(body, fr, head, s0.fork(), stack, act, region)
            changed = {}
            for b in act[head]:
                for r in roots:
                    a0, b0 = s0.mem[r], b.mem.get(r)
                    if b0 is not None and a0 != b0:
                        if r[0] == "L" and r[1] == fr and not self.F.live_in(body, head, r[2]):
                            continue
                        self.diff(a0, b0, (r, ()), changed)
                for r in set(b.mem) - roots:
                    if r[0] in ("D", "ST", "V") or r[0] == "H" and False:
                        v0 = self.root_val(s0, r)
                        if v0 != b.mem[r]:
                            self.diff(v0, b.mem[r], (r, ()), changed)
            new = {}
            for loc in changed:
                if not any(loc[0] == w[0] and w[1] == loc[1][: len(w[1])] for w in widened):
                    new[loc] = True
            new = {l: True for l in new if not any(
                l != w and l[0] == w[0] and w[1] == l[1][: len(w[1])] for w in new)}
            if not new:
                break
            # drop finer locations subsumed by coarser ones
            for loc in new:
                for w in [w for w in widened if w[0] == loc[0] and w[1][: len(loc[1])] == loc[1]]:
                    del widened[w]
                widened[loc] = ("lv", lid, self.loc_name(body, fr, loc))
        else:
            raise Budget("loop widening " + body["path"])
        # iterator positions only grow
        L = {
            "id": lid, "fn": body["path"], "head": head, "sp": body["bbs"][head].get("sp"),
            "init": {sym: self.read(entry, loc) for loc, sym in widened.items()},
            "loc": {sym: loc for loc, sym in widened.items()},
            "iters": [], "exits": [],
        }
        for b in act[head]:
            L["iters"].append({
                "events": b.events(mark), "conds": b.conds(pcmark),
                "next": {sym: self.read(b, loc) for loc, sym in widened.items()},
                "st": b,
            })
        self.loops.append(L)
        res = []
        for s, o in outs:
            evs = s.events(mark)
            s2 = s
            # splice the loop event before the partial iteration
            tr = (mark, ("loop", L))
            for e in evs:
                tr = (tr, e)
            s2.trace = tr
            L["exits"].append({"events": evs, "conds": s.conds(pcmark), "out": o, "st": s2})
            res.append((s2, o))
        return res

    def loc_name(self, body, fr, loc):
        root, projs = loc
        if root[0] == "L":
            n = ("_%d" % root[2]) if root[1] == fr else "f%d_%d" % (root[1], root[2])
        else:
            n = repr(root)
        return n + "".join("." + str(p[1] if len(p) > 1 else p[0]) for p in projs)

    def diff(self, a, b, loc, out):
        if a == b:
            return
        root, projs = loc
        if len(projs) < 6:
            if a[0] == "adt" and b[0] == "adt" and a[1] == b[1] and a[2] == b[2] and len(a[3]) == len(b[3]):
                for i, (x, y) in enumerate(zip(a[3], b[3])):
                    self.diff(x, y, (root, projs + (("f", i, self.F.field_name(a[1], a[2], i)),)), out)
                return
            if a[0] == "tup" and b[0] == "tup" and len(a[1]) == len(b[1]):
                for i, (x, y) in enumerate(zip(a[1], b[1])):
                    self.diff(x, y, (root, projs + (("f", i, str(i)),)), out)
                return
            if a[0] == "clo" and b[0] == "clo" and a[1] == b[1] and len(a[2]) == len(b[2]):
                for i, (x, y) in enumerate(zip(a[2], b[2])):
                    self.diff(x, y, (root, projs + (("f", i, str(i)),)), out)
                return
            if b[0] == "ov" or a[0] == "ov":
                ba = a[1] if a[0] == "ov" else a
                bb = b[1] if b[0] == "ov" else b
                if ba == bb:
                    ka = dict(a[2]) if a[0] == "ov" else {}
                    kb = dict(b[2]) if b[0] == "ov" else {}
                    for k in set(ka) | set(kb):
                        x = ka.get(k) or self.rd_proj(ba, k)
                        y = kb.get(k) or self.rd_proj(ba, k)
                        if k[0] == "v":
                            if x != y:
                                out[loc] = True
                                return
                        else:
                            self.diff(x, y, (root, projs + (k,)), out)
                    return
            if a[0] == "it" and b[0] == "it" and a[1] == b[1]:
                out[(root, projs + (("itpos",),))] = True
                return
        if projs and projs[-1] == ("itpos",):
            pass
        out[loc] = True

    # ------------------------------------------------ calls
    def call(self, st, fr, body, t, sp, stack):
        fv = t["f"]
        args = [self.operand(st, fr, a) for a in t["args"]]
        if "c" in fv and "fn" in fv["c"]:
            fn = fv["c"]["fn"]
        else:
            f = self.operand(st, fr, fv)
            if f[0] == "fn" and f[2]:
                fn = _thaw(f[2])
            elif f[0] == "clo":
                return self.call_closure(st, f, args, stack, sp)
            else:
                return self.unknown(st, "indirect", [f] + args, sp, body, None)
        argtys = []
        for a in t["args"]:
            try:
                argtys.append(self.opty(body, a))
            except Exception:
                argtys.append(None)
        try:
            fn = dict(fn, ret=self.F.place_ty(body, t["dst"]))
        except Exception:
            pass
        return self.call_fn(st, fn, args, sp, stack, body, argtys)

    def call_fn(self, st, fn, args, sp, stack, body, argtys=None):
        p = fn["p"]
        r = fn.get("r") or p
        if self.on_call:
            x = self.on_call(self, st, fn, args, sp, stack, body)
            if x is not None:
                return x
        target = r if self.F.has_body(r) else (p if self.F.has_body(p) and fn.get("rk") != "virtual" else None)
        if fn.get("rk") == "virtual":
            target = None
        if target and p in ("core::clone::Clone::clone", "core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne") \
                and self.F.body(target)["span"].endswith("!"):
            target = None  # derived: structural
        if target and p.startswith("core::ops::function::Fn") and len(args) == 2 and args[1][0] == "tup" and \
                len(args[1][1]) == self.F.body(target)["argc"] - 1:
            # a closure of the same function called directly: its arguments come as a tuple
            args = [args[0]] + list(args[1][1])
        if target and not self.opaque(target) and not self.opaque(p):
            if len(stack) < self.depth and target not in stack:
                self.inlined.add(target)
                return self.run(self.F.body(target), args, st, stack)
        if target is None or p in MODELS_FORCE:
            m = models.get(p) or models.get(r)
            if m is None:
                for suf, mm in suffix_models:
                    if p.endswith(suf):
                        m = mm
                        break
            if m is not None:
                res = m(self, st, args, Ctx(fn, sp, stack, body, argtys))
                if res is not NotImplemented:
                    if isinstance(res, tuple):
                        return [(st, ("ret", res))]
                    return res
        return self.unknown(st, target or (r if not fn.get("rk") == "virtual" else p), args, sp, body, fn, argtys)

    def call_closure(self, st, f, args, stack, sp):
        """args: explicit argument list (already untupled)"""
        if f[0] in ("ref", "box", "vref"):
            inner = self.deref(st, f)
            if inner[0] == "clo":
                b = self.F.body(inner[1])
                if self.F.tys[b["locals"][1]]["k"] == "ref":
                    return self.run(b, [f] + args, st, stack)
                return self.run(b, [inner] + args, st, stack)
            f = inner
        if f[0] == "clo":
            b = self.F.body(f[1])
            if b is None:
                return self.unknown(st, f[1], args, sp, None, None)
            if self.F.tys[b["locals"][1]]["k"] == "ref":
                root = ("H", st.fresh(), "clo")
                st.mem[root] = f
                return self.run(b, [("ref", root, ())] + args, st, stack)
            return self.run(b, [f] + args, st, stack)
        if f[0] == "fn":
            fn = _thaw(f[2]) if len(f) > 2 and f[2] else {"p": f[1], "local": True, "a": []}
            if self.F.is_ctor(f[1]):
                return [(st, ("ret", self.F.ctor(f[1], args)))]
            return self.call_fn(st, fn, args, sp, stack, None)
        return self.unknown(st, "closure?", [f] + args, sp, None, None)

    def unknown(self, st, path, args, sp, body, fn, argtys=None):
        snaps = tuple(self.deep(st, a) for a in args)
        cid = st.fresh()
        impure = False
        F = self.F
        if argtys:
            for i, (a, ty) in enumerate(zip(args, argtys)):
                if ty is not None and F.has_mut(ty) and a[0] in ("ref", "box") :
                    impure = True
                    if not F.is_handle(ty):
                        loc = self.deref_loc(a)
                        self.havoc(st, loc, ("post", cid, i, path), path, i, fn)
                elif ty is not None and F.has_mut(ty):
                    impure = True
                    if not F.is_handle(ty) and F.tys[ty]["k"] == "ref":
                        self.havoc(st, self.deref_loc(a), ("post", cid, i, path), path, i, fn)
                elif ty is not None and F.tys[ty]["k"] == "ref" and F.is_handle(ty):
                    # what a handle says about itself changes as it is used
                    impure = True
        crate = path.lstrip("<").split("::")[0]
        if fn is not None and (fn.get("local") or fn.get("rk") == "virtual"):
            impure = True
        if any(x in path for x in ("std::fs", "std::io", "std::env", "std::time", "std::process", "std::thread",
                                   "ureq::", "io::error::Error::new")):
            impure = impure or "Error" not in path
        # what a text is parsed as is part of what the call is
        kind = (S(F.tys[fn["ret"]]["s"]),) if path.endswith("::parse") and fn and fn.get("ret") is not None else ()
        res = ("res", cid, path) if impure else app("call:" + path, *snaps, *kind)
        st.event("call", path, tuple(args), snaps, res, sp, body["path"] if body else None,
                 fn["p"] if fn else path, tuple(x for x in (fn.get("a") or ()) if isinstance(x, int)) if fn else (),
                 fn.get("ret") if fn else None)
        self.unmodelled[path] = self.unmodelled.get(path, 0) + 1
        return [(st, ("ret", res))]

    def havoc(self, st, loc, new, path, i, fn):
        mods = self.F.mod_fields(path, i) if self.F.has_body(path) and not (fn and fn.get("rk") == "virtual") else None
        if mods is None:
            self.write(st, loc, new)
            return
        for idx, name in sorted(mods):
            pj = ("f", idx, name)
            self.write(st, (loc[0], loc[1] + (pj,)), self.rd_proj(new, pj))

    # -------------------------------- option/result helpers for models
    def cases(self, st, v, adt, order):
        """split an enum value: [(state, variant, payload)]"""
        if v[0] == "adt":
            return [(st, v[2], v[3][0] if v[3] else None)]
        out = []
        d = self.discr_of(v)
        for var, has in order:
            s2 = st.fork()
            if is_c(d):
                if d[1] != self.F.discr(adt, var):
                    continue
            elif not self.assume(s2, rel("Eq", d, C(self.F.discr(adt, var))), True):
                continue
            pay = self.rd_proj(self.rd_proj(v, ("v", var)), ("f", 0, "0")) if has else None
            out.append((s2, var, pay))
        return out

    def opt(self, st, v):
        return self.cases(st, v, OPTION, (("None", False), ("Some", True)))

    def res(self, st, v):
        return self.cases(st, v, RESULT, (("Ok", True), ("Err", True)))

    # -------------------------------- iterators
    def it_len(self, d):
        k = d[0]
        if k == "range":
            return sub(d[2], d[1])
        if k in ("iter", "into", "fields"):
            return self.len_of(d[1])
        if k in ("rev", "enum", "map", "cloned"):
            return self.it_len(d[1])
        if k == "zip":
            a, b = self.it_len(d[1]), self.it_len(d[2])
            return a if a == b else app("min", a, b)
        if k == "skip":
            n = self.it_len(d[1])
            return None if n is None else sub(n, d[2])
        if k == "take":
            n = self.it_len(d[1])
            if n is None:
                return None
            if is_c(n) and is_c(d[2]):
                return C(min(n[1], d[2][1]))
            return n if n == d[2] else app("min", n, d[2])
        return None

    def it_elem(self, st, d, pos, stack, sp):
        """[(state, elem)]"""
        k = d[0]
        if k == "range":
            return [(st, add(d[1], pos))]
        if k == "iter":
            loc = self.deref_loc(d[2])
            return [(st, self.mkref((loc[0], loc[1] + (("ix", pos),))))]
        if k == "into":
            return [(st, self.sel(d[1], pos))]
        if k == "fields":
            return [(st, ("vref", self.sel(d[1], pos)))]
        if k == "rev":
            n = self.it_len(d[1])
            p = sub(sub(n, C(1)), pos) if n is not None else app("revpos", pos)
            return self.it_elem(st, d[1], p, stack, sp)
        if k == "enum":
            n = ("app", "fpos", (("d", d[1]), pos)) if self.sifted(d[1]) else pos
            return [(s, ("tup", (n, e))) for s, e in self.it_elem(st, d[1], pos, stack, sp)]
        if k == "cloned":
            return [(s, self.deep(s, e)) for s, e in self.it_elem(st, d[1], pos, stack, sp)]
        if k == "skip":
            n = add(pos, d[2])
            if self.sifted(d[1]) and d[2] != C(0):
                n = ("app", "fpos", (("d", d[1]), n))
            return self.it_elem(st, d[1], n, stack, sp)
        if k == "take":
            return self.it_elem(st, d[1], pos, stack, sp)
        if k == "zip":
            out = []
            for s, a in self.it_elem(st, d[1], pos, stack, sp):
                for s2, b in self.it_elem(s, d[2], pos, stack, sp):
                    out.append((s2, ("tup", (a, b))))
            return out
        if k == "map":
            out = []
            for s, a in self.it_elem(st, d[1], pos, stack, sp):
                for s2, o in self.call_closure(s, d[2], [a], stack, sp):
                    if o[0] == "ret":
                        out.append((s2, o[1]))
            return out
        if k in ("filter", "takewhile", "skipwhile"):
            out = []
            for s, a in self.it_elem(st, d[1], pos, stack, sp):
                root = ("H", s.fresh(), "fe")
                s.mem[root] = a
                for s2, o in self.call_closure(s, d[2], [("ref", root, ())], stack, sp):
                    if o[0] == "ret":
                        if k == "skipwhile":
                            out.append((s2, a))
                            continue
                        s3 = s2.fork()
                        if self.rejected is not None and self.assume(s3, o[1], False):
                            self.rejected.append((k, s3))
                        if self.assume(s2, o[1], True):
                            out.append((s2, a))
            return out
        if k == "fmap":
            out = []
            for s, a in self.it_elem(st, d[1], pos, stack, sp):
                for s2, o in self.call_closure(s, d[2], [a], stack, sp):
                    if o[0] == "ret":
                        for s3, var, pay in self.opt(s2, o[1]):
                            if var == "Some":
                                out.append((s3, pay))
                            elif self.rejected is not None:
                                self.rejected.append((k, s3))
            return out
        if k == "bytes":
            return [(st, ("sel", d[1], pos))]
        return [(st, app("elem", ("d",) + (d,), pos))]

    rejected = None
    at_head = False

    def sifted(self, d):
        """the iterator leaves elements out of one it is made from"""
        while d[0] in ("map", "cloned", "rev", "enum", "skip", "take"):
            d = d[1]
        return d[0] in ("filter", "fmap", "skipwhile")

    def base(self, d):
        """the filter itself"""
        while d[0] in ("map", "cloned"):
            d = d[1]
        return d

    def rebase(self, d, n):
        """the same filter over what is left after n elements"""
        if d[0] in ("map", "cloned"):
            return (d[0], self.rebase(d[1], n)) + d[2:]
        b = d[1]
        b = ("skip", b[1], add(b[2], n)) if b[0] == "skip" else ("skip", b, n)
        return (d[0], b) + d[2:]

    def plainly_sifted(self, d):
        while d[0] in ("map", "cloned"):
            d = d[1]
        return d[0] in ("filter", "fmap", "takewhile") and not self.sifted(d[1])

    def it_next(self, st, itloc, stack, sp, head=False):
        it = self.read(st, itloc)
        it = self.as_iter(st, it)
        if it is None:
            return None
        d, pos = it[1], it[2]
        sift = head and self.plainly_sifted(d)
        n = self.it_len(self.base(d)[1] if sift else d)
        pr = self._probe
        if pr is not None and pr["seen"] is None:
            pr["seen"] = bool(is_c(pos) and n is not None and is_c(n) and self.short(it) and st.pc is pr["pc"])
        out = []
        cond = rel("Lt", pos, n) if n is not None else ("app", "more", (("d", d), pos))
        for s2, b in self.split(st, cond):
            if b:
                save, self.rejected = self.rejected, [] if sift else None
                try:
                    for s3, e in self.it_elem(s2, d, pos, stack, sp):
                        self.write(s3, itloc, ("it", d, add(pos, C(1))))
                        out.append((s3, some(e)))
                    rej = self.rejected
                finally:
                    self.rejected = save
                for k, s3 in rej or ():
                    if k == "takewhile":
                        out.append((s3, NONE))
                    else:
                        self.write(s3, itloc, ("it", d, add(pos, C(1))))
                        out.append((s3, AGAIN))
            else:
                out.append((s2, NONE))
        return out

    def as_iter(self, st, v):
        if v[0] == "it":
            return v
        if v[0] == "ov" and v[1][0] == "it":
            return v[1]
        if v[0] == "adt" and v[1] == "core::ops::range::Range":
            return ("it", ("range", v[3][0], v[3][1]), C(0))
        if v[0] == "adt" and v[1].endswith("RangeInclusive") and len(v[3]) >= 2:
            return ("it", ("range", v[3][0], add(v[3][1], C(1))), C(0))
        return None


class Ctx:
    __slots__ = ("fn", "sp", "stack", "body", "argtys")

    def __init__(self, fn, sp, stack, body, argtys):
        self.fn, self.sp, self.stack, self.body, self.argtys = fn, sp, stack, body, argtys


def _freeze(x):
    if isinstance(x, dict):
        return ("D",) + tuple(sorted((k, _freeze(v)) for k, v in x.items()))
    if isinstance(x, list):
        return ("A",) + tuple(_freeze(v) for v in x)
    return x


def _thaw(x):
    if isinstance(x, tuple):
        if x[0] == "D":
            return {k: _thaw(v) for k, v in x[1:]}
        if x[0] == "A":
            return [_thaw(v) for v in x[1:]]
    return x


def body_ret_unit(F, body):
    return F.tys[body["locals"][0]]["s"] == "()"


models = {}
suffix_models = []
MODELS_FORCE = set()
