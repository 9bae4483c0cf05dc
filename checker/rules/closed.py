"""Closed forms of loop variables: affine, shifted and masked recurrences over the iteration counters of nested loops."""
from recur import *


def CTR(L):
    return ("ctr", L["id"])


class Varies(Unknown):
    """the variable advances by different amounts on different iterations"""


class Closed(Rec):
    """term -> the same term with every loop variable replaced by its value in terms of iteration numbers"""

    def form(self, sym, stack=()):
        if sym in stack:
            raise Unknown("cycle at %s" % show(sym))
        L = self.loops.get(sym[1])
        if L is None or sym not in L["init"]:
            raise Unknown(show(sym))
        return self.shape(sym, L, stack)(CTR(L))

    def shape(self, sym, L, stack=()):
        """function: iteration number term -> value"""
        nexts = {it["next"][sym] for it in L["iters"] if self.normal(it)}
        init = self.close(L["init"][sym], stack + (sym,))
        if len(nexts) > 1:
            ls = [lin(x) for x in nexts]
            if all(lkey(d) == lkey({sym: 1}) for d, c in ls):
                raise Varies("%s advances by %s" % (show(sym), sorted(c for d, c in ls)))
        if len(nexts) != 1:
            raise Unknown("several updates of %s" % show(sym))
        nx = nexts.pop()
        if nx == sym:
            return lambda k: init
        d, c = lin(nx)
        if lkey(d) == lkey({sym: 1}):
            return lambda k: add(init, mul(k, C(c)))
        if lkey(d) == lkey({sym: 2}) and c == 0:
            return lambda k: app("<<", init, k)
        if nx[0] == "app" and nx[1] in (">>", "<<") and nx[2][0] == sym and is_c(nx[2][1]):
            s = nx[2][1][1]
            return lambda k: app(nx[1], init, mul(k, C(s)))
        if nx[0] == "app" and nx[1] == "/" and nx[2] == (sym, C(2)):
            return lambda k: app(">>", init, k)
        if nx[0] == "lv":
            M = self.loops.get(nx[1])
            if M is not None and M["init"].get(nx) == sym:
                n = self.trips(M)
                if n is None:
                    raise Unknown("trip count of %s" % show(nx))
                inner = {it["next"][nx] for it in M["iters"]}
                if len(inner) == 1:
                    d, c = lin(inner.pop())
                    if lkey(d) == lkey({nx: 1}):
                        return lambda k: add(init, mul(k, C(c * n)))
        raise Unknown("update of %s: %s" % (show(sym), show(nx)))

    def close(self, t, stack=()):
        if not isinstance(t, tuple) or not t or not isinstance(t[0], str):
            return t
        if t[0] == "lv":
            return self.form(t, stack)
        if t[0] == "app":
            xs = [self.close(x, stack) for x in t[2]]
            if t[1].startswith("as:") or t[1] == "max0":
                return xs[0]
            if t[1] == "+":
                return add(*xs)
            if t[1] == "-":
                return sub(*xs)
            if t[1] == "*":
                return mul(*xs)
            if t[1] in ("<<", ">>") and xs[1] == C(0):
                return xs[0]
            if t[1] == "pow" and xs[0] == C(2):
                return app("<<", C(1), xs[1])
            return ("app", t[1], tuple(xs))
        if t[0] == "sel":
            return ("sel", self.close(t[1], stack) if t[1][0] != "lv" else t[1], self.close(t[2], stack))
        if t[0] in ("discr", "fld", "dc", "deref"):
            return (t[0], self.close(t[1], stack)) + t[2:]
        return t


def period8(t, n, loose=False):
    """value of t at n = 0..63, if t is built from n by +c, /2^k, %2^k, shifts and masks only (such a function is
    quasi-affine with period 8, so agreement on these points is agreement everywhere); loose also follows other
    constants and narrowing casts (then only a disagreement means anything)"""
    def go(t, v):
        while t[0] == "app" and t[1].startswith("as:") and t[1] not in ("as:u8", "as:i8", "as:u16", "as:i16"):
            t = t[2][0]
        if t[0] == "not":
            return int(not go(t[1], v))
        if t == n:
            return v
        if is_c(t):
            return t[1]
        if t[0] == "b":
            return int(t[1])
        if t[0] == "app":
            op, xs = t[1], t[2]
            if op in ("as:u8", "as:i8", "as:u16", "as:i16"):
                if not loose:
                    raise Unknown(op)
                w = int(op[4:])
                x = go(xs[0], v) & (1 << w) - 1
                return x - (1 << w) if op[3] == "i" and x >> w - 1 else x
            if op.startswith("as:") or op == "max0":
                return go(xs[0], v)
            if loose and len(xs) == 2 and op in ("+", "-", "*", "/", "%", ">>", "<<", "&", "|", "^", "min", "max", "div_ceil"):
                a, b = go(xs[0], v), go(xs[1], v)
                if op in ("/", "%", "div_ceil") and b <= 0 or op in ("<<", ">>") and not 0 <= b < 64 or a < 0:
                    raise Unknown(op)
                return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a // b, "%": lambda: a % b,
                        ">>": lambda: a >> b, "<<": lambda: a << b, "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b,
                        "min": lambda: min(a, b), "max": lambda: max(a, b), "div_ceil": lambda: -(-a // b)}[op]()
            if op in ("+", "-"):
                a, b = go(xs[0], v), go(xs[1], v)
                return a + b if op == "+" else a - b
            if len(xs) == 2 and is_c(xs[1]):
                a, c = go(xs[0], v), xs[1][1]
                if op == "*" and abs(c) <= 8:
                    return a * c
                if op == "/" and c in (1, 2, 4, 8):
                    return a // c
                if op == "%" and c in (1, 2, 4, 8):
                    return a % c
                if op == ">>" and 0 <= c <= 3:
                    return a >> c
                if op == "&" and c in (1, 3, 7):
                    return a & c
                if op == "div_ceil" and c in (2, 4, 8):
                    return -(-a // c)
                if op in ("min", "max"):
                    raise Unknown(op)
        if t[0] == "rel":
            a, b = go(t[1], v), go(t[2], v)
            return int(("lt" if a < b else "gt" if a > b else "eq") in t[3])
        raise Unknown(show(t))
    return lambda v: go(t, v)
