"""Loop variables as functions of the iteration counters (evaluated recurrences, no code is run)."""
from lib import *
from lin import *


class Unknown(Exception):
    pass


class Rec:
    def __init__(self, I, loops):
        self.I = I
        self.loops = loops

    def counter(self, L):
        """(symbol, set of bounds) with symbol running 0,1,2,... below every bound"""
        for sym, init in L["init"].items():
            if init == C(0) and L["iters"] and all(it["next"].get(sym) == add(sym, C(1)) for it in L["iters"]):
                bs = None
                for it in L["iters"]:
                    b = {c[1] if c[2] == sym else c[2] for c in it["conds"] if c[0] == "rel" and sym in (c[1], c[2])
                         and (c[3] - {"un"}) == ({"gt"} if c[2] == sym else {"lt"})}
                    bs = b if bs is None else bs & b
                if bs:
                    return sym, bs
        return None, set()

    def trips(self, L):
        sym, bs = self.counter(L)
        for b in bs:
            if is_c(b):
                return b[1]
        return None

    def normal(self, it):
        """the iteration left every inner counted loop through its bound"""
        for e in it["events"]:
            if e[0] == "loop":
                sym, bs = self.counter(e[1])
                if sym is None:
                    continue
                if not any(c[0] == "rel" and sym in (c[1], c[2]) and
                           (c[3] - {"un"}) == ({"lt", "eq"} if c[2] == sym else {"gt", "eq"}) for c in it["conds"]):
                    return False
        return True

    def value(self, sym, at, atoms):
        """value of a loop symbol; at: loop id -> iteration number"""
        L = self.loops.get(sym[1])
        if L is None or sym not in L["init"]:
            raise Unknown(show(sym))
        n = at.get(L["id"])
        if n is None:
            n = self.trips(L)
        if n is None:
            raise Unknown("iterations of %s" % show(sym))
        outer = {k: v for k, v in at.items() if k != L["id"]}
        nexts = {it["next"][sym] for it in L["iters"] if self.normal(it)}
        if len(nexts) != 1:
            raise Unknown("several updates of %s" % show(sym))
        nx = next(iter(nexts))
        # iterate; other symbols of the same loop are evaluated at the same iteration
        if not mentions(nx, lambda t: t == sym):
            if n == 0:
                return self.ev(L["init"][sym], outer, atoms)
            a = dict(outer)
            a[L["id"]] = n - 1
            return self.ev(nx, a, atoms)
        v = self.ev(L["init"][sym], outer, atoms)
        for k in range(n):
            a = dict(outer)
            a[L["id"]] = k
            am = dict(atoms)
            am[sym] = v
            v = self.ev(nx, a, am)
        return v

    def ev(self, t, at, atoms):
        if t in atoms:
            return atoms[t]
        k = t[0]
        if k == "c":
            return t[1]
        if k == "b":
            return int(t[1])
        if k == "ch":
            return ord(t[1])
        if k == "lv":
            return self.value(t, at, atoms)
        if k == "sel":
            x = ("sel", t[1], C(self.ev(t[2], at, atoms)))
            if x in atoms:
                return atoms[x]
            raise Unknown(show(t))
        if k == "app":
            op = t[1]
            if op.startswith("as:") and op[3:] in ("u8", "u16", "u32", "u64", "usize"):
                w = {"u8": 8, "u16": 16, "u32": 32}.get(op[3:], 64)
                return self.ev(t[2][0], at, atoms) & ((1 << w) - 1)
            if op.startswith("as:") or op in ("max0",):
                return self.ev(t[2][0], at, atoms)
            xs = [self.ev(x, at, atoms) for x in t[2]]
            if op == "+":
                return xs[0] + xs[1]
            if op == "-":
                return xs[0] - xs[1]
            if op == "*":
                return xs[0] * xs[1]
            if op == "/" and xs[1] > 0:
                return xs[0] // xs[1]
            if op == "%" and xs[1] > 0:
                return xs[0] % xs[1]
            if op == "<<" and 0 <= xs[1] < 64:
                return xs[0] << xs[1]
            if op == ">>" and 0 <= xs[1] < 64:
                return xs[0] >> xs[1]
            if op == "&":
                return xs[0] & xs[1]
            if op == "|":
                return xs[0] | xs[1]
            if op == "^":
                return xs[0] ^ xs[1]
            if op == "pow" and 0 <= xs[1] < 64:
                return xs[0] ** xs[1]
            if op == "div_ceil" and xs[1] > 0:
                return -(-xs[0] // xs[1])
            if op == "min":
                return min(xs)
            if op == "max":
                return max(xs)
        if k == "rel":
            a, b = self.ev(t[1], at, atoms), self.ev(t[2], at, atoms)
            return int(("lt" if a < b else "gt" if a > b else "eq") in t[3])
        if k == "not":
            return int(not self.ev(t[1], at, atoms))
        raise Unknown(show(t))
