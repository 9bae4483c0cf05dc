"""Scans of a list that stop at the first element a predicate accepts, whatever loop or search they are written with."""
from driver_model import *
from recur import Rec

FIRST = ("position", "find", "find_map", "any")


class Scan:
    """what a path learned from asking elements of a list, in order"""

    def __init__(self, ctx, I, s, events, ask):
        self.I, self.s, self.ask = I, s, ask
        self.rec = Rec(I, collect_loops(events))
        self.events = events

    def asks(self, events, st=None):
        for e in events:
            if e[0] == "call" and (e[7] in self.ask or e[1] in self.ask):
                yield e

    def elem(self, recv):
        """(list, index) the receiver is an element of"""
        t = self.I.deep(self.s, recv)
        while t[0] in ("deref", "vref"):
            t = t[1]
        return (t[1], t[2]) if t[0] == "sel" else None

    def loops(self):
        """(loop, counter, list, ask) for the loops that go on only behind an element that was asked and said no"""
        for e in self.events:
            if e[0] != "loop":
                continue
            L = e[1]
            sym, _ = self.rec.counter(L)
            if sym is None:
                continue
            V, last, ok = None, None, bool(L["iters"])
            for it in L["iters"]:
                no = False
                for a in self.asks(it["events"], it["st"]):
                    x = self.elem(a[2][0])
                    if x and x[1] == sym and entails(self.I, it["st"], neg(a[4])):
                        V, no, last = x[0], True, a
                ok = ok and no
            if V is not None and ok:
                yield L, sym, V, last
        return

    def accepted(self, recv):
        """the ask that makes recv the first element accepted: (ask event, list), or a text what is missing"""
        x = self.elem(recv)
        if x is None:
            for L, sym, W, a, opt in self.tracked():
                if self.I.deep(self.s, recv) == payload(self.I, opt):
                    return a, W
            return "cannot tell which element %s is" % show(recv)[:60]
        V, i = x
        for L, sym, W, a, opt in self.tracked():
            if W == V and i == payload(self.I, opt):
                return a, V
        yes = [a for a in self.asks(self.events) if self.elem(a[2][0]) == x and entails(self.I, self.s, a[4])]
        if not yes:
            return "%s was not asked, or did not say yes" % show(recv)[:60]
        for e in self.events:
            if e[0] == "search" and e[3] == i and e[1] in FIRST:
                return yes[-1], V
        for L, sym, W, a in self.loops():
            if sym == i and W == V and (a[7] == yes[-1][7]):
                return yes[-1], V
        # a list the path knows to hold no element before this one
        if i == C(0):
            return yes[-1], V
        return "%s may not be the first element that says yes" % show(recv)[:60]

    def exhausted(self):
        """[(ask, list)] for every scan that found no element"""
        out = []
        for L, sym, V, a in self.loops():
            if entails(self.I, self.s, rel("Ge", sym, self.I.len_of(V))):
                out.append((a, V))
        for e in self.events:
            if e[0] == "forall" and e[1] in FIRST:
                out += self.searched(e)
        for L, sym, V, a, opt in self.tracked():
            if is_none(self.I, self.s, opt) and entails(self.I, self.s, rel("Ge", sym, self.I.len_of(V))):
                out.append((a, V))
        return out

    def searched(self, e):
        """a search that found nothing: every element was asked and said no"""
        got = None
        for (k, conds, r), (_, _, ev, _) in zip(e[3], e[5]):
            st = self.s.fork()
            ok = all(self.I.assume(st, c, True) for c in conds)
            if e[1] == "find_map":
                ok = ok and is_opt(r) and "None" in variants(self.I, st, r, OPTION)
            else:
                ok = ok and self.I.assume(st, r, False)
            if not ok:
                continue
            x = None
            for a in self.asks(ev, st):
                x = self.elem(a[2][0])
                if x is not None and x[1] == k and entails(self.I, st, neg(a[4])):
                    break
                x = None
            if x is None:
                return []
            got = (a, x[0])
        return [got] if got else []

    def tracked(self):
        """loops over the whole list that note the first element that says yes in an option"""
        for e in self.events:
            if e[0] != "loop":
                continue
            L = e[1]
            sym, _ = self.rec.counter(L)
            for opt, init in L["init"].items():
                if sym is None or opt == sym or not is_opt(init) or init[2] != "None":
                    continue
                V, ask, ok = None, None, bool(L["iters"])
                for it in L["iters"]:
                    st, nx = it["st"], it["next"][opt]
                    if nx == opt and is_some(self.I, st, opt):
                        continue
                    as_ = [(a, self.elem(a[2][0])) for a in self.asks(it["events"], it["st"])]
                    as_ = [(a, x) for a, x in as_ if x and x[1] == sym]
                    no = [(a, x) for a, x in as_ if entails(self.I, st, neg(a[4]))]
                    yes = [(a, x) for a, x in as_ if entails(self.I, st, a[4])]
                    hit = no if nx == opt else yes if is_opt(nx) and nx[2] == "Some" and is_none(self.I, st, opt) and \
                        (nx[3][0] == sym or yes and self.elem(nx[3][0]) == yes[-1][1]) else []
                    if not hit:
                        ok = False
                        break
                    ask, V = hit[-1][0], hit[-1][1][0]
                if ok and V is not None:
                    yield L, sym, V, ask, opt


def is_opt(t):
    return t[0] == "adt" and t[1] == OPTION
