"""What a vector built or rewritten by loops, collects and element stores holds at an index (no code is run): the
loop variables are put in closed form, and the index is placed among the loop's iterations by linear arithmetic."""
from closed import *
from text import subst


def _row(c):
    """linear facts d + n >= 0 of a condition"""
    if c[0] != "rel":
        return []
    s = c[3] - {"un"}
    a, ca = lin(c[1])
    b, cb = lin(c[2])
    d = dict(a)
    for k, v in b.items():
        d[k] = d.get(k, 0) - v
        if not d[k]:
            del d[k]
    n = ca - cb
    m = {k: -v for k, v in d.items()}
    if s == {"lt"}:
        return [(m, -n - 1)]
    if s == {"lt", "eq"}:
        return [(m, -n)]
    if s == {"gt"}:
        return [(d, n - 1)]
    if s == {"gt", "eq"}:
        return [(d, n)]
    if s == {"eq"}:
        return [(d, n), (m, -n)]
    return []


def infeasible(rows, limit=400):
    """Fourier-Motzkin elimination on d + n >= 0"""
    rows = [(dict(d), n) for d, n in rows]
    while True:
        if any(not d and n < 0 for d, n in rows):
            return True
        rows = [r for r in rows if r[0]]
        if not rows or len(rows) > limit:
            return False
        count = {}
        for d, n in rows:
            for k, v in d.items():
                p = count.setdefault(k, [0, 0])
                p[v > 0] += 1
        k = min(count, key=lambda x: count[x][0] * count[x][1])
        pos = [r for r in rows if r[0].get(k, 0) > 0]
        neg_ = [r for r in rows if r[0].get(k, 0) < 0]
        new = [r for r in rows if not r[0].get(k)]
        for a, na in pos:
            for b, nb in neg_:
                x, y = -b[k], a[k]
                d = {}
                for q, v in a.items():
                    d[q] = d.get(q, 0) + v * x
                for q, v in b.items():
                    d[q] = d.get(q, 0) + v * y
                d = {q: v for q, v in d.items() if v}
                new.append((d, na * x + nb * y))
        seen, rows = set(), []
        for d, n in new:
            key = (lkey(d), n)
            if key not in seen:
                seen.add(key)
                rows.append((d, n))


def natural(t):
    return t[0] == "app" and t[1] in ("len", "max0") or t[0] == "ctr" or t[0] == "y0" or \
        t[0] == "lv" and str(t[2]).endswith(".itpos")


def proves(conds, a, b):
    """conds imply a <= b"""
    rows = []
    for c in conds:
        rows += _row(c)
    da, ca = lin(a)
    db, cb = lin(b)
    d = dict(da)
    for k, v in db.items():
        d[k] = d.get(k, 0) - v
        if not d[k]:
            del d[k]
    goal = (d, ca - cb - 1)       # a - b - 1 >= 0 is the negation
    # only what is connected with the goal
    atoms = set(goal[0])
    use = []
    left = rows
    while True:
        more = [r for r in left if set(r[0]) & atoms or not r[0]]
        if not more:
            break
        left = [r for r in left if r not in more]
        use += more
        for r in more:
            atoms |= set(r[0])
    use += [({t: 1}, 0) for t in atoms if natural(t)]
    return infeasible(use + [goal])


class Vals:
    def __init__(self, I, loops):
        self.I = I
        self.loops = loops
        self.cl = Closed(I, loops)
        self.cur = ()        # the conditions of the state at hand
        self.busy = set()

    def counters(self, L):
        """[(what counts the iterations of L up by one each, its value before the loop, what bounds it)]"""
        out = []
        for v, init in L["init"].items():
            nx = [it["next"].get(v) for it in L["iters"]]
            if not nx:
                continue
            if all(x == add(v, C(1)) for x in nx):
                q, base = v, init
            elif all(x is not None and x[0] == "push" and x[1] == v for x in nx):
                q, base = app("len", v), app("len", init)
            else:
                continue
            bs = None
            for it in L["iters"]:
                b = {c[1] if c[2] == q else c[2] for c in it["conds"] if c[0] == "rel" and q in (c[1], c[2])
                     and (c[3] - {"un"}) == ({"gt"} if c[2] == q else {"lt"})}
                bs = b if bs is None else bs & b
            bs = {b for b in bs if not mentions(b, lambda t: t == v)}
            if bs:
                out.append((q, base, bs))
        return sorted(out, key=lambda x: (x[1] != C(0), repr(x[0])))

    def count(self, L, conds):
        """(counter, its first value, iterations of L at its exit) under conds"""
        all_ = self.counters(L)
        for sym, base, bs in all_:
            ends = [c for c in self.cur if c[0] == "rel" and (c[1] == sym and c[3] - {"un"} == {"gt", "eq"} or c[2] == sym and c[3] - {"un"} == {"lt", "eq"})]
            for b in sorted(bs, key=repr):
                if not any(b in (c[1], c[2]) for c in ends):
                    continue
                base, n = self.norm(base), self.norm(b)
                if base != C(0):
                    cs = [self.norm(c) for c in self.cur if not mentions(c, lambda t: t[0] == "lv" and t[1] == L["id"])]
                    if not proves(cs, base, n):
                        continue
                    n = sub(n, base)
                return sym, base, n
        for sym, base, bs in all_:
            if base != C(0):
                continue
            for b in sorted(bs, key=repr):
                b1 = self.norm(b)
                if proves(conds, b1, sym) or proves(conds, b, sym):
                    return sym, base, b1
            return sym, base, sym
        raise Unknown("iterations of the loop at %s" % L["sp"])

    def norm(self, t):
        """lengths of vectors, and counters at the end of their loops, in terms of what the loops were given"""
        if not isinstance(t, tuple) or not t or not isinstance(t[0], str):
            return t
        if t[0] == "lv":
            L = self.loops.get(t[1])
            if L is None or t not in L["init"] or t in self.busy:
                return t
            nx = {it["next"].get(t) for it in L["iters"]}
            if nx != {add(t, C(1))}:
                return t
            self.busy.add(t)
            try:
                return add(self.norm(L["init"][t]), self.count(L, self.cur)[2])
            except (Unknown, RecursionError):
                return t
            finally:
                self.busy.discard(t)
        if t[0] == "app" and t[1] == "len":
            if t in self.busy:
                return t
            self.busy.add(t)
            try:
                return self.length(t[2][0], self.cur)
            except (Unknown, RecursionError):
                return t
            finally:
                self.busy.discard(t)
        if t[0] == "app":
            xs = [self.norm(x) for x in t[2]]
            return add(*xs) if t[1] == "+" else sub(*xs) if t[1] == "-" else mul(*xs) if t[1] == "*" else ("app", t[1], tuple(xs))
        if t[0] == "rel":
            return ("rel", self.norm(t[1]), self.norm(t[2]), t[3])
        return t

    def kept(self, L, sym):
        """the loop leaves the length alone"""
        return L["iters"] and all(self.stores(it["next"][sym], sym) is not None for it in L["iters"])

    def stores(self, t, sym):
        """t = sym with some elements replaced -> [(index, value)], latest first"""
        out = []
        while t[0] == "store":
            out.append((t[2], t[3]))
            t = t[1]
        return out if t == sym else None

    def pushes(self, t, sym):
        out = []
        while t[0] == "push":
            out.append(t[2])
            t = t[1]
        return out[::-1] if t == sym else None

    def length(self, t, conds):
        k = t[0]
        if k == "lv":
            L = self.loops.get(t[1])
            if L is None or t not in L["init"]:
                return app("len", t)
            if self.kept(L, t):
                return self.length(L["init"][t], conds)
            ps = [self.pushes(it["next"][t], t) for it in L["iters"]]
            if ps and all(p is not None for p in ps) and len({len(p) for p in ps}) == 1:
                n = self.count(L, conds)[2]
                return add(self.length(L["init"][t], conds), mul(n, C(len(ps[0]))))
            raise Unknown("length of %s" % show(t))
        if k == "store":
            return self.length(t[1], conds)
        if k == "push":
            return add(self.length(t[1], conds), C(1))
        if k == "append":
            return add(self.length(t[1], conds), self.length(t[2], conds))
        if k == "app" and t[1] == "resize":
            return self.norm(t[2][1])
        if k == "app" and t[1] == "truncate":
            n = self.length(t[2][0], conds)
            if proves(conds, t[2][1], n):
                return t[2][1]
            if proves(conds, n, t[2][1]):
                return n
            raise Unknown("length of %s" % show(t))
        if k == "collect":
            n = self.I.it_len(t[1])
            if n is None:
                raise Unknown("length of %s" % show(t))
            return self.norm(n)
        n = self.I.len_of(t)
        return n if n == app("len", t) else self.norm(n)

    def fork(self, st, conds):
        s = st.fork()
        for c in conds:
            if not self.I.assume(s, c, True):
                return None
        return s

    def conds(self, st):
        self.cur = tuple(st.conds())
        return [self.norm(c) for c in self.cur]

    def place(self, st, j, lo, hi):
        """split on lo <= j < hi: (state inside | None, [states outside])"""
        cs = self.conds(st)
        lo, hi = self.norm(lo), self.norm(hi)
        if proves(cs, lo, j) and proves(cs, add(j, C(1)), hi):
            return st, []
        if proves(cs, add(j, C(1)), lo) or proves(cs, hi, j):
            return None, [st]
        s = self.fork(st, [rel("Le", lo, j), rel("Lt", j, hi)])
        out = [x for x in (self.fork(st, [rel("Lt", j, lo)]), self.fork(st, [rel("Ge", j, hi)])) if x is not None]
        return s, out

    def at(self, st, t, j, depth=0):
        """[(state, value)] of element j of t; the caller has j below the length"""
        if depth > 12:
            raise Unknown("too deep")
        I = self.I
        k = t[0]
        if k == "lv":
            L = self.loops.get(t[1])
            if L is None or t not in L["init"]:
                return [(st, I.sel(t, j))]
            return self.at_loop(st, t, L, j, depth)
        if k == "store":
            s, rest = self.place(st, j, t[2], add(t[2], C(1)))
            out = [(s, t[3])] if s is not None else []
            for r in rest:
                out += self.at(r, t[1], j, depth + 1)
            return out
        if k in ("push", "append") or k == "app" and t[1] == "resize":
            base = t[1] if k != "app" else t[2][0]
            n = self.length(base, self.conds(st))
            s, rest = self.place(st, j, C(0), n)
            out = self.at(s, base, j, depth + 1) if s is not None else []
            for r in rest:
                if proves(self.conds(r), add(j, C(1)), C(0)):
                    continue
                if k == "append":
                    out += self.at(r, t[2], sub(j, n), depth + 1)
                else:
                    out.append((r, t[2] if k == "push" else t[2][2]))
            return out
        if k == "app" and t[1] == "truncate":
            return self.at(st, t[2][0], j, depth + 1)
        if k == "tail":
            return self.at(st, t[1], add(j, t[2]), depth + 1)
        if k == "init":
            return self.at(st, t[1], j, depth + 1)
        if k == "rm":
            s, rest = self.place(st, j, C(0), t[2])
            out = self.at(s, t[1], j, depth + 1) if s is not None else []
            for r in rest:
                out += self.at(r, t[1], add(j, C(1)), depth + 1)
            return out
        if k == "collect":
            if t[1][0] in ("filter", "fmap", "takewhile", "skipwhile", "opq"):
                raise Unknown("elements of %s" % show(t)[:80])
            return [(s, I.deep(s, e)) for s, e in I.it_elem(st.fork(), t[1], j, [], "")]
        if k == "seq" and not is_c(j) and 0 < len(t[1]) <= 8:
            out = []
            for i, v in enumerate(t[1]):
                s = self.fork(st, [rel("Eq", j, C(i))])
                if s is not None and not infeasible([r for c in self.conds(s) for r in _row(c)]):
                    out.append((s, v))
            return out
        if k in ("deref", "fld", "dc", "rep", "seq", "sel", "app", "p", "res"):
            return [(st, I.sel(t, j))]
        raise Unknown("elements of %s" % show(t)[:80])

    def at_loop(self, st, t, L, j, depth):
        I = self.I
        sym, first, n = self.count(L, self.conds(st))
        init = L["init"][t]
        outs = []
        if self.kept(L, t):
            forms = set()
            for it in L["iters"]:
                w = self.stores(it["next"][t], t)
                if len(w) > 1:
                    raise Unknown("several stores in one iteration")
                for ix, v in w:
                    forms.add(self.cl.close(ix))
            if not forms:
                return self.at(st, init, j, depth + 1)
            if len(forms) != 1:
                raise Unknown("stores at different places in one loop")
            d, c = lin(forms.pop())
            d = dict(d)
            if d.pop(CTR(L), 0) != 1:
                raise Unknown("stores of %s are not one after the other" % show(t))
            lo = C(c)
            for a, v in d.items():
                if a[0] == "ctr":     # another loop, which is at its end here
                    a = self.count(self.loops[a[1]], self.conds(st))[2]
                lo = add(lo, mul(a, C(v)))
            s, rest = self.place(st, j, lo, add(lo, n))
            for r in rest:
                outs += self.at(r, init, j, depth + 1)
            if s is not None:
                k = sub(j, lo)
                for it in L["iters"]:
                    w = self.stores(it["next"][t], t)
                    for s2 in self.iteration(s, L, it, (sym, first), k):
                        if w:
                            outs.append((s2, self.value(w[0][1], L, it, (sym, first), k, t)))
                        else:
                            outs += self.at(s2, init, j, depth + 1)
            return outs
        ps = [self.pushes(it["next"][t], t) for it in L["iters"]]
        if all(p is not None and len(p) == 1 for p in ps):
            base = self.length(init, self.conds(st))
            s, rest = self.place(st, j, base, add(base, n))
            for r in rest:
                if not proves(self.conds(r), base, j):
                    outs += self.at(r, init, j, depth + 1)
            if s is not None:
                k = sub(j, base)
                for it, p in zip(L["iters"], ps):
                    for s2 in self.iteration(s, L, it, (sym, first), k):
                        outs.append((s2, self.value(p[0], L, it, (sym, first), k, t)))
            return outs
        raise Unknown("%s is neither filled nor rewritten one element after the other" % show(t))

    def repl(self, L, x, sym, k, t=None):
        sym, first = sym
        m = {sym: add(first, k)}
        for y in subterms(x):
            if y[0] == "lv" and y[1] == L["id"] and y != sym and y != t:
                try:
                    f = self.cl.form(y)
                except Unknown:
                    continue
                m[y] = subst(f, {CTR(L): k})
        return subst(x, m)

    def iteration(self, st, L, it, sym, k):
        """the state of iteration k of L on this path, if it can be"""
        s = self.fork(st, [self.norm(self.repl(L, c, sym, k)) for c in it["conds"]])
        return [s] if s is not None else []

    def value(self, v, L, it, sym, k, t):
        v = self.repl(L, v, sym, k, t)
        # the element itself, not yet rewritten when its turn comes
        return v
