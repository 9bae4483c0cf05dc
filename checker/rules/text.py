"""Text written on a path, as tokens; separator discipline of loops that write lists."""
from lib import *
from lin import *
from recur import Rec

WFMT = ("::Write::write_fmt", "::Write::write_str", "::Write::write_all", "::Write::write_char")


def subst(t, m):
    """replace terms, rebuilding normal forms"""
    if t in m:
        return m[t]
    if not isinstance(t, tuple) or not t or not isinstance(t[0], str):
        return tuple(subst(x, m) if isinstance(x, tuple) else x for x in t) if isinstance(t, tuple) else t
    if t[0] in ("c", "b", "s", "ch", "y"):
        return t
    if t[0] == "app":
        xs = [subst(x, m) for x in t[2]]
        if t[1] == "+":
            return add(*xs)
        if t[1] == "-":
            return sub(*xs)
        if t[1] == "*":
            return mul(*xs)
        return ("app", t[1], tuple(xs))
    if t[0] == "rel":
        a, b = subst(t[1], m), subst(t[2], m)
        r = rel(t[3], a, b)
        return r
    if t[0] == "not":
        return neg(subst(t[1], m))
    return (t[0],) + tuple(subst(x, m) if isinstance(x, tuple) else x for x in t[1:])


def feasible(I, conds, m, extra=()):
    st = State()
    for c in list(extra) + [subst(c, m) for c in conds]:
        if not I.assume(st, c, True):
            return False
    return True


def flat(t):
    """string term -> token list"""
    if t[0] == "s":
        return [t] if t[1] else []
    if t[0] == "app" and t[1] == "cat":
        return [y for x in t[2] for y in flat(x)]
    return [("v", t)]


def merge(ts):
    out = []
    for t in ts:
        if t[0] == "s" and out and out[-1][0] == "s":
            out[-1] = S(out[-1][1] + t[1])
        else:
            out.append(t)
    return out


def accs(I, toks_, loops):
    """expand string accumulators: v(lv) whose loop appends to it -> init tokens, loop"""
    out = []
    for t in toks_:
        if t[0] == "v" and t[1][0] == "lv" and t[1][1] in loops:
            L = loops[t[1][1]]
            sym = t[1]
            if sym in L["init"] and L["iters"] and all(
                    it["next"][sym] == sym or it["next"][sym][0] == "app" and it["next"][sym][1] == "cat" and it["next"][sym][2][0] == sym
                    for it in L["iters"]):
                out.extend(accs(I, flat(L["init"][sym]), loops))
                out.append(("loop", L, sym))
                continue
        out.append(t)
    return out


def text_of(I, events, loops=None):
    """tokens: ("s", literal) ("v", term) ("loop", L, accumulator|None) ("other", what)"""
    if loops is None:
        loops = collect_loops(events)
    out = []
    for e in events:
        if e[0] == "loop":
            if any(text_of(I, it["events"], loops) for it in e[1]["iters"]):
                out.append(("loop", e[1], None))
        elif e[0] == "call":
            q = e[7]
            if q.endswith(WFMT):
                t = e[3][1]
                if t[0] == "app" and t[1] == "fmt":
                    t = t[2][0]
                if t[0] == "y":
                    try:
                        t = S(t[1].decode("utf8"))
                    except (UnicodeDecodeError, AttributeError):
                        pass
                if t[0] == "ch":
                    t = S(t[1])
                while t[0] == "app" and t[1] in ("as_bytes", "bytes"):
                    t = t[2][0]
                out.extend(accs(I, flat(t), loops))
            elif q == "dtoa::write" or q.startswith("dtoa::") and q.endswith("write"):
                out.append(("v", app("dtoa", e[3][1])))
            elif q.endswith(("::Write::write", "write_record", "::Write::write_vectored")) or q.startswith("itoa::"):
                out.append(("other", q))
    return merge(out)


def iter_text(I, L, sym, it):
    if sym is None:
        return text_of(I, it["events"])
    nx = it["next"][sym]
    if nx == sym:
        return []
    return merge(accs(I, [y for x in nx[2][1:] for y in flat(x)], collect_loops(it["events"])))


def settled(it, sym):
    """value of a flag after the iteration, using what the path knows about it"""
    n = it["next"][sym]
    if n == sym:
        if sym in it["conds"]:
            return ("b", True)
        if neg(sym) in it["conds"]:
            return ("b", False)
    return n


def flags(L):
    """loop symbols with the same constant after every iteration"""
    out = {}
    for sym in L["init"]:
        ns = {settled(it, sym) for it in L["iters"]}
        if len(ns) == 1:
            n = next(iter(ns))
            if n[0] in ("b", "c", "s"):
                out[sym] = n
    return out


def separated(I, L, sym, delim, started, st):
    """[(ok, why, value tokens, iteration)] for a loop that writes items separated by delim; None: not decidable"""
    cnt, bs = Rec(I, {}).counter(L)
    fl = flags(L)
    first = {s: v for s, v in L["init"].items() if s != sym}
    known = set(first if cnt is None else list(fl) + [cnt])
    res = []
    for it in L["iters"]:
        ts = iter_text(I, L, sym, it)
        pre = bool(ts) and ts[0] == ("v", delim)
        if not pre and delim[0] == "s" and ts and ts[0][0] == "s" and ts[0][1].startswith(delim[1]):
            pre = True
            ts = [S(ts[0][1][len(delim[1]):])] * (len(ts[0][1]) > len(delim[1])) + ts[1:]
            ts = [S("")] + ts
        body = ts[1:] if pre else ts
        # what the path knows of the loop itself holds behind it, not in it
        base = [c for c in st.conds() if not mentions(c, lambda t: t[0] == "lv" and t[1] == L["id"])] if st is not None else []
        f1 = feasible(I, it["conds"], first, base)
        f2 = feasible(I, it["conds"], fl, base + ([rel("Ge", cnt, C(1))] if cnt is not None else []))
        ok_ = not (f1 and pre != bool(started)) and not (f2 and not pre)
        clear = all(all(x[0] != "lv" or x[1] != L["id"] or x in fl or x == cnt for x in subterms(c)) for c in it["conds"])
        if not ok_ and not clear:
            return None
        res.append((ok_, "first" if f1 and pre != bool(started) else "later", body, it))
    return res
