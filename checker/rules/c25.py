"""C25: every run over inputs that end comes to an end."""
import re
from vecs import *
from text import subst
from engine import Budget

RULE = ("Every loop of every function is followed with what one pass changes. Each pass that goes round again has to take a further element of an "
        "iterator with an end, move a number towards a bound that the loop leaves alone, take an element off a list that does not grow, leave "
        "the loop in a state in which no further pass is possible, or have got something from an input or listing (a read of more than no "
        "bytes, a row, record, path). Passes that get nothing have to share one such measure. Functions that call themselves, other than down the "
        "chains of a graph, are not expected.")
TECHNIQUE = "abstract interpretation of MIR with loop summaries; ranking measures per loop pass"
LIMITS = ("Readers and decoders of dependencies are taken to come to an end, and reads not to block for ever. Walks down the chains of a graph end if the graph has "
          "no cycle, as the one made by the command line. A measure that is not recognised is left undecided; a pass that changes nothing or goes "
          "on after nothing was read is a violation.")

RW = "byteorder::io::ReadBytesExt::read_"
TAKERS = {"next", "next_row", "next_back", "get_next_path", "next_key", "nth"}
CELLS = {"borrow_mut", "set", "replace", "store", "swap", "fetch_add", "fetch_sub", "fetch_or", "take", "lock", "write", "get_mut", "update", "send", "recv",
         "read", "read_to_end", "read_exact", "write_all", "flush", "seek"}
DOWN = ("driver::driver::Driver::", "chopper::header_graph::HeaderGraph::")


def mutable(F, e):
    """may the call change something it was handed?"""
    n = e[7].rsplit("::", 1)[-1]
    if n in CELLS:
        return True
    b = F.bodies.get(e[6])
    if b is None:
        return True
    hit = False
    for i, fn, t, sp in F.callees(b):
        if not fn or fn["p"] not in (e[1], e[7]):
            continue
        hit = True
        for a in t["args"]:
            p = a.get("mv") or a.get("cp")
            if not p:
                continue
            if len(p) > 1:
                return True
            ty = F.tys[b["locals"][p[0]]]
            if ty["k"] in ("ref", "ptr"):
                if ty.get("m") or "&mut" in ty["s"] or "*mut" in ty["s"]:
                    return True
            elif "&mut" in ty["s"] or "closure" in ty["s"]:
                return True
    return not hit


def own(events):
    return [e for e in events if e[0] == "call"]


def nothing(I, st, e):
    """None: the call takes nothing from anywhere; else (bool got something, bool may have got nothing)"""
    q, n = e[7], e[7].rsplit("::", 1)[-1]
    r = e[4]
    if "::read" in q and variants(I, st, r, RESULT) == {"Err"} and passing(I, st, e):
        return True, False
    if q.startswith(RW):
        return (True, False) if variants(I, st, r, RESULT) == {"Ok"} else (False, False)
    if q.endswith("::Read::read") or q.endswith(("::BufRead::read_line", "::BufRead::read_until", "::Read::read_to_end", "::Read::read_to_string")):
        x = payload(I, r, "Ok")
        if entails(I, st, rel({"gt", "lt"}, x, C(0))) or I.rng(st, x)[0] >= 1:
            return True, False
        if not q.endswith("::Read::read"):
            for c in st.conds():
                if c[0] == "rel" and C(0) in (c[1], c[2]) and "eq" not in c[3]:
                    y = c[1] if c[2] == C(0) else c[2]
                    if y[0] == "app" and y[1] == "len" and (e[4][1] in {z[1] for z in subterms(y) if z[0] in ("post", "res")}):
                        return True, False
        s2 = st.fork()
        return False, q.endswith("::Read::read") and I.assume(s2, rel({"eq"}, x, C(0)), True)
    if n in TAKERS:
        x = r
        if variants(I, st, x, RESULT) == {"Ok"}:
            x = payload(I, x, "Ok")
        vs = variants(I, st, x, OPTION)
        if vs == {"Some"}:
            return True, False
        return False, q.startswith("chopper::chopper::Source") and "None" in (vs or ())
    if n.startswith("decode") and not q.startswith("decompress::"):
        return (variants(I, st, r, RESULT) == {"Ok"}, False)
    return None


def changing(L):
    return {k for it in L["iters"] for k, v in it["next"].items() if v != k}


def steady(L, t, ch):
    return not mentions(t, lambda x: x in ch)


def unneg(t):
    return sub(C(0), t[2][0]) if t[0] == "app" and t[1] == "neg" else t


def bounded(conds, k, L, ch, up):
    """some condition of the pass keeps k below (above) something the loop leaves alone"""
    for c in conds:
        if c[0] != "rel":
            continue
        a, b, ops = unneg(c[1]), unneg(c[2]), c[3] - {"un"}
        d, k0 = lin(sub(a, b))
        w = d.get(k)
        if not w or not all(steady(L, x, ch) for x in d if x != k):
            continue
        lo = ops <= {"lt", "eq"} and "lt" in ops      # a < b
        hi = ops <= {"gt", "eq"} and "gt" in ops
        if up and (lo and w > 0 or hi and w < 0) or not up and (hi and w > 0 or lo and w < 0):
            return True
    return False


def least(I, it, d):
    d0, k0 = lin(d)
    lo = bounds(it["conds"], d)[0]
    if not d0:
        return k0
    s = k0
    for x, w in d0.items():
        a, b, _ = I.rng(it["st"], x)
        a = max(a, 0) if natural_sym(x) else a
        s = s + (w * a if w > 0 else w * b)
    return max(lo, s)


def natural_sym(x):
    return x[0] == "k" or x[0] == "app" and x[1] in ("len", "k", "max0", "as:u64", "as:usize", "as:u32", "as:u16", "as:u8") or x[0] in ("res", "dc", "fld") and False


def measures(I, L, it, ch):
    out = set()
    for k, nx in it["next"].items():
        if nx == k or k[0] != "lv":
            continue
        if str(k[2]).endswith("itpos"):
            if nx == add(k, C(1)) and (bounded(it["conds"], k, L, ch, True) or any(e[0] == "yield" for e in it["events"]) or
                                       any(mentions(c, lambda t: t == k) for c in it["conds"])):
                out.add(("iter", k))
            continue
        y = nx
        n = 0
        while y[0] in ("rm", "init", "swrm") and y != k:
            y = y[1]
            n += 1
        if n and y == k:
            out.add(("list", k))
            continue
        d = sub(nx, k)
        try:
            up, down = least(I, it, d), least(I, it, sub(k, nx))
        except Exception:
            continue
        if up >= 1 and bounded(it["conds"], k, L, ch, True):
            out.add(("up", k))
        if down >= 1 and bounded(it["conds"], k, L, ch, False):
            out.add(("down", k))
        if nx[0] == "app" and nx[1] in (">>", "/") and nx[2][0] == k and is_c(nx[2][1]) and nx[2][1][1] >= (1 if nx[1] == ">>" else 2) and \
                bounded(it["conds"], k, L, ch, False):
            out.add(("down", k))
    for e in it["events"]:
        if e[0] in ("yield",):
            out.add(("yield", L["id"]))
    return out


def last_pass(I, L, it):
    """after this pass no other is possible: each pass's own test fails in the state it leaves"""
    m = {k: v for k, v in it["next"].items() if v != k}
    if not m:
        return False
    for other in L["iters"]:
        s = it["st"].fork()
        bad = False
        for c in other["conds"]:
            if not mentions(c, lambda t: t in m) or mentions(c, lambda t: t[0] in ("res", "post")):
                continue
            x = subst(c, m)
            if x == ("b", False) or I.assume(s, x, True) is False:
                bad = True
                break
            if x[0] == "rel" and x[1][0] == "discr" and x[1][1][0] == "adt":
                a = x[1][1]
                i = next((j for j, v in enumerate(I.F.adts.get(a[1], {}).get("variants", ())) if v["name"] == a[2]), None)
                if i is None and a[1] == OPTION:
                    i = {"None": 0, "Some": 1}[a[2]]
                if i is not None and is_c(x[2]) and ("eq" if i == x[2][1] else "lt" if i < x[2][1] else "gt") not in x[3]:
                    bad = True
                    break
        if not bad:
            return False
    return True


WIDTH = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u24": 3, "i24": 3, "u32": 4, "i32": 4, "f32": 4, "u64": 8, "i64": 8, "f64": 8}


def same_place(I, st, calls):
    """do the seeks and reads of a pass that changes nothing go to the same place on every pass?"""
    at = 0
    for e in calls:
        if e[7].endswith("::Seek::seek"):
            w = e[3][1]
            if w[0] != "adt":
                return False
            if w[2] in ("Start", "End"):
                if mentions(w, lambda t: t[0] in ("res", "post")):
                    return False
                return True
            if at is None or not is_c(w[3][0]):
                return False
            at += w[3][0][1]
        elif e[7].startswith(RW) and at is not None:
            at += WIDTH.get(e[7][len(RW):], 10 ** 6)
        elif "::read" in e[7]:
            at = None
    return at == 0


def forward(I, st, e):
    """a seek that does not go back"""
    w = e[3][1]
    return w[0] == "adt" and w[2] == "Current" and (I.rng(st, w[3][0])[0] >= 0 or bounds(st.conds(), w[3][0])[0] >= 0)


def passing(I, st, e):
    """the failure of a read that is only an interruption, which does not last"""
    kinds = [v["name"] for v in I.F.adts.get("core::io::error::ErrorKind", {}).get("variants", ())]
    for c in st.conds():
        if c[0] == "rel" and c[3] - {"un"} == {"eq"}:
            for k in (c[1], c[2]):
                o = c[2] if k is c[1] else c[1]
                if is_c(k) and k[1] < len(kinds) and kinds[k[1]] in ("Interrupted", "WouldBlock", "TimedOut") and mentions(o, lambda t: t[0] in ("app", "res") and "::kind" in str(t[1:])):
                    return True
    return False


FILLS = ("::BufRead::read_line", "::BufRead::read_until", "::Read::read_to_end", "::Read::read_to_string")


def idle(F, I, it, calls):
    """may the pass come to this: nothing was appended to what it reads into, and nothing else changes?"""
    fills = [e for e in calls if e[7].endswith(FILLS) and variants(I, it["st"], e[4], RESULT) == {"Ok"}]
    ids = {e[4][1] for e in fills if e[4][0] == "res"}
    if not fills or any(e[0] not in ("call",) for e in it["events"]):
        return False
    for e in calls:
        if e not in fills and mutable(F, e) and e[7].rsplit("::", 1)[-1] not in ("by_ref", "take"):
            return False
    for e in fills:
        s2 = it["st"].fork()
        if I.assume(s2, rel({"eq"}, payload(I, e[4], "Ok"), C(0)), True) is False:
            return False
    if any(mentions(c, lambda t: t[0] == "post" and t[1] in ids) for c in it["conds"]):
        return False
    return all(v == k or v[0] == "post" and v[1] in ids for k, v in it["next"].items())


def stuck(I, it, calls, got, ch):
    """does the pass repeat as long as no call fails, whatever the calls do?"""
    if any(g is not None for g in got) or any(e[0] in ("yield", "loop", "vec.remove", "vec.swap") for e in it["events"]):
        return False
    rs = {e[4] for e in calls}
    ids = {e[4][1] for e in calls if e[4][0] == "res"}
    fixed = 0
    for c in it["conds"]:
        if c[0] == "rel" and c[1][0] == "discr" and c[1][1] in rs and variants(I, it["st"], c[1][1], RESULT) == {"Ok"}:
            continue
        if mentions(c, lambda t: t in ch or t in rs or t[0] in ("post", "res") and t[1] in ids):
            return False
        if mentions(c, lambda t: t[0] not in ("lv", "c", "app", "fld", "rel", "sym", "b", "discr", "k", "post", "res")):
            return False
        fixed += 1
    return fixed > 0


def judge(ctx, I, p, L):
    F = ctx.F
    name = L["id"][1]
    key = "loop:" + name
    ch = changing(L)
    pending = []
    for it in L["iters"]:
        ms = measures(I, L, it, ch)
        calls = own(it["events"])
        got = [nothing(I, it["st"], e) for e in calls]
        seeks = any(e[7].endswith("::Seek::seek") and not forward(I, it["st"], e) for e in calls)
        if not seeks and any(g and g[0] for g in got):
            continue
        if last_pass(I, L, it):
            continue
        pending.append((it, ms, calls, got, seeks))
    if not pending:
        ctx.ob(key, True, "every pass takes something from an input or is the last", L["sp"])
        return
    common = set.intersection(*[ms for _, ms, _, _, _ in pending])
    if common:
        k = sorted(common, key=repr)[0]
        ctx.ob(key, True, "%s: %s" % (k[0], show(k[1]) if k[1][0] == "lv" else "listing"), L["sp"])
        return
    for it, ms, calls, got, seeks in pending:
        if ms:
            continue
        if any(g and g[1] for g in got) and not seeks:
            ctx.ob(key, False, "goes round again although nothing more was got from the input", L["sp"])
            return
        if not seeks and idle(F, I, it, calls):
            ctx.ob(key, False, "goes round again although nothing more was got from the input", L["sp"])
            return
        if not seeks and stuck(I, it, calls, got, ch):
            ctx.ob(key, False, "nothing in a pass can change what decides on another one", L["sp"])
            return
        still = all(v == k for k, v in it["next"].items())
        if still and not any(e[0] not in ("call", "loop", "search", "search-none", "forall", "best") for e in it["events"]):
            moved = [e for e in calls if mutable(F, e)]
            if seeks and same_place(I, it["st"], calls):
                moved = [e for e in moved if not (e[7].endswith("::Seek::seek") or "::read" in e[7])]
            else:
                moved = [e for e, g in zip(calls, got) if mutable(F, e) and not (g == (False, False) and variants(I, it["st"], e[4], RESULT) == {"Err"})]
            inner = [e for e in it["events"] if e[0] == "loop"]
            if not moved and not inner:
                ctx.ob(key, False, "a pass leaves everything as it was and goes round again", L["sp"])
                return
    ctx.undecided("%s: no measure common to the passes of the loop at %s" % (name, L["sp"]))


def run(ctx):
    F = ctx.F
    seen = set()
    loops = 0
    reachl = {}

    def has_loop(q):
        if q not in reachl:
            reachl[q] = q in F.bodies and bool(F.loops(F.bodies[q])) or any(F.loops(F.bodies[r]) for r in ctx.reach(q) if r in F.bodies)
        return reachl[q]
    for p, b in sorted(F.bodies.items()):
        if not F.loops(b) or p.startswith("util::dcgen"):
            continue
        home = re.sub(r"^<", "", p).split("::")[:2]
        tries = [None, lambda q: q != p and not q.startswith(p) and q in F.bodies and
                 (bool(F.loops(F.bodies[q])) or q.split("::")[:2] != home and has_loop(q)), lambda q: q != p and has_loop(q) and not q.startswith(p), lambda q: q in F.bodies and not q.startswith(p)]
        done = False
        for o in tries:
            try:
                I, outs = ctx.explore(p, opaque=o) if o else ctx.explore(p)
                done = True
                break
            except (Budget, Undecided):
                continue
        if not done:
            ctx.undecided("%s is too large to follow" % p)
            continue
        for L in collect_loops([e for s, x in outs for e in s.events()]).values():
            if L["id"][1] != p and not L["id"][1].startswith(p + "::{"):
                continue
            loops += 1
            judge(ctx, I, p, L)
    cg = ctx.callgraph()
    for p in sorted(F.bodies):
        if p in ctx.reach(p) - {p} or p in cg.get(p, ()):
            if not p.startswith(DOWN):
                ctx.undecided("%s calls itself" % p)
    ctx.ob("loops", loops >= 1, "%d loops followed" % loops)
