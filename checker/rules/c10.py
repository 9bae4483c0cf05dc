"""C10: the preview buffer hands every byte on exactly once, in order."""
from lib import *
from lin import *

RULE = ("On every path of the buffering reader's methods, the reads from the wrapped reader and the copies out of the buffer "
        "are replayed on an abstract queue (first unread byte, end of the filled part): new bytes may only be appended or "
        "replace an empty queue, copies must start at the first unread byte, and the stored positions at the end must "
        "be those of the queue; loops are checked per iteration. The previewer must look at exactly the filled part and "
        "hand on the reader in the state reading ahead left it.")
TECHNIQUE = "abstract interpretation of MIR; queue invariant (typestate) over buffer positions"
LEVEL = "other"

READ = "alloc::io::read::Read::read"
BR = "util::reader::ChopperBufReader"
PV = "util::reader::ChopperBufPreviewer"


class Q:
    """field roles of the reader"""

    def __init__(self, ctx):
        F = ctx.F
        self.ctx = ctx
        self.fill = next((p for t, n, p in F.impls_of("alloc::io::buf_read::BufRead", "fill_buf") if (t.get("p") or t["s"]).startswith(BR)), None)
        if not self.fill:
            raise Undecided("no buffering reader")
        b = F.bodies[self.fill]
        self.selfty = b["self"]
        self.methods = [p for p, x in F.bodies.items() if x.get("self") == self.selfty and x["kind"] == "fn"]
        fs = F.adts[BR]["variants"][0]["fields"]
        self.fields = {f[0]: i for i, f in enumerate(fs)}
        I, outs = ctx.explore(self.fill)
        self.pos = self.cap = self.buf = None
        for s, o in outs:
            if o[0] == "ret" and not list(calls(s.events(), READ)) and o[1][0] == "adt" and o[1][2] == "Ok":
                r = I.deep(s, o[1][3][0], 1) if o[1][3][0][0] in ("ref", "vref") else o[1][3][0]
                sl = part(r)
                if sl and sl[1][0] == "fld" and sl[2][0] == "fld":
                    self.pos, self.cap = sl[1][3], sl[2][3]
                    base = [x for x in subterms(sl[0]) if x[0] == "fld"]
                    self.buf = base[-1][3] if base else None
        if self.pos is None or self.cap is None:
            raise Undecided("roles of the reader's fields")
        self.inner = next((n for n in self.fields if n not in (self.pos, self.cap, self.buf)), None)

    def get(self, I, s, name):
        v = I.deref(s, ("p", 0))
        return I.rd_proj(v, ("f", self.fields[name], name))

    def sym0(self, I, name):
        return I.rd_proj(I.deref(State(), ("p", 0)), ("f", self.fields[name], name))


def part(t):
    """(base, from, to) of a slice term"""
    if t[0] == "app" and t[1] == "slice" and len(t[2]) == 3:
        a, lo, hi = t[2]
        p = part(a)
        return (p[0], add(p[1], lo), add(p[1], hi)) if p else (a, lo, hi)
    return None


def is_inner(q, t):
    return t[0] == "fld" and t[3] == q.inner


def own_buffer(q, t):
    return mentions(t, lambda x: x[0] == "fld" and x[3] == q.buf) or \
        mentions(t, lambda x: x[0] == "post" and x[3].endswith("::read")) or \
        mentions(t, lambda x: x[0] == "lv" and q.buf in repr(x[2]))


def region(t):
    """start of the part of the buffer"""
    sl = part(t)
    return sl[1] if sl else C(0)


def ge(conds, a, b):
    if lsame(a, b):
        return True
    return bounds(conds, sub(a, b))[0] >= 0


class Unit:
    """replay of one straight piece: a path between loop heads"""

    def __init__(self, q, I, s, conds, start, events, deliver):
        self.q, self.I, self.s, self.conds = q, I, s, list(conds)
        self.upos, self.ucap = start
        self.events = events
        self.deliver = deliver
        self.got = []
        self.bad = []
        self.capped = None

    def empty(self):
        return ge(self.conds, self.upos, self.ucap)

    def run(self):
        q, I = self.q, self.I
        for e in self.events:
            if e[0] == "loop":
                continue
            if e[0] != "call":
                continue
            if e[7].startswith("alloc::io::") and any(is_inner(q, x) for x in e[3][:1]) and e[7] != READ:
                raise Undecided("wrapped reader used through " + e[7])
            if e[7].endswith("::copy_from_slice") and own_buffer(q, e[3][1]):
                sl = part(e[3][1]) or (e[3][1], C(0), I.len_of(e[3][1]))
                if not lsame(sl[1], self.upos):
                    self.bad.append("copies from %s, first unread is %s" % (show(sl[1]), show(self.upos)))
                if not lsame(sl[2], self.ucap) and not ge(self.conds, self.ucap, sl[2]):
                    self.bad.append("copies up to %s, filled to %s" % (show(sl[2]), show(self.ucap)))
                if region(e[3][0]) != C(0) or own_buffer(q, e[3][0]):
                    self.bad.append("copies to %s" % show(e[3][0]))
                n = sub(sl[2], sl[1])
                self.upos = add(self.upos, n)
                self.capped = True
                self.got.append(n)
                continue
            if e[7] != READ:
                continue
            n = payload(I, e[4], "Ok")
            ok_ = variants(I, self.s, e[4], RESULT)
            if is_inner(q, e[3][0]):
                if own_buffer(q, e[3][1]):
                    a = region(e[3][1])
                    if lsame(a, self.ucap):
                        if "Err" not in ok_:
                            self.ucap = add(self.ucap, n)
                    elif self.empty():
                        if "Err" not in ok_:
                            self.upos, self.ucap = a, add(a, n)
                    else:
                        self.bad.append("reads over bytes not handed on yet (from %s, filled to %s)" % (show(a), show(self.ucap)))
                else:
                    if not self.empty():
                        self.bad.append("reads past the bytes still buffered")
                    self.got.append(n if "Err" not in ok_ else None)
                    self.direct = e[4]
            elif part(e[3][0]) and own_buffer(q, e[3][0]):
                sl = part(e[3][0])
                if not lsame(sl[1], self.upos):
                    self.bad.append("copies from %s, first unread is %s" % (show(sl[1]), show(self.upos)))
                if not lsame(sl[2], self.ucap) and not ge(self.conds, self.ucap, sl[2]):
                    self.bad.append("copies up to %s, filled to %s" % (show(sl[2]), show(self.ucap)))
                if "Err" not in ok_:
                    self.upos = add(self.upos, n)
                    self.capped = True
                    self.got.append(n)
        return self

    def ends(self, pos, cap):
        """stored positions are the queue's"""
        if lsame(pos, self.upos) and lsame(cap, self.ucap):
            return True
        if self.empty() and ge(self.conds, pos, cap):
            return True
        if self.capped and lsame(cap, self.ucap) and lsame(pos, self.ucap):
            return True      # min(pos + n, cap)
        if self.capped and lsame(cap, self.ucap) and pos[0] == "app" and pos[1] == "min" and \
                any(lsame(x, self.upos) for x in pos[2]) and any(lsame(x, self.ucap) for x in pos[2]):
            return True
        return False


def entries(q):
    """methods seen from outside the reader"""
    F = q.ctx.F
    cg = q.ctx.callgraph()
    out = []
    for p in q.methods:
        if F.bodies[p]["argc"] == 0 or "Debug>" in p:
            continue
        t = F.tys[F.bodies[p]["locals"][1]]
        if t["k"] != "ref":
            continue
        outside = [g for g, cs in cg.items() if p in cs and g not in q.methods]
        if outside or F.bodies[p].get("pub"):
            out.append(p)
    return out


def check(ctx, q, p):
    I, outs = ctx.explore(p)
    pos0, cap0 = q.sym0(I, q.pos), q.sym0(I, q.cap)
    name = p.split("::")[-1]
    inv = [rel("Le", pos0, cap0)]

    def unit(s, conds, start, ev, pos, cap, where):
        u = Unit(q, I, s, conds, start, ev, name).run()
        for b in u.bad:
            ctx.ob("queue:" + name, False, b, where)
        ok_ = u.ends(pos, cap)
        ctx.ob("positions:" + name, ok_, "positions after: %s..%s, queue %s..%s" % (show(pos), show(cap), show(u.upos), show(u.ucap)), where)
        return u

    sp = None
    loops = {}
    for s, o in outs:
        collect_loops(s.events(), loops)
    for L in loops.values():
        if not any(e[0] == "call" and e[7] == READ for it in L["iters"] for e in it["events"]):
            continue
        ps = next((x for x, i in L["init"].items() if i == pos0), None)
        cs = next((x for x, i in L["init"].items() if i == cap0), None)
        for it in L["iters"]:
            unit(it["st"], list(it["conds"]) + inv, (ps or pos0, cs or cap0), it["events"],
                 it["next"].get(ps, ps or pos0), it["next"].get(cs, cs or cap0), L["sp"])
    for s, o in outs:
        if o[0] != "ret":
            continue
        start = (pos0, cap0)
        ev = s.events()
        for i, e in enumerate(ev):
            if e[0] == "loop" and e[1]["id"] in loops:
                L = e[1]
                ps = next((x for x, v in L["init"].items() if v == pos0), None)
                cs = next((x for x, v in L["init"].items() if v == cap0), None)
                start = (ps or start[0], cs or start[1])
                ev = ev[i + 1:]
        pos, cap = q.get(I, s, q.pos), q.get(I, s, q.cap)
        if name == "consume":
            amt = ("p", 1)
            good = lsame(cap, cap0) and (lsame(pos, add(pos0, amt)) or
                                         lsame(pos, cap0) and ge(s.conds(), add(pos0, amt), cap0) or
                                         pos[0] == "app" and pos[1] == "min" and add(pos0, amt) in pos[2] and cap0 in pos[2])
            ctx.ob("consume", good, "consuming n bytes moves to %s of %s" % (show(pos), show(cap)), None)
            continue
        u = unit(s, list(s.conds()) + inv, start, ev, pos, cap, None)
        r = variants(I, s, o[1], RESULT) if o[1][0] == "adt" or o[1][0] == "res" else {"Ok"}
        if name == "read":
            tot = None
            if "Err" in r and len(r) == 1:
                ctx.ob("read-error", True, "an error delivers nothing", None)
                continue
            if o[1][0] == "res":
                ctx.ob("read-count", len(u.got) == 1 and getattr(u, "direct", None) == o[1], "the count of the direct read is returned", None)
                continue
            m = payload(I, o[1], "Ok")
            for g in u.got:
                tot = g if tot is None else add(tot, g)
            if tot is None:
                tot = C(0)
            ctx.ob("read-count", g_ok(tot) and lsame(m, tot), "returns %s for %s bytes" % (show(m), show(tot) if tot else "?"), None)
        elif name == "fill_buf":
            if o[1][0] == "adt" and o[1][2] == "Ok":
                x = o[1][3][0]
                sl = part(I.deep(s, x, 1))
                ctx.ob("fill-slice", bool(sl) and lsame(sl[1], pos) and lsame(sl[2], cap) and lsame(u.ucap, cap),
                       "the unread bytes are offered: %s..%s" % ((show(sl[1]), show(sl[2])) if sl else ("?", "?")), None)


def g_ok(x):
    return x is not None


def previewer(ctx, q):
    F = ctx.F
    mk = PV + "::<R>::new"
    get = [p for p in F.bodies if p.startswith(PV) and F.bodies[p].get("self") == F.bodies.get(mk, {}).get("self") and
           F.bodies[p]["kind"] == "fn" and F.bodies[p].get("pub")]
    if mk not in F.bodies:
        raise Undecided("no previewer")
    opq = tuple(p for p in q.methods if F.bodies[p]["argc"] and F.tys[F.bodies[p]["locals"][1]]["k"] == "ref")
    lines = tuple(p for p in F.bodies if p.startswith(PV) and p.endswith("get_lines_from_reader"))
    I, outs = ctx.explore(mk, opaque=opq + lines)
    fi = {f[0]: (i, f[1]) for i, f in enumerate(F.adts[PV]["variants"][0]["fields"])}
    rd = next((n for n, (i, t) in fi.items() if F.tname(t) == BR), None)
    for s, o in outs:
        if o[0] != "ret" or variants(I, s, o[1], RESULT) != {"Ok"}:
            continue
        v = payload(I, o[1], "Ok")
        r = fld_of(I, v, rd)
        if r is None or r[0] not in ("adt", "ov", "post"):
            raise Undecided("reader kept by the previewer")
        pos = fld_of(I, r, q.pos, BR)
        cap = fld_of(I, r, q.cap, BR)
        inner = fld_of(I, r, q.inner, BR)
        ahead = [e for e in s.events() if e[0] == "call" and e[1] in opq]
        ctx.ob("preview-kept", strip(pos) == C(0), "nothing of the preview is consumed: first unread %s" % show(pos), None)
        ctx.ob("preview-kept", cap[0] == "fld" and cap[1][0] == "post" and bool(ahead) and
               (inner == ("p", 0) or inner[0] == "fld" and inner[1] == cap[1]),
               "the filled part is what reading ahead left: %s" % show(cap), None)
        for n, (i, t) in fi.items():
            x = fld_of(I, v, n)
            if n == rd or F.tys[t]["s"].find("[u8]") < 0:
                continue
            sl = [part(y) for y in subterms(x) if part(y)]
            if sl:
                ctx.ob("preview-bytes", sl[0][1] == C(0) and sl[0][2] == cap, "the preview is the filled part: %s..%s" % (show(sl[0][1]), show(sl[0][2])), None)
    for p in get:
        b = F.bodies[p]
        if b["argc"] == 1 and F.tname(b["locals"][0]) == BR:
            J, os_ = ctx.explore(p)
            for s, o in os_:
                if o[0] == "ret":
                    ctx.ob("preview-reader", o[1] == ("fld", ("p", 0), fi[rd][0], rd), "the reader is handed on as it is: %s" % show(o[1]), None)
    cg = ctx.callgraph()
    for p in q.methods:
        pass


def constructors(ctx, q):
    F = ctx.F
    for p in q.methods:
        b = F.bodies[p]
        if b["argc"] and F.tname(b["locals"][0]) == BR:
            I, outs = ctx.explore(p)
            for s, o in outs:
                if o[0] != "ret" or o[1][0] != "adt":
                    continue
                pos, cap = fld_of(I, o[1], q.pos), fld_of(I, o[1], q.cap)
                ctx.ob("start", pos == cap, "a new reader has nothing buffered: %s..%s" % (show(pos), show(cap)), None)
                ctx.ob("start", fld_of(I, o[1], q.inner)[0] == "p", "it wraps the reader it is given", None)


def run(ctx):
    q = Q(ctx)
    for f in [lambda: previewer(ctx, q), lambda: constructors(ctx, q)] + [lambda p=p: check(ctx, q, p) for p in entries(q)]:
        try:
            f()
        except Undecided as e:
            ctx.undecided(str(e))
