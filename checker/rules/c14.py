"""C14: a file in a zip archive is the archive's only entry, read where the directory says and checked."""
import re
from driver_model import *
from lin import lin, lkey

RULE = ("Every path of the zip opener that succeeds is followed with the position of the archive reader as a symbolic value, so each "
        "number read is a field at a known offset of a known record. The records are then compared with the format's layout: end "
        "record found by its signature, locator 20 bytes before it, zip64 record, central header, local header. Required on every "
        "such path: the signatures, one entry, no other disks, no encryption, the data at the local header's end, as many bytes as "
        "the central header (or its zip64 sub-field) says, the decoder of the method named there and its CRC-32 handed to the "
        "checking reader. The walk over the extra field moves by the size of a whole sub-field. The checking reader hashes exactly "
        "the bytes it hands out and lets the end of data through only if the hash is the expected one.")
TECHNIQUE = "path-sensitive MIR traces; symbolic file-position (layout) analysis; loop invariants from per-iteration traces"
LIMITS = "The decoders themselves (flate2, bzip2) and crc32fast are trusted."

OPENER = "decompress::zip::new_reader_for_single_file_zip_archive"
HASH = "crc32fast::Hasher"
READ = "alloc::io::read::Read"
SIG = {"end": 0x06054b50, "loc": 0x07064b50, "z64": 0x06064b50, "central": 0x02014b50, "local": 0x04034b50}
BIG = 0xffffffff


def cname(t):
    """the function a result term comes from"""
    if t[0] == "app" and t[1].startswith("call:"):
        return t[1][5:]
    return t[1] if t[0] == "call" else t[2] if t[0] == "res" else ""


def ftype(F, f):
    return F.tys[f[1]] if f[1] is not None else {"s": "", "k": "param"}


def width(t):
    """bits of the number as it was read or cast, None if unknown"""
    if t[0] == "app" and t[1].startswith("as:"):
        m = re.match(r"as:[ui](\d+)$", t[1])
        return int(m.group(1)) if m else None
    if t[0] == "fld" and t[1][0] == "dc" and t[1][1][0] == "res":
        m = re.search(r"::read_[ui](\d+)$", str(t[1][1][2]))
        return int(m.group(1)) if m else None
    return None


def uncast(t):
    """without the casts that keep every value"""
    while t[0] == "app" and t[1].startswith("as:"):
        a, b = width(t), width(t[2][0])
        if a is not None and b is not None and a < b:
            break
        t = t[2][0]
    return t


def deepcast(t):
    """casts dropped inside sums"""
    t = uncast(t)
    if t[0] == "app" and t[1] in ("+", "-", "*", "neg"):
        return ("app", t[1], tuple(deepcast(x) for x in t[2]))
    return t


def ln(t):
    t = deepcast(t)
    if t[0] == "app" and t[1] == "neg":
        d, c = ln(t[2][0])
        return {k: -v for k, v in d.items()}, -c
    if t[0] == "app" and t[1] in ("+", "-"):
        a, ca = ln(t[2][0])
        b, cb = ln(t[2][1])
        sg = 1 if t[1] == "+" else -1
        d = dict(a)
        for k, v in b.items():
            d[k] = d.get(k, 0) + sg * v
            if not d[k]:
                del d[k]
        return d, ca + sg * cb
    return lin(t)


def padd(a, b):
    d = dict(a[0])
    for k, v in b[0].items():
        d[k] = d.get(k, 0) + v
        if not d[k]:
            del d[k]
    return d, a[1] + b[1]


class Cursor:
    """the position of the reader along a path and what was read where"""

    def __init__(self, I, s, is_reader, kind=None, pos=None):
        self.I, self.s, self.rd = I, s, is_reader
        self.kind, self.pos = kind, pos
        self.reads = {}      # value term -> (kind, atoms, const, width)
        self.at = {}         # (kind, atoms, const) -> (value, width)
        self.where = {}      # value of a position -> (kind, pos)
        self.bad = None
        self.endian = []

    def ok(self, r):
        return "Ok" in variants(self.I, self.s, r, RESULT) and "Err" not in variants(self.I, self.s, r, RESULT)

    def field(self, kind, pos, w):
        v = self.at.get((kind, lkey(pos[0]), pos[1]))
        return v[0] if v and v[1] == w else None

    def resolve(self, kind, p):
        """a position that is given by a sum with a remembered position in it"""
        for k, v in list(p[0].items()):
            if v == 1 and k in self.where and kind == "start":
                k2, p2 = self.where[k]
                d = dict(p[0])
                del d[k]
                return k2, padd((d, p[1]), p2)
        return kind, p

    def step(self, e):
        I = self.I
        if e[0] != "call" or not e[3]:
            return
        me = self.rd(e)
        if not me:
            return
        n = e[1].split("::")[-1]
        if n in ("seek", "stream_position", "rewind"):
            if not self.ok(e[4]):
                return          # failed: the position stays
            if n == "seek":
                a = e[3][1]
                if a[0] != "adt":
                    self.bad = "a seek to " + show(a)[:60]
                    self.pos = None
                    return
                t = ln(a[3][0])
                if a[2] == "Current":
                    if self.pos is None:
                        return
                    self.pos = padd(self.pos, t)
                elif a[2] == "End":
                    self.kind, self.pos = "end", t
                else:
                    self.kind, self.pos = self.resolve("start", t)
            elif n == "rewind":
                self.kind, self.pos = "start", ({}, 0)
            if self.pos is not None:
                self.where[payload(I, e[4], "Ok")] = (self.kind, self.pos)
            return
        w = {"read_u8": 1, "read_u16": 2, "read_u24": 3, "read_u32": 4, "read_u64": 8, "read_i16": 2, "read_i32": 4, "read_i64": 8, "read_i8": 1}.get(n)
        if w:
            v = payload(I, e[4], "Ok")
            if self.pos is not None:
                self.at[(self.kind, lkey(self.pos[0]), self.pos[1])] = (v, w)
                self.reads[v] = (self.kind, self.pos, w)
                self.pos = padd(self.pos, ({}, w))
            if w > 1:
                self.endian.append((any("LittleEndian" in (I.F.tys[x].get("s") or "") for x in e[8]), e[5]))
            return
        if n == "read_exact":
            b = e[3][1]
            while b[0] in ("ref", "slice"):
                if b[0] == "slice":
                    break
                b = I.deep(self.s, b)
                break
            ln_ = b[2] if b[0] == "rep" else None
            if ln_ is None:
                self.bad = "a read of unknown size"
                self.pos = None
            elif self.pos is not None:
                self.pos = padd(self.pos, ln(ln_))
            return
        if n in ("take", "by_ref", "clone"):
            return
        self.bad = "a call of %s on the archive" % n
        self.pos = None


def const(x):
    return ("c", x)


def holds(I, s, v, k):
    return v is not None and entails(I, s, rel({"eq"}, v, const(k)))


def never(I, s, v, k):
    return v is not None and entails(I, s, neg(rel({"eq"}, v, const(k))))


def extra_loop(ctx, I, L, is_reader):
    """the loop over the sub-fields: {loop variable: its role} of the sizes, and the counter; None if not recognised"""
    key = ("extra", L["id"])
    if not hasattr(ctx, "_c14"):
        ctx._c14 = {}
    if key in ctx._c14:
        return ctx._c14[key]
    ctx._c14[key] = None
    init, sp = L["init"], L["sp"]
    if not L["iters"]:
        return None
    ends, plans = [], []
    for it in L["iters"]:
        cur = Cursor(I, it["st"], is_reader, "sub", ({}, 0))
        for e in it["events"]:
            cur.step(e)
        if cur.bad or cur.pos is None:
            ctx.undecided("extra field: %s" % (cur.bad or "position lost"))
            return None
        hid, size = cur.field("sub", ({}, 0), 2), cur.field("sub", ({}, 2), 2)
        if hid is None or size is None:
            ctx.undecided("extra field: a sub-field is not read as an id and a size")
            return None
        for okl, where in cur.endian:
            ctx.ob("layout:little-endian", okl, "numbers are little-endian", where)
        whole = ({size: 1}, 4)
        ctx.ob("extra:whole-sub-field", cur.kind == "sub" and lkey(cur.pos[0]) == lkey(whole[0]) and cur.pos[1] == 4,
               "a round ends at the end of the sub-field it began (%s+%d)" % ([(show(k)[:30], v) for k, v in cur.pos[0].items()], cur.pos[1]), sp)
        plans.append((it, cur, hid, size))
    for x in L["exits"]:
        if x["out"][0] != "exit" or any(e[0] == "call" and "Err" in (variants(I, x["st"], e[4], RESULT) or ()) for e in x["events"]):
            continue
        cur = Cursor(I, x["st"], is_reader, "sub", ({}, 0))
        for e in x["events"]:
            cur.step(e)
        size = cur.field("sub", ({}, 2), 2)
        if size is None or cur.bad or cur.kind != "sub" or cur.pos is None or cur.pos[0]:
            continue
        taken = cur.pos[1] - 4
        mine = set(x["conds"])
        after = [(s, o) for s, o in ctx._c14outs if mine <= set(s.conds())]
        if not after or not all(o[0] == "ret" and variants(I, s, o[1], RESULT) == {"Err"} for s, o in after):
            continue
        ctx.ob("extra:fits", I.assume(x["st"].fork(), rel({"gt", "eq"}, size, const(taken)), True) is False,
               "a sub-field is refused only if it has no room for the sizes taken from it (%d bytes)" % taken, sp)
    # the counter: what the loop goes by
    counter = None
    for v, i in init.items():
        ds = []
        for it, cur, hid, size in plans:
            d = padd(ln(it["next"].get(v, v)), ({v: -1}, 0))
            ds.append((d, size))
        if any(d[0] or d[1] for d, size in ds) and all(all(k == size for k in d[0]) for d, size in ds):
            counter = (v, i, ds)
    if counter is None:
        ctx.undecided("extra field: no count of the bytes passed")
        return None
    v, i, ds = counter
    up = all(d[0].get(size) == 1 for d, size in ds)
    down = all(d[0].get(size) == -1 for d, size in ds)
    if not up and not down:
        ctx.undecided("extra field: the count goes by %s" % show(plans[0][0]["next"].get(v, v))[:60])
        return None
    sg = 1 if up else -1
    ctx.ob("extra:count", all(d[1] == 4 * sg for d, size in ds), "each round counts the sub-field's size and the 4 bytes of its header (%+d)" % ds[0][0][1], sp)
    # the variables that take a 64-bit size
    roles = {}
    for it, cur, hid, size in plans:
        one = entails(I, it["st"], rel({"eq"}, hid, const(1)))
        other = never(I, it["st"], hid, 1)
        for v2 in init:
            if v2 == v:
                continue
            nx = it["next"].get(v2, v2)
            if nx == v2:
                continue
            o = cur.reads.get(uncast(nx))
            if o is None:
                continue
            ctx.ob("extra:id", one, "a size is taken only from the sub-field with id 1", sp)
            ctx.ob("extra:only-if-big", holds(I, it["st"], v2, BIG), "a size is taken from it only in place of 0xffffffff", sp)
            roles.setdefault(v2, set()).add(o[1][1] if not o[1][0] else None)
            ctx.ob("extra:width", o[2] == 8, "the size there has 8 bytes", sp)
    r = {"counter": v, "limit": i if down else None, "up": up, "init": init, "roles": roles, "plans": plans, "sp": sp}
    ctx._c14[key] = r
    return r


def order(ctx, I, X, who):
    """the order of the 64-bit sizes in the sub-field; who: {role: loop variable}"""
    names = ["uncompressed size", "compressed size", "local header offset"]
    vs = [who.get(n) for n in names]
    for it, cur, hid, size in X["plans"]:
        if not entails(I, it["st"], rel({"eq"}, hid, const(1))):
            for n, v in zip(names, vs):
                if v is not None:
                    ctx.ob("extra:%s:kept" % n, it["next"].get(v, v) == v, "%s stays in sub-fields of another id" % n, X["sp"])
            continue
        off = 4
        for n, v in zip(names, vs):
            if v is None:
                continue
            if v not in X["init"]:      # looked at, not kept
                if holds(I, it["st"], v, BIG):
                    off += 8
                elif not never(I, it["st"], v, BIG):
                    ctx.ob("extra:order", not any(o[2] == 8 for o in cur.reads.values()), "the sizes in sub-field 1 are there only for the fields of 0xffffffff, %s first" % n, X["sp"])
                    break
                continue
            big = holds(I, it["st"], v, BIG)
            small = never(I, it["st"], v, BIG)
            nx = it["next"].get(v, v)
            if small:
                ctx.ob("extra:%s:kept" % n, nx == v, "%s stays unless it is 0xffffffff" % n, X["sp"])
            elif big:
                f = cur.field("sub", ({}, off), 8)
                ctx.ob("extra:%s" % n, f is not None and uncast(nx) == f, "%s of 0xffffffff is taken from the next 8 bytes of sub-field 1 (%s)" % (n, show(nx)[:60]), X["sp"])
                off += 8
            else:
                ctx.ob("extra:%s" % n, False, "%s is not looked for in sub-field 1" % n, X["sp"])


def opener(ctx):
    F = ctx.F
    if not F.has_body(OPENER):
        ctx.undecided("no " + OPENER)
        return
    I, outs = ctx.explore(OPENER)
    ctx._c14outs = outs
    checkers = [a for a in F.adts if any(ftype(F, f).get("p") == HASH for v in F.adts[a]["variants"] for f in v["fields"])]

    def is_reader(e):
        return bool(e[3]) and e[3][0] == ("p", 0) and e[1].split("::")[-1] != "take"

    oks = [(s, o) for s, o in outs if o[0] == "ret" and "Ok" in variants(I, s, o[1], RESULT)]
    for s, o in outs:
        if o[0] == "limit":
            ctx.undecided("path limit")
    ctx.ob("open", bool(oks), "%d path(s) that open an archive" % len(oks))
    for s, o in oks:
        one(ctx, I, s, o, is_reader, checkers)
    # a loop that looks for the end record
    loops = {id(e[1]): e[1] for s, o in outs for e in s.events() if e[0] == "loop"}
    sought = {L["id"] for L in loops.values() if search(ctx, I, L, is_reader)}
    for s, o in outs:
        for e in s.events():
            if e[0] == "loop" and e[1]["id"] in sought and not e[1]["iters"]:
                for x in s.events():
                    if x[0] == "call" and x[1].endswith("::seek") and is_reader(x) and x[3][1][0] == "adt" and x[3][1][2] == "End" and x[3][1][3][0] == const(0):
                        fs = payload(I, x[4], "Ok")
                        ctx.ob("search:far-enough", I.assume(s.fork(), rel({"gt"}, fs, const(22 + 65535)), True) is False,
                               "an archive of any size is searched", e[1]["sp"])


def search(ctx, I, L, is_reader):
    """the end record is looked for at every place it can be"""
    sk = [[e for e in it["events"] if e[0] == "call" and e[1].endswith("::seek") and is_reader(e)] for it in L["iters"]]
    if not sk or not all(len(x) == 1 for x in sk) or not all(x[0][3][1][0] == "adt" and x[0][3][1][2] == "End" for x in sk):
        return False
    sp = L["sp"]
    for it, (e,) in zip(L["iters"], sk):
        d, c = ln(e[3][1][3][0])
        vs = [k for k in d if k in L["init"]]
        if len(vs) != 1 or len(d) != 1 or abs(d[vs[0]]) != 1:
            ctx.undecided("search for the end record: seek to %s" % show(e[3][1])[:60])
            return True
        v = vs[0]
        i, n = ln(L["init"][v]), ln(it["next"].get(v, v))
        step = padd(n, ({v: -1}, 0))
        if step[0] or i[0]:
            ctx.undecided("search for the end record: it goes by %s" % show(it["next"].get(v, v))[:60])
            return True
        start = c + d[v] * i[1]
        ctx.ob("search:start", -22 <= start, "the search begins no further than 22 bytes from the end (%d)" % start, sp)
        ctx.ob("search:every-place", d[v] * step[1] == -1, "every place is looked at (%d at a time)" % (d[v] * step[1]), sp)
        ctx.ob("search:goes-on", any(c2[0] == "rel" and c2[2] == const(SIG["end"]) and "eq" not in c2[3] for c2 in it["conds"]) or
               any(never(I, it["st"], payload(I, x[4], "Ok"), SIG["end"]) for x in it["events"] if x[0] == "call" and x[1].endswith("::read_u32")),
               "a place is passed over only if the signature is not there", sp)
        # how far it goes
        for c2 in it["conds"]:
            if c2[0] == "rel" and mentions(c2, lambda t: t == v):
                a, b, st = c2[1], c2[2], c2[3]
                a, b = uncast(a), uncast(b)
                lim = a if b == v else b if a == v else None
                if lim is not None and is_c(lim):
                    st = st if a == v else frozenset({"lt": "gt", "gt": "lt"}.get(x, x) for x in st)
                    far = (22 + 65535 + c) if d[v] < 0 else -(22 + 65535 + c)
                    ctx.ob("search:far-enough", far < lim[1] or far == lim[1] and "eq" in st or st == {"lt", "gt"}, "the search goes back past the longest comment (%s)" % show(lim), sp)
    return True


def one(ctx, I, s, o, is_reader, checkers):
    cur = Cursor(I, s, is_reader, "start", ({}, 0))
    takes, X = [], None
    for e in s.events():
        if e[0] == "loop":
            L = e[1]
            sk = [x for it in L["iters"] for x in it["events"] if x[0] == "call" and is_reader(x) and "read_u" in x[1]]
            ab = [x for it in L["iters"] for x in it["events"] if x[0] == "call" and is_reader(x) and x[1].endswith("::seek") and
                  not (x[3][1][0] == "adt" and x[3][1][2] == "Current")]
            if sk and not ab:
                X = extra_loop(ctx, I, L, is_reader)
                if X is None:
                    ctx.undecided("the loop over the extra field is not recognised")
                    return
                X = dict(X)
                i = X["init"][X["counter"]]
                if X["up"]:
                    lims = {uncast(b) if uncast(a) == X["counter"] else uncast(a) for c in s.conds() if c[0] == "rel" for a, b in [(c[1], c[2])]
                            if X["counter"] in (uncast(a), uncast(b))}
                    lims = {x for x in lims if not is_c(x)}
                    if len(lims) != 1 or i != const(0):
                        ctx.undecided("extra field: the limit of the count is %s" % sorted(map(show, lims)))
                        return
                    X["limit"] = lims.pop()
                else:
                    X["limit"] = uncast(X["limit"])
                X["from"] = (cur.kind, cur.pos)
                if cur.pos is not None:
                    cur.pos = padd(cur.pos, ({X["limit"]: 1}, 0))
            elif ab and any(x[3][1][0] == "adt" and x[3][1][2] != "Current" for x in ab):
                cur.pos = None     # the events after the loop place it again
            elif any(is_reader(x) for it in L["iters"] for x in it["events"] if x[0] == "call"):
                cur.pos = None
            continue
        if e[0] == "call" and e[1].endswith("Read::take") and e[3][0] == ("p", 0):
            takes.append((e, cur.kind, cur.pos))
        cur.step(e)
    for okl, where in cur.endian:
        ctx.ob("layout:little-endian", okl, "numbers are little-endian", where)
    # ---- what is handed out
    r = payload(I, o[1], "Ok")
    r = r[1][0] if r[0] == "tup" else r
    v = I.deep(s, r)
    while v[0] == "box":
        v = v[1]
    v = s.mem.get(v, v) if v[0] == "H" else v
    if decoder(I, s, v):
        ctx.ob("crc:checked", False, "the data are handed out without a check of their CRC")
        return
    if v[0] != "adt":
        ctx.undecided("the reader handed out is %s" % show(v)[:80])
        return
    if v[1] not in checkers:
        ctx.ob("crc:checked", False, "the data are handed out by %s, which has no CRC" % v[1])
        return
    hi, ci, ri = checker_fields(ctx, v[1])
    if ci is None:
        return
    ctx.ob("crc:checked", True, "the data are handed out by the checking reader")
    ctx.ob("crc:fresh", HASH in cname(v[3][hi]) and cname(v[3][hi]).split("::")[-1] in ("new", "default"), "its hash starts empty (%s)" % show(v[3][hi])[:60])
    if len(takes) != 1:
        if not takes:
            ctx.ob("data:limited", False, "the data are not limited to their length in the archive")
        else:
            ctx.undecided("%d limits" % len(takes))
        return
    te, tk, tp = takes[0]
    if tp is None:
        ctx.undecided(cur.bad or "the place of the data is not known")
        return
    wt = te[5]
    # ---- the local header
    if tk != "start":
        ctx.ob("data:place", False, "the data begin at a place counted from the end", wt)
        return
    orig = {}
    for a in tp[0]:
        if tp[0][a] == 1:
            b = a
            if X and a in X["init"]:
                b = uncast(X["init"][a])
            if b in cur.reads:
                orig[a] = b
    offs = [a for a in orig if not any(k == a for k in cur.reads[orig[a]][1][0])]
    # the local header's start is the atom in whose terms the others were read
    base = [a for a in offs if any(cur.reads[orig[b]][0] == "start" and cur.reads[orig[b]][1][0].get(a) == 1 for b in orig if b != a)]
    if len(base) > 1:
        base = [a for a in base if not any(k != a and k in base for k in cur.reads[orig[a]][1][0])]
    if len(base) != 1:
        only = [a for a in tp[0]]
        if len(only) == 1 and only[0] in orig:
            base = only
        else:
            ctx.undecided("the place of the data is %s" % [(show(k)[:40], x) for k, x in tp[0].items()])
            return
    a = base[0]
    loc = ("start", ({a: 1}, 0))

    def lf(off, w):
        return cur.field("start", ({a: 1}, off), w)
    ctx.ob("local:signature", holds(I, s, lf(0, 4), SIG["local"]), "the local header's signature is checked", wt)
    nl, el = lf(26, 2), lf(28, 2)
    want = {a: 1}
    for x in (nl, el):
        if x is not None:
            want[x] = want.get(x, 0) + 1
    ctx.ob("data:place", nl is not None and el is not None and lkey(tp[0]) == lkey(want) and tp[1] == 30,
           "the data begin behind the local header's 30 bytes, its name and its extra field (+%d%s)" %
           (tp[1], "".join(", " + show(k)[:30] for k in tp[0] if k != a)), wt)
    # ---- the central header
    ck, cp, cw = cur.reads[orig[a]]
    cb = dict(cp[0])
    cbase = (cb, cp[1] - 42)

    def cf(off, w):
        return cur.field(ck, (cb, cbase[1] + off), w)
    # the start of the header is where its signature was compared
    sigpos = [(k, c0) for (k, at, c0), (v0, w) in cur.at.items() if k == ck and at == lkey(cb) and w == 4 and holds(I, s, v0, SIG["central"])]
    ctx.ob("central:signature", len(sigpos) == 1, "the central header's signature is checked", wt)
    if len(sigpos) == 1:
        cbase = (cb, sigpos[0][1])
    off42 = cf(42, 4)
    ctx.ob("central:local-offset", off42 is not None and orig[a] == off42, "the local header is where the central header says (byte %d, %d bytes)" % (cp[1] - cbase[1], cw), wt)
    # sizes
    n = deepcast(te[3][1])
    b = uncast(X["init"][n]) if X and n in X["init"] else n
    o2 = cur.reads.get(b)
    if o2 is None:
        ctx.undecided("the length of the data is %s" % show(te[3][1])[:60])
        return
    csz = cf(20, 4)
    ctx.ob("data:length", csz is not None and b == csz, "as many bytes as the central header says (byte %d)" % (o2[1][1] - cbase[1]), wt)
    exl, nal = cf(30, 2), cf(28, 2)
    for what, val, src, end in (("compressed size", n, b, csz), ("local header offset", a, orig[a], off42)):
        if X is None or val not in X["init"]:
            ok = never(I, s, src, BIG) or exl is not None and holds(I, s, exl, 0)
            if X is None and not ok and not any(e[0] == "loop" for e in s.events() if False):
                pass
            ctx.ob("zip64:" + what, ok, "%s of 0xffffffff is replaced by the one in the extra field" % what, wt)
    if X is not None:
        ctx.ob("extra:place", X["from"][0] == ck and X["from"][1] is not None and nal is not None and
               lkey(X["from"][1][0]) == lkey(padd((cb, 0), ({nal: 1}, 0))[0]) and X["from"][1][1] - cbase[1] == 46,
               "the extra field is behind the central header's 46 bytes and the name", X["sp"])
        ctx.ob("extra:length", exl is not None and X["limit"] == exl, "the extra field has the length the header says (%s)" % show(X["limit"])[:40], X["sp"])
        us = cf(24, 4)
        who = {}
        for v2, i2 in X["init"].items():
            i2 = uncast(i2)
            if i2 is not None and i2 in (us, csz, off42):
                who[{us: "uncompressed size", csz: "compressed size", off42: "local header offset"}[i2]] = v2
        who.setdefault("uncompressed size", us)
        order(ctx, I, X, who)
    # method and decoder
    m = cf(10, 2)
    dec = decoder(I, s, v[3][ri])
    if dec is None:
        ctx.undecided("the decoder is %s" % show(v[3][ri])[:80])
    elif m is None:
        ctx.ob("method:field", False, "the method is not read from the central header", wt)
    else:
        ctx.ob("method:%s" % dec, holds(I, s, m, {"stored": 0, "deflate": 8, "bzip2": 12}[dec]), "%s only for an entry of that method" % dec, wt)
        ctx.ob("data:decoded", inside(I, s, v[3][ri], te[4]), "what is decoded is the data of the entry", wt)
    crc = cf(16, 4)
    ctx.ob("crc:expected", crc is not None and uncast(v[3][ci]) == crc, "the CRC expected is the central header's (%s)" % show(v[3][ci])[:40], wt)
    fl = cf(8, 2)
    clear = bit_clear(I, s, fl)
    if clear is None:
        ctx.undecided("the test of the encryption flag")
    else:
        ctx.ob("refuse:encrypted", clear, "an encrypted entry is refused", wt)
    ds = cf(34, 2)
    ctx.ob("refuse:other-disk", all(never(I, s, ds, k) for k in (1, 2, 0xfffe)), "an entry on another disk is refused", wt)
    # ---- the end record
    ends = [(dict(at), c0) for (k, at, c0), (v0, w) in cur.at.items() if k == "end" and w == 4 and holds(I, s, v0, SIG["end"])]
    ctx.ob("end:signature", len(ends) == 1, "the end record is recognised by its signature", wt)
    if len(ends) != 1:
        return
    E = ends[0]

    def ef(off, w):
        return cur.field("end", (E[0], E[1] + off), w)
    # where the central directory is
    if ck != "start" or len(cb) != 1 or cbase[1] != 0:
        ctx.ob("central:place", False, "the central header is read at %s+%d" % ([show(k)[:40] for k in cb], cbase[1]), wt)
        return
    cd = next(iter(cb))
    src = cur.reads.get(cd)
    if src is None:
        ctx.undecided("the central directory is at %s" % show(cd)[:60])
        return
    com = ef(20, 2)
    z64 = None
    lpos = None
    for (k, at, c0), (v0, w) in cur.at.items():
        if k != "end" or w != 4:
            continue
        at = dict(at)
        if lkey(at) == lkey(E[0]) and c0 == E[1] - 20 or com is not None and lkey(at) == lkey({com: -1}) and c0 == -42:
            z64 = v0
            lpos = (at, c0)
    if src[0] == "end":
        ctx.ob("central:place", cd == ef(16, 4), "the central directory is where the end record says (byte %d)" % (src[1][1] - E[1]), wt)
        gone = z64 is None and any(e[0] == "res.test" or e[0] == "call" and e[1].endswith("::seek") and "Err" in variants(I, s, e[4], RESULT) for e in s.events())
        ctx.ob("zip64:locator", z64 is not None and never(I, s, z64, SIG["loc"]) or gone or never(I, s, cd, BIG), "the end record's offset is used only when there is no zip64 locator", wt)
        big = False
    else:
        big = True
        zb = src[1]
        zs = [c0 for (k, at, c0), (v0, w) in cur.at.items() if k == "start" and at == lkey(zb[0]) and w == 4 and holds(I, s, v0, SIG["z64"])]
        ctx.ob("zip64:signature", len(zs) == 1, "the zip64 record is recognised by its signature", wt)
        if len(zs) != 1:
            return
        Z = (zb[0], zs[0])

        def zf(off, w):
            return cur.field("start", (Z[0], Z[1] + off), w)
        ctx.ob("central:place", cd == zf(48, 8), "the central directory is where the zip64 record says (byte %d)" % (src[1][1] - Z[1]), wt)
        ctx.ob("zip64:locator", holds(I, s, z64, SIG["loc"]), "the zip64 locator is recognised by its signature, 20 bytes before the end record", wt)
        if lpos:
            zo = cur.field("end", (lpos[0], lpos[1] + 8), 8)
            ctx.ob("zip64:place", zo is not None and lkey(Z[0]) == lkey({zo: 1}) and Z[1] == 0, "the zip64 record is where the locator says", wt)
            ctx.ob("refuse:disks", holds(I, s, cur.field("end", (lpos[0], lpos[1] + 16), 4), 1) and holds(I, s, cur.field("end", (lpos[0], lpos[1] + 4), 4), 0),
                   "a zip64 archive on several disks is refused", wt)
        ctx.ob("refuse:entries", holds(I, s, zf(24, 8), 1) and holds(I, s, zf(32, 8), 1), "a zip64 archive with another number of entries than one is refused", wt)
        ctx.ob("refuse:disks", holds(I, s, zf(16, 4), 0) and holds(I, s, zf(20, 4), 0), "a zip64 record of several disks is refused", wt)

    def is_(v0, k):
        return holds(I, s, v0, k) or big and holds(I, s, v0, 0xffff)
    ctx.ob("refuse:entries", is_(ef(8, 2), 1) and is_(ef(10, 2), 1), "an archive with another number of entries than one is refused", wt)
    ctx.ob("refuse:disks", is_(ef(4, 2), 0) and is_(ef(6, 2), 0), "an archive on several disks is refused", wt)


def bit_clear(I, s, fl):
    """the path is taken only if the lowest bit of fl is 0; None if that is not known"""
    if fl is None:
        return False
    odd = False
    for c in s.conds():
        if c[0] != "rel" or not mentions(c, lambda t: t == fl):
            continue
        for x in (c[1], c[2]):
            x = uncast(x)
            if x[0] == "app" and len(x[2]) == 2 and x[1] in ("&", "%"):
                y, k = [uncast(z) for z in x[2]]
                if x[1] == "&" and is_c(y):
                    y, k = k, y
                if y == fl and k == const(1 if x[1] == "&" else 2) and (holds(I, s, x, 0) or never(I, s, x, 1)):
                    return True
            elif x != fl and mentions(x, lambda t: t == fl):
                odd = True
    return None if odd else False


def decoder(I, s, t):
    """stored | deflate | bzip2 for a chain of readers over the limited archive"""
    for _ in range(9):
        while t[0] == "box" or t[0] == "H":
            t = t[1] if t[0] == "box" else s.mem.get(t, ("?",))
        n = cname(t)
        if n.endswith("Read::take"):
            return "stored"
        if n.startswith("flate2::") and "DeflateDecoder" in n:
            return "deflate"
        if n.startswith("bzip2::"):
            return "bzip2"
        if "BufReader" in n and t[0] == "app":
            t = t[2][-1]
            continue
        return None


def inside(I, s, t, x):
    """x is somewhere inside t, boxes followed"""
    return mentions(t, lambda y: y == x or y[0] == "H" and y in s.mem and inside(I, s, s.mem[y], x))


def checker_fields(ctx, adt):
    """(hash, expected, reader) field numbers"""
    F = ctx.F
    fs = F.adts[adt]["variants"][0]["fields"]
    h = [i for i, f in enumerate(fs) if ftype(F, f).get("p") == HASH]
    c = [i for i, f in enumerate(fs) if ftype(F, f)["s"] in ("u32", "u64")]
    r = [i for i, f in enumerate(fs) if i not in h and i not in c and ftype(F, f)["k"] in ("param", "adt", "dyn")]
    if len(h) != 1 or len(r) != 1 or not c:
        ctx.undecided("fields of " + adt)
        return None, None, None
    if len(c) > 1:
        # the one the end-of-data test compares with
        p = ctx.impl_method(READ, "read", adt)
        I, outs = ctx.explore(p)
        used = {i for s, o in outs for cd in s.conds() if mentions(cd, lambda t: HASH in cname(t)) for i in c
                if mentions(cd, lambda t: t[0] == "fld" and t[2] == i)}
        c = sorted(used)
        if len(c) != 1:
            ctx.undecided("expected CRC of " + adt)
            return None, None, None
    return h[0], c[0], r[0]


def reader(ctx):
    """the checking reader"""
    F = ctx.F
    n = 0
    for t, m, p in F.impls_of(READ, "read"):
        adt = t.get("p")
        if adt not in F.adts or not any(ftype(F, f).get("p") == HASH for v in F.adts[adt]["variants"] for f in v["fields"]):
            continue
        n += 1
        hi, ci, ri = checker_fields(ctx, adt)
        if hi is None:
            continue
        me = ("deref", ("p", 0))
        I, outs = ctx.explore(p)

        def fref(x, i):
            return x[0] == "ref" and x[1] == ("D", ("p", 0)) and x[2] and x[2][0][1] == i
        for s, o in outs:
            if o[0] == "ret" and variants(I, s, o[1], RESULT) == {"Err"}:
                rd = [e for e in all_events(s.events()) if e[0] == "call" and e[7].endswith("Read::read") and fref(e[2][0], ri)]
                if len(rd) == 1 and variants(I, s, rd[0][4], RESULT) == {"Ok"}:
                    k = payload(I, rd[0][4], "Ok")
                    ctx.ob("reader:fails-at-end", holds(I, s, k, 0), "the hash is looked at only at the end of the data")
            if o[0] != "ret" or "Ok" not in variants(I, s, o[1], RESULT):
                continue
            ev = list(all_events(s.events()))
            inner = [e for e in ev if e[0] == "call" and e[7].endswith("Read::read") and fref(e[2][0], ri)]
            if len(inner) != 1:
                if not ev:
                    ctx.ob("reader:read", False, "data are made up")
                else:
                    ctx.undecided("the checking reader reads %d times" % len(inner))
                continue
            r = inner[0]
            k = payload(I, r[4], "Ok")
            got = payload(I, o[1], "Ok")
            ctx.ob("reader:same-bytes", r[2][1] == ("p", 1), "the caller's buffer is filled")
            ctx.ob("reader:same-count", uncast(got) == k or entails(I, s, rel({"eq"}, got, k)), "as many bytes are reported as were read (%s)" % show(got)[:60])
            upd = [e for e in ev if e[0] == "call" and e[1].startswith(HASH) and e[1].endswith("::update") and fref(e[2][0], hi)]
            fin = [e for e in ev if e[0] == "call" and (e[1].endswith("::finish") or e[1].endswith("::finalize"))]
            for e in ev:
                if e[0] == "call" and "crc32fast" in e[1] and e not in upd and e not in fin and not e[1].endswith("::clone"):
                    ctx.undecided("the checking reader calls " + e[1])
            empty = any(c[0] == "rel" and mentions(c, lambda t: t[0] == "app" and t[1] == "len") and
                        any(entails(I, s, rel({"eq"}, x, const(0))) for x in (c[1], c[2]) if x[0] == "app" and x[1] == "len") for c in s.conds())
            if not never(I, s, k, 0) and not empty:
                ok = False
                for e in fin:
                    h = e[4]
                    exp = ("fld", me, ci, F.adts[adt]["variants"][0]["fields"][ci][0])
                    same = mentions(I.deep(s, e[2][0]) if e[2] else (), lambda t: t == ("fld", me, hi, F.adts[adt]["variants"][0]["fields"][hi][0])) or \
                        any(fref(x, hi) for x in e[2]) or any(mentions(x, lambda t: t[0] == "fld" and t[1] == me and t[2] == hi) for x in e[3])
                    for a2 in (h, ("app", "as:u32", (h,)), ("app", "as:u64", (h,))):
                        for b2 in (exp, ("app", "as:u64", (exp,))):
                            ok = ok or same and entails(I, s, rel({"eq"}, a2, b2))
                ctx.ob("reader:end", ok, "the end of the data is reported only if the hash is the one expected")
            if not holds(I, s, k, 0):
                good = len(upd) == 1
                if good:
                    x = upd[0][3][1]
                    if x[0] == "fld" and x[2] == 0 and cname(x[1]).endswith("::split_at"):
                        x = ("slice", x[1][2][0], const(0), x[1][2][1])
                    sl = x[2] if x[0] == "app" and x[1] == "slice" else x[1:] if x[0] == "slice" else None
                    good = sl is not None and sl[1] == const(0) and uncast(sl[2]) == k and mentions(sl[0], lambda t: t[0] == "post" or t == ("p", 1))
                    if sl is None and x[0] not in ("post", "p"):
                        ctx.undecided("what is hashed is %s" % show(x)[:80])
                        continue
                ctx.ob("reader:hashed", good, "exactly the bytes handed out are hashed, once (%d)" % len(upd), upd[0][5] if upd else None)
                if upd:
                    ctx.ob("reader:after", ev.index(upd[0]) > ev.index(r), "they are hashed once they are there")
    ctx.ob("reader", n > 0, "%d checking reader(s)" % n)


def run(ctx):
    opener(ctx)
    reader(ctx)
