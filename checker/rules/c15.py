"""C15: compressed input is read whole, by the decoder its name or content asks for."""
from driver_model import *

RULE = ("The paths of the name test are explored: a result names the format whose ending the path found and gives back the name without "
        "exactly that ending, and no result only behind a look at all endings. The content test is decided on byte constraints: the "
        "conditions of every path are translated to known and excluded bytes of the preview, a result needs all bytes of that format's "
        "magic number and no result needs all magic numbers excluded. Every format's decoder gets the previewer's whole reader; one that "
        "stops behind the first member or frame is a violation. The readers written here to go on to further frames are explored too: no "
        "byte count that may be zero is returned before the wrapped reader was seen to be at its end, the frame before was used up and "
        "its checksum compared, and the next frame starts with the byte that was looked at. On every path that creates a source, "
        "the reader is decoded as the name test (or else the content test) said, once, or not at all.")
TECHNIQUE = "path-sensitive MIR dataflow with byte-level constraint entailment (decoder selection, end-of-input typestate)"
LIMITS = ("That the decoders of the libraries used (flate2, lz-fear, paku, ruzstd) decode correctly and read all blocks of a frame is not "
          "decided here.")

READ = "alloc::io::read::Read"
MOD = "decompress::decompress"
FMT = MOD + "::DecompressionFormat"
PREV = "util::reader::ChopperBufPreviewer"
ENDINGS = {"GZ": ".gz", "LZ4": ".lz4", "LZF": ".lzf", "ZIP": ".zip", "ZST": ".zst"}
MAGIC = {"GZ": [b"\x1f\x8b\x08"], "LZ4": [b"\x04\x22\x4d\x18", b"LZ4Block"], "LZF": [b"ZV\0", b"ZV\1"],
         "ZIP": [b"PK\3\4"], "ZST": [b"\x28\xb5\x2f\xfd"]}


def tyname(F, t):
    x = F.tys[F.strip_ty(t)]
    return x.get("p") or x.get("s", "")


def fn_by(F, pred):
    return [p for p, b in F.bodies.items() if "{closure" not in p and pred(p, b)]


def roles(ctx):
    F = ctx.F

    def ret(b):
        return F.tys[b["locals"][0]]["s"]

    def params(b):
        return [tyname(F, t) for t in b["locals"][1:b["argc"] + 1]]
    r = {}
    short = FMT.split("::")[-1]
    r["name"] = fn_by(F, lambda p, b: "Option<(" in ret(b) and short in ret(b) and b["argc"] == 1)
    r["content"] = fn_by(F, lambda p, b: ret(b).startswith(("Option<", "std::option::Option<", "core::option::Option<")) and short in ret(b) and
                         "(" not in ret(b) and params(b) == [PREV])
    r["decode"] = fn_by(F, lambda p, b: FMT in params(b) and PREV in params(b) and "dyn" in ret(b) and "Read" in ret(b) and PREV.split("::")[-1] not in ret(b))
    return r


# ---------------------------------------------------------------- A: the name
def name_test(ctx, p):
    I, outs = ctx.explore(p)
    x = ("deref", ("p", 0))
    for s, o in outs:
        if o[0] != "ret":
            continue
        v = o[1]
        for var in sorted(variants(I, s, v, OPTION)):
            if var == "None":
                for f, e in ENDINGS.items():
                    ctx.ob("name:%s-missed" % f.lower(), entails(I, s, neg(app("ends_with", x, ("s", e)))),
                           "an input is taken to be uncompressed only if its name does not end in %s" % e)
                continue
            f, rest = I.rd_proj(payload(I, v), ("f", 0, "0")), I.rd_proj(payload(I, v), ("f", 1, "1"))
            for fv in sorted(variants(I, s, f, FMT)):
                e = ENDINGS.get(fv)
                if e is None:
                    ctx.ob("name:format", False, "unknown format %s" % fv)
                    continue
                ctx.ob("name:%s" % fv.lower(), entails(I, s, app("ends_with", x, ("s", e))), "%s only for names that end in %s" % (fv, e))
                ok = rest == app("slice", x, C(0), sub(I.len_of(x), C(len(e))))
                ctx.ob("name:%s-rest" % fv.lower(), ok, "%s is taken off the name, and nothing else (%s)" % (e, show(rest)[:80]))


# ---------------------------------------------------------------- B: the content
def byte_conds(ctx, I, s, buf):
    """(known bytes {offset: value}, [excluded conjunctions {offset: value}], shorter than, opaque conditions)"""
    pos, negs, short, bad = {}, [], None, []
    ints = {}
    off = {}
    calls_on = {}
    for e in s.events():
        if e[0] != "call":
            continue
        m = {"u16": 2, "u24": 3, "u32": 4, "u64": 8, "u8": 1}.get(e[1].split("::read_")[-1]) if "::read_" in e[1] else None
        key = e[2][0]
        if m is not None and (mentions(e[3][0], lambda t: t == buf) or key in off and e[3][0][0] == "post" and e[3][0][1] in calls_on[key]):
            calls_on.setdefault(key, set()).add(e[4][1])
            o = off.get(key, 0)
            order = "le" if any("Little" in ctx.F.tys[t]["s"] for t in e[8]) else "be"
            if o is not None:
                ints[payload(I, e[4], "Ok")] = (o, m, order)
                ints[e[4]] = (o, m, order)
                off[key] = o + m

    def const(c):
        if c[0] == "y":
            return bytes(c[1])
        if c[0] == "s":
            return c[1].encode()
        if c[0] == "seq" and all(x[0] == "c" for x in c[1]):
            return bytes(x[1] for x in c[1])
        return None

    def is_buf(t):
        while t[0] in ("deref", "ref"):
            t = t[1]
        return t == buf or t == ("deref", buf)

    def decode(a, b):
        """{offset: byte} that a == b stands for, or None"""
        if b[0] != "c" and const(b) is None:
            a, b = b, a
        if b[0] == "c":
            mask = None
            sh = 0
            if a[0] == "app" and a[1] == "|" and any(x[0] == "c" and x[1] & ~b[1] for x in a[2]):
                return "never"      # a bit is set that the other side has not
            while a[0] == "app" and a[1] in ("&", ">>"):
                x, y = a[2]
                if x[0] == "c":
                    x, y = y, x
                if y[0] != "c":
                    return None
                if a[1] == "&":
                    mk = y[1] << sh
                    mask = mk if mask is None else mask & mk
                else:
                    sh += y[1]
                a = x
            val = b[1] << sh
            if a in ints:
                o, m, order = ints[a]
                full = (1 << 8 * m) - 1
                mask = full if mask is None else mask & full
                mask &= full ^ ((1 << sh) - 1)
                r = {}
                for j in range(m):
                    k = 8 * ((m - 1 - j) if order == "be" else j)
                    mb = mask >> k & 255
                    if mb == 255:
                        r[o + j] = val >> k & 255
                    elif mb:
                        return None
                return r
            if a[0] == "sel" and is_buf(a[1]) and a[2][0] == "c" and mask is None and not sh:
                return {a[2][1]: b[1]}
            return None
        w = const(b)
        if w is None:
            return None
        if a[0] == "app" and a[1] == "slice" and is_buf(a[2][0]) and a[2][1][0] == "c" and a[2][2] == C(a[2][1][1] + len(w)):
            return {a[2][1][1] + i: x for i, x in enumerate(w)}
        return None

    for c in s.conds():
        n = False
        while c[0] == "not":
            n, c = not n, c[1]
        if c[0] == "app" and c[1] == "starts_with" and is_buf(c[2][0]) and const(c[2][1]) is not None:
            d = dict(enumerate(const(c[2][1])))
            if n:
                negs.append(d)
            else:
                pos.update(d)
            continue
        if c[0] == "rel":
            if c[1][0] == "discr" and c[1][1] in ints:
                if "eq" not in c[3] and c[2] == C(0) or c[2] == C(1) and c[3] == frozenset({"eq"}):
                    o, m, _ = ints[c[1][1]]
                    short = o + m if short is None else min(short, o + m)
                continue
            if any(is_len(t, is_buf) for t in (c[1], c[2])):
                l, k = (c[1], c[2]) if is_len(c[1], is_buf) else (c[2], c[1])
                if k[0] == "c" and l is c[1] and not n:
                    if c[3] <= {"lt", "un"} and "lt" in c[3]:
                        short = k[1] if short is None else min(short, k[1])
                    elif c[3] <= {"lt", "eq", "un"} and "gt" not in c[3]:
                        short = k[1] + 1 if short is None else min(short, k[1] + 1)
                continue
            eq = c[3] == frozenset({"eq"})
            ne = "eq" not in c[3] and {"lt", "gt"} <= c[3]
            a, k = (c[1], c[2]) if c[1] in ints else (c[2], c[1])
            if a in ints and k[0] == "c" and not (eq or ne):
                # an order condition: a range for the number read
                o, m, order = ints[a]
                lo, hi, _ = I.rng(s, a)
                if lo == hi:
                    pos.update(decode(a, C(lo)))
                else:
                    negs.append(("range", o, m, order, lo, hi))
                continue
            d = decode(c[1], c[2]) if eq or ne else None
            if d is None:
                if mentions(c, lambda t: t in ints or t == buf):
                    bad.append(c)
                continue
            if d == "never":
                if eq != n:
                    return None
                continue
            if eq != n:
                pos.update(d)
            else:
                negs.append(d)
            continue
        if mentions(c, lambda t: t in ints or t == buf):
            bad.append(c)
    return pos, negs, short, bad


def excluded(negs, w):
    """content that starts with the bytes w meets one of the conditions excluded"""
    for d in negs:
        if isinstance(d, tuple):
            _, o, m, order, lo, hi = d
            if all(o + j in w for j in range(m)):
                x = int.from_bytes(bytes(w[o + j] for j in range(m)), "little" if order == "le" else "big")
                if not lo <= x <= hi:
                    return True
        elif all(w.get(k) == v for k, v in d.items()):
            return True
    return False


def is_len(t, is_buf):
    return t[0] == "app" and t[1] == "len" and is_buf(t[2][0])


def content_test(ctx, p):
    I, outs = ctx.explore(p)
    i = ctx.F.field_index(PREV, "trimmed_buf")
    buf = ("fld", ("deref", ("p", 0)), i, "trimmed_buf")
    if i is None:
        ctx.undecided("the preview is not in a field of its own")
        return
    for s, o in outs:
        if o[0] != "ret":
            continue
        known = byte_conds(ctx, I, s, buf)
        if known is None:
            continue        # a path that no content takes
        pos, negs, short, bad = known
        if bad:
            ctx.undecided("content test: condition %s" % show(bad[0])[:100])
            continue
        for var in sorted(variants(I, s, o[1], OPTION)):
            if var == "None":
                for f, ms in MAGIC.items():
                    for m in ms:
                        w = dict(enumerate(m))
                        ok = short is not None and (short <= len(m) or short <= 4) or any(w.get(k, v) != v for k, v in pos.items()) or \
                            excluded(negs, w)
                        ok = ok or short is not None and short <= 8 and len(m) == 8
                        ctx.ob("content:%s-missed" % f.lower(), ok, "content that starts with %s is not taken to be uncompressed" % m.hex())
                continue
            for fv in sorted(variants(I, s, payload(I, o[1]), FMT)):
                ok = any(all(pos.get(k) == v for k, v in enumerate(m)) for m in MAGIC.get(fv, ()))
                ctx.ob("content:%s" % fv.lower(), ok, "%s only for content that starts with its magic number (known: %s)" %
                       (fv, " ".join("%d:%02x" % kv for kv in sorted(pos.items()))))


# ---------------------------------------------------------------- the decoders
def decoder_table(ctx, p):
    """format -> decoder; returns the local reader types used"""
    F = ctx.F
    I, outs = ctx.explore(p)
    b = F.body(p)
    pn = [tyname(F, t) for t in b["locals"][1:b["argc"] + 1]]
    fmt, prev = ("p", pn.index(FMT)), ("p", pn.index(PREV))
    ri = F.field_index(PREV, "reader")
    whole = {("fld", prev, ri, "reader")}
    used = {}
    for s, o in outs:
        if o[0] != "ret" or "Ok" not in variants(I, s, o[1], RESULT):
            continue
        d = I.deep(s, payload(I, o[1], "Ok"))
        while d[0] in ("box", "deref"):
            d = d[1]
        for f in sorted(variants(I, s, fmt, FMT)):
            k = "decode:%s" % f.lower()
            fed = any(t in whole for t in subterms(d))
            ctx.ob(k + "-reader", fed, "the decoder gets the whole input, from its first byte (%s)" % show(d)[:80])
            local = [t for t in subterms(d) if t[0] == "adt" and F.impls_of(READ, "read") and ctx.impl_method(READ, "read", t[1]) and d == t]
            name = d[1] if d[0] == "app" else ""
            if f == "GZ":
                if "flate2::gz" not in name:
                    ctx.ob(k, not any(x in show(d) for x in ("lz_fear", "paku", "ruzstd", "DeflateDecoder", "ZlibDecoder")), "gz is decoded by %s" % show(d)[:80])
                    if not local:
                        ctx.undecided("gz: decoder %s" % show(d)[:80])
                        continue
                ctx.ob(k, bool(local) or "MultiGzDecoder" in name, "gz: a decoder for all members of the input (%s)" % name.replace("call:", ""))
            elif f == "LZF":
                ctx.ob(k, "paku::lzf" in show(d), "lzf is decoded by %s" % show(d)[:80])
            elif f == "ZIP":
                ctx.ob(k, False, "a zip archive cannot be decoded from a stream")
            elif f == "ZST":
                ctx.ob(k, "ruzstd" in show(d), "zst is decoded by %s" % show(d)[:80])
                if d[0] == "app" and "ruzstd" in d[1]:
                    ctx.ob(k + "-frames", False, "zst: a decoder for one frame only")
            elif f == "LZ4":
                blk = jblock(I, s, prev, F)
                if blk is None:
                    ctx.undecided("lz4: cannot tell which of the lz4 formats a path is for (%s)" % [c for c in s.conds()][-2:])
                elif blk:
                    ctx.ob(k + "-block", "lz4_jblock" in show(d), "lz4 blocks are decoded by %s" % show(d)[:80])
                    if "lz4_jblock" in name:
                        a = d[2]
                        ctx.ob(k + "-block-all", len(a) < 2 or a[1] == FALSE, "lz4: an empty block does not end the input")
                else:
                    ctx.ob(k + "-frame", "lz_fear" in show(d), "lz4 frames are decoded by %s" % show(d)[:80])
                    if d[0] == "app":
                        ctx.ob(k + "-frames", False, "lz4: a decoder for one frame only (%s)" % d[1].replace("call:", ""))
            for t in local:
                used.setdefault(t[1], set()).add(f)
                made(ctx, f, t, whole)
    return used


def jblock(I, s, prev, F):
    i = F.field_index(PREV, "trimmed_buf")
    buf = ("fld", prev, i, "trimmed_buf")
    w = ("y", b"LZ4Block")
    for b in (buf, ("deref", buf)):
        c = rel("Eq", app("slice", b, C(0), C(8)), w)
        for c in (c, app("starts_with", b, w), rel("Eq", app("slice", b, C(0), C(8)), ("deref", w))):
            if entails(I, s, c):
                return True
            if entails(I, s, neg(c)):
                return False
        if entails(I, s, rel("Lt", I.len_of(b), C(8))):
            return False
    return None


def made(ctx, f, t, whole):
    """a reader made from parts: the frame decoder in it reads from the reader in it"""
    cells = [x for x in subterms(t) if x[0] == "app" and "RefCell" in x[1] and x[1].endswith("::new")]
    if cells:
        ctx.ob("decode:%s-shared" % f.lower(), len(set(cells)) == 1, "the frame decoder and the search for further frames share one reader")
        c = cells[0][2][0]
        if c[0] == "tup":
            ctx.ob("decode:%s-shared" % f.lower(), all(x in whole or x == ("seq", ()) for x in c[1]), "nothing but the input is read (%s)" % show(c)[:60])


# ---------------------------------------------------------------- D: frame after frame
def from_self(t):
    """the value comes out of *self"""
    return mentions(t, lambda x: x == ("deref", ("p", 0)) or x[0] == "lv" and x[1:] and "('p', 0)" in str(x))


def frames(ctx, ty, fs):
    F = ctx.F
    p = ctx.impl_method(READ, "read", ty)
    key = ty.split("::")[-1].split("<")[0].lower()
    I, outs = ctx.explore(p)
    buf0 = ("deref", ("p", 1))
    loops = {}
    for s, o in outs:
        collect_loops(s.events(), loops)

    def decoder_reads(events):
        return [e for e in events if e[0] == "call" and e[7] == READ + "::read" and len(e[2]) > 1 and e[2][1] == ("p", 1)]
    main = [L for L in loops.values() if any(decoder_reads(it["events"]) for it in L["iters"])]
    if len(main) > 1:
        ctx.undecided("%s: more than one loop reads frames" % ty)
        return
    main = main[0]["id"] if main else None
    segs = []
    for s, o in outs:
        if o[0] != "ret":
            continue
        ev = list(s.events())
        for i, e in enumerate(ev):
            if e[0] == "loop" and e[1]["id"] == main:
                if decoder_reads(ev[:i]):
                    ctx.undecided("%s: the first frame is read ahead of the loop" % ty)
                    return
                ev = ev[i + 1:]
                break
        segs.append(("ret", s, ev, o[1]))
    if main is not None:
        for it in loops[main]["iters"]:
            segs.append(("next", it["st"], it["events"], it["next"]))
    n = {"more": 0, "next": 0, "end": 0}
    for kind, s, ev, v in segs:
        dr = decoder_reads(ev)
        if kind == "ret":
            vs = variants(I, s, v, RESULT)
            if vs == {"Err"} or v[0] == "adt" and v[2] == "Err":
                if v[0] == "adt" and not any(t[0] == "dc" and t[2] == "Err" for t in subterms(v)):
                    ctx.ob(key + ":refusal", checksum(I, s, ev) == "differs", "the input is refused only for a checksum that differs or an error below")
                continue
        if not dr:
            ctx.undecided("%s: a path that does not read from the frame decoder" % key)
            continue
        d = dr[-1]
        got = payload(I, d[4], "Ok")
        if kind == "ret":
            x = payload(I, v, "Ok")
            now = I.deref(s, ("p", 1))
            none_asked = any(entails(I, s, rel("Eq", I.len_of(b), C(0))) for b in (buf0, now, ("p", 1)))
            if x == got and (entails(I, s, rel("Gt", got, C(0))) or entails(I, s, rel("Ne", got, C(0)))):
                n["more"] += 1
                ctx.ob(key + ":count", True, "what was read is what is returned")
                continue
            if none_asked and (x == got or x == C(0)):
                continue
            pr = probe(I, s, ev, d)
            empty = x == C(0) or entails(I, s, rel("Eq", x, C(0)))
            n["end"] += 1
            ok = pr is not None and pr[0]
            ctx.ob(key + ":end", ok, "the content ends only where the input does" + ("" if ok else " (%s is returned, and may be 0, without a look for further input)" % show(x)[:60]))
            ctx.ob(key + ":count", empty or x == got, "what was read is what is returned (%s)" % show(x)[:60])
            spent(ctx, key, I, s, ev, d, got, buf0)
            continue
        n["next"] += 1
        spent(ctx, key, I, s, ev, d, got, buf0)
        pr = probe(I, s, ev, d)
        ctx.ob(key + ":next", pr is not None and pr[1], "a next frame is begun only if there is more input")
        if pr is None:
            continue
        src = source(F, I, s, ev, d, v, loops[main], pr)
        ctx.ob(key + ":next-begin", src is not None, "the next frame is begun on what follows the frame before, including the byte looked at")
    ctx.ob(key, n["more"] > 0 and n["end"] > 0, "%d path(s) that return content, %d that find its end" % (n["more"], n["end"]))
    ctx.ob(key + ":frames", n["next"] > 0, "%d path(s) that go on to a next frame" % n["next"])


def checksum(I, s, ev):
    """'none' / 'same' / 'differs' / None (not compared)"""
    a = [e for e in ev if e[0] == "call" and "get_checksum_from_data" in e[1]]
    b = [e for e in ev if e[0] == "call" and "get_calculated_checksum" in e[1]]
    for x in a:
        if is_none(I, s, x[4]):
            return "none"
        for y in b:
            if is_some(I, s, x[4]) and is_none(I, s, y[4]):
                return "differs"
            for p, q in ((x[4], y[4]), (payload(I, x[4]), payload(I, y[4]))):
                if entails(I, s, rel("Eq", p, q)):
                    return "same"
                if entails(I, s, rel("Ne", p, q)):
                    return "differs"
    return None


def spent(ctx, key, I, s, ev, d, got, buf0):
    """the frame is used up"""
    ctx.ob(key + ":frame-used-up", entails(I, s, rel("Eq", got, C(0))), "a frame is left only when it gives nothing more")
    if "ruzstd" not in d[1]:
        return
    # whether ruzstd has anything more
    upto = []
    for e in ev:
        if e is d:
            break
        upto.append(e)
    last = max([i for i, e in enumerate(upto) if e[0] == "call" and "decode_blocks" in e[1] or
                e[0] == "loop" and any("decode_blocks" in x[1] for x in all_events([e]) if x[0] == "call")] or [-1])
    tail = upto[last + 1:]
    ok = any(e[0] == "call" and e[1].endswith("::is_finished") and entails(I, s, e[4]) for e in tail)
    ok = ok or any(e[0] == "call" and e[1].endswith("::can_collect") and entails(I, s, rel("Gt", e[4], C(0))) for e in tail)
    ok = ok or any(e[0] == "call" and e[1].endswith("::can_collect") and
                   any(entails(I, s, rel("Ge", e[4], I.len_of(b))) for b in bufs(s, buf0, d)) for e in tail)
    ctx.ob(key + ":decoded", ok, "a frame gives nothing only when it is decoded to its end")
    i = ev.index(d)
    c = checksum(I, s, ev[i:])
    # the decoder forgets the checksums when it starts on another frame
    j = next((k for k, e in enumerate(ev) if e[0] == "call" and "FrameDecoder::init" in e[1] or e[0] == "call" and "FrameDecoder::reset" in e[1]), len(ev))
    k = [x for x, e in enumerate(ev) if e[0] == "call" and ("get_checksum_from_data" in e[1] or "get_calculated_checksum" in e[1])]
    ctx.ob(key + ":checksum", c in ("none", "same") and all(x < j for x in k), "the frame's content has the checksum that the frame gives, if any")


def bufs(s, buf0, d):
    out = [buf0, ("p", 1), d[3][1]]
    for c in s.conds():
        for t in subterms(c):
            if t[0] == "app" and t[1] == "len" and mentions(t, lambda x: x == ("p", 1) or x[0] == "lv" and "('p', 1)" in str(x)):
                out.append(t[2][0])
    return out


def probe(I, s, ev, d):
    """a look for further input behind event d: (at end, not at end, event, buffer before, buffer after)"""
    i = ev.index(d)
    for e in ev[i + 1:]:
        if e[0] != "call":
            continue
        m = e[7].split("::")[-1]
        if e[7].startswith(READ) and m in ("read_to_end", "read") and e[2][1] != ("p", 1) or m == "fill_buf":
            n = payload(I, e[4], "Ok")
            if not any(from_self(I.deep(s, x)) or made_of_self(ev, x) for x in (e[3][0],)):
                continue
            if m == "read" and not nonempty(I, s, e[3][1]):
                continue
            if not took_one(ev, e):
                continue
            at_end = m == "fill_buf" and entails(I, s, rel("Eq", I.len_of(n), C(0))) or m != "fill_buf" and entails(I, s, rel("Eq", n, C(0)))
            more = m == "fill_buf" and entails(I, s, rel("Ne", I.len_of(n), C(0))) or m != "fill_buf" and entails(I, s, rel("Ne", n, C(0)))
            post = ("post", e[4][1], 1, e[1]) if e[4][0] == "res" else None
            if post is not None and m == "read_to_end":
                at_end = at_end or entails(I, s, rel("Eq", I.len_of(post), C(0)))
                more = more or entails(I, s, rel("Ne", I.len_of(post), C(0)))
            return at_end, more, e, e[3][1] if len(e[3]) > 1 else None, post
    return None


def made_of_self(ev, t):
    """t is the result of a call (by_ref, take, ..) on something out of self"""
    for e in ev:
        if e[0] == "call" and e[4] == t and e[2]:
            return from_self(e[3][0]) or made_of_self(ev, e[3][0])
    return False


def took_one(ev, e):
    t = e[3][0]
    for x in ev:
        if x[0] == "call" and x[4] == t and x[7].endswith("::take"):
            return x[2][1][0] == "c" and x[2][1][1] >= 1
    return True


def nonempty(I, s, b):
    return entails(I, s, rel("Gt", I.len_of(b), C(0)))


def source(F, I, s, ev, d, nxt, L, pr):
    """the next frame's decoder is made: on the byte looked at, followed by the rest"""
    i = ev.index(pr[2])
    for e in ev[i + 1:]:
        if e[0] != "call" or not (e[1].endswith("::init") or e[1].endswith("::reset")) or e[2][0] != d[2][0]:
            continue
        if "Ok" not in variants(I, s, e[4], RESULT) or len(variants(I, s, e[4], RESULT)) != 1:
            continue
        src = e[3][1]
        ch = next((x for x in ev if x[0] == "call" and x[4] == src and x[7].endswith("::chain")), None)
        if pr[2][7].endswith("fill_buf"):
            return e if from_self(src) else None
        if ch is None:
            return None
        a, b = ch[3]
        if pr[4] is not None and mentions(a, lambda t: t == pr[4]) and from_self(b) and e[2][0][1:] != ch[2][1][1:]:
            return e
        return None
    # a decoder made anew over the shared reader
    for k, w in nxt.items():
        if k[0] == "lv" and w != k and w[0] == "app" and ("into_read" in w[1] or w[1].endswith("::new")):
            inner = [t for t in subterms(w) if t[0] == "fld" and t[1] == ("deref", ("p", 0))]
            made_ok = all(variants(I, s, t[1], RESULT) == {"Ok"} for t in subterms(w) if t[0] == "dc" and t[2] == "Ok")
            cell = pr[2][3][1]
            shared = [t for t in inner if mentions(cell, lambda x: x == t) or mentions(pr[2][3][0], lambda x: x == t)] or \
                [t for t in inner if any(x[0] == "call" and "borrow" in x[1] and mentions(x[3][0], lambda y: y == t) for x in ev)]
            if shared and made_ok:
                return k
    return None


def handed_back(ctx, ty):
    """a reader that gives the bytes looked at first, then the rest"""
    p = ctx.impl_method(READ, "read", ty)
    I, outs = ctx.explore(p)
    key = ty.split("::")[-1].lower()
    n = 0
    for s, o in outs:
        if o[0] != "ret" or variants(I, s, o[1], RESULT) == {"Err"}:
            continue
        first = None
        for e in s.events():
            if e[0] == "call" and "borrow_mut" in e[1]:
                first = ("fld", e[4], 0, "0")
        if first is None:
            ctx.undecided("%s: the bytes looked at are not kept in a cell" % ty)
            return
        rm = [e for e in s.events() if e[0] == "vec.remove" and e[2] == first]
        rd = [e for e in s.events() if e[0] == "call" and e[7] == READ + "::read"]
        if rm:
            n += 1
            now = I.deref(s, ("p", 1))
            ok = payload(I, o[1], "Ok") == C(1) and now[0] == "store" and now[2] == C(0) and now[3] == rm[0][4] and rm[0][3] == C(0) and not rd
            ctx.ob(key + ":looked-at-first", ok, "the byte looked at is given first (%s)" % show(now)[:60])
        elif len(rd) == 1 and o[1] == rd[0][4]:
            ok = rd[0][2][1] == ("p", 1) and (entails(I, s, rel("Eq", I.len_of(first), C(0))) or
                                              any(entails(I, s, rel("Eq", I.len_of(b), C(0))) for b in (("deref", ("p", 1)), ("p", 1))))
            ctx.ob(key + ":then-the-rest", ok, "the rest follows when the bytes looked at are used up")
        else:
            ctx.undecided("%s: %s is returned" % (ty, show(o[1])[:60]))
    ctx.ob(key, n > 0, "%d path(s) that give a byte looked at" % n)


# ---------------------------------------------------------------- C: what a source reads
def flow(ctx, r):
    F = ctx.F
    names = [p for p in F.bodies if p.startswith("input::single_file::") and p.endswith("::create_source_from_previewer")]
    if len(names) != 1:
        ctx.undecided("%d functions create a source from a previewer" % len(names))
        return
    p = names[0]
    b = F.body(p)
    ps = b["locals"][1:b["argc"] + 1]
    pv = next((("p", i) for i, t in enumerate(ps) if tyname(F, t) == PREV), None)
    fn = next((("p", i) for i, t in enumerate(ps) if "Option<" in F.tys[t]["s"]), None)
    fm = next((("p", i) for i, t in enumerate(ps) if tyname(F, t).endswith("InputFormat")), None)
    if None in (pv, fn, fm):
        ctx.undecided("the parameters of create_source_from_previewer")
        return
    news = tuple(sorted(q for q in F.bodies if q.startswith("util::reader::") and q.endswith("::new")))
    I, outs = ctx.explore(p, opaque=(r["name"], r["content"], r["decode"]) + news)
    IF = tyname(F, ps[fm[1]])
    fmt = ("deref", fm)
    n = 0
    for s, o in outs:
        made = [e for e in s.events() if e[0] == "call" and e[7].endswith("SourceFactory::create_source")]
        if not made:
            continue
        n += 1
        c = made[-1]
        P = c[2][1]
        auto = variants(I, s, fmt, IF) == {"Auto"}
        named = variants(I, s, fn, OPTION)
        nt = list(calls(s.events(), r["name"]))
        ct = list(calls(s.events(), r["content"]))
        dc = list(calls(s.events(), r["decode"]))
        if not auto and "Auto" in variants(I, s, fmt, IF):
            ctx.undecided("a path for both the given and the detected format")
            continue
        mode = "given format" if not auto else "file name" if named == {"Some"} else "content" if named == {"None"} else None
        if mode is None:
            ctx.undecided("a path for both a known and an unknown file name")
            continue
        k = mode.replace(" ", "-")
        dec = None
        by = None
        if mode != "content":
            ok = len(nt) == 1
            ctx.ob(k + ":name-test", ok, "%s: the name is looked at for a known ending" % mode, c[5])
            if not ok:
                continue
            arg = nt[0][3][0]
            if auto:
                ctx.ob(k + ":name", arg == payload(I, fn), "the ending is looked for in the file name (%s)" % show(arg)[:60], nt[0][5])
            if is_some(I, s, nt[0][4]):
                dec, by = I.rd_proj(payload(I, nt[0][4]), ("f", 0, "0")), "name"
            elif not is_none(I, s, nt[0][4]):
                ctx.ob(k + ":name-test", False, "%s: the result of the name test is not used" % mode, c[5])
                continue
        asked = [e for e in s.events() if e[0] == "call" and "SourceFactory::can_create_from" in e[7]]
        by_content = any(e[7].endswith("can_create_from_previewer") for e in asked) or ct
        if by is None and (mode == "content" or by_content):
            ok = len(ct) == 1 and (ct[0][3][0] == pv or ct[0][3][0] == I.deref(s, ct[0][2][0]) == pv)
            ctx.ob(k + ":content-test", len(ct) == 1, "%s: an input of unknown format is looked at for a magic number" % mode, c[5])
            if len(ct) != 1:
                continue
            ctx.ob(k + ":content", ct[0][3][0] == pv, "the magic number is looked for in the input (%s)" % show(ct[0][3][0])[:60], ct[0][5])
            if is_some(I, s, ct[0][4]):
                dec, by = payload(I, ct[0][4]), "content"
            elif not is_none(I, s, ct[0][4]):
                ctx.ob(k + ":content-test", False, "%s: the result of the content test is not used" % mode, c[5])
                continue
        if dec is None:
            ctx.ob(k + ":plain", P == pv and not dc, "%s: an input that is not compressed is read as it is (%s)" % (mode, show(P)[:60]), c[5])
            continue
        ok = len(dc) == 1 and dc[0][2][0] == dec and dc[0][2][1] == pv
        ctx.ob(k + ":decoded", ok, "%s: the input is decoded once, as the %s says (%s)" % (mode, by, ", ".join(show(a)[:50] for e in dc for a in e[2])), c[5])
        if not ok:
            continue
        raw = payload(I, dc[0][4], "Ok")
        pn = [e for e in s.events() if e[0] == "call" and e[1] in news and e[2][0] == raw]
        ctx.ob(k + ":decoded-read", any(payload(I, e[4], "Ok") == P for e in pn), "%s: the source reads the decoded input (%s)" % (mode, show(P)[:60]), c[5])
    ctx.ob("sources", n > 0, "%d path(s) that create a source" % n)


def run(ctx):
    F = ctx.F
    r = roles(ctx)
    for k, v in list(r.items()):
        if len(v) != 1:
            ctx.undecided("%d functions for the %s test" % (len(v), k) if k != "decode" else "%d functions decode" % len(v))
            return
        r[k] = v[0]
    name_test(ctx, r["name"])
    content_test(ctx, r["content"])
    used = decoder_table(ctx, r["decode"])
    shared = set()
    for ty, fs in sorted(used.items()):
        frames(ctx, ty, fs)
        for v in F.adts[ty]["variants"]:
            for f in v["fields"]:
                if f[1] is not None:
                    t = tyname(F, f[1])
                    if t in F.adts and ctx.impl_method(READ, "read", t) and t != ty and not t.startswith("util::"):
                        shared.add(t)
    for t in sorted(shared):
        handed_back(ctx, t)
    flow(ctx, r)
