"""C04: the null set of a DC row is bit-exact: bit i%8 of byte i/8 is set exactly when value i is null."""
from dcmodel import *
from closed import *
from vecs import _row

RULE = ("Closed forms of the loop variables of the null-set writer and reader are derived from the extracted recurrences; "
        "the tested value index, the byte index and the bit position must be one of the equivalent forms (8K+j, K, j) or "
        "(i, i/8, i%8), the bit is set (writer) or the value nulled (reader) exactly on the null side, early exits must "
        "entail that the values are exhausted, and both sides size the set by ceil(columns/8), decided on a complete "
        "residue system of the quasi-affine size term.")
TECHNIQUE = "abstract interpretation of MIR; closed-form recurrence analysis of the bit loops"
LEVEL = "other"


def place_ok(idx, byte, bit):
    """value idx lives in bit `bit` of byte `byte`"""
    if lsame(idx, add(mul(byte, C(8)), bit)) and bit[0] == "ctr":
        return True
    byte_ok = byte in (app("/", idx, C(8)), app(">>", idx, C(3)))
    bit_ok = bit in (app("%", idx, C(8)), app("&", idx, C(7)), app("&", C(7), idx))
    if byte_ok and bit_ok:
        return True
    if byte_ok and lsame(bit, sub(idx, mul(byte, C(8)))):
        return True
    return False


def bit_of(t):
    """1 << j  -> j"""
    t = strip(t)
    if t[0] == "app" and t[1] == "<<" and t[2][0] == C(1):
        return t[2][1]
    if t == C(1):
        return C(0)
    if t[0] == "app" and t[1] == "<<" and is_c(t[2][0]) and t[2][0][1] in (2, 4, 8, 16, 32, 64, 128):
        return add(t[2][1], C(t[2][0][1].bit_length() - 1))
    return None


def null_side(I, st, val):
    v = variants(I, st, val, FIELDVALUE)
    return True if v == {"None"} else False if "None" not in v else None


def vals_tested(I, L, base):
    out = set()
    for it in L["iters"]:
        for c in it["conds"]:
            for t in subterms(c):
                if t[0] == "discr" and t[1][0] == "sel" and base(t[1]):
                    out.add(t[1])
    return out


def writer(ctx, d):
    I = d.I2
    loops = d.loops(d.o2)
    cl = Closed(I, loops)
    written = set()
    for s, v in okpaths(I, d.o2):
        ts = toks(I, I.F, s.events())
        if len(ts) < 2 or ts[1][0] != "bytes":
            raise Undecided("null set is not written as one block")
        written.add((ts[1][1], ts[1][3]))
    size = None
    for w, where in written:
        while w[0] == "lv" and w[1] in loops and w not in loops[w[1]]["init"]:
            raise Undecided("null set bytes: %s" % show(w))
        if w == ("seq", ()):
            ctx.ob("null-set", False, "no null set is written", where)
            continue
        if w[0] != "lv":
            raise Undecided("null set bytes: %s" % show(w))
        L = loops[w[1]]
        init = L["init"][w]
        nexts = {it["next"][w] for it in L["iters"]}
        if init == ("seq", ()) and all(x[0] == "push" and x[1] == w for x in nexts):
            size = nested_writer(ctx, I, cl, L, w, loops, where)
        elif init[0] == "rep" and init[1] == C(0):
            size = flat_writer(ctx, I, cl, L, w, where)
            size = size and init[2]
        else:
            raise Undecided("null set bytes: %s" % show(init))
    return size


def late(L):
    """numbers of iterations of a loop that counts from another number than 0"""
    out = set()
    for sym, init in L["init"].items():
        if is_c(init) and L["iters"] and all(it["next"].get(sym) == add(sym, C(1)) for it in L["iters"]):
            bs = []
            for it in L["iters"]:
                b = set()
                for d, n in [r for c in it["conds"] for r in _row(c)]:
                    if d.get(sym) == -1 and not any(mentions(a, lambda t: t[0] == "lv") for a in d if a != sym):
                        t = C(n + 1 - init[1])
                        for a, k in sorted(d.items(), key=repr):
                            if a != sym:
                                t = add(t, mul(a, C(k)))
                        b.add(t)
                bs.append(b)
            out |= set.intersection(*bs)
    return out


def nested_writer(ctx, I, cl, L, w, loops, where):
    sym, bs = cl.counter(L)
    if sym is None:
        bs = late(L)
    if len(bs) != 1:
        raise Undecided("bytes of the null set are not counted")
    accs = {it["next"][w][2] for it in L["iters"]}
    if len(accs) != 1 or next(iter(accs))[0] != "lv":
        raise Undecided("bytes of the null set")
    acc = accs.pop()
    M = loops.get(acc[1])
    if M is None or acc not in M["init"]:
        raise Undecided("byte accumulator")
    ctx.ob("byte-start", M["init"][acc] == C(0), "every byte starts empty: %s" % show(M["init"][acc]), M["sp"])
    if cl.trips(M) is None:
        raise Undecided("bits per byte")
    ctx.ob("bits-per-byte", cl.trips(M) == 8, "a byte covers %s values" % cl.trips(M), M["sp"])
    tested = vals_tested(I, M, first_row_values_sel)
    if len(tested) != 1:
        raise Undecided("value tested per bit")
    val = tested.pop()
    try:
        idx = cl.close(val[2])
    except Varies as e:
        ctx.ob("null-place", False, "value examined depends on earlier values: %s" % e, M["sp"])
        return next(iter(bs))
    for it in M["iters"]:
        side = null_side(I, it["st"], val)
        nx = it["next"][acc]
        if side is None:
            done = bounds(it["conds"], sub(val[2], I.len_of(val[1])))[0] >= 0
            ctx.ob("null-set", nx == acc and done, "bit does not depend on the value being null", M["sp"])
        elif side is False:
            ctx.ob("null-clear", nx == acc, "a present value leaves its bit clear: %s" % show(nx), M["sp"])
        else:
            bit = added_bit(nx, acc)
            if bit is None and nx == acc:
                ctx.ob("null-set", False, "a null value sets no bit", M["sp"])
                continue
            if bit is None:
                raise Undecided("bit added: %s" % show(nx))
            try:
                c = cl.close(bit)
                j = bit_of(c)
                if j is None and c[0] == "app" and c[1] == "*" and c[2][1] == C(-1) and bit_of(c[2][0]) is not None:
                    ctx.ob("null-set", False, "a null value takes its bit away: %s" % show(nx), M["sp"])
                    continue
            except Varies as e:
                ctx.ob("null-place", False, "bit position depends on earlier values: %s" % e, M["sp"])
                continue
            if j is None:
                raise Undecided("bit added: %s" % show(bit))
            ctx.ob("null-place", place_ok(idx, CTR(L), j),
                   "value %s is bit %s of byte %s" % (show(idx), show(j), show(CTR(L))), M["sp"])
    for x in M["exits"]:
        if x["out"][0] != "exit":
            continue
        c = counter_done(x["conds"], M, cl)
        n = I.len_of(val[1])
        ctx.ob("early-exit", c or bounds(x["conds"], sub(val[2], n))[0] >= 0,
               "a byte is left early only when the values are exhausted", M["sp"])
    for x in M["exits"] + L["exits"]:
        if x["out"][0] == "panic" and x["out"][1] != "overflow" and CTR(L) in subterms(idx) and CTR(M) in subterms(idx) and \
                bounds(x["conds"], sub(val[2], I.len_of(val[1])))[0] >= 0:
            ctx.ob("null-set", False, "the writer stops with a panic behind the last value, when a byte is not full", M["sp"])
    for x in L["exits"]:
        if x["out"][0] == "exit":
            ctx.ob("early-exit", counter_done(x["conds"], L, cl), "all bytes are produced", L["sp"])
    return next(iter(bs))


def counter_done(conds, M, cl):
    sym, bs = cl.counter(M)
    return any(bounds(conds, sub(sym, b))[0] >= 0 for b in bs)


def first_row_values_sel(t):
    return first_row_values(t[1])


def added_bit(nx, acc):
    if nx[0] == "app" and nx[1] in ("+", "|", "^"):
        a, b = nx[2]
        if strip(a) == acc:
            return b
        if strip(b) == acc:
            return a
    d, c = lin(nx)
    if d.get(acc) == 1 and len(d) == 2 and c == 0:
        o = next(x for x in d if x != acc)
        return mul(o, C(d[o])) if d[o] != 1 else o
    if d.get(acc) == 1 and len(d) == 1 and c:
        return C(c)
    return None


def flat_writer(ctx, I, cl, L, w, where):
    sym, bs = cl.counter(L)
    tested = vals_tested(I, L, first_row_values_sel)
    if sym is None or len(tested) != 1:
        raise Undecided("value tested per bit")
    val = tested.pop()
    idx = val[2]
    ctx.ob("cover", I.len_of(val[1]) in bs and idx == sym, "every value of the row is examined", L["sp"])
    for it in L["iters"]:
        side = null_side(I, it["st"], val)
        nx = it["next"][w]
        if side is False:
            ctx.ob("null-clear", nx == w, "a present value leaves its bit clear", L["sp"])
        elif side is None:
            raise Undecided("bit does not depend on the value")
        elif nx == w:
            ctx.ob("null-set", False, "a null value sets no bit", L["sp"])
        elif nx[0] == "store" and nx[1] == w:
            bit = added_bit(nx[3], ("sel", w, nx[2]))
            j = bit and bit_of(bit)
            if not j:
                raise Undecided("bit added: %s" % show(nx[3]))
            ctx.ob("null-place", place_ok(idx, strip(nx[2]), strip(j)),
                   "value %s is bit %s of byte %s" % (show(idx), show(j), show(nx[2])), L["sp"])
        else:
            raise Undecided("update of the null set")
    for x in L["exits"]:
        if x["out"][0] == "exit":
            ctx.ob("early-exit", counter_done(x["conds"], L, cl), "every value of the row is examined", L["sp"])
    return True


def size_ok(ctx, key, t, n, st, I, where):
    loose = False
    try:
        f = period8(t, n)
        f(0)
    except Unknown as e:
        loose = e
        f = period8(t, n, True)
        f(0)
    bad = None
    guards = []
    for c in st.conds():
        if mentions(c, lambda x: x == n):
            try:
                g = period8(c, n, bool(loose))
                g(0)
                guards.append(g)
            except Unknown:
                pass
    for k in list(range(64)) + ([250, 1017, 2040, 2041, 2048, 4096, 262136, 524281, 524289] if loose else []):
        if not all(g(k) for g in guards):
            continue
        s2 = st.fork()
        if I.assume(s2, rel({"eq"}, n, C(k)), True):
            if f(k) != (k + 7) // 8:
                bad = k
                break
    if loose and bad is None:
        raise Unknown(str(loose))
    ctx.ob(key, bad is None, "null set of %s columns takes %s bytes" %
           ("n" if bad is None else bad, show(t) if bad is None else f(bad)), where)


def sizes(ctx, d, wsize):
    # writer: value of the size field when the header has been processed
    I = d.I1
    if wsize is None:
        return
    atoms, off = lin(wsize)
    atoms = dict(atoms)
    one = len(atoms) == 1 and list(atoms.values()) == [1] and next(iter(atoms))[0] == "fld"
    wsize = next(iter(atoms)) if one else wsize
    if wsize[0] != "fld":
        t = strip(wsize)
        ls = [x for x in subterms(t) if x[0] == "app" and x[1] == "len" and first_row_values(x[2][0])]
        if not ls:
            raise Undecided("size of the null set: %s" % show(wsize))
        for s, v in okpaths(d.I2, d.o2):
            size_ok(ctx, "writer-size", t, ls[0], s, d.I2, None)
    else:
        for s, v in okpaths(I, d.o1):
            sink = I.deep(s, v)
            got = None
            for x in [sink] + list(s.mem.values()):
                for y in subterms(x):
                    if y[0] == "ov" and any(k[0] == "f" and k[2] == wsize[3] for k, _ in y[2]):
                        got = next(z for k, z in y[2] if k[0] == "f" and k[2] == wsize[3])
                    if y[0] == "adt" and fld_of(I, y, wsize[3]) is not None:
                        got = fld_of(I, y, wsize[3])
            if got is None:
                ctx.ob("writer-size", False, "size of the null set is not set with the header", None)
                continue
            ls = {x for x in subterms(got) if x[0] == "app" and x[1] == "len" and
                  mentions(x, lambda y: y[0] == "fld" and y[3] in ("field_types", "field_names"))}
            if len(ls) != 1:
                raise Undecided("size of the null set: %s" % show(got))
            size_ok(ctx, "writer-size", add(got, C(off)), ls.pop(), s, I, None)


def reader(ctx, d):
    I = d.I4
    loops = d.loops(d.o4)
    cl = Closed(I, loops)
    found = 0
    for L in loops.values():
        bits = set()
        for it in L["iters"]:
            for c in it["conds"]:
                if c[0] == "rel" and C(1) in (c[1], c[2]) and (c[3] - {"un"}) in ({"eq"}, {"lt", "gt"}):
                    t = strip(c[1] if c[2] == C(1) else c[2])
                    if t[0] == "app" and t[1] == "&" and C(1) in t[2]:
                        bits.add(t)
                if c[0] == "rel" and C(0) in (c[1], c[2]) and (c[3] - {"un"}) in ({"eq"}, {"lt", "gt"}, {"gt"}):
                    t = strip(c[1] if c[2] == C(0) else c[2])
                    if t[0] == "app" and t[1] == "&":
                        bits.add(t)
        nested = {e[1]["id"] for it in L["iters"] for e in it["events"] if e[0] == "loop"}
        own = [t for t in bits if any(y[0] == "lv" and y[1] == L["id"] for y in subterms(t)) and
               not any(y[0] == "lv" and y[1] in nested for y in subterms(t))]
        if not own:
            continue
        if len(own) != 1:
            raise Undecided("several bit tests in one loop")
        found += 1
        t = own[0]
        if t[0] == "app" and C(0) in t[2]:
            ctx.ob("null-read", False, "the bit looked at is always clear: %s" % show(t), L["sp"])
            continue
        try:
            pos = bit_test(cl.close(t))
        except Varies as e:
            ctx.ob("null-place", False, "bit examined depends on earlier values: %s" % e, L["sp"])
            continue
        if pos is None:
            raise Undecided("bit test %s" % show(cl.close(t)))
        byte, bit = pos
        for it in L["iters"]:
            if not any(mentions(c, lambda x: x == t) for c in it["conds"]):
                continue
            isset = entails(I, it["st"], rel({"lt", "gt"}, t, C(0)))
            isclear = entails(I, it["st"], rel({"eq"}, t, C(0))) or t[0] == "app" and C(1) in t[2] and entails(I, it["st"], rel({"lt", "gt"}, t, C(1)))
            st = None
            for y, nx in it["next"].items():
                if nx[0] == "store" and nx[1] == y and nx[3][0] == "adt" and nx[3][1] == FIELDVALUE:
                    st = nx
            if st is None:
                if isset or isclear:
                    ctx.ob("null-read", False, "no value is stored for the column", L["sp"])
                continue
            try:
                idx = cl.close(st[2])
            except Varies as e:
                ctx.ob("null-place", False, "column stored depends on earlier values: %s" % e, L["sp"])
                continue
            ctx.ob("null-place", place_ok(idx, byte, bit),
                   "value %s is bit %s of byte %s" % (show(idx), show(bit), show(byte)), L["sp"])
            if isset:
                ctx.ob("null-read", st[3][2] == "None", "a set bit yields null", L["sp"])
            elif isclear:
                ctx.ob("null-read", st[3][2] != "None", "a clear bit yields a value", L["sp"])
        if cl.trips(L) is not None:
            ctx.ob("bits-per-byte", cl.trips(L) == 8, "a byte covers %s values" % cl.trips(L), L["sp"])
            # a row rarely has a multiple of eight columns: the last byte has to be left, or its rest skipped
            early = [x for x in L["exits"] if x["out"][0] == "exit" and any(grown(c, nx[2]) for it in L["iters"] for nx in it["next"].values()
                                                                            if nx[0] == "store" for c in x["conds"])]
            if all(any(nx[0] == "store" and nx[1] == y and nx[3][0] == "adt" and nx[3][1] == FIELDVALUE for y, nx in it["next"].items())
                   for it in L["iters"]) and CTR(L) in subterms(bit):
                ctx.ob("null-read", bool(early), "the reader stops with a panic behind the last column, when a byte is not full", L["sp"])
        # early exits of the bit loop that keep reading
        outer = [M for M in loops.values() if M is not L and any(e[0] == "loop" and e[1]["id"] == L["id"] for it in M["iters"] for e in it["events"])]
        for M in outer:
            for it in M["iters"]:
                if cl.normal(it):
                    continue
                idxs = {nx[2] for nx in it["next"].values() if nx[0] == "store"}
                for i in idxs:
                    n = exhausted(I, d, it["conds"], i)
                    ctx.ob("early-exit", n, "a byte is left early only when the columns are exhausted", L["sp"])
    if not found:
        raise Undecided("bit test of the reader")
    for s, v in okpaths(d.I3, d.o3):
        reps = [x for x in subterms(v) if x[0] == "rep" and x[1] == C(0)]
        if len(reps) != 1:
            raise Undecided("null set buffer of the reader")
        cnt = column_counts(d, v)
        n = next((c for c in cnt if mentions(reps[0][2], lambda x: x == c)), None)
        if n is None:
            raise Undecided("size of the null set: %s" % show(reps[0][2]))
        size_ok(ctx, "reader-size", reps[0][2], strip(n), s, d.I3, None)


def grown(c, idx):
    """the condition says that the index is at or above something"""
    if c[0] != "rel":
        return False
    k = [x for x in subterms(idx) if x[0] == "lv"]
    d, _ = lin(sub(c[1], c[2]))
    ops = c[3] - {"un"}
    return any(d.get(x, 0) > 0 and ops <= {"gt", "eq"} or d.get(x, 0) < 0 and ops <= {"lt", "eq"} for x in k)


def column_counts(d, src):
    """terms that count the columns announced by the header: bounds of the descriptor loop"""
    out = set()
    for L in d.loops(d.o3).values():
        if any(x[0] == "push" for it in L["iters"] for x in it["next"].values()):
            _, bs = Rec(d.I3, {}).counter(L)
            out |= bs | {strip(b) for b in bs}
    return out


def exhausted(I, d, conds, i):
    """conditions entail i + 1 >= number of columns"""
    for s, v in okpaths(d.I3, d.o3):
        cnt = {strip(x) for x in column_counts(d, v)}
        cand = set()
        for c in conds:
            for t in subterms(c):
                if t[0] == "fld":
                    got = fld_of(d.I3, v, t[3]) if v[0] == "adt" else None
                    if got is not None and strip(got) in cnt:
                        cand.add(t)
                if t[0] == "app" and t[1] == "len" and mentions(t, lambda x: x[0] == "fld" and x[3] in ("field_types", "field_names", "field_values")):
                    cand.add(t)
        return any(bounds(conds, sub(add(i, C(1)), t))[0] >= 0 for t in cand)
    return False


def bit_test(t):
    """(byte index, bit position) of a single-bit test"""
    t = strip(t)
    if t[0] != "app" or t[1] != "&":
        return None
    for a, b in (t[2], t[2][::-1]):
        a, b = strip(a), strip(b)
        if is_c(b) and b[1] in (1, 2, 4, 8, 16, 32, 64, 128):
            k = C(b[1].bit_length() - 1)
            if a[0] == "app" and a[1] == ">>":
                x, j = a[2][0], add(k, a[2][1])
            elif a[0] == "app" and a[1] == "<<":
                x, j = a[2][0], sub(k, a[2][1])
            else:
                x, j = a, k
        else:
            j = bit_of(b)
            x = a
            if j is None or bit_of(a) is not None and a[0] != "sel":
                continue
        x = strip(x)
        if x[0] == "sel":
            return strip(x[2]), strip(j)
    return None


def run(ctx):
    d = dc(ctx)
    for f in (lambda: sizes(ctx, d, writer(ctx, d)), lambda: reader(ctx, d)):
        try:
            f()
        except Undecided as e:
            ctx.undecided(str(e))
        except Unknown as e:
            ctx.undecided("recurrence: %s" % e)
