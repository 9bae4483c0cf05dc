"""C13: a directory is read as one input: its files, in name order, each to its end."""
from driver_model import *
import models
from c12 import MULTI, field_ids, is_field, by_index

RULE = ("Files of a directory: the constructor's list is exactly the entries read that are not directories, sorted by path, and every "
        "request takes the one that is first in ascending order off it and gives None only when it is empty. The multi-file source's "
        "next_row asks the file in use for a row and returns it; only when that file is at its end it takes exactly one more path, "
        "opens a source on that very path and goes on with it; it ends only when the paths have ended. A directory path given as "
        "input becomes such a source over that path.")
TECHNIQUE = "path-sensitive MIR traces with symbolic collections (sort, filter, pop)"
LIMITS = "The order is that of std's path comparison; the directory listing itself is the operating system's."

PROVIDER = "input::serial_multi_file_provider::SerialMultiFilePathProvider"
DIRT = "transport::dir::dir_transport::DirTransport"
READ_DIR, IS_DIR, CAN = DIRT + "::read_dir", DIRT + "::is_dir", DIRT + "::can_handle"
NEXT = PROVIDER + "::get_next_path"
OPEN = "input::single_file::SingleFileInputFactory::create_source_from_path"


def order(t):
    """('asc'|'desc'|None, elements) of a sorted list term"""
    if t[0] == "app" and t[1] == "reversed":
        o, b = order(t[2][0])
        return {"asc": "desc", "desc": "asc"}.get(o), b
    if t[0] == "collect" and t[1][0] == "rev":
        o, b = order(t[1][1][1] if t[1][1][0] in ("iter", "into", "drain", "opq") else t[1][1])
        return {"asc": "desc", "desc": "asc"}.get(o), b
    if t[0] == "collect" and t[1][0] in ("iter", "into", "cloned", "opq"):
        x = t[1]
        while x[0] in ("iter", "into", "cloned", "opq"):
            x = x[1]
        if x[0] == "app" and x[1] in ("sorted", "reversed"):
            return order(x)
    if t[0] == "app" and t[1] == "sorted":
        k, b = t[2][0], t[2][1]
        if k in (("asc",), ("ascset",)):
            return "asc", b
        if k[0] == "app" and k[1] == "ord" and k[2] == (("bv", 0), ("bv", 1)):
            return "asc", b
        if k[0] == "app" and k[1] == "ord" and k[2] == (("bv", 1), ("bv", 0)):
            return "desc", b
        return None, b
    return None, t


def predicate(I, s, clo):
    """(paths of the closure on a bound element): [(state, result, events)]"""
    st = s.fork()
    r = ("H", st.fresh(), "cx")
    st.mem[r] = ("bv", 0)
    n0 = len(st.events())
    cx = engine.Ctx({"p": "?"}, "", [], None, None)
    return [(s2, o[1], s2.events()[n0:]) for s2, o in models.calln(I, st, clo, [("ref", r, ())], cx) if o[0] == "ret"]


def only_files(I, outs):
    """the predicate keeps exactly what is not a directory"""
    ok = bool(outs)
    for s2, v, ev in outs:
        c = [e for e in ev if e[0] == "call" and (e[7] == IS_DIR or e[1].endswith("Path::is_dir")) and
             any(mentions(x, lambda t: t == ("bv", 0)) for x in e[3] + e[2])]
        ok = ok and len(c) == 1 and (v == neg(c[0][4]) or entails(I, s2, v) and entails(I, s2, neg(c[0][4])) or
                                     entails(I, s2, neg(v)) and entails(I, s2, c[0][4]))
    return ok


def base(d):
    while d[0] in ("into", "iter", "cloned", "d", "opq", "take"):
        if d[0] == "take":
            return None
        d = d[1]
    return d


def entries(ctx, I, s, v, listing):
    """v holds exactly the entries of the listing that are not directories: True / False / None (unknown)"""
    filt = []
    if v[0] == "collect":
        d = v[1]
        while d[0] in ("filter", "into", "iter", "opq", "cloned", "d"):
            if d[0] == "filter":
                filt.append(d[2])
            d = d[1]
        if d == listing:
            return bool(filt) and all(only_files(I, predicate(I, s, f)) for f in filt)
        return False if mentions(d, lambda t: t == listing) else None
    if v[0] == "lv":
        L = next((e[1] for e in s.events() if e[0] == "loop" and v in e[1]["init"]), None)
        if L is None or L["init"][v] != ("seq", ()):
            return None
        ok = True
        for it in L["iters"]:
            more = next((t for c in it["conds"] for t in subterms(c) if t[0] == "app" and t[1] == "more" and base(t[2][0]) == listing), None)
            if more is None:
                return None
            el = ("app", "elem", more[2])
            c = [e for e in all_events(it["events"]) if e[0] == "call" and (e[7] == IS_DIR or e[1].endswith("Path::is_dir")) and
                 any(mentions(x, lambda t: t == el) for x in e[3] + e[2])]
            nx = it["next"].get(v, v)
            if len(c) != 1:
                return False
            isdir = entails(I, it["st"], c[0][4])
            ok = ok and (nx == v if isdir else entails(I, it["st"], neg(c[0][4])) and nx == ("push", v, el))
        return ok
    return None


def taken(I, s, o, F, adt):
    """(self field, 'last'|'first') the path given is taken from"""
    for e in s.events():
        if e[0] in ("vec.pop", "vec.remove") and e[2][0] == "fld" and mentions(e[2], lambda t: t == ("p", 0)):
            if e[0] == "vec.pop":
                return e[2], "last", e[3]
            if e[3] == C(0):
                return e[2], "first", ("sel", e[2], C(0))
    return None, None, None


def provider(ctx):
    F = ctx.F
    for t, n, p in F.impls_of(PROVIDER, "get_next_path"):
        adt = t.get("p") or t["s"]
        own = adt.split("::")[-1]
        if "::tests" in p:
            continue
        I, outs = ctx.explore(p)
        src = end = None
        for s, o in outs:
            if o[0] != "ret":
                continue
            if is_none(I, s, o[1]):
                continue
            f, w, x = taken(I, s, o, F, adt)
            if f is None:
                ctx.undecided("%s: how a path is taken off the list" % own)
                return
            ctx.ob("list:give", o[1][0] == "adt" and payload(I, o[1]) == x and (src in (None, f)) and (end in (None, w)),
                   "%s gives the %s path of its list" % (own, w))
            src, end = f, w
            left = I.deref(s, ("p", 0))
        if src is None:
            ctx.undecided("%s gives no paths" % own)
            continue
        for s, o in outs:
            if o[0] == "ret" and is_none(I, s, o[1]):
                ctx.ob("list:end", entails(I, s, rel("Le", I.len_of(src), C(0))), "%s: no more paths only when the list is empty" % own)
        # the list
        n = 0
        for q in sorted(F.bodies):
            b = F.body(q)
            if not q.startswith(adt + "::") or "{closure" in q or own not in F.tys[b["locals"][0]]["s"]:
                continue
            I2, outs2 = ctx.explore(q)
            for s, o in outs2:
                if o[0] != "ret":
                    continue
                me = o[1]
                if F.tys[b["locals"][0]].get("p", "").endswith("Result") or me[0] == "adt" and me[1] == RESULT:
                    if "Ok" not in variants(I2, s, me, RESULT):
                        continue
                    me = payload(I2, me, "Ok")
                if me[0] != "adt" or me[1] != adt:
                    ctx.undecided("%s makes %s" % (q, show(me)[:60]))
                    continue
                n += 1
                v = me[3][src[2]]
                rd = [e for e in calls(s.events(), READ_DIR)]
                ctx.ob("list:one-listing", len(rd) == 1 and mentions(rd[0][2][1], lambda t: t[0] == "p"), "%s: %d listing(s) of the directory" % (own, len(rd)))
                if len(rd) != 1:
                    continue
                od, el = order(v)
                want = "desc" if end == "last" else "asc"
                got = payload(I2, rd[0][4], "Ok")
                if od is None and any(x[0] == "opq" and x[1] != got or x[0] in ("res", "post") and x != rd[0][4] for x in subterms(v)):
                    ctx.undecided("%s: the order of the list is not followed: %s" % (own, show(v)[:100]))
                    continue
                ctx.ob("list:order", od == want, "%s: the list is %s and paths are taken off its %s" % (own, {"asc": "ascending", "desc": "descending"}.get(od, "in no known order"),
                                                                                                  "end" if end == "last" else "start"))
                if od is None:
                    continue
                ok = entries(ctx, I2, s, el, payload(I2, rd[0][4], "Ok"))
                if ok is None:
                    ctx.undecided("%s: list made from %s" % (own, show(el)[:100]))
                else:
                    ctx.ob("list:files", ok, "%s: exactly the entries that are not directories" % own)
        ctx.ob("list", n > 0, "%s: %d way(s) to make one" % (own, n))


def listing(ctx):
    """each directory transport lists all the entries"""
    F = ctx.F
    for t, n, p in F.impls_of(DIRT, "read_dir"):
        own = (t.get("p") or t["s"]).split("::")[-1]
        if "::tests" in p:
            continue
        I, outs = ctx.explore(p)
        loops = {}
        for s, o in outs:
            collect_loops(s.events(), loops)
        for L in loops.values():
            vs = {e[2] for it in L["iters"] for e in it["events"] if e[0] == "vec.push"}
            for v in vs:
                for it in L["iters"]:
                    ps = [e for e in it["events"] if e[0] == "vec.push" and e[2] == v]
                    ctx.ob("listing:every-entry", len(ps) == 1 and it["next"].get(v) == ("push", v, ps[0][3]),
                           "%s: every entry is listed once" % own, L["sp"])
    for m in ("is_dir", "can_handle"):
        for t, n, p in F.impls_of(DIRT, m):
            own = (t.get("p") or t["s"]).split("::")[-1]
            if "::tests" in p:
                continue
            I, outs = ctx.explore(p)
            for s, o in outs:
                if o[0] == "ret":
                    c = [e for e in s.events() if e[0] == "call" and e[1] == "std::path::Path::is_dir"]
                    if any(e[0] == "call" and e[1].endswith("symlink_metadata") for e in s.events()):
                        ctx.ob("transport:%s" % m, False, "%s: %s without following links" % (own, m))
                        continue
                    if not c:
                        ctx.undecided("%s::%s does not ask std" % (own, m))
                        continue
                    ctx.ob("transport:%s" % m, o[1] == c[0][4] and c[0][2][0] == ("p", 1), "%s: %s as the path is a directory" % (own, m))


def source(ctx):
    F = ctx.F
    root = ctx.impl_method("chopper::chopper::Source", "next_row", MULTI)
    if not root:
        ctx.undecided("no multi-file source")
        return
    from c12 import builder
    opq = tuple(builder(ctx, root)) + (OPEN,)
    cur_i, _ = field_ids(F)
    if cur_i is None:
        ctx.undecided("cannot tell the file in use")
        return
    I, outs = ctx.explore(root, opaque=opq)
    loops = {}
    for s, o in outs:
        collect_loops(s.events(), loops)

    def current(t, L):
        return L is not None and is_field(t, L, cur_i) or t[0] == "fld" and t[2] == cur_i and t[1] == ("deref", ("p", 0))

    def inuse(t, L):
        """t is the source inside the field for the file in use"""
        while t[0] in ("fld", "dc", "deref", "box"):
            if current(t, L):
                return True
            t = t[1]
        return current(t, L)

    def one(st, ev, nxt, L, where):
        """one request of a row from the file in use and what follows"""
        asks = [e for e in all_events(ev) if e[0] == "call" and e[7] == NEXT_ROW]
        paths = [e for e in all_events(ev) if e[0] == "call" and e[7] == NEXT]
        opens = [e for e in all_events(ev) if e[0] == "call" and e[1] == OPEN]
        for e in asks:
            ctx.ob("read:file-in-use", inuse(e[2][0], L), "%s: the row is asked of the file in use (%s)" % (where, show(e[2][0])[:60]), e[5])
        ctx.ob("read:ask-once", len(asks) <= 1, "%s: at most one row is asked for at a time" % where)
        if paths:
            done = bool(asks) and is_none(I, st, payload(I, asks[-1][4], "Ok"))
            done = done or any(c[0] == "rel" and c[1][0] == "discr" and current(c[1][1], L) and is_none(I, st, c[1][1]) for c in st.conds())
            ctx.ob("read:to-the-end", done, "%s: another file only when the one in use is at its end" % where, paths[0][5])
            ctx.ob("read:one-path", len(paths) == 1, "%s: %d path(s) taken" % (where, len(paths)), paths[0][5])
        for e in opens:
            ctx.ob("read:that-path", len(paths) == 1 and e[3][1] == payload(I, paths[0][4], "Some"),
                   "%s: the file opened is the one taken (%s)" % (where, show(e[3][1])[:60]), e[5])
        if nxt is not None:
            if not paths:
                ctx.ob("read:keep", nxt is False, "%s: the file in use changes (%s)" % (where, show(nxt)[:60] if nxt else ""))
            elif nxt is False:
                ctx.ob("read:go-on", False, "%s: a path is taken and dropped" % where, paths[0][5])
            elif is_none(I, st, nxt):
                ctx.ob("read:none-left", is_none(I, st, paths[0][4]), "%s: no file in use only when there are no more paths" % where, paths[0][5])
            else:
                ok = len(opens) == 1 and mentions(nxt, lambda t: t == opens[0][4])
                ctx.ob("read:go-on", ok, "%s: goes on with the file opened (%s)" % (where, show(nxt)[:60]), paths[0][5])

    for L in loops.values():
        if not any(e[0] == "call" and e[7] in (NEXT_ROW, NEXT) for it in L["iters"] for e in it["events"]):
            continue
        f = next((k for k in L["init"] if is_field(k, L, cur_i)), None)
        for it in L["iters"]:
            asks = [e for e in it["events"] if e[0] == "call" and e[7] == NEXT_ROW]
            if asks:
                ctx.ob("read:row-kept", is_none(I, it["st"], payload(I, asks[-1][4], "Ok")), "next_row: a row that was read is returned, not passed over", L["sp"])
            nx = it["next"].get(f, f) if f is not None else None
            one(it["st"], it["events"], False if nx == f else nx, L, "next_row")
    n = 0
    for s, o in outs:
        ev = s.events()
        L = next((e[1] for e in ev if e[0] == "loop" and any(is_field(k, e[1], cur_i) for k in e[1]["init"])), None)
        flat = [e for e in ev if e[0] != "loop"]
        asks = [e for e in flat if e[0] == "call" and e[7] == NEXT_ROW]
        if o[0] != "ret" or "Ok" not in variants(I, s, o[1], RESULT):
            continue
        x = payload(I, o[1], "Ok")
        if is_none(I, s, x):
            t = next((c[1][1] for c in reversed(s.conds()) if c[0] == "rel" and c[1][0] == "discr" and current(c[1][1], L)), None)
            over = t is not None and is_none(I, s, t)
            over = over or any(e[0] == "call" and e[7] == NEXT and is_none(I, s, e[4]) for e in flat)
            ctx.ob("read:all-files", over, "next_row ends only when there are no more paths")
        else:
            n += 1
            ctx.ob("read:row", len(asks) == 1 and mentions(x, lambda t: t == payload(I, payload(I, asks[0][4], "Ok"), "Some")), "next_row gives the row just read")
            one(s, flat, None, L, "next_row")
    ctx.ob("read", n > 0, "%d path(s) that give a row" % n)
    # the first file
    for p in sorted(F.bodies):
        if not p.startswith(MULTI + "::") or "SerialMultiFileSource" not in F.tys[F.body(p)["locals"][0]]["s"] or "{closure" in p:
            continue
        I2, outs2 = ctx.explore(p, opaque=opq)
        for s, o in outs2:
            if o[0] != "ret" or "Ok" not in variants(I2, s, o[1], RESULT):
                continue
            me = payload(I2, o[1], "Ok")
            if me[0] != "adt":
                ctx.undecided("%s makes %s" % (p, show(me)[:60]))
                continue
            ev = list(all_events(s.events()))
            paths = [e for e in ev if e[0] == "call" and e[7] == NEXT]
            opens = [e for e in ev if e[0] == "call" and e[1] == OPEN]
            cur = me[3][cur_i]
            if is_none(I2, s, cur):
                ctx.ob("first:none-left", len(paths) == 1 and is_none(I2, s, paths[0][4]), "no first file only when there are no paths")
            else:
                ok = len(paths) == 1 and len(opens) == 1 and opens[0][3][1] == payload(I2, paths[0][4], "Some") and mentions(cur, lambda t: t == opens[0][4])
                ctx.ob("first:that-path", ok, "the first file is that of the first path")
            ctx.ob("first:nothing-read", not any(e[0] == "call" and e[7] == NEXT_ROW for e in ev), "no row is read ahead")


def entry(ctx):
    """a directory given as input"""
    F = ctx.F
    root = "input::input_factory::InputFactory::create_source_from_input"
    if not F.has_body(root):
        ctx.undecided("no InputFactory::create_source_from_input")
        return
    ctors = [p for p in F.bodies if p.startswith(MULTI + "::") and "SerialMultiFileSource" in F.tys[F.body(p)["locals"][0]]["s"] and "{closure" not in p]
    prov = [p for t, n, q in F.impls_of(PROVIDER, "get_next_path") for p in F.bodies
            if p.startswith((t.get("p") or t["s"]) + "::") and (t.get("p") or t["s"]).split("::")[-1] in F.tys[F.body(p)["locals"][0]]["s"] and "{closure" not in p]
    news = [p for p in F.bodies if p.startswith("util::reader::") and p.endswith("::new")]
    opq = tuple(ctors + prov + news) + (OPEN, "input::single_file::SingleFileInputFactory::create_source_from_previewer")
    I, outs = ctx.explore(root, opaque=opq)
    n = 0
    loops = {}
    for s, o in outs:
        collect_loops(s.events(), loops)
    for L in loops.values():
        for it in L["iters"]:
            for e in [e for e in it["events"] if e[0] == "call" and e[7] == CAN]:
                ctx.ob("entry:handled", entails(I, it["st"], neg(e[4])), "a directory transport is passed over only if it cannot handle the path", L["sp"])
    for s, o in outs:
        ev = list(s.events())
        can = [e for e in ev if e[0] == "call" and e[7] == CAN]
        pv = [e for e in ev if e[0] == "call" and e[1] in prov]
        mk = [e for e in ev if e[0] == "call" and e[1] in ctors]
        op = [e for e in ev if e[0] == "call" and e[1] == OPEN]
        yes = [e for e in can if entails(I, s, e[4])]
        if o[0] == "ret" and yes and "Ok" in variants(I, s, o[1], RESULT):
            n += 1
            ctx.ob("entry:directory", len(mk) == 1 and len(pv) == 1 and not op, "a directory becomes a multi-file source")
        for e in pv:
            ctx.ob("entry:path", bool(yes) and yes[-1][3][1] == e[3][1] and mentions(e[3][1], lambda t: t == ("p", 1)), "the files are those of the path given (%s)" % show(e[3][1])[:60], e[5])
        for e in mk:
            ok = any(mentions(a, lambda t: any(t == x[4] for x in pv)) for a in e[3]) or any(mentions(I.deep(s, a), lambda t: any(t == x[4] for x in pv)) for a in e[2])
            ctx.ob("entry:provider", ok, "the source reads the files of that directory", e[5])
        for e in op:
            ctx.ob("entry:single", not yes and mentions(e[3][1], lambda t: t == ("p", 1)), "what is not a directory is opened as a file", e[5])
    if n == 0:
        ctx.undecided("no path of create_source_from_input on which a directory transport can handle the path")


def run(ctx):
    provider(ctx)
    listing(ctx)
    source(ctx)
    entry(ctx)
