"""C16: which transport opens an input and which format handler reads it."""
from firstmatch import *
from c15 import tyname, fn_by, byte_conds, excluded, PREV
import c15

RULE = ("Every path that opens an input or creates a source from one is explored. The transport that is opened and the format handler "
        "that is used have to be the first in their list that accept: the path asked that same element, got yes, and the elements before "
        "it were asked and said no (a counted loop or a search from the front). No result and an error need the whole list to have said no. "
        "A handler is found by content only behind a look at the whole list by name, and not at all if the format was given; the name asked "
        "for is the given format or the file name, without the ending of a compression. The lists hold the caller's entries first, then all "
        "built-in ones, the csv handler behind every other one, which the acceptance conditions of the two handlers call for.")
TECHNIQUE = "path-sensitive MIR dataflow (first-accepting-element scans, list-order and acceptance-condition entailment)"
LIMITS = "What a caller's own transports and handlers accept is up to them."

FACT = "source::source_factory::SourceFactory"
BYNAME, BYCONTENT, MAKE = FACT + "::can_create_from_format", FACT + "::can_create_from_previewer", FACT + "::create_source"
STREAM = "transport::streaming::streaming_transport::StreamingTransport"
SEEK = "transport::seekable::seekable_transport::SeekableTransport"
DIR = "transport::dir::dir_transport::DirTransport"
SFI = "input::single_file::SingleFileInputFactory"
INF = "input::input_factory::InputFactory"
FMT = "input::input::InputFormat"
INPUT = "input::input::Input"


def bare(t):
    while t[0] in ("deref", "vref"):
        t = t[1]
    return t


def is_self_list(t, name):
    return t[0] == "fld" and t[3] == name and bare(t[1]) == ("p", 0)


def failed(I, s, v, events):
    """the error that is returned comes out of a call that failed on this path"""
    return mentions(v, lambda t: t[0] == "dc" and t[2] == "Err")


# ---------------------------------------------------------------- which handler
def handlers(ctx):
    F = ctx.F
    names = fn_by(F, lambda p, b: p.startswith(SFI) and p.endswith("::create_source_from_previewer"))
    r = c15.roles(ctx)
    if len(names) != 1 or any(len(v) != 1 for v in r.values()):
        ctx.undecided("the function that creates a source from a previewer")
        return None
    p = names[0]
    b = F.body(p)
    ps = b["locals"][1:b["argc"] + 1]
    fn = next((("p", i) for i, t in enumerate(ps) if "Option<" in F.tys[t]["s"]), None)
    fm = next((("p", i) for i, t in enumerate(ps) if tyname(F, t) == FMT), None)
    if None in (fn, fm):
        ctx.undecided("the parameters of create_source_from_previewer")
        return p
    news = tuple(sorted(q for q in F.bodies if q.startswith("util::reader::") and q.endswith("::new")))
    I, outs = ctx.explore(p, opaque=(r["name"][0], r["content"][0], r["decode"][0]) + news)
    fmt = ("deref", fm)
    ext = payload(I, fmt, "Extension")
    n = 0
    for s, o in outs:
        if o[0] != "ret":
            continue
        made = [e for e in s.events() if e[0] == "call" and e[7] == MAKE]
        auto = variants(I, s, fmt, FMT)
        named = variants(I, s, fn, OPTION)
        mode = "given" if auto == {"Extension"} else "name" if auto == {"Auto"} and named == {"Some"} else \
            "content" if auto == {"Auto"} and named == {"None"} else None
        if mode is None:
            if made:
                ctx.undecided("a path for more than one kind of input")
            continue
        sc = Scan(ctx, I, s, s.events(), (BYNAME, BYCONTENT))
        done = sc.exhausted()
        nt = list(calls(s.events(), r["name"][0]))
        # the name a handler is asked about
        want = None
        if mode != "content" and len(nt) == 1:
            if mode == "given":
                arg = nt[0][3][0]
                dot = entails(I, s, app("starts_with", ext, ("s", ".")))
                nodot = entails(I, s, neg(app("starts_with", ext, ("s", "."))))
                ok = arg == ext and dot or arg == app("cat", ("s", "."), ext) and nodot or arg == ("app", "cat", (("s", "."), ext)) and nodot
                ctx.ob("given:format", ok, "the format given is used with one dot in front (%s)" % show(arg)[:60], nt[0][5])
            want = I.rd_proj(payload(I, nt[0][4]), ("f", 1, "1")) if is_some(I, s, nt[0][4]) else nt[0][3][0]
        for a in list(sc.asks(all_events(s.events()))):
            if a[7] == BYNAME:
                ctx.ob(mode + ":no-name", mode != "content", "%s: a handler is asked by name only if there is one" % mode, a[5])
                if want is not None:
                    x = I.deep(s, a[3][1])
                    ctx.ob(mode + ":asked-name", bare(x) == bare(want), "%s: handlers are asked about the name without the ending of a compression (%s)" % (mode, show(x)[:60]), a[5])
            else:
                ctx.ob("given:no-guess", mode != "given", "a handler is not looked for by content if the format was given", a[5])
        for _, V in done:
            ctx.ob("whole-list", is_self_list(V, "source_factories"), "all handlers are asked (%s)" % show(V)[:60])
        ndone = any(a[7] == BYNAME and is_self_list(V, "source_factories") for a, V in done)
        cdone = any(a[7] == BYCONTENT and is_self_list(V, "source_factories") for a, V in done)
        if made:
            n += 1
            c = made[-1]
            ctx.ob("one-source", len(made) == 1, "one source is created", c[5])
            acc = sc.accepted(c[2][0])
            if isinstance(acc, str):
                ctx.ob(mode + ":first", False, "%s: %s" % (mode, acc), c[5])
                continue
            a, V = acc
            ctx.ob(mode + ":first", is_self_list(V, "source_factories"), "%s: the first handler that accepts is used (%s)" % (mode, show(V)[:60]), c[5])
            if a[7] == BYCONTENT:
                ctx.ob(mode + ":name-first", mode == "content" or mode == "name" and ndone, "%s: content is looked at only if no handler accepts the name" % mode, c[5])
                pv = I.deep(s, a[3][1])
                ctx.ob(mode + ":content", bare(pv) == bare(c[2][1]), "%s: handlers look at the content that is read (%s)" % (mode, show(pv)[:60]), c[5])
            res = c[4]
            ok = o[1] == res or o[1] == adt(RESULT, "Ok", payload(I, res, "Ok")) or mentions(o[1], lambda t: t[0] == "dc" and t[1] == res)
            ctx.ob(mode + ":returned", ok, "%s: the source created is returned" % mode, c[5])
            continue
        if "Ok" in variants(I, s, o[1], RESULT):
            ctx.ob(mode + ":source", False, "%s: success without a source that was created" % mode)
            continue
        if failed(I, s, o[1], s.events()):
            continue
        ok = ndone if mode == "given" else cdone if mode == "content" else ndone and cdone
        ctx.ob(mode + ":none", ok, "%s: it is an error only if no handler accepts" % mode)
    ctx.ob("handlers", n > 0, "%d path(s) that create a source" % n)
    return p


def adt(ty, var, *xs):
    return ("adt", ty, var, tuple(xs))


# ---------------------------------------------------------------- which transport
def transports(ctx, kind, trait, p):
    F = ctx.F
    news = tuple(sorted(q for q in F.bodies if q.startswith("util::reader::") and q.endswith("::new")))
    I, outs = ctx.explore(p, opaque=news)
    b = F.body(p)
    pp = next((("p", i) for i, t in enumerate(b["locals"][1:b["argc"] + 1]) if tyname(F, t).endswith("::Path")), None)
    if pp is None:
        ctx.undecided("%s: no path" % p)
        return
    n = 0
    for s, o in outs:
        if o[0] != "ret":
            continue
        sc = Scan(ctx, I, s, s.events(), (trait + "::can_open",))
        opened = [e for e in s.events() if e[0] == "call" and e[7] == trait + "::open"]
        inloop = [e for e in all_events(s.events()) if e[0] == "call" and e[7] == trait + "::open" and e not in opened]
        ctx.ob(kind + ":one-open", len(opened) <= 1 and not inloop, "%s: one transport is opened" % kind, (opened + inloop)[0][5] if opened or inloop else None)
        for a in sc.asks(all_events(s.events())):
            ctx.ob(kind + ":path", bare(a[3][1]) == pp, "%s: transports are asked about the path (%s)" % (kind, show(a[3][1])[:60]), a[5])
        done = sc.exhausted()
        if opened:
            n += 1
            c = opened[-1]
            acc = sc.accepted(c[2][0])
            if isinstance(acc, str):
                ctx.ob(kind + ":first", False, "%s: %s" % (kind, acc), c[5])
                continue
            ctx.ob(kind + ":first", is_self_list(acc[1], "transports"), "%s: the first transport that can open the path is used (%s)" % (kind, show(acc[1])[:60]), c[5])
            ctx.ob(kind + ":opened-path", bare(c[3][1]) == pp, "%s: the path is opened (%s)" % (kind, show(c[3][1])[:60]), c[5])
            ov = variants(I, s, c[4], RESULT)
            v = I.deep(s, o[1])
            if ov == {"Err"}:
                ctx.ob(kind + ":error", variants(I, s, o[1], RESULT) == {"Err"}, "%s: an input that cannot be opened is an error" % kind, c[5])
                continue
            rd = payload(I, c[4], "Ok")
            if "Ok" in variants(I, s, o[1], RESULT):
                x = I.deep(s, payload(I, o[1], "Ok"))
                ok = is_some(I, s, x)
                src = bare(payload(I, x))
                # straight from the reader, through the previewer or a buffer
                k = next((e for e in s.events() if e[0] == "call" and e[1] in news and payload(I, e[4], "Ok") == src), None)
                through = mentions(src, lambda t: t == rd) or k is not None and mentions(I.deep(s, k[2][0]), lambda t: t == rd)
                ctx.ob(kind + ":opened", ok and through, "%s: what was opened is what is read (%s)" % (kind, show(x)[:60]), c[5])
            continue
        if variants(I, s, o[1], RESULT) == {"Err"}:
            ctx.ob(kind + ":error", failed(I, s, o[1], s.events()), "%s: no error without something that failed" % kind)
            continue
        ctx.ob(kind + ":none", any(is_self_list(V, "transports") for _, V in done) and is_none(I, s, payload(I, o[1], "Ok")),
               "%s: a path is left to others only if no transport can open it" % kind)
    ctx.ob(kind, n > 0, "%s: %d path(s) that open an input" % (kind, n))


# ---------------------------------------------------------------- what is tried, in which order
def whole_input(ctx, sp):
    """create_source_from_input: standard input, then directories, then single files"""
    F = ctx.F
    news = tuple(sorted(q for q in F.bodies if q.startswith("util::reader::") and q.endswith("::new")))
    fp = fn_by(F, lambda p, b: p.startswith(SFI) and "Path" in " ".join(tyname(F, t) for t in b["locals"][1:b["argc"] + 1]) and
               tyname(F, b["locals"][0]) == "core::result::Result" and FMT in [tyname(F, t) for t in b["locals"][1:b["argc"] + 1]])
    p = fn_by(F, lambda p, b: p.startswith(INF) and INPUT in [tyname(F, t) for t in b["locals"][1:b["argc"] + 1]])
    if len(p) != 1 or len(fp) != 1:
        ctx.undecided("the function that creates a source from an input")
        return
    multi = tuple(q for q in F.bodies if q.endswith("SerialMultiFileSource::new") or q.endswith("FilesInDirPathProvider::new"))
    I, outs = ctx.explore(p[0], opaque=(sp, fp[0]) + multi + news)
    inp = ("deref", ("p", 1))
    fi, ii = F.field_index(INPUT, "format"), F.field_index(INPUT, "input")
    fmt, src = ("fld", inp, fi, "format"), ("fld", inp, ii, "input")
    path = payload(I, src, "Path")
    for s, o in outs:
        if o[0] != "ret":
            continue
        kinds = variants(I, s, src, "input::input::InputType")
        ev = s.events()
        viaprev, viapath = list(calls(ev, sp)), list(calls(ev, fp[0]))
        viadir = [e for e in ev if e[0] == "call" and e[1].endswith("SerialMultiFileSource::new")]
        err = failed(I, s, o[1], ev) and variants(I, s, o[1], RESULT) == {"Err"}
        if kinds == {"StdIn"}:
            if viaprev:
                e = viaprev[0]
                ctx.ob("stdin:format", bare(I.deep(s, e[3][3])) == fmt, "standard input is read in the format given (%s)" % show(e[3][3])[:60], e[5])
                ctx.ob("stdin:no-name", is_none(I, s, e[3][2]), "standard input has no name (%s)" % show(e[3][2])[:60], e[5])
                ctx.ob("stdin:read", any(mentions(I.deep(s, x[3][0]), lambda t: "stdin" in str(t)) and payload(I, x[4], "Ok") == bare(e[2][1])
                                         for x in ev if x[0] == "call" and x[1] in news), "standard input is what is read", e[5])
            else:
                ctx.ob("stdin:source", err, "standard input is read")
            continue
        if kinds != {"Path"}:
            ctx.undecided("a path for more than one kind of input")
            continue
        sc = Scan(ctx, I, s, ev, (DIR + "::can_handle",))
        done = any(is_self_list(V, "dir_transports") for _, V in sc.exhausted())
        ispath = lambda t: mentions(I.deep(s, t), lambda x: x == path or x == ("deref", path))
        for a in sc.asks(all_events(ev)):
            ctx.ob("dir:path", ispath(a[3][1]), "directory transports are asked about the path (%s)" % show(a[3][1])[:60], a[5])
        if viapath:
            e = viapath[0]
            ctx.ob("path:dir-first", done, "a path is opened as a single file only if no directory transport takes it", e[5])
            ctx.ob("path:path", ispath(e[3][1]), "the path is opened (%s)" % show(e[3][1])[:60], e[5])
            ctx.ob("path:format", bare(I.deep(s, e[3][2])) == fmt, "the format given is used (%s)" % show(e[3][2])[:60], e[5])
            if variants(I, s, e[4], RESULT) == {"Ok"}:
                x = payload(I, e[4], "Ok")
                if is_some(I, s, x):
                    ctx.ob("path:source", payload(I, o[1], "Ok") == payload(I, x), "the source created is returned (%s)" % show(o[1])[:60], e[5])
                elif is_none(I, s, x):
                    ctx.ob("path:none", variants(I, s, o[1], RESULT) == {"Err"}, "a path that nothing can open is an error", e[5])
                else:
                    ctx.ob("path:none", False, "the result is not looked at", e[5])
            else:
                ctx.ob("path:error", variants(I, s, o[1], RESULT) == {"Err"}, "an error is passed on", e[5])
            continue
        ds = [e for e in ev if e[0] == "call" and e[1].endswith("FilesInDirPathProvider::new")]
        if not ds:
            ctx.ob("path:handled", err, "a path is taken by a directory transport or opened as a single file (%s)" % show(o[1])[:60])
            continue
        acc = sc.accepted(ds[0][3][0]) if ds[0][3][0] != ds[0][2][0] else sc.accepted(ds[0][2][0])
        if isinstance(acc, str):
            ctx.ob("dir:first", False, acc, ds[0][5])
        else:
            ctx.ob("dir:first", is_self_list(acc[1], "dir_transports"), "the first directory transport that takes the path is used (%s)" % show(acc[1])[:60], ds[0][5])
        ctx.ob("dir:listed", ispath(ds[0][3][1]), "the path is listed (%s)" % show(ds[0][3][1])[:60], ds[0][5])
        for e in viadir:
            ctx.ob("dir:format", any(bare(I.deep(s, x)) == fmt for x in e[3]), "the format given is used for the files of a directory", e[5])
            ctx.ob("dir:files", any(mentions(I.deep(s, x), lambda t: t == payload(I, ds[0][4], "Ok")) for x in e[3]), "the files listed are read", e[5])
        if not viadir:
            ctx.ob("dir:read", err, "the files of the directory are read", ds[0][5])
    one_file(ctx, sp, fp[0])


def one_file(ctx, sp, p):
    F = ctx.F
    prev = fn_by(F, lambda q, b: q.endswith("::create_previewer"))
    seek = fn_by(F, lambda q, b: q.endswith("::create_seekable"))
    isz = fn_by(F, lambda q, b: q == "decompress::zip::is_zip")
    arch = fn_by(F, lambda q, b: q == "decompress::zip::new_reader_for_single_file_zip_archive")
    if not (prev and seek and isz and arch):
        ctx.undecided("the functions that open a single file")
        return
    news = tuple(sorted(q for q in F.bodies if q.startswith("util::reader::") and q.endswith("::new")))
    I, outs = ctx.explore(p, opaque=(sp, prev[0], seek[0], isz[0], arch[0]) + news)
    b = F.body(p)
    ps = [tyname(F, t) for t in b["locals"][1:b["argc"] + 1]]
    pp = next(("p", i) for i, t in enumerate(ps) if t.endswith("::Path"))
    fm = ("p", ps.index(FMT))
    for s, o in outs:
        if o[0] != "ret":
            continue
        ev = s.events()
        c = list(calls(ev, sp))
        ar, pv = list(calls(ev, arch[0])), list(calls(ev, prev[0]))
        z = list(calls(ev, isz[0]))
        for e in list(calls(ev, seek[0])) + pv:
            ctx.ob("file:path", bare(e[3][1]) == pp, "the path is opened (%s)" % show(e[3][1])[:60], e[5])
        isarch = bool(z) and variants(I, s, z[0][4], RESULT) == {"Ok"} and entails(I, s, payload(I, z[0][4], "Ok"))
        if ar:
            ctx.ob("file:archive", isarch, "a file is read as a zip archive only if it is one", ar[0][5])
        if pv:
            sk = list(calls(ev, seek[0]))
            ok = bool(sk) and variants(I, s, sk[0][4], RESULT) == {"Ok"} and (
                is_none(I, s, payload(I, sk[0][4], "Ok")) or bool(z) and variants(I, s, z[0][4], RESULT) == {"Ok"} and entails(I, s, neg(payload(I, z[0][4], "Ok"))))
            ctx.ob("file:stream", ok, "a file is streamed only if it is not a zip archive on disk", pv[0][5])
        if c:
            e = c[0]
            ctx.ob("file:format", bare(I.deep(s, e[3][3])) in (fm, ("deref", fm)), "the format given is used (%s)" % show(e[3][3])[:60], e[5])
            nm, rd = e[3][2], bare(e[2][1])
            if ar:
                rdr, name = (I.rd_proj(payload(I, ar[0][4], "Ok"), ("f", i, str(i))) for i in (0, 1))
                ok = any(x[1] in news and payload(I, x[4], "Ok") == rd and mentions(x[3][0], lambda t: t == rdr) for x in ev if x[0] == "call")
                ctx.ob("file:archive-read", ok, "the file in the archive is what is read (%s)" % show(rd)[:60], e[5])
                ctx.ob("file:archive-name", is_some(I, s, nm) and bare(payload(I, nm)) == name, "the name of the file in the archive counts (%s)" % show(nm)[:60], e[5])
            elif pv:
                x = payload(I, pv[0][4], "Ok")
                ctx.ob("file:stream-read", is_some(I, s, x) and payload(I, x) == rd, "what was opened is what is read (%s)" % show(rd)[:60], e[5])
                fname = [x for x in subterms(nm) if x[0] == "app" and x[1].endswith("Path::file_name")]
                ok = is_none(I, s, nm) or any(bare(x[2][0]) == pp for x in fname)
                if is_none(I, s, nm):
                    fc = [x for x in ev if x[0] == "call" and x[1].endswith("Path::file_name")]
                    ok = any(is_none(I, s, x[4]) for x in fc)
                ctx.ob("file:stream-name", ok, "the name of the file counts (%s)" % show(nm)[:60], e[5])
            res = e[4]
            if variants(I, s, res, RESULT) == {"Ok"}:
                v = payload(I, o[1], "Ok")
                ctx.ob("file:returned", is_some(I, s, v) and payload(I, v) == payload(I, res, "Ok"), "the source created is returned (%s)" % show(o[1])[:60], e[5])
            continue
        if variants(I, s, o[1], RESULT) == {"Err"}:
            ctx.ob("file:error", failed(I, s, o[1], ev), "no error without something that failed (%s)" % show(o[1])[:60])
            continue
        ok = bool(pv) and variants(I, s, pv[0][4], RESULT) == {"Ok"} and is_none(I, s, payload(I, pv[0][4], "Ok"))
        ctx.ob("file:none", ok, "a file is given up only if no transport can open it")


# ---------------------------------------------------------------- the lists
def flatten(I, s, t):
    """the list as parts: ("all", term) or ("one", element)"""
    t = I.deep(s, t)
    if t[0] == "seq":
        return [("one", I.deep(s, x)) for x in t[1]]
    if t[0] == "append":
        a, b = flatten(I, s, t[1]), flatten(I, s, t[2])
        return a + b if a is not None and b is not None else None
    if t[0] == "push":
        a = flatten(I, s, t[1])
        return a + [("one", I.deep(s, t[2]))] if a is not None else None
    if t[0] == "app" and t[1] == "default":
        return []
    if t[0] in ("collect", "iter", "into", "d", "cloned"):
        return flatten(I, s, t[1])
    if t[0] == "chain":
        a, b = flatten(I, s, t[1]), flatten(I, s, t[2])
        return a + b if a is not None and b is not None else None
    if t[0] in ("fld", "dc", "p", "deref"):
        return [("all", t)]
    return None


def lists(ctx):
    F = ctx.F
    ps = fn_by(F, lambda p, b: p.startswith(INF) and INF.split("::")[-1] in F.tys[b["locals"][0]]["s"])
    base = [p for p in ps if not any(q != p and q in ctx.reach(p) for q in ps)]
    if not ps:
        ctx.undecided("no function makes an InputFactory")
        return
    csv, dc = "source::csv_factory::CSVFactory", "source::dc_factory::DCFactory"
    dflt = {"source_factories": {dc}, "streaming": {"transport::streaming::file::FileTransport", "transport::streaming::http::HttpTransport"},
            "seekable": {"transport::seekable::file::SeekableFileTransport"}, "dir_transports": {"transport::dir::file::DirFileTransport"}}
    for p in ps:
        I, outs = ctx.explore(p)
        b = F.body(p)
        prm = b["locals"][1:b["argc"] + 1]
        par = {}
        for i, t in enumerate(prm):
            ty = F.tys[t]["s"]
            if "Option<" in ty and "dyn" in ty:
                par["source_factories" if "SourceFactory" in ty else "streaming" if "StreamingTransport" in ty else "?"] = ("p", i)
            elif "CSVInputConfig" in ty:
                par["csv"] = (("p", i), "Option<" in ty)
        who = p.split("::")[-1]
        for s, o in outs:
            if o[0] != "ret" or "Ok" not in variants(I, s, o[1], RESULT):
                if o[0] == "ret":
                    ctx.ob("lists:made", False, "%s: %s is returned" % (who, show(o[1])[:60]))
                continue
            f = I.deep(s, payload(I, o[1], "Ok"))
            sf = I.deep(s, fld_of(I, f, "single_file_input_factory", INF))
            got = {"dir_transports": fld_of(I, f, "dir_transports", INF), "source_factories": fld_of(I, sf, "source_factories", SFI),
                   "streaming": fld_of(I, I.deep(s, fld_of(I, sf, "previewer_transport_factory", SFI)), "transports"),
                   "seekable": fld_of(I, I.deep(s, fld_of(I, sf, "seekable_transport_factory", SFI)), "transports")}
            for k, v in got.items():
                if v is None:
                    ctx.undecided("%s: no list of %s" % (who, k))
                    continue
                parts = flatten(I, s, v)
                if parts is None:
                    ctx.undecided("%s: %s is %s" % (who, k, show(I.deep(s, v))[:100]))
                    continue
                u = par.get(k)
                if u is not None:
                    var = variants(I, s, u, OPTION)
                    if var == {"Some"}:
                        ok = bool(parts) and parts[0] == ("all", payload(I, u))
                        ctx.ob(k + ":users-first", ok, "%s: the caller's entries come first (%s)" % (who, [show(x[1])[:40] for x in parts]))
                        if ok:
                            parts = parts[1:]
                    elif var != {"None"}:
                        ctx.ob(k + ":users-first", False, "%s: the caller's entries are not looked at" % who)
                tys = [x[1][1] if x[0] == "one" and x[1][0] == "adt" else "?" for x in parts]
                if "?" in tys:
                    ctx.undecided("%s: %s holds %s" % (who, k, [show(x[1])[:40] for x in parts]))
                    continue
                want = set(dflt[k])
                if k == "source_factories":
                    c = par.get("csv")
                    if c is not None and (not c[1] or is_some(I, s, c[0])):
                        want.add(csv)
                    ctx.ob("csv-last", csv not in tys[:-1], "%s: the csv handler is asked last (%s)" % (who, ", ".join(t.split("::")[-1] for t in tys)))
                ctx.ob(k + ":built-in", set(tys) == want and len(tys) == len(want), "%s: all built-in entries are in the list (%s)" %
                       (who, ", ".join(t.split("::")[-1] for t in tys)))
                if k == "source_factories" and csv in want:
                    e = next((x[1] for x in parts if x[1][0] == "adt" and x[1][1] == csv), None)
                    c = par["csv"]
                    w = payload(I, c[0]) if c[1] else c[0]
                    ctx.ob("csv-config", e is not None and any(bare(x) == w for x in e[3]), "%s: the csv handler has the caller's configuration (%s)" % (who, show(e)[:80] if e else e))


# ---------------------------------------------------------------- what the built-in handlers accept
def accepts(ctx):
    F = ctx.F
    for ty, ending in (("source::csv_factory::CSVFactory", ".csv"), ("source::dc_factory::DCFactory", ".dc")):
        name = ty.split("::")[-1]
        p = ctx.impl_method(FACT, "can_create_from_format", ty)
        I, outs = ctx.explore(p)
        x = ("deref", ("p", 1))
        c = app("ends_with", x, ("s", ending))
        for s, o in outs:
            if o[0] == "ret":
                ctx.ob(name + ":name", same_truth(I, s, o[1], c), "%s accepts the names that end in %s (%s)" % (name, ending, show(o[1])[:80]))
        p = ctx.impl_method(FACT, "can_create_from_previewer", ty)
        I, outs = ctx.explore(p)
        if ending == ".csv":
            i = F.field_index(PREV, "lines")
            if i is None:
                ctx.undecided("the preview's lines are not in a field of their own")
                continue
            c = rel("Eq", I.discr_of(("fld", ("deref", ("p", 1)), i, "lines")), C(1))
            for s, o in outs:
                if o[0] == "ret":
                    ctx.ob(name + ":content", same_truth(I, s, o[1], c), "%s accepts all content that is text (%s)" % (name, show(o[1])[:80]))
            continue
        i = F.field_index(PREV, "trimmed_buf")
        if i is None:
            ctx.undecided("the preview is not in a field of its own")
            continue
        buf = ("fld", ("deref", ("p", 1)), i, "trimmed_buf")
        w = dict(enumerate(b"\0\0\0\0DCAT\0\2"))
        for s, o in outs:
            if o[0] != "ret":
                continue
            known = byte_conds(ctx, I, s, buf)
            if known is None:
                continue
            bad = known[3]
            if bad:
                ctx.undecided("%s: condition %s" % (name, show(bad[0])[:100]))
                continue
            v = o[1]
            for tv in (True, False):
                s2 = s.fork()
                if not I.assume(s2, v, tv):
                    continue
                known = byte_conds(ctx, I, s2, buf)
                if known is None:
                    continue
                pos, negs, short, bad = known
                if bad:
                    ctx.undecided("%s: condition %s" % (name, show(bad[0])[:100]))
                elif tv:
                    ctx.ob(name + ":content", all(pos.get(k) == b for k, b in w.items()), "%s accepts only content with the magic number and version of a dc file (known: %s)" %
                           (name, " ".join("%d:%02x" % kv for kv in sorted(pos.items()))))
                else:
                    ok = short is not None and short <= len(w) or any(w.get(k, b) != b for k, b in pos.items()) or \
                        excluded(negs, w)
                    ctx.ob(name + ":content-missed", ok, "%s accepts all content with the magic number and version of a dc file" % name)


def same_truth(I, s, v, c):
    if v == c:
        return True
    for tv in (True, False):
        s2 = s.fork()
        if I.assume(s2, v, tv) and not entails(I, s2, c if tv else neg(c)):
            return False
    return True


def run(ctx):
    F = ctx.F
    sp = handlers(ctx)
    for kind, trait, mod in (("streaming", STREAM, "PreviewerTransportFactory::create_previewer"), ("seekable", SEEK, "SeekableTransportFactory::create_seekable")):
        ps = fn_by(F, lambda p, b: p.endswith(mod))
        if len(ps) != 1:
            ctx.undecided("%d functions open a %s transport" % (len(ps), kind))
            continue
        transports(ctx, kind, trait, ps[0])
    if sp:
        whole_input(ctx, sp)
    lists(ctx)
    accepts(ctx)
