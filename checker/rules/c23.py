"""C23: results go to the output named, in the format its name asks for, and nothing else is touched."""
from vecs import *
from c15 import tyname, fn_by
from c21 import fold
from c17 import bare

RULE = ("The function that makes the output of a name is explored, everything it calls entered, and each of its paths is evaluated for witness "
        "names (csv, dc, other, several dots, none): a csv or dc name creates that very file once, empty, and gives a writer of that format "
        "over it or the error met; any other name gives an error with nothing created; no name gives a csv writer over standard output. "
        "Every function of the crate is searched for calls that create, change or remove files, start processes, change the environment, "
        "send to the network or write to standard output: there are none besides those explored. No function that opens an input is called "
        "once the output has been made, up to the function that hands out the driver.")
TECHNIQUE = "path-by-path evaluation of the output's factory on witness names, effect analysis over the call graph"
LIMITS = ("What the operating system and the crates used do with a call is taken from their documentation. Names that end in csv or dc without "
          "a dot before are left open. That the option's value is the name given to the factory is C20's.")

NAMES = [("out.csv", "csv"), ("dir.d/out.csv", "csv"), ("a.dc.csv", "csv"), ("../x y.csv", "csv"),
         ("out.dc", "dc"), ("dir.csv/out.dc", "dc"), ("a.csv.dc", "dc"),
         ("out.txt", None), ("out.csv.gz", None), ("out.dc.lz4", None), ("csv.txt", None), ("dir.csv/out", None), ("out.csv2", None),
         ("out", None), ("", None), ("out.dcx", None), ("dc.out", None)]
FS = "std::fs::"
CREATES = ("std::fs::File::create", "std::fs::File::create_new", "std::fs::File::create_buffered", "std::fs::write")
READS = ("open", "open_buffered", "read", "read_to_string", "read_dir", "metadata", "symlink_metadata", "exists", "canonicalize", "read_link",
         "path", "file_name", "file_type", "is_dir", "is_file", "is_symlink", "len", "modified", "accessed", "created", "permissions", "next",
         "as_fd", "as_raw_fd", "try_clone", "by_ref", "fmt", "clone", "eq", "seek", "stream_position", "rewind", "read_exact", "read_to_end",
         "read_vectored", "read_buf", "bytes", "chain", "take", "size_hint", "readonly", "sync_all", "sync_data", "flush", "from", "into", "drop",
         "mode", "mtime", "ino", "dev", "nlink", "uid", "gid", "size", "blocks", "blksize")
OPT = "std::fs::OpenOptions::"
OUT = ("std::io::stdio::stdout",)


def paths_of(F, b):
    """(path called or mentioned, block)"""
    for i, bb in enumerate(b["bbs"]):
        if bb["cl"]:
            continue
        t = bb["t"]
        fs = []
        if t["k"] == "call":
            fs.append(t["f"].get("c", {}).get("fn"))
            fs += [a["c"]["fn"] for a in t["args"] if isinstance(a, dict) and "fn" in a.get("c", {})]
        for pl, rv, sp in bb["s"]:
            for x in ([rv.get("x"), rv.get("y")] + list(rv.get("xs", []))):
                f = x.get("c", {}).get("fn") if isinstance(x, dict) else None
                if f:
                    fs.append(f)
            if rv.get("k") == "agg" and rv.get("ak") == "closure":
                yield rv["p"], i
        for f in fs:
            if f:
                for q in {f["p"], f.get("r") or f["p"]}:
                    yield q, i


def plain(p):
    """a path without its generics and trait"""
    q = p[1:] if p.startswith("<") else p
    if p.startswith("<") and " as " in q:
        ty, _, rest = q.partition(" as ")
        return ty.lstrip("&").replace("mut ", "") + "::" + rest.rsplit("::", 1)[-1]
    out, d = "", 0
    for ch in p:
        d += ch == "<"
        if not d:
            out += ch
        d -= ch == ">"
    return out.replace("::::", "::")


def effect(p):
    """what a call outside the crate does to the world, or None"""
    q = plain(p)
    n = q.rsplit("::", 1)[-1]
    if q.startswith(OPT) or q.startswith("std::os::unix::fs::OpenOptions"):
        return "opens with options" if n == "open" else "options" if n != "new" else None
    if q == "std::fs::File::options":
        return None
    if q.startswith(FS):
        return None if n in READS else "creates" if q in CREATES else "changes files"
    if q.startswith(("std::os::unix::fs::", "std::os::fd", "std::os::linux")) and n in ("symlink", "chown", "fchown", "lchown", "chroot", "mkfifo", "write_at",
                                                                                     "write_all_at"):
        return "changes files"
    if q.startswith("csv::writer::") and n == "from_path":
        return "creates"
    if q.startswith("std::process::Command") or n == "exec" and "process" in q:
        return "starts a process"
    if q in ("std::env::set_var", "std::env::remove_var", "std::env::set_current_dir"):
        return "changes the environment"
    if q.startswith(("std::net::", "std::os::unix::net::")) and n in ("connect", "bind", "connect_timeout", "send_to", "accept", "incoming"):
        return "uses the network"
    if q.startswith("ureq::") and n in ("post", "put", "patch", "delete", "options", "request", "trace", "send", "send_string", "send_json",
                                        "send_bytes", "send_form"):
        return "sends to the network"
    if q.startswith("libc::"):
        return "calls the system"
    if n in ("_print",) and q.startswith("std::io"):
        return "prints"
    if q in OUT:
        return "takes standard output"
    if q.startswith("std::io::stdio::Stdout") and n in ("write", "write_all", "write_fmt", "write_vectored"):
        return "prints"
    return None


def opens_input(p):
    q = plain(p)
    return q in ("std::fs::File::open", "std::fs::read", "std::fs::read_to_string", "std::fs::read_dir", "std::path::Path::read_dir",
                 "std::io::stdio::stdin", "std::fs::File::open_buffered") or q.startswith("ureq::") and q.endswith("::get") or q == "ureq::get"


def has(t, x):
    return any(y == x for y in subterms(t))


# ---------------------------------------------------------------- the factory
def role(ctx):
    F = ctx.F

    def ok(p, b):
        r = F.tys[b["locals"][0]]["s"]
        ps = [F.tys[t]["s"] for t in b["locals"][1:b["argc"] + 1]]
        return "Result<" in r and "dyn" in r and "HeaderSink" in r and any("Option<" in x and "str" in x for x in ps[:1])
    c = [p for p in fn_by(F, ok) if "impl" not in p]
    return c


def flags_of(events):
    """the settings of the last OpenOptions of a list of events"""
    f = {}
    for e in events:
        q = plain(e[1]) if e[0] == "call" else ""
        if q in (OPT + "new", FS + "File::options"):
            f = {}
        elif q.startswith(OPT) and len(e[2]) == 2:
            f[q.rsplit("::", 1)[-1]] = e[2][1]
    return f


def made(ctx, top):
    """decide the paths of the factory"""
    F = ctx.F
    I, outs = ctx.explore(top)
    name = bare(payload(I, ("p", 0)))
    where = F.body(top)["span"]
    sinks = {}
    for q in ("CSVSink", "DCSink"):
        sinks["csv" if q[0] == "C" else "dc"] = next((a for a in F.adts if a.endswith("::" + q)), None)
    if not all(sinks.values()):
        raise Undecided("no type of the csv and of the DC output")
    rows = []
    for s, o in outs:
        conds = list(s.conds())
        ev = [e for e in all_events(s.events()) if e[0] == "call"]
        eff = [(effect(e[1]), e) for e in ev if effect(e[1]) not in (None, "options")]
        rows.append((s, o, conds, ev, eff))

    def writer(s, o):
        """(kind of sink, its term) of a result Ok"""
        v = I.deep(s, o[1])
        p = bare(v[3][0])
        while p[0] in ("box", "vref"):
            p = I.deep(s, I.read(s, (p[1], ()))) if p[0] == "box" else p[1]
        return (next((k for k, a in sinks.items() if p[0] == "adt" and p[1] == a), None), p)

    def outcome(s, o, ev, eff, want):
        """judge one path for one name; None or the trouble"""
        if o[0] != "ret":
            return "the run does not come back with an error or an output"
        v = I.deep(s, o[1])
        if v[0] != "adt":
            raise Undecided("%s returns what was not followed: %s" % (top, show(v)[:60]))
        made = [e for k, e in eff if k in ("creates", "opens with options")]
        other = [(k, e) for k, e in eff if k not in ("creates", "opens with options", "takes standard output")]
        if other:
            return "%s (%s)" % (other[0][0], plain(other[0][1][1]))
        if want is None:
            if made:
                return "a file is created"
            return None if v[2] == "Err" else "it is taken"
        if want == "none":
            if made:
                return "a file is created"
            if v[2] == "Err":
                return "it is refused"
        else:
            if len(made) != 1:
                if not made and v[2] == "Err":
                    return "it is refused"
                return "%d files are created" % len(made)
            e = made[0]
            q = plain(e[1])
            a = e[2][-1] if q.startswith(OPT) else e[2][0]
            if not same_name(s, a):
                return "the file created is not the one named, but %s" % show(I.deep(s, a))[:60]
            if q == "std::fs::File::create_new" or q == "std::fs::write":
                return "a file of that name is not emptied and written to" if q.endswith("new") else "the file is written at once"
            if q.startswith(OPT):
                f = flags_of([x for x in all_events(s.events()) if x[0] == "call"])
                on = {k for k, x in f.items() if x == ("b", True)}
                odd = [k for k, x in f.items() if x not in (("b", True), ("b", False)) and k in ("append", "create_new", "create", "truncate", "write")]
                if odd:
                    raise Undecided("%s: the options the file is opened with are not constants" % top)
                for k, w in (("append", "is appended to"), ("create_new", "is refused when there is one")):
                    if k in on:
                        return "the file " + w
                for k, w in (("write", "is not opened for writing"), ("create", "is not created"), ("truncate", "is not emptied first")):
                    if k not in on:
                        return "the file " + w
            res = e[4]
            if is_variant(s, res, "Err"):
                return None if v[2] == "Err" else "a file that cannot be created is no error"
            if v[2] == "Err":
                return "it is refused"
        k, w = writer(s, o)
        if k is None:
            raise Undecided("%s: the output made is not followed: %s" % (top, show(w)[:60]))
        fmt = "csv" if want == "none" else want
        if k != fmt:
            return "the output is written as %s" % k
        tgt = over(s, ev, [e[4] for q, e in eff if q == "takes standard output"])
        if want == "none":
            if not any(has(w, t) for t in tgt):
                return "the output is not standard output"
        else:
            p = payload(I, made[0][4], "Ok")
            if any(has(w, t) for t in tgt):
                return "the output is standard output"
            if not any(has(w, t) for t in over(s, ev, [p, made[0][4]])):
                return "the output is not the file created"
        return None

    def same_name(s, a):
        t = bare(I.deep(s, a))
        while t[0] == "app" and len(t[2]) == 1 and t[1].rsplit("::", 1)[-1] in ("from", "into", "to_string", "to_owned", "as_ref", "new", "clone",
                                                                             "as_str", "as_path", "to_path_buf", "deref", "borrow"):
            t = bare(t[2][0])
        return t == name

    def is_variant(s, res, v):
        vs = variants(I, s, res, "core::result::Result")
        return vs == {v} or vs == [v]

    open_ = []

    def known(c, nm):
        """what the parts of a condition are for a name: pieces of a path, endings cut off"""
        m = {name: ("s", nm)}
        for x in subterms(c):
            if x[0] == "y" and isinstance(x[1], bytes):
                m[x] = ("s", x[1].decode("latin-1"))
        for x in sorted({x for x in subterms(c) if x[0] == "app"}, key=lambda x: len(str(x))):
            a = [fold(y, m) for y in x[2]]
            if not a or bare(a[0])[0] != "s":
                continue
            v, q, n = bare(a[0])[1], plain(x[1].replace("call:", "")), x[1].rsplit("::", 1)[-1]
            base = "" if v.endswith("/..") or v == ".." else v.rstrip("/").rpartition("/")[2]
            dot = base.rpartition(".")
            r = False
            if q == "std::path::Path::new" or q.startswith("std::ffi::") and n in ("new", "to_string_lossy", "as_os_str"):
                m[x] = ("s", v)
                continue
            if q == "std::path::Path::extension":
                r = dot[2] if dot[0] else None
            elif q == "std::path::Path::file_stem":
                r = (dot[0] or base) or None
            elif q == "std::path::Path::file_name":
                r = base or None
            elif n == "to_str":
                r = v
            elif n in ("strip_suffix", "strip_prefix") and len(a) == 2 and bare(a[1])[0] in ("s", "ch"):
                k = bare(a[1])[1]
                r = (v[:len(v) - len(k)] if v.endswith(k) else None) if n == "strip_suffix" else v[len(k):] if v.startswith(k) else None
            elif n in ("rsplit_once", "split_once") or q.endswith("Path::parent"):
                continue
            if r is False:
                continue
            m[("discr", x)] = C(0 if r is None else 1)
            if r is not None:
                m[bare(payload(I, x))] = ("s", r)
        return m

    def holds(c, nm, eff):
        """truth of a condition for a name: True, False or None where it is not about it"""
        x = fold(c, known(c, nm))
        if x == ("b", True) or x == ("b", False):
            return x[1]
        met = [e[4] for k, e in eff]
        if has(c, name) or any(y[0] in ("res", "post", "lv") and y not in met for y in subterms(c)):
            open_.append("%s: the test of the name is not followed: %s" % (top, show(c)[-90:]))
        return None

    def over(s, ev, start):
        """all that is made of some results"""
        out = list(start)
        for e in ev:
            if any(has(x, t) for a in e[2] for x in (a, I.deep(s, a)) for t in out):
                out.append(e[4])
        return out

    for nm, want in NAMES + [(None, "none")]:
        what = "no output name" if nm is None else "the output name %r" % nm
        n, bad, unsure = 0, None, []
        for s, o, conds, ev, eff in rows:
            g = True if is_some(I, s, ("p", 0)) else False if is_none(I, s, ("p", 0)) else None
            if g is not None and g != (nm is not None):
                continue
            del open_[:]
            if nm is not None and any([holds(c, nm, eff) is False for c in conds]):
                continue
            unsure += open_
            n += 1
            t = outcome(s, o, ev, eff, want)
            # a path that may not be open for this name is judged by what is wrong for any name
            if t and not bad and (not open_ or t.startswith(("the file ", "the output is not the file", "the output is standard", "a file that"))):
                bad = t
        if unsure and not bad or not n:
            ctx.undecided(unsure[0] if unsure else "%s: no path for %s" % (top, what))
            continue
        ok = {"csv": "creates that file once and writes csv to it, or gives the error met", "none": "writes csv to standard output",
              "dc": "creates that file once and writes DC to it, or gives the error met", None: "is refused with nothing created"}[want]
        ctx.ob("made:%s" % (nm if nm is not None else "-"), bad is None, "%s %s" % (what, ok) if not bad else "with %s, %s" % (what, bad), where)
    # the style given is the one of the output
    cfg = next((i for i in range(F.body(top)["argc"]) if "CSVOutputConfig" in F.tys[F.body(top)["locals"][1 + i]]["s"]), None)
    if cfg is not None:
        given = payload(I, ("p", cfg))
        for s, o, conds, ev, eff in rows:
            if o[0] == "ret" and is_some(I, s, ("p", cfg)):
                v = I.deep(s, o[1])
                if v[0] == "adt" and v[2] == "Ok" and writer(s, o)[0] == "csv":
                    w = writer(s, o)[1]
                    ctx.ob("style", has(w, given), "a csv output has the style given with it", where)


# ---------------------------------------------------------------- the rest of the crate
def elsewhere(ctx, top, inside):
    F = ctx.F
    seen, n = {}, 0
    for p, b in F.bodies.items():
        for q, i in paths_of(F, b):
            n += 1
            k = None if q in F.bodies else effect(q)
            if k:
                seen.setdefault((p, plain(q), k), b["bbs"][i]["sp"])
    writes = set()
    for (p, q, k), sp in sorted(seen.items()):
        if p in inside and k in ("creates", "takes standard output", "opens with options", "options"):
            writes.add(p)
            continue
        if k in ("options", "opens with options"):
            b = F.body(p)
            names = {plain(x).rsplit("::", 1)[-1] for x, _ in paths_of(F, b) if plain(x).startswith(OPT)}
            if not names & {"write", "append", "create", "create_new", "truncate"}:
                continue        # opened to be read
        if k == "takes standard output":
            names = {plain(x).rsplit("::", 1)[-1] for x, _ in paths_of(F, F.body(p)) if "Stdout" in plain(x) or "io::Write" in x or "write::Write" in x}
            if names and names <= {"flush", "lock", "is_terminal"}:
                continue
        ctx.ob("effect:%s:%s" % (p, q), False, "%s %s (%s), which is not the output named" % (p, k, q), sp)
    ctx.ob("effects", True, "%d functions with %d calls searched: what is made or written is made by %s" % (len(F.bodies), n, top),
           F.body(top)["span"])
    # the functions that make outputs are called from the factory only
    cg = ctx.callgraph()
    mk = set(writes)
    while True:
        more = {p for p in inside - {top} if cg.get(p, set()) & mk} - mk
        if not more:
            break
        mk |= more
    for p, cs in sorted(cg.items()):
        for q in sorted((cs & mk) - {top}):
            if p not in inside:
                ctx.ob("makes:%s:%s" % (p, q), False, "%s makes an output besides the one named (%s)" % (p, q), F.body(p)["span"])
    ctx.ob("makers", True, "the %d functions that make an output are called from %s only" % (len(mk), top), F.body(top)["span"])


def last(ctx, top):
    """inputs are opened before the output is made"""
    F = ctx.F
    cg = ctx.callgraph()
    reads = {p for p in F.bodies if any(opens_input(q) for q in cg.get(p, ()))}
    # transports and sources are called through traits
    decl = {}
    for p, b in F.bodies.items():
        if p.startswith("<") and " as " in p:
            tr = p[1:].partition(" as ")[2]
            tr, _, m = tr.rpartition(">::")
            decl.setdefault(tr.split("<")[0] + "::" + m, set()).add(p)
    skip = ("next_row", "process_row", "flush", "read", "write", "next")

    def callees(p):
        out = set()
        for q in cg.get(p, ()):
            out.add(q)
            k = plain(q) if not q.startswith("<") else q
            if k in decl and k.rsplit("::", 1)[-1] not in skip:
                out |= decl[k]
        return out
    while True:
        more = {p for p in F.bodies if p not in reads and callees(p) & reads}
        if not more:
            break
        reads |= more
    mk, work = {top}, [top]
    n = 0
    while work:
        t = work.pop()
        for p, b in F.bodies.items():
            if p in mk and p != t or t not in cg.get(p, ()):
                continue
            r = F.tys[b["locals"][0]]["s"]
            for q, i in paths_of(F, b):
                if q != t:
                    continue
                after = reachable(F, b, i)
                for q2, j in paths_of(F, b):
                    if j in after and q2 != t and (q2 in reads or opens_input(q2)):
                        ctx.ob("before:%s:%s" % (p, q2), False, "%s opens an input (%s) once the output has been made" % (p, q2), b["bbs"][j]["sp"])
                if i in after:
                    ctx.ob("once:%s" % p, False, "%s makes the output named more than once" % p, b["bbs"][i]["sp"])
                n += 1
            if "Driver" in r and p not in mk:
                mk.add(p)
                work.append(p)
    ctx.ob("inputs first", True, "%d functions between the output's making and the driver's: no input is opened after the output is made" % n,
           F.body(top)["span"])


def reachable(F, b, i):
    seen, work = set(), list(F.succs(b["bbs"][i]))
    while work:
        x = work.pop()
        if x in seen or b["bbs"][x]["cl"]:
            continue
        seen.add(x)
        work.extend(F.succs(b["bbs"][x]))
    return seen


def run(ctx):
    c = role(ctx)
    if len(c) != 1:
        raise Undecided("the function that makes an output of a name is not one: %s" % c)
    elsewhere(ctx, c[0], set(ctx.explore(c[0])[0].inlined) | {c[0]})
    last(ctx, c[0])
    made(ctx, c[0])
