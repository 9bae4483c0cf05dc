"""C01: no failure is turned into success."""
from lib import *

RULE = ("Every call (and every argument) of type Result with a failure type, in every function of the crate, is followed along "
        "every path: where it failed, the function must return an error or not return at all, and a path that returns "
        "success must have seen that it succeeded (or hand the result on). In-memory reads, text parsing and end-of-file answers are not "
        "failures. The process exit code and the sinks' flush are checked as well.")
TECHNIQUE = "path-sensitive error-flow analysis over MIR (every Result tracked to every return)"
LEVEL = "other"

PARSE = ("core::num::", "chrono::", "core::str::", "alloc::string::FromUtf8Error", "std::env::VarError", "core::fmt::Error",
         "core::array::", "core::convert::Infallible", "core::char::", "alloc::string::String")
FAULT = ("error::Error", "std::io::error::Error", "core::io::error::Error", "alloc::io::error::Error")
MEMORY = ("BufReader", "Cursor", "Vec", "alloc::string::String", "Box", "BufWriter", "Global", "byteorder")
EOF_KIND = "UnexpectedEof"


class Ty:
    def __init__(self, F):
        self.F = F

    def strip(self, t):
        x = self.F.tys[t]
        while x["k"] == "ref":
            x = self.F.tys[x["t"]] if "t" in x else self.F.tys[self.F.strip_ty(t)]
            break
        return x

    def err(self, t):
        """failure type of a Result type, else None"""
        x = self.F.tys[t]
        if x["k"] == "adt" and x.get("p") == RESULT:
            e = self.F.tys[x["a"][1]]
            n = e.get("p") or e["s"]
            if n.startswith(PARSE) or e["k"] == "never":
                return None
            return n
        return None

    def results(self, t):
        """ways to find a failure inside a value of type t: [(wrap, error)]"""
        x = self.F.tys[t]
        e = self.err(t)
        if e:
            return [("", e)]
        if x["k"] == "adt" and x.get("p") == OPTION:
            return [("Some", e) for w, e in self.results(x["a"][0]) if not w]
        return []

    def leaves(self, t, seen=None):
        seen = seen if seen is not None else set()
        if t in seen:
            return []
        seen.add(t)
        x = self.F.tys[t]
        out = [x]
        for k in ("a", "ts"):
            for y in x.get(k) or ():
                if isinstance(y, int):
                    out += self.leaves(y, seen)
        if isinstance(x.get("t"), int):
            out += self.leaves(x["t"], seen)
        return out

    def memory(self, t):
        """reader or writer that only touches memory"""
        ls = self.leaves(t)
        if not any(x["k"] in ("slice", "array") or "[u8]" in x["s"] or (x.get("p") or "").endswith(("::Vec", "::String")) for x in ls):
            return False
        for x in ls:
            if x["k"] in ("dyn", "param", "alias"):
                return False
            if x["k"] == "adt" and not any(m in x["p"] for m in MEMORY):
                return False
        return True


def find(I, st, v, wrap):
    """the Result term inside v, or None when there is none on this path"""
    if not wrap:
        return v
    vs = variants(I, st, v, OPTION)
    if "Some" not in vs:
        return None
    return payload(I, v, "Some")


def short(p):
    return p.split("::")[-1]


def eof_answer(I, st, r, o, rty, F):
    """an end of file that becomes a yes/no answer"""
    x = F.tys[rty]
    if not (x["k"] == "adt" and x.get("p") == RESULT and F.tys[x["a"][0]]["s"] == "bool"):
        return False
    e = payload(I, r, "Err")
    return any(EOF_KIND in repr(c) or mentions(c, lambda y: y == e) for c in st.conds())


def mentions_term(t, x):
    return mentions(t, lambda y: y == x)


def sites(ctx, ty, p, body):
    """MIR calls of p whose value holds a failure"""
    F = ctx.F
    out = []
    for bb in body["bbs"]:
        t = bb["t"]
        if t["k"] != "call":
            continue
        fn = (t["f"].get("c") or {}).get("fn")
        try:
            rt = F.place_ty(body, t["dst"])
        except Exception:
            continue
        if fn and ty.results(rt):
            out.append((fn.get("r") or fn["p"], fn["p"], t.get("sp")))
    return out


def function(ctx, ty, p, stats):
    F = ctx.F
    body = F.bodies[p]
    rty = body["locals"][0]
    params = []
    n = body["argc"]
    off = 1
    for i in range(n):
        for w, e in ty.results(body["locals"][i + 1]):
            params.append((("p", i), w, e))
    peek = []
    if "{closure" in p and F.tys[rty]["s"] == "bool":
        for i in range(1, n):
            x = F.tys[body["locals"][i + 1]]
            if x["k"] == "ref" and ty.results(F.strip_ty(body["locals"][i + 1])):
                peek.append((i, F.strip_ty(body["locals"][i + 1])))
    if not params and not peek and not sites(ctx, ty, p, body):
        return
    local = ctx._opaque
    I, outs = ctx.explore(p, opaque=local)
    own = short(p) if "{closure" not in p else p.split("::")[-2] + " closure"

    def sources(events):
        for e in events:
            if e[0] == "yield":
                stats["seen"].add((p, "core::iter::traits::iterator::Iterator::next"))
                stats["seen"].add((p, "core::iter::traits::iterator::Iterator::collect"))
                for w, err in ty.results(e[2]):
                    yield e[1], w, err, "iteration", ("call", "next", (), (), e[1], e[3], None, "next", (), e[2])
            if e[0] == "call" and len(e) > 9 and e[9] is not None:
                if memory_call(e):
                    stats["seen"].add((p, e[1]))
                    continue
                for w, err in ty.results(e[9]):
                    yield e[4], w, err, short(e[7]), e

    def memory_call(e):
        ga = [a for a in e[8] if isinstance(a, int)]
        if not ga:
            return False
        return e[7].startswith(("alloc::io::", "std::io::", "core::io::", "byteorder::")) and ty.memory(ga[0])

    def handed_on(r, v, events, e, o):
        for x in events:
            if x[0] == "call" and x is not e and any(mentions_term(a, v) for a in x[3]):
                if x[7].startswith(("core::result::", "core::option::")) and not (len(x) > 9 and x[9] is not None and ty.results(x[9])):
                    continue     # what comes out of it no longer says that it failed
                return True
        return o is not None and mentions_term(o, v)

    def judge(st, events, all_ev, o, label):
        """a path that ended with o (None: goes round a loop again)"""
        ret_ok = ret_err = False
        if o is not None:
            x = F.tys[rty]
            if x["k"] == "adt" and x.get("p") == RESULT:
                vs = variants(I, st, o, RESULT)
                ret_err = vs == {"Err"}
            elif x["k"] == "adt" and x.get("p") == "core::ops::control_flow::ControlFlow":
                ret_err = o[0] == "adt" and o[2] == "Break"
        lst = [(v, w, err, what, e) for v, w, err, what, e in sources(events)]
        if o is not None:
            lst += [(v, w, err, "argument", None) for v, w, err in params]
        for v, w, err, what, e in lst:
            stats["seen"].add((p, e[1] if e else None))
            r = find(I, st, v, w)
            if r is None:
                continue
            vs = variants(I, st, r, RESULT)
            if "Err" not in vs:
                continue
            key = "dropped:%s:%s" % (own, what)
            where = e[5] if e else None
            if ret_err:
                ctx.ob("error:%s:%s" % (own, what), True, "a failed %s ends %s with an error" % (what, own), None)
                continue
            if o is not None and mentions_term(o, r):
                ctx.ob("error:%s:%s" % (own, what), True, "the result of %s is handed on" % what, None)
                continue
            if "Ok" in vs and handed_on(r, v, all_ev, e, o):
                ctx.ob("error:%s:%s" % (own, what), True, "the result of %s is handed on" % what, None)
                continue
            if vs == {"Err"} and o is not None and eof_answer(I, st, r, o, rty, F):
                continue
            if vs == {"Err"} and e is not None and short(e[7]) == "seek" and o is not None:
                after = events[[i for i, x in enumerate(events) if x is e][0] + 1:]
                if not any(x[0] == "loop" or x[0] == "call" and x[3] and x[3][0] == e[3][0] for x in after) and \
                        not (o[0] == "adt" and o[3] and o[3][0] == ("tup", ())):
                    continue   # looks in another place instead
            if vs == {"Err"} and handed_on(payload(I, r, "Err"), payload(I, r, "Err"), [], None, o):
                ctx.ob("error:%s:%s" % (own, what), True, "the failure of %s is handed on" % what, None)
                continue
            if vs == {"Err"}:
                ctx.ob(key, False, "%s goes on (%s) although %s failed" % (own, "next round" if o is None else "returns " + show(o)[:60], what), where)
            else:
                ctx.ob(key, False, "%s does not look at the result of %s" % (own, what), where)

    for i, t in peek:
        for s, o in outs:
            if o[0] != "ret":
                continue
            v = I.deref(s, ("p", i))
            s2 = s.fork()
            if not I.assume(s2, rel("Eq", I.discr_of(v), C(F.discr(RESULT, "Err"))), True):
                continue
            if o[1] in (("b", False), C(0)) or o[1][0] not in ("b", "c") and entails(I, s2, neg(o[1])):
                ctx.ob("dropped:%s:argument" % own, False, "%s leaves out what failed" % own, None)
    loops = {}
    for s, o in outs:
        collect_loops(s.events(), loops)
    for L in loops.values():
        for it in L["iters"]:
            judge(it["st"], it["events"], it["events"], None, "loop")
    for s, o in outs:
        ev = s.events()
        if o[0] == "ret":
            judge(s, ev, ev, o[1], "return")
        elif o[0] == "exitproc":
            # the process ends: with a non-zero code when something failed
            for v, w, err in params:
                r = find(I, s, v, w)
                if r is not None:
                    vs = variants(I, s, r, RESULT)
                    code = o[1]
                    good = (vs == {"Ok"} and code == C(0)) or (vs == {"Err"} and is_c(code) and code[1] != 0)
                    ctx.ob("exit-code:%s" % own, good, "%s: exit code %s" % ("/".join(sorted(vs)), show(code)), None)
            for v, w, err, what, e in sources(ev):
                stats["seen"].add((p, e[1]))
                r = find(I, s, v, w)
                if r is not None and "Err" in variants(I, s, r, RESULT) and o[1] == C(0):
                    ctx.ob("exit-code:%s" % own, False, "exit code 0 although %s may have failed" % what, e[5])


def sinks(ctx, ty):
    """a sink that buffers its output must flush the buffer when it is flushed"""
    F = ctx.F
    for t, n, wr in F.impls_of(DATASINK, "write_row"):
        name = t.get("p") or t["s"]
        if name not in F.adts:
            continue
        wf = [f for v in F.adts[name]["variants"] for f in v["fields"]
              if any("BufWriter" in x["s"] or (x["k"] == "dyn" and "Write" in x["s"]) for x in ty.leaves(f[1])[:6])]
        if not wf:
            continue
        fl = next((p for t2, n2, p in F.impls_of(DATASINK, "flush") if (t2.get("p") or t2["s"]) == name), None)
        where = name.split("::")[-1]
        if fl is None or F.bodies.get(fl, {}).get("self") != F.bodies[wr].get("self"):
            ctx.ob("flush:%s" % where, False, "%s buffers its output and has no flush of its own" % where, None)
            continue
        I, outs = ctx.explore(fl)
        for s, o in outs:
            if o[0] == "ret" and "Err" not in variants(I, s, o[1], RESULT):
                ev = [e for e in calls(s.events(), into=True) if short(e[7]) == "flush" and e[3] and
                      mentions(e[3][0], lambda x: x[0] == "fld" and x[3] in [f[0] for f in wf])]
                ctx.ob("flush:%s" % where, bool(ev), "a successful flush writes out what is buffered", None)
            elif o[0] == "ret" and variants(I, s, o[1], RESULT) == {"Ok", "Err"}:
                ev = [e for e in calls(s.events(), into=True) if e[4] == o[1] and short(e[7]) == "flush"]
                ctx.ob("flush:%s" % where, bool(ev), "a successful flush writes out what is buffered", None)


FALLIBLE_ITERS = ("std::fs::ReadDir", "csv::", "std::io::", "alloc::io::", "core::io::")


def adapters(ctx, ty, p):
    """failures thrown away inside an iterator adapter: flatten() over results, filter_map(Result::ok)"""
    F = ctx.F
    own = short(p) if "{closure" not in p else p.split("::")[-2] + " closure"
    for bb in F.bodies[p]["bbs"]:
        t = bb["t"]
        if t["k"] != "call":
            continue
        fn = (t["f"].get("c") or {}).get("fn")
        if not fn:
            continue
        if fn["p"].startswith("core::iter::") and short(fn["p"]) in ("flatten", "flat_map"):
            ga = [a for a in fn.get("a") or () if isinstance(a, int)]
            if ga and any((x.get("p") or "").startswith(FALLIBLE_ITERS) for x in ty.leaves(ga[0])):
                ctx.ob("dropped:%s:%s" % (own, short(fn["p"])), False, "%s: %s passes over the failures" % (own, short(fn["p"])), None)
        for a in t["args"]:
            c = a.get("c") if isinstance(a, dict) else None
            g = c.get("fn") if c else None
            if g and g["p"].startswith("core::result::Result") and short(g["p"]) in ("ok", "is_ok", "unwrap_or_default", "into_iter", "iter"):
                ga = [x for x in g.get("a") or () if isinstance(x, int)]
                e = F.tys[ga[1]] if len(ga) > 1 else None
                if e is not None and not (e.get("p") or e["s"]).startswith(PARSE):
                    ctx.ob("dropped:%s:%s" % (own, short(g["p"])), False, "%s: Result::%s passes over the failures" % (own, short(g["p"])), None)


def run(ctx):
    F = ctx.F
    ty = Ty(F)
    fns = [p for p, b in F.bodies.items() if not b["span"].endswith("!")]
    ctx._opaque = lambda p: F.has_body(p) and "{closure" not in p and not p.startswith("<error::Error as") 
    stats = {"seen": set()}
    n = 0
    for p in sorted(fns):
        b = F.bodies[p]
        adapters(ctx, ty, p)
        try:
            function(ctx, ty, p, stats)
            n += 1
        except Undecided as e:
            ctx.undecided("%s: %s" % (p, e))
        except Budget as e:
            ctx.undecided("%s: too many paths" % p)
    for p in sorted(fns):
        for r, d, sp in sites(ctx, ty, p, F.bodies[p]):
            if not any(q == p and x in (r, d) for q, x in stats["seen"]):
                if d.startswith(("core::ops::", "core::option::", "core::result::", "core::convert::")):
                    continue     # adapters of a result that is followed itself
                stats.setdefault("unseen", set()).add((p, d))
    for p, d in sorted(stats.get("unseen", ())):
        ctx.undecided("%s in %s is on no path that was followed" % (short(d), p))
    sinks(ctx, ty)
    remote(ctx)


def remote(ctx):
    """a server's answer is handed on as an input's content only if it is no error"""
    F = ctx.F
    R = "ureq::response::Response::"
    TAKE = (R + "into_reader", R + "into_string", R + "into_json")
    for p in sorted(F.bodies):
        if not any(q in TAKE for q in ctx.callgraph().get(p, ())):
            continue
        try:
            I, outs = ctx.explore(p)
        except (Budget, Undecided):
            ctx.undecided("answers of a server in %s" % p)
            continue
        for s, o in outs:
            if o[0] != "ret" or "Ok" not in (variants(I, s, o[1], RESULT) or {"Ok"}):
                continue
            evs = [e for e in s.events() if e[0] == "call"]
            if not any(e[7] in TAKE or e[1] in TAKE for e in evs):
                continue
            asked = [e for e in evs if e[1].startswith(R) and e[1] not in TAKE]
            cs = s.conds()
            good = any(e[1] == R + "ok" and e[4] in cs for e in asked)
            good = good or any(e[1] == R + "error" and ("not", e[4]) in cs for e in asked)
            bad = not asked or any(e[1] == R + "ok" and ("not", e[4]) in cs or e[1] in (R + "error", R + "client_error", R + "server_error") and e[4] in cs for e in asked)
            if good or bad:
                ctx.ob("server-error", good, "%s: an error answered by the server is a failure" % p, F.bodies[p]["span"])
            else:
                ctx.undecided("%s: answers are told apart by %s" % (p, sorted({e[1] for e in asked})))
