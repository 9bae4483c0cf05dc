"""C11: headers: every node of a chain is set up with the header of the rows it will get."""
from driver_model import *

RULE = ("Every function on the call cycle that sets the header chains up is explored with its recursive calls kept opaque. In each "
        "node iteration exactly one data node is appended to the chain's own data chain, made from exactly this header node; a sink "
        "changes the header the following nodes see; split targets get a fresh copy of the header as it is at the split, and the "
        "header of the chain is left alone; a merge is handed the header and checks it before its count goes down by one, and its chain is set up with the "
        "merge's own header exactly when the count reaches zero. Nothing sets up a chain that starts with a waiting merge, and the "
        "set-up fails if one is left. Each merge accepts exactly the headers whose names and types equal the first one's.")
TECHNIQUE = "path-sensitive trace rules over MIR of the recursive header walk"

HG = "chopper::header_graph::HeaderGraph"
NODE = "chopper::header_graph::HeaderNode"
DNODE = "chopper::data_graph::DataNode"
HEADER = "chopper::types::Header"
HPROC = "chopper::chopper::HeaderSink::process_header"
MCHECK = "chopper::chopper::MergeHeaderSink::check_header"
MPROC = "chopper::chopper::MergeHeaderSink::process_header"
MSINK = "chopper::chopper::MergeHeaderSink::get_data_sink"
SIDS = "chopper::chopper::SplitHeaderSink::chain_ids"


def roles(F, p):
    b = F.body(p)
    r = {"chain": None, "hdr": None}
    for i in range(b["argc"]):
        t = F.tys[F.strip_ty(b["locals"][i + 1])]
        if t["s"] == "usize":
            r["chain"] = i
        elif t.get("p") == HEADER:
            r["hdr"] = i
    return r


def break_cycles(ctx, root):
    cg = ctx.callgraph()
    reach = [f for f in ctx.reach(root) if f in ctx.F.bodies]

    def cyc(without):
        g = {f: [x for x in cg.get(f, ()) if x in reach and x not in without] for f in reach if f not in without}

        def rch(a):
            seen, work = set(), list(g.get(a, ()))
            while work:
                x = work.pop()
                if x not in seen:
                    seen.add(x)
                    work += g.get(x, ())
            return seen
        return [f for f in g if f in rch(f)]
    opq = set()
    for f in cyc(()):
        ts = [ctx.F.tys[ctx.F.strip_ty(t)] for t in ctx.F.body(f)["locals"][1:ctx.F.body(f)["argc"] + 1]]
        names = sorted(x.get("p") or x["s"] for x in ts)
        r = roles(ctx.F, f)
        if r["chain"] is not None and r["hdr"] is not None and names.count("usize") == 1 and \
                all(x in ("usize", HEADER, HG, "chopper::data_graph::DataGraph") for x in names):
            opq.add(f)      # stands for a whole chain
    while True:
        c = cyc(opq)
        c = [f for f in c if f.startswith("chopper::header_graph::")]
        if not c:
            return tuple(sorted(opq))
        # the function with most callers on the cycle, one that can stand for a whole chain if there is one
        c.sort(key=lambda f: (not ctx.F.loops(ctx.F.body(f)), roles(ctx.F, f)["chain"] is None or roles(ctx.F, f)["hdr"] is None,
                              -sum(f in cg.get(g, ()) for g in c), f))
        opq.add(c[0])


def node_of(t):
    """(base node term, variant) for a projection of a header node"""
    while t[0] in ("fld", "deref", "dc"):
        if t[0] == "dc" and t[2] in ("HeaderSink", "MergeHeaderSink", "SplitHeaderSink", "Merge"):
            return t[1], t[2]
        t = t[1]
    return None, None


def chain_of(t):
    """the index of the chain whose nodes t (an element of a nodes vector) belongs to"""
    if t[0] != "sel":
        return None
    v = t[1]
    while v[0] in ("fld", "app", "tail", "store", "ov", "lv", "rm", "swrm", "init") and v[0] != "sel":
        if v[0] == "lv":
            return None
        v = v[1] if v[0] != "app" else v[2][0]
    return v[2] if v[0] == "sel" else None


class Fn:
    def __init__(self, ctx, p, opq):
        self.ctx, self.p, self.opq = ctx, p, opq
        self.F = ctx.F
        r = roles(ctx.F, p)
        self.chain = ("p", r["chain"]) if r["chain"] is not None else None
        self.hdr = ("p", r["hdr"]) if r["hdr"] is not None else None
        self.I, self.outs = ctx.explore(p, opaque=opq)
        self.where = p.split("::")[-1]


def is_graph_call(F, e, opq):
    return e[0] == "call" and e[1] in opq


def guarded(fn, st, before, c, inside=()):
    """chain c cannot start with a waiting merge here"""
    I = fn.I
    for e in before:
        if e[0] == "call" and e[7] == MPROC:
            return True
    for cond in st.conds():
        for t in subterms(cond):
            if t[0] == "discr" and t[1][0] == "sel" and t[1][2] == C(0) and chain_of(t[1]) == c:
                lo, hi, ne = I.rng(st, t)
                d = fn.F.discr(NODE, "MergeHeaderSink")
                if d < lo or d > hi or d in ne:
                    return True
            if t[0] == "app" and t[1] == "len" and t[2][0][0] == "fld" and t[2][0][3] == "nodes" and \
                    t[2][0][1][0] == "sel" and t[2][0][1][2] == c:
                lo, hi, ne = I.rng(st, t)
                if hi <= 0:
                    return True
    return False


def node_loops(fn):
    """loops whose iterations look at header nodes one after the other"""
    out = []
    loops = {}
    for s, o in fn.outs:
        collect_loops(s.events(), loops)
    for L in loops.values():
        ns = set()
        for it in L["iters"]:
            for c in it["conds"]:
                for t in subterms(c):
                    if t[0] == "discr" and t[1][0] == "sel" and not is_c(t[1][2]) and chain_of(t[1]) is not None and \
                            any(x in L["init"] for x in subterms(t[1][2])):
                        if len(variants_possible(fn, it, t[1])) < 4:
                            ns.add(t[1])
        if ns:
            out.append((L, ns))
    return out


def variants_possible(fn, it, node):
    return variants(fn.I, it["st"], node, NODE)


def walk(ctx, fn):
    """the loops over the nodes of a chain"""
    F, I = fn.F, fn.I
    n = 0
    for L, ns in node_loops(fn):
        if len(ns) != 1:
            ctx.undecided("%s: more than one node per iteration" % fn.where)
            continue
        node = ns.pop()
        pos = node[2]
        n += 1
        ctx.ob("chain:own-nodes", chain_of(node) == fn.chain, "%s walks the nodes of chain %s" % (fn.where, show(chain_of(node))), L["sp"])
        ctx.ob("chain:from-first", lsame(start(I, L, pos), C(0)), "%s starts at node %s" % (fn.where, show(start(I, L, pos))), L["sp"])
        H0 = ("deref", fn.hdr)
        hv = next((k for k, v in L["init"].items() if v == H0 or v == fn.hdr), H0)
        for it in L["iters"]:
            st = it["st"]
            ctx.ob("chain:every-node", lsame(step(I, L, it, pos), add(pos, C(1))), "%s goes on to node %s" % (fn.where, show(step(I, L, it, pos))), L["sp"])
            vs = variants_possible(fn, it, node)
            if len(vs) != 1:
                ctx.ob("node:told-apart", False, "%s treats %s alike" % (fn.where, "/".join(sorted(vs))), L["sp"])
                continue
            kind = next(iter(vs))
            one_node(ctx, fn, L, it, node, kind, hv)
        # success only behind the last node
        for s, o in fn.outs:
            if o[0] == "ret" and "Ok" in variants(I, s, o[1], RESULT) and any(e[0] == "loop" and e[1]["id"] == L["id"] for e in s.events()):
                done = any(c[0] == "rel" and entails(I, s, rel("Ge", pos, I.len_of(node[1]))) for c in s.conds()[-6:])
                ctx.ob("chain:to-the-end", done, "%s succeeds only behind the last node" % fn.where, L["sp"])
    return n


def one_node(ctx, fn, L, it, node, kind, hv):
    F, I = fn.F, fn.I
    ev = list(it["events"])
    flat = list(all_events(ev))
    sp = L["sp"]
    # the data node
    made = [e for e in flat if e[0] == "vec.push" and e[3][0] == "adt" and e[3][1] == DNODE]
    top = [e for e in ev if e[0] == "vec.push" and e[3][0] == "adt" and e[3][1] == DNODE]
    ctx.ob("data:one-per-node", len(made) == 1 and len(top) == 1, "%s: %d data node(s) for one %s node" % (fn.where, len(made), kind), sp)
    for e in made[:1]:
        v = e[3]
        home = e[2]
        while home[0] == "fld":
            home = home[1]
        ctx.ob("data:own-chain", home[0] == "sel" and home[2] == fn.chain, "%s: the data node goes to chain %s" %
               (fn.where, show(home[2]) if home[0] == "sel" else show(home)), sp)
        x = v[3][0]
        if kind in ("HeaderSink", "MergeHeaderSink"):
            want = HPROC if kind == "HeaderSink" else MSINK
            src = [c for c in calls(ev, want) if x == payload(I, c[4], "Ok")]
            ctx.ob("data:from-node", v[2] == "DataSink" and len(src) == 1 and node_of(src[0][2][0]) == (node, kind),
                   "%s: a %s node becomes %s" % (fn.where, kind, show(v)[:80]), sp)
        elif kind == "Merge":
            ctx.ob("data:from-node", v[2] == "Merge" and node_of(x) == (node, kind), "%s: a Merge node becomes %s" % (fn.where, show(v)[:80]), sp)
        else:
            src = [c for c in calls(ev, SIDS) if mentions(x, lambda t, c=c: t == c[4])]
            ok = v[2] == "Split" and src and all(node_of(c[2][0]) == (node, kind) for c in src) and x == I.deref(it["st"], src[0][4])
            ctx.ob("data:from-node", bool(ok), "%s: a Split node becomes %s" % (fn.where, show(v)[:80]), sp)
    # the header
    sinks = [c for c in calls(flat, HPROC)]
    nxt = it["next"].get(hv, hv)
    if kind == "HeaderSink":
        ok = len(sinks) == 1 and node_of(sinks[0][2][0]) == (node, kind)
        ctx.ob("sink:once", ok, "%s: %d sink(s) are given the header" % (fn.where, len(sinks)), sp)
        for c in sinks[:1]:
            h = c[3][1]
            ctx.ob("sink:current-header", h in (hv, fn.hdr) or I.deref(it["st"], h) == hv, "%s: the sink is given the header left by the nodes before it" % fn.where, c[5])
            ctx.ob("sink:header-goes-on", nxt[0] == "post" and nxt[2] == 1 and "process_header" in str(nxt), "%s: the next node sees %s" % (fn.where, show(nxt)[:60]), c[5])
    else:
        ctx.ob("header:kept", not sinks and nxt == hv, "%s: a %s node leaves the header of the chain alone" % (fn.where, kind), sp)
    dele = [c for c in flat if is_graph_call(F, c, fn.opq)]
    if kind == "SplitHeaderSink":
        inner = [e[1] for e in ev if e[0] == "loop" and any(is_graph_call(F, c, fn.opq) for i in e[1]["iters"] for c in i["events"])]
        ok = len(inner) == 1 and all(any(is_graph_call(F, c, fn.opq) for c in i["events"]) for i in inner[0]["iters"])
        ctx.ob("split:every-target", ok, "%s: each target of the split is set up" % fn.where, sp)
        for L2 in inner[:1]:
            for i in L2["iters"]:
                for c in [c for c in i["events"] if is_graph_call(F, c, fn.opq)]:
                    r = roles(F, c[1])
                    t = c[3][r["chain"]]
                    idx = t[2] if t[0] == "sel" else None
                    ids = [x for x in calls(ev, SIDS)] + [x for x in calls(i["events"], SIDS)]
                    ok = idx is not None and any(mentions(t, lambda y, x=x: y == x[4]) for x in ids) and \
                        lsame(start(I, L2, idx), C(0)) and lsame(step(I, L2, i, idx), add(idx, C(1)))
                    ctx.ob("split:targets-in-order", ok, "%s: split target %s" % (fn.where, show(t)[:80]), c[5])
                    h = c[3][r["hdr"]]
                    ctx.ob("split:own-copy", c[2][r["hdr"]] != fn.hdr and h == hv and i["next"].get(hv, hv) == hv,
                           "%s: the target gets a copy of the header as it is at the split (%s)" % (fn.where, show(h)[:60]), c[5])
                    arrival(ctx, fn, i["st"], [], c, t)
    elif kind == "Merge" and any(e[0] == "call" and e[7] == MCHECK for e in ev):
        target = next((t for e in ev for c in (e[2] if e[0] == "call" else ()) for t in subterms(c) if node_of(t) == (node, kind) and t[0] == "fld"), None)
        at_merge(ctx, fn, it["st"], ev, target, (fn.hdr, hv, ("deref", fn.hdr)), True, tuple(it["next"].values()))
    elif kind == "Merge":
        ctx.ob("merge:once", len(dele) == 1, "%s: the header is handed to the merge %d times" % (fn.where, len(dele)), sp)
        for c in dele[:1]:
            r = roles(F, c[1])
            ctx.ob("merge:target", node_of(c[3][r["chain"]]) == (node, kind), "%s: the header goes to chain %s" % (fn.where, show(c[3][r["chain"]])[:60]), c[5])
            h = c[3][r["hdr"]]
            ctx.ob("merge:current-header", h in (hv, fn.hdr) or I.deref(it["st"], h) == hv, "%s: the merge is given the chain's current header" % fn.where, c[5])
            arrival(ctx, fn, it["st"], ev[:ev.index(c)] if c in ev else [], c, c[3][r["chain"]])
    else:
        ctx.ob("node:no-other", not dele, "%s: a %s node sets up no other chain" % (fn.where, kind), sp)


def arrival(ctx, fn, st, before, call, chain):
    """a delegate that walks the chain whatever it starts with may only be used where that is known"""
    ctx.arrivals.append((fn, st, before, call, chain))


def straight(ctx, fn):
    """merges reached in straight-line code"""
    F, I = fn.F, fn.I
    n = 0
    for s, o in fn.outs:
        ev = s.events()
        good = o[0] == "ret" and "Ok" in variants(I, s, o[1], RESULT)
        if not good and any(e[0] == "loop" for e in ev):
            continue      # broke off in the middle of an iteration
        chk = [e for e in ev if e[0] == "call" and e[7] == MCHECK]
        prc = [e for e in ev if e[0] == "call" and e[7] == MPROC]
        for e in [e for e in ev if is_graph_call(F, e, fn.opq)]:
            r = roles(F, e[1])
            if not prc:
                arrival(ctx, fn, s, ev[:ev.index(e)], e, e[3][r["chain"]])
                if fn.hdr is not None and fn.chain is not None:
                    ctx.ob("handed-on", e[3][r["chain"]] == fn.chain and e[2][r["hdr"]] == fn.hdr or bool(chk),
                           "%s hands its chain and header on unchanged" % fn.where, e[5])
        if prc and not chk:
            ctx.ob("merge:check-header", False, "%s: a merge's chain is set up without a look at the header" % fn.where, prc[0][5])
        if not chk and not prc and good and fn.chain is not None and not any(is_graph_call(F, e, fn.opq) for e in ev):
            waits = [t for c in s.conds() for t in subterms(c) if t[0] == "discr" and t[1][0] == "sel" and t[1][2] == C(0)
                     and chain_of(t[1]) == fn.chain and variants(I, s, t[1], NODE) == {"MergeHeaderSink"}]
            if waits:
                ctx.ob("merge:check-header", False, "%s: a merge counts a header it did not look at" % fn.where)
        if chk:
            n += 1
            at_merge(ctx, fn, s, ev, fn.chain, (fn.hdr, ("deref", fn.hdr)), good, o[1])
    return n


def at_merge(ctx, fn, s, ev, chain, hdrs, good, result):
    """a header reaches the merge at the start of `chain`"""
    F, I = fn.F, fn.I
    chk = [e for e in ev if e[0] == "call" and e[7] == MCHECK]
    prc = [e for e in ev if e[0] == "call" and e[7] == MPROC]
    dele = [e for e in ev if is_graph_call(F, e, fn.opq)]
    node, kind = node_of(chk[0][2][0])
    ctx.ob("merge:first-node", len(chk) == 1 and kind == "MergeHeaderSink" and node[2] == C(0) and chain_of(node) == chain,
           "%s: the header is checked by the merge at the start of its chain" % fn.where, chk[0][5])
    ctx.ob("merge:check-header", chk[0][2][1] in hdrs or chk[0][3][1] in hdrs or I.deref(s, chk[0][3][1]) in hdrs, "%s: the merge checks %s" % (fn.where, show(chk[0][2][1])[:60]), chk[0][5])
    ok = variants(I, s, chk[0][4], RESULT)
    if "Ok" not in ok:
        ctx.ob("merge:refused", not prc and not dele and not good, "%s: a refused header ends the set-up" % fn.where, chk[0][5])
        return
    if not good and not prc and not dele:
        return
    cnt = counter_of(fn, s, node)
    if cnt is None:
        ctx.ob("merge:count", False, "%s: the number of headers still to come is not looked at" % fn.where, chk[0][5])
        return
    if prc:
        ctx.ob("merge:last", entails(I, s, rel("Eq", cnt, C(1))), "%s: the merge's chain is set up only with the last header" % fn.where, prc[0][5])
        d = [e for e in dele if ev.index(e) > ev.index(prc[0])]
        if d:
            r = roles(F, d[0][1])
            ctx.ob("merge:set-up-with", len(d) == 1 and d[0][3][r["chain"]] == chain and d[0][3][r["hdr"]] == prc[0][4] and node_of(prc[0][2][0]) == (node, kind),
                   "%s: the merge's chain is set up with the merge's header" % fn.where, d[0][5])
        elif good and not any(e[0] == "loop" for e in ev):
            ctx.ob("merge:set-up-with", False, "%s: the merge's chain is not set up" % fn.where, prc[0][5])
    elif good:
        ctx.ob("merge:wait", entails(I, s, neg(rel("Eq", cnt, C(1)))), "%s: the merge waits while headers are to come" % fn.where, chk[0][5])
        ctx.ob("merge:count-down", counts_down(fn, s, result, node, cnt), "%s: the number of headers to come goes down by one" % fn.where, chk[0][5])


def counter_of(fn, s, node):
    """the number of headers the merge still waits for, as tested on this path"""
    for c in s.conds():
        for t in subterms(c):
            if t[0] == "fld" and t[3] == "unprocessed_count" and node_of(t)[0] == node:
                return t
    return None


def counts_down(fn, s, o, node, cnt):
    """the returned graph holds the count less one"""
    return any(lsame(t, add(cnt, C(-1))) for t in subterms(o) if t[0] in ("app", "c", "add")) or \
        any(t == add(cnt, C(-1)) for t in subterms(o))


def merges(ctx):
    F = ctx.F
    for t, n, p in F.impls_of("chopper::chopper::MergeHeaderSink", "check_header"):
        own = (t.get("p") or t["s"]).split("::")[-1]
        I, outs = ctx.explore(p)
        acc = rej = 0
        for s, o in outs:
            if o[0] != "ret":
                continue
            h = ("deref", ("p", 1))
            d = [x for c in s.conds() for x in subterms(c) if x[0] == "discr" and mentions(x, lambda y: y == ("p", 0))]
            stored = d[0][1] if d else None
            if stored is None:
                ctx.ob("accept:%s" % own, False, "%s accepts or refuses headers without a look at the first one" % own)
                continue
            vs = variants(I, s, stored, OPTION)
            ok = variants(I, s, o[1], RESULT)
            if vs == {"Some"}:
                first = payload(I, stored, "Some")
                same = entails(I, s, rel("Eq", h, first)) or all(entails(I, s, rel("Eq", fld_of(I, h, f[0], HEADER), fld_of(I, first, f[0], HEADER))) for f in F.adts[HEADER]["variants"][0]["fields"])
                if "Ok" in ok:
                    acc += 1
                    ctx.ob("accept:%s" % own, same and ok == {"Ok"}, "%s accepts a header only if it equals the first one" % own)
                else:
                    rej += 1
                    diff = entails(I, s, neg(rel("Eq", h, first))) or any(entails(I, s, neg(rel("Eq", fld_of(I, h, f[0], HEADER), fld_of(I, first, f[0], HEADER)))) for f in F.adts[HEADER]["variants"][0]["fields"])
                    ctx.ob("refuse:%s" % own, diff, "%s refuses a header only if it differs" % own)
            elif vs == {"None"}:
                v = I.read(s, s.mem_deref(("p", 0))) if hasattr(s, "mem_deref") else None
                w = [x for x in final(I, s, ("p", 0)) if x == h or x[0] == "adt" and x[2] == "Some" and h in x[3]]
                ctx.ob("first:%s" % own, ok == {"Ok"} and bool(w), "%s keeps the first header" % own)
        ctx.ob("accept:%s" % own, acc > 0, "%s accepts equal headers" % own)
    for t, n, p in F.impls_of("chopper::chopper::MergeHeaderSink", "process_header"):
        own = (t.get("p") or t["s"]).split("::")[-1]
        I, outs = ctx.explore(p)
        for s, o in outs:
            if o[0] == "ret":
                x = o[1]
                ok = x[0] == "fld" and x[1][0] == "dc" and mentions(x, lambda y: y == ("p", 0))
                ctx.ob("result:%s" % own, ok, "%s hands its header on (%s)" % (own, show(x)[:60]))


def final(I, s, ref):
    """terms stored behind `ref` at the end of the path"""
    out = []
    v = I.deref(s, ref)
    for t in subterms(v):
        out.append(t)
    return out


def looked(fn, s, e):
    """this event went through all the chains and found no waiting merge"""
    I = fn.I
    bad = fn.F.discr(NODE, "MergeHeaderSink")

    def first_nodes(conds, st):
        for c in conds:
            for t in subterms(c):
                if t[0] == "discr" and t[1][0] == "sel" and t[1][2] == C(0):
                    yield t[1], "MergeHeaderSink" not in variants(I, st, t[1], NODE)
    if e[0] == "loop":
        L = e[1]
        for it in L["iters"]:
            for node, no in first_nodes(it["conds"], it["st"]):
                i = chain_of(node)
                if i is None or not no:
                    continue
                chains = node[1][1] if node[1][0] == "fld" else None
                chains = chains[1] if chains is not None and chains[0] == "sel" else None
                if chains is None or not lsame(start(I, L, i), C(0)):
                    continue
                if all(lsame(step(I, L, x, i), add(i, C(1))) for x in L["iters"]) and \
                        entails(I, s, rel("Ge", i, I.len_of(chains))):
                    return True
    if e[0] == "forall":
        d = e[2][1]
        while d[0] in ("enum", "cloned"):
            d = d[1]
        if d[0] not in ("iter", "into") or not mentions(d[1], lambda t: t[0] == "fld" and t[3] == "header_chains" or t[0] == "lv"):
            return False
        want = e[1] != "all"
        for k, conds, r in e[3]:
            st = s.fork()
            ok = all(I.assume(st, c, True) for c in conds)
            merge = [t for c in list(conds) + [r] for t in subterms(c) if t[0] == "discr" and t[1][0] == "sel" and t[1][2] == C(0)]
            for t in merge:
                s2 = st.fork()
                if ok and I.assume(s2, rel("Eq", t, C(bad)), True) and not entails(I, s2, r if want else neg(r)):
                    return False
        return any(t[0] == "discr" and t[1][0] == "sel" and t[1][2] == C(0) for k, conds, r in e[3] for c in list(conds) + [r] for t in subterms(c))
    return False


def run(ctx):
    F = ctx.F
    root = HG + "::process_header"
    if not F.has_body(root):
        ctx.undecided("no HeaderGraph::process_header")
        return
    ctx.arrivals = []
    opq = break_cycles(ctx, root)
    fns = {p: Fn(ctx, p, opq) for p in sorted(set(opq) | {root})}
    walks = merges_seen = 0
    bare = set()      # functions that walk a chain whatever it starts with
    for p, fn in fns.items():
        w = walk(ctx, fn)
        walks += w
        merges_seen += straight(ctx, fn)
        if p == root:
            continue
        for s, o in fn.outs:
            ev = s.events()
            for L, ns in node_loops(fn):
                ix = [i for i, e in enumerate(ev) if e[0] == "loop" and e[1]["id"] == L["id"]]
                if ix and not guarded(fn, s, ev[:ix[0]], fn.chain):
                    bare.add(p)
    ctx.ob("walk", walks > 0, "%d walk(s) over the nodes of a chain" % walks)
    ctx.ob("merge", merges_seen > 0, "%d path(s) on which a merge checks a header" % merges_seen)
    changed = True
    while changed:
        changed = False
        for fn, st, before, call, chain in ctx.arrivals:
            if call[1] in bare and fn.chain == chain and fn.p != root and not guarded(fn, st, before, chain):
                if fn.p not in bare:
                    bare.add(fn.p)
                    changed = True
    for fn, st, before, call, chain in ctx.arrivals:
        if fn.chain == chain and fn.p in bare:
            continue
        ctx.ob("waiting-merge-kept", call[1] not in bare or guarded(fn, st, before, chain),
               "%s: chain %s is set up without regard to a merge at its start" % (fn.where, show(chain)[:60]) if call[1] in bare else
               "%s: chain %s is set up with regard to a merge at its start" % (fn.where, show(chain)[:60]), call[5])
    # no merge may be left waiting
    fn = fns[root]
    oks = [s for s, o in fn.outs if o[0] == "ret" and "Ok" in variants(fn.I, s, o[1], RESULT)]
    for s in oks:
        ctx.ob("no-merge-left", any(looked(fn, s, e) for e in s.events()), "set-up succeeds only after looking through all chains for merges that still wait for headers")
    merges(ctx)
