"""C07: every input's rows enter the chain that was set up with that input's header."""
from driver_model import *
from recur import Rec

RULE = ("For every value that enters the driver's pending vector, the source it carries and the chain id it carries "
        "denote the same position of the source list; the merge loop hands the row to exactly that chain, from its "
        "first node; header i is handed to chain i; and the command line collects sources and headers in lock-step.")


def index_of(I, m, src):
    """absolute position in the original source list of the source `src`; None if unknown.
    Returns ('abs', term) or ('count', loop) for 'number of elements taken so far'."""
    if src[0] != "sel":
        return None
    S, j = src[1], src[2]
    if S[0] == "lv":
        L = m.loops.get(S[1])
        if L is None or S not in L["init"]:
            return None
        n = I.len_of(S)
        if mentions(L["init"][S], lambda t: t[0] == "lv"):
            return None
        if j == sub(n, C(1)) and all(it["next"][S] in (("init", S), S, ("rm", S, j)) for it in L["iters"]):
            return ("abs", j)
        if j == C(0) and all(it["next"][S] in (("rm", S, C(0)), ("tail", S, C(1))) for it in L["iters"]):
            return ("count", L)
        if all(it["next"][S] == S for it in L["iters"]):
            return ("abs", j)
        return None
    if any(t[0] == "lv" and t[2].endswith("sources") for t in subterms(S)):
        return None
    if S[0] == "app":
        return None
    return ("abs", j)


def counter(L, t):
    return t in L["init"] and L["init"][t] == C(0) and all(it["next"][t] == add(t, C(1)) for it in L["iters"])


def run(ctx):
    F = ctx.F
    m = model(ctx)
    I = m.I
    for it, e in m.deliv:
        row = e[2][m.row_i]
        el = elem_of(row)
        if not ctx.ob("row-from-pending", el is not None and el[1][0] == "lv", "delivered row is %s" % show(row), e[5]):
            continue
        V = el[1]
        chain = e[2][m.chain_i]
        cpath = payload_path(chain, el)
        if not ctx.ob("chain-of-same-source", cpath is not None, "row of %s goes to chain %s" % (show(el), show(chain)), e[5]):
            continue
        if m.node_i is not None:
            ctx.ob("from-first-node", e[2][m.node_i] == C(0), "row enters the chain at node %s" % show(e[2][m.node_i]), e[5])
        for x, st, where in fresh_elements(I, m, V):
            if x is None:
                ctx.ob("pairing", False, "pending rows come from an unrecognised construct (%s)" % where)
                continue
            cid = project(I, x, cpath)
            # the source this element will be refilled from
            srcs = [c for c in all_events(it["events"]) if c[0] == "call" and c[7] == NEXT_ROW]
            spaths = {tuple(p) for p in (payload_path(c[3][0], el) for c in srcs) if p is not None}
            if len(spaths) != 1:
                ctx.ob("pairing", False, "cannot tell which source refills the pending row", e[5])
                continue
            src = project(I, x, list(spaths.pop()))
            if x[0] == "ov":
                base = elem_of(x[1]) or x[1]
                same = project(I, base, cpath) == cid and elem_of(src) == base
                ctx.ob("pairing-kept", same, "a refill keeps source and chain together", e[5])
                continue
            if x[0] == "adt" and elem_of(src) and elem_of(src)[1] == V:
                ctx.ob("pairing-kept", elem_of(cid) == elem_of(src), "a refill keeps source and chain together", e[5])
                continue
            ix = index_of(I, m, src)
            if ix is None:
                ctx.ob("pairing", False, "cannot place source %s in the source list" % show(src))
            elif ix[0] == "abs":
                ctx.ob("pairing", same_value(I, m.loops.values(), ix[1], cid), "source at %s is given chain %s" % (show(ix[1]), show(cid)))
            else:
                ctx.ob("pairing", counter(ix[1], cid), "source number n is given chain %s" % show(cid))
            # its first row comes from the same source
            pulled = [c for c in all_events(where["events"]) if c[0] == "call" and c[7] == NEXT_ROW] if where else []
            r = project(I, x, payload_path(row, el))
            for c in pulled:
                if mentions(r, lambda t, c=c: t == c[4]):
                    ctx.ob("row-of-source", c[3][0] == src, "first row is pulled from %s" % show(c[3][0]))
    # every source is taken up: the fill loop covers the whole list
    headers(ctx)
    cli(ctx)


def headers(ctx):
    F = ctx.F
    fn = "chopper::header_graph::HeaderGraph::process_header"
    if not F.has_body(fn):
        ctx.undecided("no HeaderGraph::process_header")
        return
    cg = ctx.callgraph()
    opq = tuple(sorted(p for p in ctx.reach(fn) if p in F.bodies and p != fn and
                       "chopper::header_graph::HeaderGraph" in p and len(usize_params(F, p)) >= 1 and
                       any(F.tys[t]["s"].endswith("Header") for t in F.body(p)["locals"][1:F.body(p)["argc"] + 1])))
    I, outs = ctx.explore(fn, opaque=opq)
    n = 0
    for L in collect_loops([e for s, o in outs for e in s.events()]).values():
        for it in L["iters"]:
            for e in it["events"]:
                if e[0] == "call" and e[1] in opq:
                    us = usize_params(F, e[1])
                    hdr = next((a for i, a in enumerate(e[3]) if F.tys[F.strip_ty(F.body(e[1])["locals"][i + 1])].get("p") == "chopper::types::Header"), None)
                    cid = e[2][us[0]]
                    ok = hdr is not None and hdr[0] == "sel" and hdr[2] == cid and \
                        mentions(hdr[1], lambda t: t == ("p", 1) or t[0] == "lv")
                    n += 1
                    ctx.ob("header-to-own-chain", ok, "chain %s is set up with header %s" % (show(cid), show(hdr) if hdr else None), e[5])
    ctx.ob("headers-processed", n > 0, "headers are handed to chains at %d trace points" % n)


def cli(ctx):
    F = ctx.F
    fns = [p for p in F.bodies if p.startswith("chopper_cli::") and "driver::driver::Driver::new" in ctx.callgraph().get(p, ())]
    for fn in fns:
        I, outs = ctx.explore(fn, opaque=lambda p: p.startswith(("input::", "write::", "driver::driver", "driver::merge")))
        layout(ctx, I, outs)
        n = 0
        for L in collect_loops([e for s, o in outs for e in s.events()]).values():
            for it in L["iters"]:
                pushes = [e for e in it["events"] if e[0] == "vec.push"]
                made = [e for e in it["events"] if e[0] == "call" and "create_source" in e[1]]
                if not made:
                    continue
                src = payload(I, made[-1][4], "Ok")
                vs = {}
                for s, nx in it["next"].items():
                    if nx[0] == "push" and nx[1] == s:
                        vs[s] = nx[2]
                sp = [s for s, x in vs.items() if x == src]
                hp = [s for s, x in vs.items() if x != src and mentions(x, lambda t: t[0] in ("res", "app") and "header" in str(t[2] if t[0] == "res" else t[1]))]
                n += 1
                ctx.ob("lockstep", len(sp) == 1 and len(hp) == 1, "one source and its header are collected per input", L["sp"])
                for h in hp:
                    calls_ = [e for e in it["events"] if e[0] == "call" and "header" in e[7]
                              and mentions(vs[h], lambda t, e=e: t == e[4])]
                    ctx.ob("own-header", bool(calls_) and all(src in c[3] for c in calls_) or
                           mentions(vs[h], lambda t: t == src),
                           "the collected header is that of the collected source", L["sp"])
        if not n:
            ctx.undecided("no loop creating sources in " + fn)


def layout(ctx, I, outs):
    """the chains of the command line: one per input that leads to the last one, which ends at the output"""
    for s, o in outs:
        new = [e for e in s.events() if e[0] == "call" and e[1].endswith("Driver::new")]
        mk = [e[1] for e in s.events() if e[0] == "loop" and any(x[0] == "call" and "create_source" in x[1] for it in e[1]["iters"] for x in it["events"])]
        if not new or len(mk) != 1:
            continue
        L = mk[0]
        graph = [I.deep(s, a) for a in new[-1][3]]
        graph = [g for g in graph if g[0] == "adt" and g[1].endswith("HeaderGraph")]
        bs = Rec(I, {}).counter(L)[1]
        if len(graph) != 1 or not graph[0][3] or len(bs) != 1:
            ctx.undecided("chains of the command line")
            return
        n = next(iter(bs))
        chains = graph[0][3][0]
        last, before = (chains[2], chains[1]) if chains[0] == "push" else (chains[1][-1], ("seq", chains[1][:-1])) if chains[0] == "seq" and chains[1] else (None, None)
        nodes = nodes_of(last)
        if nodes is None:
            ctx.undecided("last chain of the command line: %s" % show(chains)[:80])
            return
        kinds = [x[2] for x in nodes]
        where = new[-1][5]
        ctx.ob("to-output", kinds[-1:] == ["HeaderSink"] and kinds.count("HeaderSink") == 1, "the last chain ends at the output: %s" % kinds, where)
        if I.assume(s.fork(), rel({"gt"}, n, C(1)), True) is False:
            continue
        ctx.ob("merged", "MergeHeaderSink" in kinds, "several inputs are merged before the output: %s" % kinds, where)
        joins = [e for e in s.events() if e[0] == "call" and e[1].endswith("MergeJoin::new")]
        for e in joins:
            ctx.ob("merged-count", entails(I, s, rel({"eq"}, e[3][0], n)), "the merge waits for as many headers as there are inputs (%s)" % show(e[3][0]), where)
        if before == ("seq", ()):
            ctx.ob("chain-per-input", False, "several inputs have no chains of their own", where)
            continue
        M = L
        if before[0] == "lv" and before not in L["init"]:
            M = next((e[1] for e in s.events() if e[0] == "loop" and before in e[1]["init"]), L)
        if before[0] == "rep":
            ctx.ob("chain-per-input", entails(I, s, rel({"eq"}, before[2], n)), "every input has a chain (%s)" % show(before[2]), where)
            tgt = [nodes_of(before[1])]
        elif before in M["init"] and M["init"][before] == ("seq", ()):
            b2 = Rec(I, {}).counter(M)[1]
            if n not in b2:
                ctx.undecided("chains of the inputs are counted by %s" % sorted(map(show, b2)))
                return
            tgt = []
            for it in M["iters"]:
                if I.assume(it["st"].fork(), rel({"gt"}, n, C(1)), True) is False:
                    continue
                nx = it["next"][before]
                ctx.ob("chain-per-input", nx[0] == "push" and nx[1] == before, "every one of several inputs has a chain (%s)" % show(nx)[:60], M["sp"])
                if nx[0] == "push" and nx[1] == before:
                    tgt.append(nodes_of(nx[2]))
        else:
            ctx.undecided("chains of the inputs: %s" % show(before)[:80])
            return
        for t in tgt:
            if not t or t[-1][2] != "Merge":
                ctx.ob("to-output", False, "an input's chain leads nowhere: %s" % [x[2] for x in t or ()], where)
            else:
                ctx.ob("to-output", entails(I, s, rel({"eq"}, t[-1][3][0], n)), "an input's chain leads to the last chain (%s)" % show(t[-1][3][0]), where)


def nodes_of(chain):
    """the nodes of a chain that is written out"""
    if chain is None or chain[0] != "adt" or not chain[3] or chain[3][0][0] not in ("seq", "push"):
        return None
    t, out = chain[3][0], []
    while t[0] == "push":
        out.insert(0, t[2])
        t = t[1]
    if t[0] != "seq":
        return None
    out = list(t[1]) + out
    return out if all(x[0] == "adt" for x in out) else None
