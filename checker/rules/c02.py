"""C02: at the end of the input every sink that was fed is flushed, and a failing flush is an error."""
from walk import *

RULE = ("(1) All traces of the flush walker: every node of the chain in order, sinks flushed exactly once, merge and "
        "split targets flushed from their first node, success only past the last node, failures returned. (2) In the "
        "merge loop and while it is set up, a source that has no further row has its own chain flushed from node 0 "
        "before it is dropped. (3) Every sink type that owns a writer overrides the flush operation and reports success "
        "only after its writer's flush succeeded.")


def run(ctx):
    m = model(ctx)
    Walk(ctx, m.flushfn, FLUSH, False).run()
    exhausted(ctx, m)
    sinks(ctx)


def flushes(m, events):
    return [e for e in all_events(events) if e[0] == "call" and e[1] == m.flushfn]


def flush_ok(ctx, m, e, cid, st, where):
    a = e[2]
    ctx.ob("flush-own-chain", a[m.fchain_i] == cid or at_len(m, a[m.fchain_i], cid), "source of chain %s flushes chain %s" % (show(cid), show(a[m.fchain_i])), where)
    if m.fnode_i is not None:
        ctx.ob("flush-from-first-node", a[m.fnode_i] == C(0), "flush starts at node %s" % show(a[m.fnode_i]), where)
    ctx.ob("flush-failure-stops", variants(m.I, st, e[4], RESULT) == {"Ok"}, "the run goes on although the flush failed", where)


def at_len(m, a, b):
    return lsame(a, b)


def exhausted(ctx, m):
    I = m.I
    n = 0
    # in the merge loop: removing element k without putting one back
    for it, e in m.deliv:
        el = elem_of(e[2][m.row_i])
        if el is None or el[1] not in it["next"]:
            ctx.undecided("pending rows are not kept in a vector")
            continue
        V, k = el[1], el[2]
        nx = it["next"][V]
        fl = flushes(m, it["events"])
        if nx == ("rm", V, k):
            n += 1
            if ctx.ob("flush-when-exhausted", len(fl) >= 1, "an exhausted source flushes its chain (%d calls)" % len(fl), e[5]):
                for f in fl:
                    flush_ok(ctx, m, f, e[2][m.chain_i], it["st"], f[5])
        else:
            for f in fl:
                ctx.ob("flush-failure-stops", variants(I, it["st"], f[4], RESULT) == {"Ok"},
                       "the run goes on although the flush failed", f[5])
    # while filling: sources that produce no first row
    for L in m.loops.values():
        if L is m.main:
            continue
        for it in L["iters"]:
            pulls = [c for c in it["events"] if c[0] == "call" and c[7] == NEXT_ROW]
            pulls += [c for e in it["events"] if e[0] == "loop" for c in all_events([e]) if c[0] == "call" and c[7] == NEXT_ROW]
            if not pulls or any(it2 is not it and it["events"] == it2["events"] for it2 in ()):
                continue
            grows = [s for s, x in it["next"].items() if x[0] == "push" and x[1] == s]
            if L["id"] in [l2["id"] for l1 in m.loops.values() if l1 is not L for i in l1["iters"] for l2 in [e[1] for e in i["events"] if e[0] == "loop"]]:
                continue
            if grows:
                continue
            n += 1
            fl = flushes(m, it["events"])
            ctx.ob("flush-when-empty", len(fl) >= 1, "a source without rows flushes its chain (%d calls)" % len(fl), L["sp"])
            for f in fl:
                ctx.ob("flush-failure-stops", variants(I, it["st"], f[4], RESULT) == {"Ok"},
                       "the run goes on although the flush failed", f[5])
                src = pulls[0][3][0]
                if src[0] == "sel" and m.fnode_i is not None:
                    ctx.ob("flush-from-first-node", f[2][m.fnode_i] == C(0), "flush starts at node %s" % show(f[2][m.fnode_i]), f[5])
                from c07 import index_of
                ix = index_of(I, m, src)
                if ix and ix[0] == "abs":
                    ctx.ob("flush-own-chain", same_value(I, m.loops.values(), ix[1], f[2][m.fchain_i]), "source %s flushes chain %s" % (show(ix[1]), show(f[2][m.fchain_i])), f[5])
    ctx.ob("ends-covered", n > 0, "%d ways for a source to end" % n)
    # a failing flush must not turn into success
    for st, o in m.outs:
        if o[0] != "ret":
            continue
        for e in st.events():
            if e[0] == "call" and e[1] == m.flushfn:
                v = variants(I, st, e[4], RESULT)
                if "Err" in v:
                    ctx.ob("flush-failure-stops", variants(I, st, o[1], RESULT) == {"Err"},
                           "success although the flush failed", e[5])


def is_writer(F, ty, depth=0):
    t = F.tys[ty]
    s = t["s"]
    if "Write" in s or "::Writer" in s or "fs::File" in s:
        return True
    return False


def sinks(ctx):
    F = ctx.F
    n = 0
    for t, name, p in F.impls_of(DATASINK, "boxed"):
        adt = t.get("p")
        if adt not in F.adts:
            continue
        ws = [(i, f) for i, f in fields_by_type(F, adt, lambda tt, ty: is_writer(F, ty))]
        if not ws:
            continue
        n += 1
        fl = ctx.impl_method(DATASINK, "flush", adt)
        if not ctx.ob("writer-sink-flushes:" + adt, fl is not None, "%s owns a writer and %s the flush operation" %
                      (adt, "overrides" if fl else "does not override")):
            continue
        I, outs = ctx.explore(fl)
        for st, o in outs:
            if o[0] != "ret" or "Ok" not in variants(I, st, o[1], RESULT):
                continue
            for i, f in ws:
                okc = False
                for e in st.events():
                    if e[0] == "call" and e[7].rsplit("::", 1)[-1] in ("flush",) and \
                            mentions(e[3][0], lambda x, f=f: x[0] == "fld" and x[3] == f) or \
                            e[0] == "call" and e[7].rsplit("::", 1)[-1] == "flush" and mentions(e[2][0], lambda x, f=f: x[0] == "f" and x[-1] == f):
                        v = variants(I, st, e[4], RESULT)
                        okc = okc or v == {"Ok"} or mentions(o[1], lambda x, e=e: x == e[4])
                ctx.ob("writer-flushed:" + adt, okc, "flush succeeds only after %s.%s was flushed" % (adt.rsplit("::", 1)[-1], f))
    ctx.ob("writer-sinks", n > 0, "%d sink types own a writer" % n)
