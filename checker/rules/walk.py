"""How the driver walks a chain: for every node, what is called on what (C02, C08)."""
from driver_model import *
from driver_model import _sub

NODE = "chopper::data_graph::DataNode"
GRAPH = "chopper::data_graph::DataGraph"

# vector operations whose meaning is exact; anything else makes the comparison undecided
KNOWN = ("sel", "rm", "init", "tail", "seq", "push", "trunc", "lv", "post", "p", "c", "store")


def recognised(t):
    return t[0] in KNOWN or (t[0] == "app" and t[1] in ("+", "-", "len", "reverse", "reversed"))


def canon_graph(F):
    i = F.field_index(GRAPH, "data_chains")

    def canon(t):
        if not isinstance(t, tuple):
            return t
        if len(t) == 4 and t[0] == "fld" and t[3] == "data_chains":
            return ("GRAPH",)
        return tuple(canon(x) for x in t)
    return canon


def syms(L, it):
    return it["next"]


def nested_calls(events, names):
    return [e for e in all_events(events) if e[0] == "call" and (e[1] in names or e[7] in names)]


class Walk:
    def __init__(self, ctx, fn, sinkcall, rows):
        self.ctx, self.F, self.fn, self.sinkcall, self.rows = ctx, ctx.F, fn, sinkcall, rows
        self.I, self.outs = ctx.explore(fn, opaque=(fn,))
        self.canon = canon_graph(self.F)
        m = model(ctx)
        self.chain_i = m.chain_i if rows else m.fchain_i
        self.node_i = m.node_i if rows else m.fnode_i
        self.row_i = m.row_i
        loops = collect_loops([e for s, o in self.outs for e in s.events()])
        self.loops = loops
        mains = [L for L in loops.values() if any(any(e[0] == "call" and e[7] == sinkcall for e in it["events"]) for it in L["iters"])]
        if len(mains) != 1:
            raise Undecided("no single loop over the nodes of a chain in " + fn)
        self.L = mains[0]

    def pos_of(self, it):
        """(node term, position term) visited by an iteration"""
        for c in it["conds"]:
            for t in subterms(c):
                if t[0] == "discr" and t[1][0] == "sel":
                    vec = self.canon(t[1][1])
                    if mentions(vec, lambda x: x == ("GRAPH",)):
                        return t[1], t[1][2]
        for e in it["events"]:
            if e[0] == "call" and e[7] == self.sinkcall:
                r = e[3][0]
                while r[0] in ("fld", "dc", "deref"):
                    r = r[1]
                if r[0] == "sel":
                    return r, r[2]
        return None, None

    def run(self):
        ctx, I, L = self.ctx, self.I, self.L
        chain = ("p", self.chain_i)
        kinds = set()
        poss = set()
        what = "row" if self.rows else "flush"
        R0 = None
        if self.rows:
            for e in [e for it in L["iters"] for e in it["events"] if e[0] == "call" and e[7] == self.sinkcall]:
                R0 = e[3][1]
                break
            for e in [e for it in L["iters"] for e in it["events"] if e[0] == "call" and e[7] == self.sinkcall]:
                ctx.ob("rows-carried", e[3][1] == R0, "each sink is handed the rows left by the nodes before it", e[5])
            if R0 is None or R0 not in L["init"]:
                raise Undecided("rows are not carried in a variable")
            ctx.ob("starts-with-row", L["init"][R0] == ("seq", (("p", self.row_i),)),
                   "the walk starts with exactly the given row: %s" % show(L["init"][R0]), L["sp"])
        for it in L["iters"]:
            node, pos = self.pos_of(it)
            if node is None:
                ctx.undecided("an iteration of the node loop in %s visits no recognisable node" % self.fn)
                continue
            vec = self.canon(node[1])
            good = vec[0] == "fld" and vec[3] == "nodes" and vec[1][0] == "sel" and vec[1][1] == ("GRAPH",) and vec[1][2] == chain
            ctx.ob(what + "-own-chain", good, "visits node %s of %s" % (show(pos), show(vec)), L["sp"])
            first = start(I, L, pos)
            want = ("p", self.node_i) if self.node_i is not None else C(0)
            ctx.ob(what + "-from-start", lsame(first, want), "the walk starts at node %s" % show(first), L["sp"])
            nxt = step(I, L, it, pos)
            ctx.ob(what + "-every-node", lsame(nxt, add(pos, C(1))), "after node x the walk visits %s" % show(nxt), L["sp"])
            poss.add(self.canon(pos))
            vs = variants(I, it["st"], node, NODE)
            if len(vs) != 1:
                ctx.ob(what + "-kind", False, "an iteration treats %s nodes alike" % "/".join(sorted(vs)), L["sp"])
                continue
            kind = vs.pop()
            kinds.add(kind)
            evs = it["events"]
            body = I.rd_proj(I.rd_proj(node, ("v", kind)), ("f", 0, "0"))
            rec = [e for e in evs if e[0] == "call" and e[1] == self.fn and not self.own(e, chain)]
            inner = [e[1] for e in evs if e[0] == "loop" and any(
                x[0] == "call" and x[1] == self.fn and not self.own(x, chain) for x in all_events([e]))]
            mine = [e for e in all_events(evs) if e[0] == "call" and e[1] == self.fn and self.own(e, chain)]
            sk = [e for e in all_events(evs) if e[0] == "call" and e[7] == self.sinkcall]
            self.fallible(it["st"], evs)
            if mine and not self.rows:
                ctx.undecided("the flush walk recurses into its own chain")
            if kind == "DataSink":
                ok_ = len(sk) == 1 and sk[0] in evs and sk[0][3][0] in (body, ("deref", body))
                ctx.ob(what + "-sink-called-once", ok_, "a sink node: %d call(s) on %s" %
                       (len(sk), show(sk[0][3][0]) if sk else "-"), L["sp"])
                if self.rows and ok_:
                    self.fan(it, evs, sk[0], R0, pos, chain)
                ctx.ob(what + "-sink-only", not rec and not inner, "a sink node leads to no other chain", L["sp"])
            elif kind == "Merge":
                ok_ = len(rec) == 1 and not inner and not sk and self.rec_args(rec[0], body, C(0), self.first(R0))
                ctx.ob(what + "-merge", ok_, "a merge node passes on to %s" %
                       (", ".join(show(a) for a in rec[0][3][1:]) if rec else "nothing"), L["sp"])
                self.unchanged(it, evs, R0, pos, chain)
            elif kind == "Split":
                ok_, text = self.split(it, rec, inner, body, R0)
                ctx.ob(what + "-split", ok_ and not sk, "a split node passes on to " + text, L["sp"])
                self.unchanged(it, evs, R0, pos, chain)
        ctx.ob(what + "-all-kinds", kinds == {v["name"] for v in self.F.adts[NODE]["variants"]},
               "node kinds handled: " + ", ".join(sorted(kinds)), L["sp"])
        # ends
        pos = poss.pop() if len(poss) == 1 else None
        for st, o in self.outs:
            if o[0] != "ret":
                continue
            vs = variants(I, st, o[1], RESULT)
            self.errs(st, o, vs)
            if "Ok" not in vs:
                continue
            if pos is None:
                ctx.undecided("the node position is not the same in every branch of " + self.fn)
                continue
            ln = app("len", ("fld", ("sel", ("GRAPH",), ("p", self.chain_i)), 0, "nodes"))
            if self.rows and self.length(st, st.conds(), R0)[1] <= 0:
                continue
            d = sub(pos, ln)
            lo, hi, ne = bounds(st.conds(), d, self.canon)
            end = lo >= 0
            if not end and self.rows:
                # the early end: the last sink left no row / everything was passed on
                end, text = self.early_end(st)
            else:
                text = ""
            ctx.ob(what + "-to-the-end", end, "the walk ends successfully before the last node" + text, L["sp"])

    def first(self, R0):
        return self.I.sel(R0, C(0)) if R0 else None

    def rec_args(self, e, chain, node, row):
        a = e[3]
        ok_ = a[self.chain_i] == chain
        if self.node_i is not None:
            ok_ = ok_ and lsame(a[self.node_i], node)
        if self.rows:
            ok_ = ok_ and a[self.row_i] == row
        return ok_

    def own(self, e, chain):
        return e[3][self.chain_i] == chain

    def unchanged(self, it, evs, R0, pos, chain):
        if R0 and it["next"][R0] != R0:
            ok_, text = self.coverage(evs, None, it["conds"], it["st"], pos, chain, it["next"][R0], R0)
            if ok_ is None:
                self.ctx.undecided("rows after a merge or split node: " + text)
            else:
                self.ctx.ob("tee-keeps-row", ok_, "after a merge or split node the chain %s" % text, self.L["sp"])

    def split(self, it, rec, inner, body, R0):
        if rec or len(inner) != 1:
            return False, "%d direct call(s), %d loop(s)" % (len(rec), len(inner))
        L2 = inner[0]
        I = self.I
        for i2 in L2["iters"]:
            r = [e for e in i2["events"] if e[0] == "call" and e[1] == self.fn]
            if len(r) != 1 or any(e[0] == "loop" for e in i2["events"]):
                return False, "%d calls per target" % len(r)
            c = r[0][3][self.chain_i]
            if c[0] != "sel" or c[1] != body:
                return False, "chain %s" % show(c)
            j = c[2]
            if not self.rec_args(r[0], c, C(0), self.first(R0)):
                return False, ", ".join(show(a) for a in r[0][3][1:])
            if start(I, L2, j) != C(0) or step(I, L2, i2, j) != add(j, C(1)):
                return False, "targets from %s, then %s" % (show(start(I, L2, j)), show(step(I, L2, i2, j)))
            lo, _, _ = bounds(it["conds"], sub(j, app("len", body)), lambda x: x)
            if lo < 0:
                return False, "only some of its targets"
        return bool(L2["iters"]), "each of its targets"

    def fallible(self, st, evs):
        for e in evs:
            if e[0] == "call" and (e[1] == self.fn or e[7] == self.sinkcall):
                v = variants(self.I, st, e[4], RESULT)
                self.ctx.ob("failure-stops", v == {"Ok"}, "the walk goes on although %s failed" % e[7].rsplit("::", 1)[-1], e[5])
            elif e[0] == "loop":
                for it in e[1]["iters"]:
                    self.fallible(it["st"], it["events"])

    def errs(self, st, o, vs):
        for e in st.events():
            if e[0] == "call" and (e[1] == self.fn or e[7] == self.sinkcall):
                v = variants(self.I, st, e[4], RESULT)
                if "Err" in v and "Ok" in vs:
                    self.ctx.ob("failure-stops", mentions(o[1], lambda t: t == e[4]),
                                "success is reported although %s failed" % e[7].rsplit("::", 1)[-1], e[5])

    # ---- the rows a sink leaves
    def fan(self, it, evs, sk, R0, pos, chain):
        ok_, text = self.coverage(evs, sk, it["conds"], it["st"], pos, chain, it["next"][R0])
        if ok_ is None:
            self.ctx.undecided("rows left by a sink: " + text)
        else:
            self.ctx.ob("rows-in-order", ok_, text, sk[5])

    def early_end(self, st):
        sk = [e for e in st.events() if e[0] == "call" and e[7] == self.sinkcall]
        if not sk:
            return False, ""
        node = sk[-1][3][0]
        while node[0] in ("fld", "dc", "deref"):
            node = node[1]
        pos = node[2]
        evs = st.events()
        evs = evs[evs.index(sk[-1]):]
        r = self.coverage(evs, sk[-1], st.conds(), st, pos, ("p", self.chain_i), None)
        return bool(r[0]), " (%s)" % r[1]

    def coverage(self, evs, sk, conds, st, pos, chain, left, P=None):
        """the rows P left by sink call sk are passed on in order: a prefix by calls for the next node,
        the rest (at most one) carried to the next iteration as `left` (None: nothing carried)"""
        I = self.I
        if P is None:
          for t in [x for e in evs if e is not sk for x in subterms(e[2:5] if e[0] == "call" else ())] + \
                [x for e in evs if e[0] == "loop" for v in e[1]["init"].values() for x in subterms(v)] + \
                (list(subterms(left)) if left else []) + [x for c in conds for x in subterms(c)]:
            if t[0] == "post" and t[1] == sk[4][1] and t[2] == 1:
                P = t
        if P is None:
            return False, "the rows left by a sink are not looked at"
        n = app("len", P)
        cov = C(0)      # rows passed on so far
        cur = P         # a vector whose elements are P[cov..]
        for e in evs:
            if e[0] == "call" and e[1] == self.fn and self.own(e, chain):
                a = e[3]
                if a[self.chain_i] != chain or not lsame(a[self.node_i], add(pos, C(1))):
                    return False, "extra row continues at chain %s node %s" % (show(a[self.chain_i]), show(a[self.node_i]))
                ix = self.index_in(a[self.row_i], P, cur, cov)
                if ix is None:
                    return (None if not recognised(a[self.row_i]) else False), "passes on %s" % show(a[self.row_i])
                if not lsame(ix, cov):
                    return False, "passes on row %s before row %s" % (show(ix), show(cov))
                cov = add(cov, C(1))
            elif e[0] == "loop":
                L2 = e[1]
                recs = [x for i2 in L2["iters"] for x in i2["events"] if x[0] == "call" and x[1] == self.fn and self.own(x, chain)]
                if not recs:
                    continue
                for i2 in L2["iters"]:
                    r = [x for x in i2["events"] if x[0] == "call" and x[1] == self.fn]
                    if len(r) != 1:
                        return False, "%d rows passed on per turn" % len(r)
                    a = r[0][3]
                    if a[self.chain_i] != chain or not lsame(a[self.node_i], add(pos, C(1))):
                        return False, "extra row continues at chain %s node %s" % (show(a[self.chain_i]), show(a[self.node_i]))
                    row = a[self.row_i]
                    if row[0] != "sel":
                        return None, "passes on %s" % show(row)
                    W, j = row[1], row[2]
                    if W in L2["init"] and not is_c(j) and j in L2["init"]:
                        return None, "passes on %s" % show(row)
                    if W in L2["init"]:      # the vector shrinks
                        if L2["init"][W] != cur:
                            return (None if not recognised(L2["init"][W]) else False), "loops over %s" % show(L2["init"][W])
                        if j != C(0):
                            return False, "passes on row %s first" % show(j)
                        if i2["next"][W] not in (("rm", W, C(0)), ("tail", W, C(1))):
                            return False, "a passed-on row is followed by %s" % show(i2["next"][W])
                        ncur, ncov = W, None
                    else:
                        # an index moves over a fixed vector
                        if not self.prefix_of(W, P) and W != cur:
                            return (None if not recognised(W) else False), "passes on rows of %s" % show(W)
                        off = C(0) if self.prefix_of(W, P) else cov
                        if not lsame(add(start(I, L2, j), off), cov):
                            return False, "starts with row %s" % show(start(I, L2, j))
                        if not lsame(step(I, L2, i2, j), add(j, C(1))):
                            return False, "after row j passes on row %s" % show(step(I, L2, i2, j))
                        # where does it stop?
                        H = self.stop(conds, j)
                        if H is None:
                            return None, "cannot tell where the loop over the rows stops"
                        ncur, ncov = cur, add(H, off)
                cur, cov = ncur, ncov
        # what is left
        if left is None:
            if cov is None:
                lo, hi, ne = self.length(st, conds, cur)
                return hi <= 0, "stops with up to %s rows left" % hi
            lo, hi, _ = bounds(conds, sub(n, cov), lambda x: x)
            if hi <= 0 or lsame(cov, n) or lsame(cov, I.len_of(cur)):
                return True, "all rows passed on"
            _, hi, _ = self.length(st, conds, P)
            return cov == C(0) and hi <= 0, "stops while rows are left"
        if left == cur or left == P and cov == C(0):
            lo, hi, ne = self.length(st, conds, left)
            return hi <= 1, "goes on with %s rows" % ("at most one" if hi <= 1 else "several")
        if left[0] == "tail" and self.prefix_of(left[1], P) and cov is not None:
            if not lsame(left[2], cov):
                return False, "goes on from row %s after %s rows were passed on" % (show(left[2]), show(cov))
            hi = lin(sub(n, cov))
            if not hi[0] and hi[1] <= 1:
                return True, "goes on with the last row"
            _, hi, _ = bounds(conds, sub(n, cov))
            return hi <= 1, "goes on with several rows"
        if left[0] == "seq" and len(left[1]) == 1:
            x = left[1][0]
            if cov is None:
                if x == I.sel(cur, C(0)):
                    lo, hi, ne = self.length(st, conds, cur)
                    return hi <= 1, "goes on with one row"
                return (None if not recognised(x) else False), "goes on with %s" % show(x)
            ix = self.index_in(x, P, cur, cov)
            if ix is None:
                return (None if not recognised(x) else False), "goes on with %s" % show(x)
            if not lsame(ix, cov):
                return False, "goes on with row %s after %s rows were passed on" % (show(ix), show(cov))
            if lsame(add(cov, C(1)), n):
                return True, "goes on with the last row"
            _, hi, _ = self.length(st, conds, P)
            return is_c(cov) and hi <= cov[1] + 1, "goes on with row %s only" % show(ix)
        return (None if not recognised(left) else False), "goes on with %s" % show(left)

    def length(self, st, conds, v):
        lo, hi, ne = self.I.rng(st, self.I.len_of(v))
        lo2, hi2, _ = bounds(conds, self.I.len_of(v))
        return max(lo, lo2), min(hi, hi2), ne

    def prefix_of(self, W, P):
        while W != P:
            if W[0] in ("init", "trunc"):
                W = W[1]
            else:
                return False
        return True

    def index_in(self, x, P, cur, cov):
        if x[0] != "sel":
            return None
        if self.prefix_of(x[1], P):
            return x[2]
        if x[1] == cur and cov is not None:
            return add(x[2], cov)
        return None

    def stop(self, conds, j):
        """H such that the conditions after the loop say j >= H and nothing stronger"""
        best = None
        for c in conds:
            if c[0] != "rel":
                continue
            a, b, s = c[1], c[2], c[3] - {"un"}
            da, ca = lin(a)
            db, cb = lin(b)
            e = dict(da)
            for k, v in db.items():
                e[k] = e.get(k, 0) - v
                if not e[k]:
                    del e[k]
            if abs(e.get(j, 0)) != 1:
                continue
            n = ca - cb
            if e[j] == -1:
                s = frozenset(FLIP[x] for x in s)
                e = {k: -v for k, v in e.items()}
                n = -n
            # j + rest + n REL 0
            rest = {k: v for k, v in e.items() if k != j}
            t = C(-n)
            for k, v in rest.items():
                t = sub(t, mul(k, C(v))) if v > 0 else add(t, mul(k, C(-v)))
            if s == {"gt", "eq"} or s == {"eq"}:
                best = norm(t)
        return best


def norm(t):
    d, c = lin(t)
    out = None
    for k, v in sorted(d.items(), key=repr):
        if v < 0:
            continue
        x = mul(k, C(v))
        out = x if out is None else app("+", out, x)
    out = out if out is not None else C(0)
    for k, v in sorted(d.items(), key=repr):
        if v < 0:
            out = app("-", out, mul(k, C(-v)))
    return add(out, C(c)) if c else out
