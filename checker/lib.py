"""Shared helpers for the rules: path-condition queries, event walks, roles in the call graph."""
import hashlib
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine
import models  # noqa: F401  (registers the transfer functions)
from engine import *
from facts import Facts
import build

NEXT_ROW = "chopper::chopper::Source::next_row"
WRITE_ROW = "chopper::chopper::DataSink::write_row"
FLUSH = "chopper::chopper::DataSink::flush"
SOURCE = "chopper::chopper::Source"
DATASINK = "chopper::chopper::DataSink"
HEADERSINK = "chopper::chopper::HeaderSink"
ROW = "chopper::types::Row"
FIELDVALUE = "chopper::types::FieldValue"
ERR = "error::Error"


def show(t, d=0):
    if isinstance(t, (frozenset, set)):
        return "/".join(sorted(t - {"un"}))
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return "()"
    k = t[0]
    if not isinstance(k, str):
        return "(" + ", ".join(show(x) for x in t) + ")"
    if k in ("c", "b"):
        return str(t[1])
    if k == "s":
        return repr(t[1])
    if k == "p":
        return "$%s" % t[1]
    if k == "app":
        return "%s(%s)" % (t[1], ", ".join(show(x) for x in t[2]))
    if k == "fld":
        return show(t[1]) + "." + str(t[3])
    if k == "dc":
        return show(t[1]) + " as " + t[2]
    if k == "deref":
        return "*" + show(t[1])
    if k == "sel":
        return show(t[1]) + "[" + show(t[2]) + "]"
    if k == "lv":
        return "lv<%s%s>" % (t[1][2], t[2])
    if k == "res":
        return "res%s:%s" % (t[1], t[2].split("::")[-1])
    if k == "adt":
        return "%s{%s}" % (t[2] if t[2] else t[1], ", ".join(show(x) for x in t[3]))
    if k == "tup":
        return "(%s)" % ", ".join(show(x) for x in t[1])
    if k == "ref":
        return "&" + show(t[1]) + "".join("." + show(p) for p in t[2])
    if k == "rel":
        return "%s %s %s" % (show(t[1]), "/".join(sorted(t[3] - {"un"})), show(t[2]))
    if k == "discr":
        return "D(%s)" % show(t[1])
    return k + "(" + ", ".join(show(x) for x in t[1:]) + ")"


class Undecided(Exception):
    """the code does not have a shape this rule can decide"""


class Ctx:
    def __init__(self, pid, tier="quick", seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.F = Facts(build.facts_path())
        self.obs = []        # (key, ok, text, where)
        self.undec = []
        self._obset = set()
        self.paths_seen = 0
        self.steps = 0
        self.fns = set()
        self.analysed = {}
        self._cache = {}

    # ---- analysis
    def explore(self, path, opaque=(), args=None, **kw):
        key = (path, tuple(sorted(opaque)) if not callable(opaque) else opaque, args and tuple(args),
               tuple(sorted((k, v) for k, v in kw.items())))
        if key in self._cache:
            return self._cache[key]
        if not self.F.has_body(path):
            raise Undecided("no function " + path)
        I = Interp(self.F, opaque=opaque, **kw)
        outs = I.explore(path, list(args) if args else None)
        self.steps += I.steps
        self.paths_seen += len(outs)
        self.fns.add(path)
        self.fns |= I.inlined
        self.analysed[path] = {"paths": len(outs), "steps": I.steps, "inlined": sorted(I.inlined)}
        r = (I, outs)
        self._cache[key] = r
        return r

    def ob(self, key, ok, text, where=None):
        o = (key, bool(ok), text, where)
        if o not in self._obset:
            self._obset.add(o)
            self.obs.append(o)
        return bool(ok)

    def undecided(self, text):
        if text not in self.undec:
            self.undec.append(text)

    # ---- roles
    def impl_method(self, trait, method, selfty):
        for t, n, p in self.F.impls_of(trait, method):
            if (t.get("p") or t["s"]) == selfty or (t.get("p") or t["s"]).endswith("::" + selfty):
                return p
        return None

    def callgraph(self):
        if not hasattr(self, "_cg"):
            cg = {}
            for p, b in self.F.bodies.items():
                s = cg.setdefault(p, set())
                for _, fn, t, sp in self.F.callees(b):
                    if fn:
                        s.add(fn["p"])
                        if fn.get("r"):
                            s.add(fn["r"])
                # closures and functions mentioned as values
                for bb in b["bbs"]:
                    for pl, rv, sp in bb["s"]:
                        if rv.get("k") == "agg" and rv.get("ak") == "closure":
                            s.add(rv["p"])
                        for x in ([rv.get("x"), rv.get("y")] + list(rv.get("xs", []))):
                            f = x.get("c", {}).get("fn") if isinstance(x, dict) else None
                            if f:
                                s.add(f.get("r") or f["p"])
                    if bb["t"]["k"] == "call":
                        for a in bb["t"]["args"]:
                            c = a.get("c") if isinstance(a, dict) else None
                            if c and "fn" in c:
                                s.add(c["fn"].get("r") or c["fn"]["p"])
            self._cg = cg
        return self._cg

    def reach(self, start):
        cg = self.callgraph()
        seen, work = set(), [start]
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            work.extend(cg.get(x, ()))
        return seen

    def recursive_entry(self, root, target):
        """functions reachable from root, lying on a call cycle from which `target` is called; the
        entries of that cycle (called from outside it)"""
        cg = self.callgraph()
        r = self.reach(root)
        cyc = [f for f in r if f in self.F.bodies and f in set().union(*[self.reach(g) for g in cg.get(f, ())] or [set()])]
        cyc = [f for f in cyc if target in self.reach(f)]
        entries = [f for f in cyc if any(f in cg.get(g, ()) and g not in cyc for g in r)]
        return sorted(set(entries)), sorted(set(cyc))


# ---------------------------------------------------------------- walking traces
def all_events(events, into=True):
    """events in order; loop bodies expanded once (every iteration path)"""
    for e in events:
        yield e
        if into and e[0] == "loop":
            for it in e[1]["iters"]:
                yield from all_events(it["events"])


def calls(events, *paths, into=False):
    for e in (all_events(events) if into else events):
        if e[0] == "call" and (not paths or e[1] in paths or e[7] in paths):
            yield e


def collect_loops(events, seen=None):
    seen = {} if seen is None else seen
    for e in events:
        if e[0] == "loop":
            if e[1]["id"] not in seen:
                seen[e[1]["id"]] = e[1]
                for it in e[1]["iters"]:
                    collect_loops(it["events"], seen)
                for x in e[1]["exits"]:
                    collect_loops(x["events"], seen)
    return seen


def variants(I, st, term, adt):
    """the variants `term` may still have in state st"""
    F = I.F
    if term[0] == "adt":
        return {term[2]}
    names = list(BUILTIN_DISCR.get(adt, {})) or [v["name"] for v in F.adts[adt]["variants"]]
    d = I.discr_of(term)
    lo, hi, ne = I.rng(st, d)
    return {n for n in names if lo <= F.discr(adt, n) <= hi and F.discr(adt, n) not in ne}


def is_some(I, st, t):
    return variants(I, st, t, OPTION) == {"Some"}


def is_none(I, st, t):
    return variants(I, st, t, OPTION) == {"None"}


def payload(I, t, variant="Some"):
    return I.rd_proj(I.rd_proj(t, ("v", variant)), ("f", 0, "0"))


def cmp_set(I, st, a, b):
    """outcomes of comparing a with b still possible in st"""
    r = rel({"lt", "eq", "gt"}, a, b)
    out = set()
    for o in ("lt", "eq", "gt"):
        s2 = st.fork()
        if I.assume(s2, rel({o}, a, b), True):
            out.add(o)
    return out


def entails(I, st, t):
    """state st implies boolean term t"""
    s2 = st.fork()
    return not I.assume(s2, neg(t), True)


def fld_of(I, t, name, adt=None):
    """field `name` of a struct-valued term"""
    if t[0] == "adt":
        i = I.F.field_index(t[1], name)
        return t[3][i] if i is not None and i < len(t[3]) else None
    if t[0] == "ov":
        for k, x in t[2]:
            if k[0] == "f" and len(k) > 2 and k[2] == name:
                return x
        return fld_of(I, t[1], name, adt)
    i = I.F.field_index(adt, name) if adt else None
    return ("fld", t, i, name)


def fields_by_type(F, adt, pred):
    """[(index, name)] of the struct's fields whose type satisfies pred(tyrecord, tyid)"""
    out = []
    for v in F.adts[adt]["variants"]:
        for i, f in enumerate(v["fields"]):
            if pred(F.tys[f[1]], f[1]):
                out.append((i, f[0]))
    return out


# ---------------------------------------------------------------- result
def known_findings():
    p = os.path.join(build.VERIF, "known_findings.txt")
    out = {}
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            # property=<id> key=<key> :: text
            head, _, text = line.partition("::")
            d = dict(x.split("=", 1) for x in head.split() if "=" in x)
            out.setdefault(d.get("property"), {})[d.get("key")] = text.strip()
    return out


def finish(ctx, rule_text, level="other", extra=None):
    F = ctx.F
    kf = known_findings().get(ctx.pid, {})
    bad = [o for o in ctx.obs if not o[1]]
    new, known = [], []
    for o in bad:
        (known if o[0] in kf else new).append(o)
    if ctx.undec and not ctx.obs:
        pass
    wall = time.time() - ctx.t0
    keys = sorted(set(o[0] for o in ctx.obs))
    cov = {
        "explanation": rule_text,
        "obligations": len(ctx.obs),
        "discharged": len([o for o in ctx.obs if o[1]]),
        "distinct_obligations": len(keys),
        "abstract_paths": ctx.paths_seen,
        "abstract_steps": ctx.steps,
        "functions_analysed": sorted(ctx.fns),
        "entries": ctx.analysed,
        "samples": [{"obligation": o[0], "ok": o[1], "text": o[2], "where": o[3]} for o in ctx.obs[:300]],
        "undecided": ctx.undec,
        "exhaustive": True,
    }
    if extra:
        cov.update(extra)
    ev = {
        "property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": level,
        "coverage": cov,
        "assumptions": ["the MIR produced by the pinned nightly from /repo's current source is what is compiled",
                        "the transfer functions in checker/models.py describe the std and dependency calls"],
        "wall_s": round(wall, 3), "violations": len(new),
    }
    evdir = os.environ.get("VERIF_EVID", os.path.join(build.VERIF, "evidence"))
    os.makedirs(evdir, exist_ok=True)
    epath = os.path.join(evdir, ctx.pid + ".json")
    seen = set()
    for o in known:
        if o[0] not in seen:
            seen.add(o[0])
            print("KNOWN-FINDING: property=%s %s" % (ctx.pid, kf[o[0]]))
    if new:
        rp = os.path.join(evdir, ctx.pid + ".violation.json")
        with open(rp, "w") as f:
            json.dump([{"key": o[0], "text": o[2], "where": o[3]} for o in new], f, indent=1)
        ev["coverage"]["violations_found"] = [{"key": o[0], "text": o[2], "where": o[3]} for o in new]
        done = set()
        for o in new:
            if (o[0], o[3]) in done:
                continue
            done.add((o[0], o[3]))
            print("  %s: %s%s" % (o[0], o[2], " [%s]" % o[3] if o[3] else ""))
        print("VIOLATION property=%s replay=%s" % (ctx.pid, rp))
    with open(epath, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for u in ctx.undec:
        print("undecided: " + u)
    print("%s: %d obligations, %d discharged, %d paths, %.1fs" %
          (ctx.pid, len(ctx.obs), cov["discharged"], ctx.paths_seen, wall))
    return 1 if new else 0


def whole(ctx, I, outs):
    """a single call of read or write may do a part of the work: how much is what the call gives back"""
    done = set()
    for s, o in outs:
        loops = list(collect_loops(s.events()).values())
        its = [it for L in loops for it in L["iters"]] + [x for L in loops for x in L["exits"]]
        for e in all_events(s.events()):
            if e[0] != "call" or not e[7].endswith(("::Write::write", "::Read::read")) or e[5] in done:
                continue
            n = payload(I, e[4], "Ok")
            terms = list(s.conds()) + [c for it in its for c in it["conds"]] + [v for it in its for v in (it.get("next") or {}).values()]
            terms += [x for f in all_events(s.events()) if f[0] == "call" and f is not e for x in f[3]]
            if o[0] == "ret":
                terms.append(o[1])
            if len(e[3]) > 1 and I.len_of(e[3][1]) == C(1):
                continue       # all or nothing
            terms = [t for t in terms if not (t[0] == "rel" and n in (t[1], t[2]) and (is_c(t[1]) or is_c(t[2])))]
            if not any(mentions(t, lambda x: x == n) for t in terms):
                done.add(e[5])
                ctx.ob("whole", False, "%s may do a part of the work, and how much is not looked at" % e[7].rsplit("::", 1)[1], e[5])
    return done
