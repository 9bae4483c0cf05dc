"""Access to the facts dumped by the driver for one crate."""
import json


class Facts:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.crate = d["crate"]
        self.tys = d["tys"]
        self.adts = {a["path"]: a for a in d["adts"]}
        self.impls = d["impls"]
        self.statics = {s["path"]: s for s in d["statics"]}
        self.bodies = {b["path"]: b for b in d["bodies"]}
        self._loops = {}
        self._live = {}
        self._mut = {}
        self._interp = None

    # ---- bodies
    def body(self, p):
        return self.bodies.get(p)

    def has_body(self, p):
        return p in self.bodies

    def is_ctor(self, p):
        if p in self.adts and not self.adts[p]["enum"]:
            return True
        base, _, last = p.rpartition("::")
        return base in self.adts and any(v["name"] == last for v in self.adts[base]["variants"])

    def ctor(self, p, args):
        base, _, last = p.rpartition("::")
        if p in self.adts and not self.adts[p]["enum"]:
            return ("adt", p, last, tuple(args))
        return ("adt", base, last, tuple(args))

    def static_value(self, p):
        s = self.statics.get(p)
        if s and s.get("v") is not None:
            if self._interp is None:
                from engine import Interp
                self._interp = Interp(self)
            return self._interp.cv(s["v"])
        return ("static", p)

    # ---- types
    def discr(self, adt, variant):
        from engine import BUILTIN_DISCR
        if adt in BUILTIN_DISCR:
            return BUILTIN_DISCR[adt].get(variant)
        a = self.adts.get(adt)
        if a and a["enum"]:
            for v in a["variants"]:
                if v["name"] == variant:
                    return int(v["disc"])
        return None

    def variant_of(self, adt, disc):
        from engine import BUILTIN_DISCR
        if adt in BUILTIN_DISCR:
            for k, v in BUILTIN_DISCR[adt].items():
                if v == disc:
                    return k
        a = self.adts.get(adt)
        if a:
            for v in a["variants"]:
                if v["disc"] is not None and int(v["disc"]) == disc:
                    return v["name"]
        return None

    def field_name(self, adt, variant, i):
        a = self.adts.get(adt)
        if a:
            for v in a["variants"]:
                if v["name"] == variant and i < len(v["fields"]):
                    return v["fields"][i][0]
        return str(i)

    def field_index(self, adt, name, variant=None):
        a = self.adts.get(adt)
        if a:
            for v in a["variants"]:
                if variant is None or v["name"] == variant:
                    for i, f in enumerate(v["fields"]):
                        if f[0] == name:
                            return i
        return None

    def place_ty(self, body, p):
        ty = body["locals"][p[0]]
        for e in p[1:]:
            t = self.tys[ty]
            if e == "*":
                if t["k"] in ("ref", "ptr"):
                    ty = t["t"]
                elif t["k"] == "adt" and t["p"] == "alloc::boxed::Box":
                    ty = t["a"][0]
            elif isinstance(e, dict) and "f" in e:
                ty = e["t"]
            elif isinstance(e, dict) and ("ix" in e or "cix" in e):
                ty = t.get("t", ty)
        return ty

    def strip_ty(self, ty):
        """through references and boxes"""
        while True:
            t = self.tys[ty]
            if t["k"] in ("ref", "ptr"):
                ty = t["t"]
            elif t["k"] == "adt" and t["p"] == "alloc::boxed::Box" and t.get("a"):
                ty = t["a"][0]
            else:
                return ty

    def tname(self, ty):
        t = self.tys[self.strip_ty(ty)]
        return t.get("p") or t["s"]

    HANDLES = ("std::io", "alloc::io", "core::io", "csv::", "core::fmt::Formatter", "std::fs", "flate2", "bzip2",
               "ureq", "lz_fear", "paku", "ruzstd", "crc32fast")
    NOT_HANDLES = ("core::io::error", "std::io::error", "csv::string_record", "csv::error")

    def is_handle(self, ty):
        t = self.tys[self.strip_ty(ty)]
        if t["k"] in ("param", "alias"):
            return True
        if t["k"] == "dyn":
            return True
        p = t.get("p", "")
        if p.startswith(self.NOT_HANDLES):
            return False
        return p.startswith(self.HANDLES)

    def has_mut(self, ty, depth=0):
        """can a callee receiving this argument change something the caller still sees / own a handle"""
        if (ty, depth > 3) in self._mut:
            return self._mut[(ty, depth > 3)]
        t = self.tys[ty]
        r = False
        if t["k"] in ("ref", "ptr"):
            r = t["m"]
        self._mut[(ty, depth > 3)] = r
        return r

    # ---- CFG
    def succs(self, bb):
        t = bb["t"]
        k = t["k"]
        if k in ("goto", "drop", "assert", "false"):
            return [t["to"]]
        if k == "switch":
            r = [c[1] for c in t["cs"]]
            if t.get("else") is not None:
                r.append(t["else"])
            return r
        if k == "call":
            return [t["to"]] if t.get("to") is not None else []
        return []

    def loops(self, body):
        """natural loops: head -> set of blocks (merged per head)"""
        p = body["path"]
        if p in self._loops:
            return self._loops[p]
        bbs = body["bbs"]
        n = len(bbs)
        succ = [self.succs(b) for b in bbs]
        # dominators (iterative)
        order, seen = [], set()
        st = [(0, iter(succ[0]))] if n else []
        seen.add(0)
        while st:
            x, it = st[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    st.append((y, iter(succ[y])))
                    break
            else:
                order.append(x)
                st.pop()
        order.reverse()
        pos = {b: i for i, b in enumerate(order)}
        pred = {b: [] for b in order}
        for b in order:
            for y in succ[b]:
                pred[y].append(b)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for q in pred[b]:
                    if q in idom:
                        if new is None:
                            new = q
                        else:
                            x, y = q, new
                            while x != y:
                                while pos[x] > pos[y]:
                                    x = idom[x]
                                while pos[y] > pos[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]

        res = {}
        for b in order:
            for y in succ[b]:
                if dom(y, b):
                    body_set = res.setdefault(y, {y})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x in body_set:
                            continue
                        body_set.add(x)
                        work.extend(pred[x])
        self._loops[p] = res
        return res

    def live_in(self, body, bbi, local):
        p = body["path"]
        if p not in self._live:
            self._live[p] = self._liveness(body)
        live, borrowed = self._live[p]
        return local in borrowed or local in live[bbi]

    def _liveness(self, body):
        bbs = body["bbs"]
        borrowed = set()
        use, deff = [], []

        def pl_use(p, u, d, iswrite=False):
            l = p[0]
            if iswrite and len(p) == 1:
                if l not in u:
                    d.add(l)
            elif l not in d:
                u.add(l)
            for e in p[1:]:
                if isinstance(e, dict) and "ix" in e and e["ix"] not in d:
                    u.add(e["ix"])

        def op(x, u, d):
            if "c" in x:
                return
            p = x.get("cp") or x.get("mv")
            if p:
                pl_use(p, u, d)

        for bb in bbs:
            u, d = set(), set()
            for place, rv, sp in bb["s"]:
                for key in ("x", "y"):
                    if isinstance(rv.get(key), dict):
                        op(rv[key], u, d)
                for x in rv.get("xs", []):
                    op(x, u, d)
                if "p" in rv and isinstance(rv["p"], list):
                    pl_use(rv["p"], u, d)
                    if rv["k"] == "ref" and "*" not in rv["p"][1:]:
                        borrowed.add(rv["p"][0])
                pl_use(place, u, d, True)
            t = bb["t"]
            if t["k"] in ("switch", "assert"):
                op(t["x"], u, d)
            if t["k"] == "call":
                op(t["f"], u, d)
                for a in t["args"]:
                    op(a, u, d)
                pl_use(t["dst"], u, d, True)
            if t["k"] == "return" and 0 not in d:
                u.add(0)
            use.append(u)
            deff.append(d)
        live = [set() for _ in bbs]
        ch = True
        while ch:
            ch = False
            for i in range(len(bbs) - 1, -1, -1):
                out = set()
                for s in self.succs(bbs[i]):
                    out |= live[s]
                new = use[i] | (out - deff[i])
                if new != live[i]:
                    live[i] = new
                    ch = True
        return live, borrowed

    def mod_fields(self, path, i, _seen=None):
        """fields of *argument i that function `path` may change; None = anything"""
        key = ("mod", path, i)
        if key in self._mut:
            return self._mut[key]
        seen = _seen or set()
        if (path, i) in seen:
            return frozenset()
        seen = seen | {(path, i)}
        body = self.bodies.get(path)
        if body is None or i + 1 >= len(body["locals"]):
            return None
        ali = {i + 1}
        mods = set()

        def field(p):
            """first field of a place through an alias: (idx,name), '*' for the whole, or None"""
            if p[0] not in ali:
                return None
            if len(p) < 2 or p[1] != "*":
                return None
            for e in p[2:]:
                if isinstance(e, dict) and "f" in e:
                    return (e["i"], e["f"])
                return "*"
            return "*"

        ch = True
        while ch:
            ch = False
            for bb in body["bbs"]:
                for place, rv, sp in bb["s"]:
                    src = None
                    if rv.get("k") == "ref" and rv["p"][0] in ali and field(rv["p"]) == "*":
                        src = place
                    if rv.get("k") == "use":
                        p = rv["x"].get("cp") or rv["x"].get("mv")
                        if p and len(p) == 1 and p[0] in ali:
                            src = place
                    if src is not None:
                        if len(src) != 1:
                            return None
                        if src[0] not in ali:
                            ali.add(src[0])
                            ch = True
        for bb in body["bbs"]:
            if bb["cl"]:
                continue
            for place, rv, sp in bb["s"]:
                f = field(place)
                if f == "*":
                    return None
                if f:
                    mods.add(f)
                if rv.get("k") == "ref" and rv.get("m"):
                    f = field(rv["p"])
                    if f and f != "*":
                        mods.add(f)
                if rv.get("k") == "agg":
                    for x in rv["xs"]:
                        p = x.get("mv") or x.get("cp")
                        if p and len(p) == 1 and p[0] in ali:
                            return None
            t = bb["t"]
            if t["k"] == "call":
                f = field(t["dst"])
                if f == "*":
                    return None
                if f:
                    mods.add(f)
                for j, a in enumerate(t["args"]):
                    p = a.get("mv") or a.get("cp")
                    if p and len(p) == 1 and p[0] in ali:
                        ty = self.tys[body["locals"][p[0]]]
                        if ty["k"] == "ref" and not ty["m"]:
                            continue
                        fn = t["f"].get("c", {}).get("fn")
                        tgt = fn and (fn.get("r") or fn["p"])
                        sub = self.mod_fields(tgt, j, seen) if tgt in self.bodies else None
                        if sub is None:
                            return None
                        mods |= sub
        r = frozenset(mods)
        if not _seen:
            self._mut[key] = r
        return r

    # ---- call graph
    def impls_of(self, trait, method=None):
        out = []
        for i in self.impls:
            if i["trait"] == trait:
                for n, p in i["methods"]:
                    if method is None or n == method:
                        out.append((self.tys[i["self"]], n, p))
        return out

    def callees(self, body):
        """yield (bb index, fn dict or None, terminator, span)"""
        for i, bb in enumerate(body["bbs"]):
            if bb["cl"]:
                continue
            t = bb["t"]
            if t["k"] == "call":
                yield i, t["f"].get("c", {}).get("fn"), t, bb["sp"]
