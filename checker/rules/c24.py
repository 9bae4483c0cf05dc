"""C24: the same command on the same inputs gives the same output."""
from vecs import *
from c23 import paths_of, plain
import c13

RULE = ("Every function of the crate is searched for calls whose result is not fixed by the command line and the inputs: the clock, random "
        "numbers and hash seeds, the environment (but the variable documented for the time zone, whose name has to be a constant), the "
        "machine's own time zone, process and thread numbers, addresses taken as numbers. Every iterator over a hash map or set is followed by "
        "the type of what carries it: what takes it in must not depend on the order (sums and counts of integers, tests of all or any, "
        "greatest and least of whole elements, maps and sets, lists sorted whole afterwards). The list of a folder's files has to be "
        "put in order before a path is taken off it.")
TECHNIQUE = "effect analysis over all MIR bodies, type-directed tracking of unordered iterators, order of collections"
LIMITS = ("Dependencies are taken to be deterministic but for the calls named. A test that threads are used, or a loop over a hash map that does what "
          "the rule does not know, is left undecided.")

SEEN_ENV = "CHOPPER_TZ"
CLOCK = ("std::time::SystemTime::now", "std::time::Instant::now", "chrono::offset::utc::Utc::now", "chrono::Utc::now", "chrono::offset::local::Local::now",
         "chrono::offset::utc::Utc::today", "chrono::offset::local::Local::today", "std::time::SystemTime::elapsed", "std::time::Instant::elapsed")
NOSEED = ("std::hash::random::RandomState::new", "std::hash::random::DefaultHasher")
HASH = ("std::collections::hash::map::", "std::collections::hash::set::", "hashbrown::")
ITERS = ("Iter", "IterMut", "Keys", "Values", "ValuesMut", "IntoIter", "IntoKeys", "IntoValues", "Drain", "ExtractIf", "Union", "Intersection",
         "Difference", "SymmetricDifference")
NUM = ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "bool")
UNORDERED = ("std::collections::HashMap<", "std::collections::HashSet<", "std::collections::BTreeMap<", "std::collections::BTreeSet<",
             "std::collections::BinaryHeap<")
SAFE = ("count", "len", "any", "all", "size_hint", "is_empty", "drop", "drop_in_place", "max", "min", "for_each_", "is_subset", "eq_", "clone")
FOUND = ("find", "find_map", "position", "nth", "last", "max_by_key", "min_by_key", "max_by", "min_by", "fold", "try_fold", "reduce", "join", "concat",
         "next_back", "partition_point", "cmp", "partial_cmp")


def source(q, generic):
    """what a call's result depends on besides command line and inputs, or None"""
    n = q.rsplit("::", 1)[-1]
    if q in CLOCK or q.startswith("chrono::") and n in ("now", "today"):
        return "the time of the run"
    if q.startswith("chrono::offset::local::Local") or "Local" in generic and q.startswith("chrono::") and "offset::local::Local" in generic:
        return "the machine's time zone"
    if q.startswith(("rand::", "getrandom::", "fastrand::", "rand_core::", "uuid::")):
        return "a random number"
    if q.startswith(("std::hash::random::RandomState::build_hasher", "std::hash::random::RandomState::hash_one", "<std::hash::random::RandomState")) or \
            "RandomState" in q and n in ("build_hasher", "hash_one"):
        return "a hash seed"
    if q in ("std::env::vars", "std::env::vars_os", "std::env::temp_dir", "std::env::current_exe", "std::env::home_dir", "std::env::var",
             "std::env::var_os"):
        return "the environment"
    if q in ("std::process::id", "std::os::unix::process::parent_id") or q.startswith("std::thread") and n in (
            "current", "available_parallelism", "park_timeout"):
        return "the process or thread it runs in"
    if n in ("modified", "accessed", "created", "ino", "mtime", "atime", "ctime") and ("std::fs::Metadata" in q or "MetadataExt" in q):
        return "the times and numbers of the file system"
    if q.startswith("core::fmt::Pointer") or q.startswith("<") and "core::fmt::Pointer" in q:
        return "an address"
    if q.startswith("std::thread") and n in ("spawn", "scope", "spawn_scoped", "spawn_unchecked") or q.startswith("rayon"):
        return "?threads"
    return None


def constant(F, b, i):
    """the text given as first argument of the call that ends block i, if it is a constant"""
    a = b["bbs"][i]["t"]["args"][0]
    for _ in range(6):
        if "c" in a:
            v = a["c"]
            for x in (v.get("v"), v):
                if isinstance(x, dict) and isinstance(x.get("s"), str) and "fn" not in x:
                    return x["s"]
            from engine import Interp
            try:
                t = Interp(F).cv(v.get("v", v))
            except Exception:
                return None
            while t[0] in ("vref", "deref"):
                t = t[1]
            return t[1] if t[0] == "s" else None
        pl = a.get("cp") or a.get("mv")
        if not pl:
            return None
        l = pl[0]
        defs = [rv for bb in b["bbs"] for d, rv, sp in bb["s"] if d == [l]]
        if len(defs) != 1:
            return None
        rv = defs[0]
        if rv.get("k") == "use":
            a = rv["x"]
        elif rv.get("k") in ("ref", "rawptr") and isinstance(rv.get("p"), list):
            a = {"cp": rv["p"][:1]}
        else:
            return None
    return None


# ---------------------------------------------------------------- unordered iterators
def hashy(F, t, depth=0):
    """a type that hands out the elements of a hash map or set in its order"""
    x = F.tys[t]
    if depth > 6:
        return False
    p = x.get("p") or ""
    if p.startswith(HASH) and p.rsplit("::", 1)[-1] in ITERS:
        return True
    if x.get("k") in ("ref", "ptr"):
        return hashy(F, x["t"], depth + 1)
    if p and not p.startswith(("alloc::", "std::collections::hash", "core::result", "core::option::Option<(")):
        return any(isinstance(a, int) and hashy(F, a, depth + 1) for a in x.get("a", []) or [])
    return False


def local_of(a):
    pl = a.get("cp") or a.get("mv") if isinstance(a, dict) else None
    return pl[0] if pl and len(pl) == 1 else None


def tystr(F, t):
    return F.tys[t]["s"]


def loop_of(F, b, i):
    """the blocks of the innermost loop block i is in"""
    best = None
    for h, bs in F.loops(b).items():
        if i in bs and (best is None or len(bs) < len(best)):
            best = bs
    return best


def called(F, b, blocks):
    for j in blocks:
        bb = b["bbs"][j]
        if not bb["cl"] and bb["t"]["k"] == "call":
            fn = bb["t"]["f"].get("c", {}).get("fn")
            yield (fn.get("r") or fn["p"]) if fn else "?", bb["t"]


def sorted_later(F, b):
    """how the lists of a function are sorted: by whole elements, by a part of them, not known"""
    out = set()
    for i, fn, t, sp in F.callees(b):
        q = plain((fn.get("r") or fn["p"]) if fn else "?")
        n = q.rsplit("::", 1)[-1]
        if n in ("sort", "sort_unstable"):
            out.add("whole")
        if n not in ("sort_by", "sort_by_key", "sort_unstable_by", "sort_unstable_by_key", "sort_by_cached_key"):
            continue
        clo = [F.tys[b["locals"][l]] for l in [local_of(a) for a in t["args"][1:]] if l is not None]
        cb = next((F.body(x["p"]) for x in clo if x.get("p") in F.bodies), None)
        if cb is None:
            named = [a["c"]["fn"] for a in t["args"] if isinstance(a, dict) and "fn" in a.get("c", {})]
            out.add("whole" if named and named[0]["p"].endswith("Ord::cmp") else "?")
            continue
        cs = [plain((f.get("r") or f["p"]) if f else "?").rsplit("::", 1)[-1] for _, f, _, _ in F.callees(cb)]
        parts = any(len(pl) > 1 and pl[0] >= 2 and any(x != "*" and x != "deref" for x in pl[1:])
                    for bb in cb["bbs"] for d, rv, sp in bb["s"] for pl in places(rv))
        if n.endswith("key"):
            whole = set(cs) <= {"clone", "cloned", "to_owned", "to_string"} and not parts
        else:
            whole = cs.count("cmp") == 1 and set(cs) <= {"cmp", "reverse", "deref"} and not parts
        if whole:
            out.add("whole")
        elif {"then", "then_with"} & set(cs) or cs.count("cmp") + cs.count("partial_cmp") > 1 or n.endswith("key") and "(" in tystr(F, cb["locals"][0]):
            out.add("?")
        else:
            out.add("part")
    return out


def places(rv):
    for k in ("p", "x", "y"):
        v = rv.get(k)
        if isinstance(v, dict):
            v = v.get("cp") or v.get("mv")
        if isinstance(v, list):
            yield v


def taken(F, b, q, t):
    """does a call that takes an unordered iterator in depend on its order: None if not, else what to say; '?…' if not known"""
    n = plain(q).rsplit("::", 1)[-1]
    dst = tystr(F, b["locals"][t["dst"][0]]) if len(t["dst"]) == 1 else "?"
    if n in SAFE:
        return None
    if n in ("sum", "product"):
        return None if dst in NUM else "a %s of them in that order" % n
    if n in ("collect", "from_iter", "extend", "from"):
        if n == "extend":
            l = local_of(t["args"][0])
            dst = tystr(F, b["locals"][l]).replace("&mut ", "") if l is not None else "?"
        if dst.startswith(UNORDERED):
            return None
        how = sorted_later(F, b)
        if how == {"whole"}:
            return None
        if how == {"part"}:
            return "a list made of them and sorted by a part of each"
        if how or not dst.startswith(("std::vec::Vec<", "std::string::String", "std::collections::VecDeque<")):
            return "?a collection made of them (%s)" % dst[:40]
        return "a list made of them in that order"
    if n in FOUND:
        return "one of them chosen by that order (%s)" % n
    if n == "next":
        return "loop"
    if n in ("contains", "get", "contains_key"):
        return None
    return "?%s" % n


LOOP_OK = ("insert", "entry", "or_insert", "or_insert_with", "or_default", "and_modify", "get", "contains_key", "contains", "remove", "len", "is_empty",
           "next", "clone", "to_string", "to_owned", "eq", "ne", "lt", "gt", "le", "ge", "cmp", "deref", "as_str", "index", "add_assign", "max", "min",
           "into_iter", "iter", "as_ref", "borrow", "into", "from")
LOOP_BAD = ("push", "push_str", "push_back", "push_front", "write", "write_all", "write_fmt", "write_str", "extend", "append", "extend_from_slice")


def loops(F, b, i):
    """a loop that takes the elements one by one"""
    blocks = loop_of(F, b, i)
    if blocks is None:
        return "the first of them"
    bad = unknown = None
    for q, t in called(F, b, blocks):
        n = plain(q).rsplit("::", 1)[-1]
        if n in LOOP_BAD:
            bad = bad or "a loop that adds to a list or text in that order (%s)" % n
        elif n not in LOOP_OK:
            unknown = unknown or "?a loop that calls %s" % n
    # left before the end with something of that element
    for j in blocks:
        for k in F.succs(b["bbs"][j]):
            if k not in blocks and not b["bbs"][k]["cl"] and b["bbs"][j]["t"]["k"] == "call":
                unknown = unknown or "?a loop left early"
    exits = {(j, k) for j in blocks for k in F.succs(b["bbs"][j]) if k not in blocks and b["bbs"][k]["t"]["k"] != "unreachable"}
    if len(exits) > 1:
        unknown = unknown or "?a loop left early"
    if bad and sorted_later(F, b):
        return None if sorted_later(F, b) == {"whole"} else "?" + bad
    return bad or unknown


# ---------------------------------------------------------------- the whole crate
def effects(ctx):
    F = ctx.F
    n = 0
    env = 0
    for p, b in sorted(F.bodies.items()):
        done = set()
        for q, i in paths_of(F, b):
            n += 1
            if q in F.bodies:
                continue
            w = source(plain(q), q)
            if not w:
                continue
            sp = b["bbs"][i]["sp"]
            t = b["bbs"][i]["t"]
            if w == "the environment" and plain(q) in ("std::env::var", "std::env::var_os") and t["k"] == "call" and \
                    plain((t["f"].get("c", {}).get("fn") or {}).get("p", "")) == plain(q):
                for name in names(ctx, p, b, i):
                    if name is None:
                        ctx.undecided("%s: the name of the environment variable read is not a constant" % p)
                    else:
                        env += name == SEEN_ENV
                        ctx.ob("env:%s:%s" % (p, name), name == SEEN_ENV, "%s reads the environment variable %s" % (p, name), sp)
                continue
            if w.startswith("?"):
                ctx.undecided("%s uses %s" % (p, w[1:]))
                continue
            if (p, w) not in done:
                done.add((p, w))
                ctx.ob("depends:%s:%s" % (p, plain(q)), False, "%s depends on %s (%s)" % (p, w, plain(q)), sp)
        for t in set(b["locals"]):
            if "chrono::Local>" in tystr(F, t) + ">" and not any(k[0] == p for k in done):
                done.add((p, "local"))
                ctx.ob("depends:%s:local" % p, False, "%s depends on the machine's time zone" % p, b["span"])
        # an address taken as a number
        for bb in b["bbs"]:
            if bb["cl"]:
                continue
            for pl, rv, sp in bb["s"]:
                if rv.get("k") == "cast" and "PointerExpose" in str(rv.get("ck", rv.get("c", ""))) and (p, "addr") not in done:
                    done.add((p, "addr"))
                    ctx.ob("depends:%s:address" % p, False, "%s takes an address as a number" % p, bb["sp"])
    ctx.ob("fixed", True, "%d functions with %d calls and mentions searched: none depends on more than command line, inputs and %s" %
           (len(F.bodies), n, SEEN_ENV), None)


def names(ctx, p, b, i):
    """the constants an environment variable's name can be"""
    F = ctx.F
    v = constant(F, b, i)
    if v is not None:
        return [v]
    a = b["bbs"][i]["t"]["args"][0]
    l = local_of(a)
    for _ in range(4):
        if l is None or 1 <= l <= b["argc"]:
            break
        defs = [rv for bb in b["bbs"] for d, rv, sp in bb["s"] if d == [l]]
        l = None
        if len(defs) == 1:
            rv = defs[0]
            pl = rv.get("p") if rv.get("k") == "ref" else (rv.get("x") or {}).get("cp") or (rv.get("x") or {}).get("mv") if rv.get("k") == "use" else None
            l = pl[0] if isinstance(pl, list) and pl else None
    if l is None or not 1 <= l <= b["argc"]:
        return [None]
    out = []
    for q, c in F.bodies.items():
        for j, fn, t, sp in F.callees(c):
            if fn and (fn.get("r") or fn["p"]) == p:
                bb = dict(c, bbs=c["bbs"])
                t2 = dict(t, args=[t["args"][l - 1]])
                c2 = dict(c, bbs=[dict(x, t=t2) if k == j else x for k, x in enumerate(c["bbs"])])
                out.append(constant(F, c2, j))
    return out or [None]


def orders(ctx):
    F = ctx.F
    n = 0
    for p, b in sorted(F.bodies.items()):
        seen = set()
        for i, fn, t, sp in F.callees(b):
            q = (fn.get("r") or fn["p"]) if fn else "?"
            ls = [local_of(a) for a in t["args"]]
            tys = [b["locals"][l] for l in ls if l is not None]
            whole = [x for x in tys if F.tys[x].get("p", "").startswith(HASH) and F.tys[x].get("p", "").endswith(("::HashMap", "::HashSet"))]
            m = plain(q).rsplit("::", 1)[-1]
            if whole and m in ("extend", "from_iter", "zip", "chain", "collect") or any(hashy(F, x) for x in tys):
                if len(t["dst"]) == 1 and hashy(F, b["locals"][t["dst"][0]]) and m not in ("extend",):
                    continue        # another iterator over it
                n += 1
                w = taken(F, b, q, t)
                if w == "loop":
                    w = loops(F, b, i)
                if w is None:
                    continue
                if w.startswith("?"):
                    ctx.undecided("%s: %s, over a hash map or set" % (p, w[1:]))
                    continue
                k = (p, m)
                if k not in seen:
                    seen.add(k)
                    ctx.ob("order:%s:%s" % k, False, "%s: %s, which is the order of a hash map or set" % (p, w), sp)
            elif (m == "fmt" and "Debug" in q or m == "new_debug") and any("HashMap<" in tystr(F, x) or "HashSet<" in tystr(F, x) for x in tys):
                ctx.ob("order:%s:debug" % p, False, "%s prints a hash map or set in its order" % p, sp)
        for q, i in paths_of(F, b):
            if "core::fmt::Debug" in q and ("hash::map::HashMap" in q or "hash::set::HashSet" in q):
                ctx.ob("order:%s:debug" % p, False, "%s prints a hash map or set in its order" % p, b["bbs"][i]["sp"])
    ctx.ob("orders", True, "%d uses of iterators over hash maps and sets: none depends on their order" % n, None)


class Only:
    """passes on the order of the folder's list alone"""

    def __init__(self, ctx):
        self.ctx, self.F, self.explore = ctx, ctx.F, ctx.explore

    def ob(self, key, ok, text, where=None):
        if key == "list:order":
            self.ctx.ob("folder", "in no known order" not in text, text, where)
        return ok

    def undecided(self, text):
        self.ctx.undecided(text)


def run(ctx):
    effects(ctx)
    orders(ctx)
    c13.provider(Only(ctx))
