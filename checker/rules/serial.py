"""Byte-level reads and writes in traces, as a common token alphabet (byteorder, std::io, to/from_*_bytes)."""
from lib import *
from lin import *

W = "byteorder::io::WriteBytesExt::write_"
RD = "byteorder::io::ReadBytesExt::read_"
WRITE_ALL = "std::io::Write::write_all"
KINDS = {"u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "u128", "i128", "f32", "f64"}
SIZE = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "f32": 4, "f64": 8,
        "u128": 16, "i128": 16}


def endian(F, e):
    for a in e[8] if len(e) > 8 else ():
        s = F.tys[a]["s"]
        if s.endswith("BigEndian"):
            return "be"
        if s.endswith("LittleEndian"):
            return "le"
    return "-"


def counted(I, L):
    """(counter symbol, bound term) of a loop that runs over 0..bound in steps of one"""
    for sym, init in L["init"].items():
        if init != C(0) or not L["iters"]:
            continue
        if not all(it["next"].get(sym) == add(sym, C(1)) for it in L["iters"]):
            continue
        bs = set()
        for it in L["iters"]:
            b = {c[1] if c[2] == sym else c[2] for c in it["conds"] if c[0] == "rel" and sym in (c[1], c[2])
                 and (c[3] - {"un"}) == ({"gt"} if c[2] == sym else {"lt"})}
            bs = b if not bs else bs & b
        if bs:
            return sym, bs
    return None, None


def toks(I, F, events):
    """[(kind, ...)]: ("int", type, endian, value|result, where), ("bytes", length or value, ident, where),
    ("loop", L)"""
    out = []
    for e in events:
        if e[0] == "loop":
            L = e[1]
            inner = [toks(I, F, it["events"]) for it in L["iters"]]
            if not any(inner):
                continue
            if all(len(t) == 1 and t[0][0] == "int" and t[0][1] == "u8" and t[0][5] == "r" for t in inner):
                sym, bs = counted(I, L)
                if sym is not None and all(x["out"][0] == "exit" for x in L["exits"] if x["out"][0] != "ret"):
                    out.append(("bytes", tuple(sorted(bs, key=repr)), L["id"], L["sp"], "r"))
                    continue
            out.append(("loop", L))
        elif e[0] == "call":
            p, q = e[1], e[7]
            if q.startswith(W) and q[len(W):] in KINDS:
                out.append(("int", q[len(W):], endian(F, e), e[3][1], e[5], "w"))
            elif q.startswith(RD) and q[len(RD):] in KINDS:
                out.append(("int", q[len(RD):], endian(F, e), payload(I, e[4], "Ok"), e[5], "r"))
            elif q.endswith("::Write::write_all"):
                v = e[3][1]
                if v[0] == "app" and v[1].startswith("bytes_") :
                    out.append(("int", v[1][9:], v[1][6:8], v[2][0], e[5], "w"))
                else:
                    out.append(("bytes", v, None, e[5], "w"))
            elif q.endswith("::Read::read_exact"):
                out.append(("bytes", (I.len_of(e[3][1]),), e[4], e[5], "r"))
            elif q.endswith(("::Write::write", "::Read::read", "::Read::read_to_end", "::Read::read_to_string",
                             "::BufRead::read_until", "::BufRead::read_line", "::BufRead::consume")) \
                    or q.startswith((W, RD)):
                out.append(("other", q, e[5]))
    return out
