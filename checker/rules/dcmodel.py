"""The DC binary format as the writer produces it and as the reader consumes it."""
from serial import *
from recur import *

QUIET = ("error::print_backtrace",)
FT = "chopper::types::FieldType"
HEADER = "chopper::types::Header"
UNSUPPORTED = {"Boolean", "ByteBuf"}


def okpaths(I, outs):
    for s, o in outs:
        if o[0] == "ret" and variants(I, s, o[1], RESULT) == {"Ok"}:
            yield s, payload(I, o[1], "Ok")


class DC:
    def __init__(self, ctx):
        F = ctx.F
        self.ctx = ctx
        self.ph = ctx.impl_method(HEADERSINK, "process_header", "write::dc_sink::DCSink")
        self.wr = ctx.impl_method(DATASINK, "write_row", "write::dc_sink::DCSink")
        self.nr = next((p for t, n, p in F.impls_of(SOURCE, "next_row") if "DCSource" in str(t.get("p") or t["s"])), None)
        mk = [p for p in F.bodies if p.startswith("source::dc_source::DCSource") and p.endswith("::new")]
        if not (self.ph and self.wr and self.nr and len(mk) == 1):
            raise Undecided("DC sink/source functions not found")
        self.new = mk[0]
        self.I1, self.o1 = ctx.explore(self.ph, opaque=QUIET)
        self.I2, self.o2 = ctx.explore(self.wr, opaque=QUIET)
        self.I3, self.o3 = ctx.explore(self.new, opaque=QUIET)
        self.I4, self.o4 = ctx.explore(self.nr, opaque=QUIET)

    def loops(self, outs):
        L = {}
        for s, o in outs:
            collect_loops(s.events(), L)
        return L


def dc(ctx):
    if not hasattr(ctx, "_dc"):
        ctx._dc = DC(ctx)
    return ctx._dc


def discr_variant(I, st, term, adt):
    v = variants(I, st, term, adt)
    return next(iter(v)) if len(v) == 1 else None


def units(I, L):
    """(conds, own tokens, state, next-values|None, where) of each pass through the body of loop L"""
    for it in L["iters"]:
        yield it["conds"], toks(I, I.F, it["events"]), it["st"], it["next"], it["events"]


def enum_base(t):
    """the indexed element behind a projection: sel(...)"""
    while t[0] in ("fld", "dc", "deref"):
        t = t[1]
    return t if t[0] == "sel" else None


def first_row_values(t):
    """t is the value list of the first row of the argument"""
    return t[0] == "fld" and t[3] == "field_values" and t[1][0] == "sel" and t[1][2] == C(0)
