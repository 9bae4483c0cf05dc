"""Transfer functions for the std operations the code base (or a plausible edit of it) uses."""
from engine import *
from engine import models, suffix_models, Interp, app, rel, neg, add, sub


def model(*names):
    def w(f):
        for n in names:
            models[n] = f
        return f
    return w


def R(st, v):
    return [(st, ("ret", v))]


def panic(I, st, why, cx):
    return (st, ("panic", why, cx.sp, cx.body["path"] if cx.body else None, None))


def cont(I, outs, f):
    """apply f(state, value) to every returning outcome"""
    res = []
    for s, o in outs:
        if o[0] == "ret":
            res.extend(f(s, o[1]))
        else:
            res.append((s, o))
    return res


def calln(I, st, f, args, cx):
    return I.call_closure(st, f, args, cx.stack, cx.sp)


# ---------------------------------------------------------------- identities
IDENT = [
    "core::clone::Clone::clone", "alloc::borrow::ToOwned::to_owned", "core::hint::must_use",
    "alloc::slice::<impl [T]>::to_vec", "core::iter::traits::iterator::Iterator::cloned_",
]


@model(*IDENT)
def m_clone(I, st, a, cx):
    v = a[0]
    if cx.fn["p"] == "core::hint::must_use":
        return R(st, v)
    return R(st, I.deep(st, v, 1) if v[0] in ("ref", "vref", "st", "box") else
             (I.deref(st, v) if cx.argtys and cx.argtys[0] is not None and I.F.tys[cx.argtys[0]]["k"] == "ref" else v))


def isref(I, cx, i=0):
    return cx.argtys and i < len(cx.argtys) and cx.argtys[i] is not None and I.F.tys[cx.argtys[i]]["k"] == "ref"


def val(I, st, v, cx, i=0):
    """the value an argument denotes (behind references)"""
    if v[0] in ("ref", "vref", "st", "box"):
        return I.deep(st, v)
    if cx.argtys and i < len(cx.argtys) and cx.argtys[i] is not None:
        ty = cx.argtys[i]
        n = 0
        while I.F.tys[ty]["k"] == "ref" and n < 4:
            v = I.deref(st, v)
            ty = I.F.tys[ty]["t"]
            n += 1
            if v[0] in ("ref", "vref", "box"):
                continue
        return I.deep(st, v)
    return v


def peel(I, st, v, cx, i):
    """the value behind all the reference layers the argument's type shows"""
    if not (cx.argtys and i < len(cx.argtys) and cx.argtys[i] is not None):
        return val(I, st, v, cx, i)
    ty = I.F.tys[cx.argtys[i]]
    while ty["k"] == "ref":
        if v[0] in ("s", "c", "b", "ch", "adt", "tup"):
            break
        v = I.deref(st, v)
        ty = I.F.tys[ty["t"]]
    return I.deep(st, v)


def loc_of(I, st, v, cx=None, i=0):
    """location behind possibly several reference layers"""
    loc = I.deref_loc(v)
    for _ in range(4):
        x = I.read(st, loc) if not (loc[0][0] == "V" and loc[0] not in st.mem) else I.deref(st, ("ref",) + loc)
        if x[0] in ("ref", "vref", "box"):
            loc = I.deref_loc(x)
        else:
            break
    if loc[0][0] == "V" and loc[0] not in st.mem:
        st.mem[loc[0]] = loc[0][1]
    return loc


@model("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut", "core::convert::AsRef::as_ref",
       "core::convert::AsMut::as_mut", "core::borrow::Borrow::borrow", "alloc::string::String::as_str",
       "alloc::vec::Vec::<T, A>::as_slice", "alloc::vec::Vec::<T, A>::as_mut_slice",
       "alloc::string::String::as_bytes", "core::str::<impl str>::as_bytes", "alloc::string::String::as_mut_str",
       "core::option::Option::<T>::as_deref_", "alloc::boxed::Box::<T>::as_ref_", "core::str::<impl str>::as_str")
def m_deref(I, st, a, cx):
    v = a[0]
    if isref(I, cx):
        t = I.F.tys[I.F.tys[cx.argtys[0]]["t"]]
        if t["k"] == "adt" and "lazy_static" in str(t.get("p")) or (t["k"] == "adt" and v[0] == "st"):
            return R(st, v)
        if t["k"] == "adt" and t["p"] == "alloc::boxed::Box":
            return R(st, I.deref(st, v))
        if t["k"] == "ref":
            return R(st, I.deref(st, v))
    return R(st, v)


@model("alloc::string::ToString::to_string", "core::convert::Into::into", "core::convert::From::from",
       "alloc::string::String::from")
def m_to_string(I, st, a, cx):
    p = cx.fn["p"]
    ty = cx.argtys[0] if cx.argtys else None
    v = a[0]
    if ty is not None:
        n = I.F.tname(ty)
        if n in ("str", "alloc::string::String", "char"):
            x = val(I, st, v, cx)
            return R(st, x if n != "char" else app("char_string", x))
        if I.F.tys[ty]["s"] in INTS and cx.fn.get("ret") is not None and I.F.tys[cx.fn["ret"]]["s"] in INTS:
            return R(st, v)       # only conversions that keep the value exist
    if p.endswith("to_string"):
        x = val(I, st, v, cx)
        return R(st, app("display", x))
    return NotImplemented


@model("alloc::vec::Vec::<T, A>::into_boxed_slice", "alloc::slice::<impl [T]>::into_vec", "core::iter::traits::collect::IntoIterator::into_iter__")
def m_ident(I, st, a, cx):
    return R(st, a[0])


@model("alloc::boxed::Box::<T>::new")
def m_box_new(I, st, a, cx):
    root = ("H", st.fresh(), "box")
    st.mem[root] = a[0]
    return R(st, ("box", root))


@model("alloc::boxed::Box::<T>::new_uninit")
def m_box_uninit(I, st, a, cx):
    root = ("H", st.fresh(), "boxu")
    st.mem[root] = ("undef",)
    return R(st, ("box", root))


@model("alloc::boxed::box_assume_init_into_vec_unsafe")
def m_box_vec(I, st, a, cx):
    v = I.deep(st, a[0])
    # MaybeUninit { value: ManuallyDrop { value } }
    for _ in range(4):
        if v[0] == "ov" and len(v[2]) == 1:
            v = v[2][0][1]
        elif v[0] == "adt" and len(v[3]) == 1:
            v = v[3][0]
    return R(st, v)


@model("alloc::vec::from_elem")
def m_from_elem(I, st, a, cx):
    return R(st, ("rep", a[0], a[1]))


@model("alloc::vec::Vec::<T>::new", "alloc::vec::Vec::<T>::with_capacity")
def m_vec_new(I, st, a, cx):
    return R(st, ("seq", ()))


@model("alloc::string::String::new", "alloc::string::String::with_capacity")
def m_string_new(I, st, a, cx):
    return R(st, S(""))


def concat(a, b):
    if a == S(""):
        return b
    if b == S(""):
        return a
    if a[0] == "s" and b[0] == "s":
        return S(a[1] + b[1])
    if a[0] == "app" and a[1] == "cat":
        last = a[2][-1]
        if last[0] == "s" and b[0] == "s":
            return ("app", "cat", a[2][:-1] + (S(last[1] + b[1]),))
        if b[0] == "app" and b[1] == "cat":
            return ("app", "cat", a[2] + b[2])
        return ("app", "cat", a[2] + (b,))
    if b[0] == "app" and b[1] == "cat":
        return ("app", "cat", (a,) + b[2])
    return app("cat", a, b)


@model("alloc::string::String::push_str")
def m_push_str(I, st, a, cx):
    loc = loc_of(I, st, a[0])
    I.write(st, loc, concat(I.read(st, loc), val(I, st, a[1], cx, 1)))
    return R(st, UNIT)


@model("alloc::string::String::push")
def m_push_ch(I, st, a, cx):
    loc = loc_of(I, st, a[0])
    c = a[1]
    x = S(c[1]) if c[0] == "ch" else app("char_string", c)
    I.write(st, loc, concat(I.read(st, loc), x))
    return R(st, UNIT)


@model("core::ops::arith::Add::add")
def m_add(I, st, a, cx):
    ty = cx.argtys[0] if cx.argtys else None
    if ty is not None and I.F.tname(ty) == "alloc::string::String":
        return R(st, concat(a[0], val(I, st, a[1], cx, 1)))
    if ty is not None and I.F.tys[I.F.strip_ty(ty)]["k"] == "int":
        return R(st, add(val(I, st, a[0], cx, 0), val(I, st, a[1], cx, 1)))
    return NotImplemented


# ---------------------------------------------------------------- formatting
def parse_template(b, args):
    """nightly fmt template bytes -> list of terms"""
    out = []
    i = 0
    k = 0
    while i < len(b):
        n = b[i]
        if n == 0:
            break
        if n < 0x80:
            out.append(S(b[i + 1:i + 1 + n].decode("utf8", "replace")))
            i += 1 + n
        elif n == 0x80:
            ln = b[i + 1] | (b[i + 2] << 8)
            out.append(S(b[i + 3:i + 3 + ln].decode("utf8", "replace")))
            i += 3 + ln
        elif n == 0xC0:
            out.append(args[k] if k < len(args) else app("fmtarg?"))
            k += 1
            i += 1
        else:
            # placeholder with options: flags/width/precision/index bits
            flags = None
            i += 1
            opts = []
            idx = k
            if n & 1:
                opts.append(bytes(b[i:i + 4])); i += 4
            if n & 2:
                opts.append(bytes(b[i:i + 2])); i += 2
            if n & 4:
                opts.append(bytes(b[i:i + 2])); i += 2
            if n & 8:
                idx = b[i] | (b[i + 1] << 8); i += 2
            out.append(app("fmtopt", ("y", b"".join(opts)), args[idx] if idx < len(args) else app("fmtarg?")))
            k = idx + 1
    return out


@model("core::fmt::Arguments::<'a>::new")
def m_args_new(I, st, a, cx):
    t = I.deep(st, a[0])
    ar = I.deep(st, a[1])
    parts = []
    if t[0] == "y" and ar[0] == "seq":
        for x in parse_template(t[1], list(ar[1])):
            parts.append(x)
        v = S("")
        for x in parts:
            v = concat(v, x)
        return R(st, app("fmt", v))
    return R(st, app("fmt", app("fmt?", t, ar)))


@model("core::fmt::Arguments::<'a>::from_str")
def m_args_str(I, st, a, cx):
    return R(st, app("fmt", I.deep(st, a[0])))


@model("core::fmt::rt::Argument::<'_>::new_display")
def m_arg_disp(I, st, a, cx):
    v = I.deep(st, a[0])
    # references to references
    ty = cx.argtys[0] if cx.argtys else None
    if ty is not None:
        v = val(I, st, a[0], cx)
        n = I.F.tname(ty)
        if n in ("str", "alloc::string::String"):
            return R(st, peel(I, st, a[0], cx, 0))
        if n == "char":
            return R(st, app("char_string", v))
    if v[0] == "s":
        return R(st, v)
    return R(st, app("display", v))


@model("core::fmt::rt::Argument::<'_>::new_debug")
def m_arg_dbg(I, st, a, cx):
    return R(st, app("debug", val(I, st, a[0], cx)))


@model("alloc::fmt::format")
def m_format(I, st, a, cx):
    return R(st, a[0][2][0] if a[0][0] == "app" and a[0][1] == "fmt" else app("format", a[0]))


# ---------------------------------------------------------------- Vec / slices / strings
def seqloc(I, st, v):
    return loc_of(I, st, v)


@model("alloc::vec::Vec::<T, A>::push")
def m_push(I, st, a, cx):
    loc = seqloc(I, st, a[0])
    v = I.read(st, loc)
    x = a[1]
    n = ("seq", v[1] + (x,)) if v[0] == "seq" else ("push", v, x)
    I.write(st, loc, n)
    st.event("vec.push", loc, v, x, cx.sp, cx.body["path"] if cx.body else None)
    return R(st, UNIT)


@model("alloc::vec::Vec::<T, A>::pop")
def m_pop(I, st, a, cx):
    loc = seqloc(I, st, a[0])
    v = I.read(st, loc)
    out = []
    n = I.len_of(v)
    for s, b in I.split(st, rel("Gt", n, C(0))):
        if not b:
            out.append((s, ("ret", NONE)))
        else:
            e = I.sel(v, sub(n, C(1)))
            if v[0] == "seq":
                nv = ("seq", v[1][:-1])
                e = v[1][-1]
            elif v[0] == "push":
                nv, e = v[1], v[2]
            else:
                nv = ("init", v)
            I.write(s, loc, nv)
            s.event("vec.pop", loc, v, e, cx.sp, cx.body["path"] if cx.body else None)
            out.append((s, ("ret", some(e))))
    return out


@model("alloc::vec::Vec::<T, A>::remove", "alloc::vec::Vec::<T, A>::swap_remove")
def m_remove(I, st, a, cx):
    loc = seqloc(I, st, a[0])
    v = I.read(st, loc)
    i = a[1]
    n = I.len_of(v)
    out = []
    for s, b in I.split(st, rel("Lt", i, n)):
        if not b:
            out.append(panic(I, s, "remove-bounds", cx))
            continue
        e = I.sel(v, i)
        sw = cx.fn["p"].endswith("swap_remove")
        if v[0] == "seq" and is_c(i) and not sw:
            nv = ("seq", v[1][:i[1]] + v[1][i[1] + 1:])
        elif v[0] == "seq" and is_c(i) and sw:
            l = list(v[1]); l[i[1]] = l[-1]; l.pop()
            nv = ("seq", tuple(l))
        else:
            nv = ("swrm" if sw else "rm", v, i)
        I.write(s, loc, nv)
        s.event("vec.remove", loc, v, i, e, "swap" if sw else "shift", cx.sp, cx.body["path"] if cx.body else None)
        out.append((s, ("ret", e)))
    return out


@model("alloc::vec::Vec::<T, A>::insert")
def m_insert(I, st, a, cx):
    loc = seqloc(I, st, a[0])
    v = I.read(st, loc)
    I.write(st, loc, ("insert", v, a[1], a[2]))
    st.event("vec.insert", loc, v, a[1], a[2], cx.sp, cx.body["path"] if cx.body else None)
    return R(st, UNIT)


@model("alloc::vec::Vec::<T, A>::append")
def m_append(I, st, a, cx):
    l1, l2 = seqloc(I, st, a[0]), seqloc(I, st, a[1])
    v, w = I.read(st, l1), I.read(st, l2)
    nv = w if v == ("seq", ()) else ("seq", v[1] + w[1]) if v[0] == "seq" and w[0] == "seq" else ("append", v, w)
    I.write(st, l1, nv)
    I.write(st, l2, ("seq", ()))
    st.event("vec.append", l1, v, w, cx.sp, cx.body["path"] if cx.body else None)
    return R(st, UNIT)


@model("core::iter::traits::collect::Extend::extend", "alloc::vec::Vec::<T, A>::extend_from_slice")
def m_extend(I, st, a, cx):
    ty = cx.argtys[0] if cx.argtys else None
    if ty is not None and I.F.tname(ty) not in ("alloc::vec::Vec",):
        return NotImplemented
    l1 = seqloc(I, st, a[0])
    v = I.read(st, l1)
    x = I.deep(st, a[1])
    it = I.as_iter(st, x)
    w = ("collect", it[1]) if it is not None else x
    if it is not None and it[1][0] == "into" and it[2] == C(0):
        w = it[1][1]
    elif it is not None and it[1][0] == "cloned" and it[1][1][0] == "iter" and it[2] == C(0):
        w = it[1][1][1]
    nv = w if v == ("seq", ()) else ("seq", v[1] + w[1]) if v[0] == "seq" and w[0] == "seq" else ("append", v, w)
    I.write(st, l1, nv)
    st.event("vec.append", l1, v, w, cx.sp, cx.body["path"] if cx.body else None)
    return R(st, UNIT)


@model("alloc::vec::Vec::<T, A>::clear", "alloc::string::String::clear")
def m_clear(I, st, a, cx):
    loc = seqloc(I, st, a[0])
    v = I.read(st, loc)
    I.write(st, loc, ("seq", ()) if "Vec" in cx.fn["p"] else S(""))
    st.event("vec.clear", loc, v, cx.sp, cx.body["path"] if cx.body else None)
    return R(st, UNIT)


@model("alloc::vec::Vec::<T, A>::truncate")
def m_trunc(I, st, a, cx):
    loc = seqloc(I, st, a[0])
    v = I.read(st, loc)
    n = a[1]
    if n == C(0):
        nv = ("seq", ())
    elif v[0] == "seq" and is_c(n):
        nv = ("seq", v[1][:n[1]])
    else:
        nv = ("app", "truncate", (v, n))
    I.write(st, loc, nv)
    st.event("vec.truncate", loc, v, n, cx.sp, cx.body["path"] if cx.body else None)
    return R(st, UNIT)


@model("alloc::string::String::truncate")
def m_strtrunc(I, st, a, cx):
    loc = seqloc(I, st, a[0])
    v = I.read(st, loc)
    n = a[1]
    out = []
    for s, b in I.split(st, rel("Le", n, I.len_of(v))):
        if b:
            nv = S("") if n == C(0) else S(v[1][:n[1]]) if v[0] == "s" and is_c(n) and v[1].isascii() else v if n == I.len_of(v) else \
                app("slice", v, C(0), n)
            I.write(s, loc, nv)
        out.append((s, ("ret", UNIT)))
    return out


@model("alloc::vec::Vec::<T, A>::resize")
def m_resize(I, st, a, cx):
    loc = seqloc(I, st, a[0])
    v = I.read(st, loc)
    I.write(st, loc, ("app", "resize", (v, a[1], a[2])))
    st.event("vec.resize", loc, v, a[1], a[2], cx.sp, cx.body["path"] if cx.body else None)
    return R(st, UNIT)


@model("alloc::vec::Vec::<T, A>::len", "core::slice::<impl [T]>::len", "core::str::<impl str>::len",
       "alloc::string::String::len", "csv::string_record::StringRecord::len")
def m_len(I, st, a, cx):
    return R(st, I.len_of(val(I, st, a[0], cx)))


@model("core::iter::traits::exact_size::ExactSizeIterator::len")
def m_itlen(I, st, a, cx):
    it = I.as_iter(st, val(I, st, a[0], cx))
    if it is None:
        return NotImplemented
    n = I.it_len(it[1])
    return R(st, sub(n, it[2]) if n is not None else app("len", it))


@model("alloc::vec::Vec::<T, A>::is_empty", "core::slice::<impl [T]>::is_empty", "core::str::<impl str>::is_empty",
       "alloc::string::String::is_empty", "csv::string_record::StringRecord::is_empty")
def m_is_empty(I, st, a, cx):
    return R(st, rel("Eq", I.len_of(val(I, st, a[0], cx)), C(0)))


@model("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut", "csv::string_record::StringRecord::get",
       "alloc::vec::Vec::<T, A>::get")
def m_get(I, st, a, cx):
    loc = seqloc(I, st, a[0])
    v = val(I, st, a[0], cx)
    i = a[1]
    if i[0] == "adt":
        n, f = i[1].rsplit("::", 1)[-1], i[3]
        if n not in ("Range", "RangeFrom", "RangeTo") or cx.fn["p"].endswith("get_mut"):
            return R(st, app("getrange", v, i))
        lo = f[0] if n != "RangeTo" else C(0)
        hi = f[1] if n == "Range" else f[0] if n == "RangeTo" else I.len_of(v)
        out = []
        for s, b in I.split(st, rel("Le", hi if n != "RangeFrom" else lo, I.len_of(v))):
            if b and n == "Range":
                for s3, b3 in I.split(s, rel("Le", lo, hi)):
                    out.append((s3, ("ret", some(("vref", I.slice_of(v, i))) if b3 else NONE)))
            else:
                out.append((s, ("ret", some(("vref", I.slice_of(v, i))) if b else NONE)))
        return out
    out = []
    for s, b in I.split(st, rel("Lt", i, I.len_of(v))):
        out.append((s, ("ret", some(I.mkref((loc[0], loc[1] + (("ix", i),)))) if b else NONE)))
    return out


@model("core::slice::<impl [T]>::first", "core::slice::<impl [T]>::last", "core::slice::<impl [T]>::first_mut",
       "core::slice::<impl [T]>::last_mut")
def m_first(I, st, a, cx):
    loc = seqloc(I, st, a[0])
    v = I.read(st, loc)
    n = I.len_of(v)
    i = C(0) if "first" in cx.fn["p"] else sub(n, C(1))
    out = []
    for s, b in I.split(st, rel("Gt", n, C(0))):
        out.append((s, ("ret", some(I.mkref((loc[0], loc[1] + (("ix", i),)))) if b else NONE)))
    return out


@model("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut")
def m_index(I, st, a, cx):
    ty = cx.argtys[0] if cx.argtys else None
    if ty is not None and I.F.tname(ty) == "std::collections::hash::map::HashMap":
        return R(st, ("vref", app("mapget", val(I, st, a[0], cx), val(I, st, a[1], cx, 1))))
    loc = seqloc(I, st, a[0])
    v = I.read(st, loc)
    i = a[1]
    ity = I.F.tys[cx.argtys[1]] if cx.argtys and cx.argtys[1] is not None else {"k": "int"}
    if ity["k"] == "adt":
        # range
        return R(st, I.mkref((loc[0], loc[1] + (("rg", i),))) if i[0] == "adt" and not i[1].endswith("RangeFull")
                 else I.mkref(loc))
    out = []
    for s, b in I.split(st, rel("Lt", i, I.len_of(v))):
        if b:
            out.append((s, ("ret", I.mkref((loc[0], loc[1] + (("ix", i),))))))
        else:
            s.event("oob", i, v, cx.sp, cx.body["path"] if cx.body else None)
            out.append(panic(I, s, "index-bounds", cx))
    return out


@model("core::slice::<impl [T]>::swap")
def m_swap(I, st, a, cx):
    loc = seqloc(I, st, a[0])
    v = I.read(st, loc)
    x, y = I.sel(v, a[1]), I.sel(v, a[2])
    nv = I.store(I.store(v, a[1], y), a[2], x)
    I.write(st, loc, nv)
    st.event("vec.swap", loc, v, a[1], a[2], cx.sp, cx.body["path"] if cx.body else None)
    return R(st, UNIT)


@model("core::slice::<impl [T]>::reverse")
def m_reverse(I, st, a, cx):
    loc = seqloc(I, st, a[0])
    v = I.read(st, loc)
    I.write(st, loc, app("reversed", v))
    return R(st, UNIT)


@model("alloc::vec::Vec::<T, A>::retain")
def m_retain(I, st, a, cx):
    loc = seqloc(I, st, a[0])
    v = I.read(st, loc)
    d = v[1] if v[0] == "collect" else ("into", v)
    I.write(st, loc, ("collect", ("filter", d, a[1])))
    st.event("vec.retain", loc, v, a[1], cx.sp)
    return R(st, UNIT)


@model("alloc::slice::<impl [T]>::sort", "core::slice::<impl [T]>::sort_unstable")
def m_sort(I, st, a, cx):
    loc = seqloc(I, st, a[0])
    v = I.read(st, loc)
    I.write(st, loc, app("sorted", ("asc",), v))
    st.event("vec.sort", loc, v, "asc", cx.sp)
    return R(st, UNIT)


def cmp_summary(I, st, clo, cx, x, y):
    """value of comparison closure on two symbolic elements (by reference), or None"""
    s = st.fork()
    r1, r2 = ("H", s.fresh(), "cx"), ("H", s.fresh(), "cy")
    s.mem[r1], s.mem[r2] = x, y
    outs = calln(I, s, clo, [("ref", r1, ()), ("ref", r2, ())], cx)
    rets = [(s2, o[1]) for s2, o in outs if o[0] == "ret"]
    if len(rets) == 1:
        return rets[0][1]
    return ("multi", tuple(v for _, v in rets))


@model("alloc::slice::<impl [T]>::sort_by", "core::slice::<impl [T]>::sort_unstable_by")
def m_sort_by(I, st, a, cx):
    loc = seqloc(I, st, a[0])
    v = I.read(st, loc)
    x, y = ("bv", 0), ("bv", 1)
    r = cmp_summary(I, st, a[1], cx, x, y)
    I.write(st, loc, app("sorted", r if r else ("?",), v))
    st.event("vec.sort", loc, v, r, cx.sp)
    return R(st, UNIT)


@model("alloc::slice::<impl [T]>::sort_by_key", "alloc::slice::<impl [T]>::sort_by_cached_key",
       "core::slice::<impl [T]>::sort_unstable_by_key")
def m_sort_by_key(I, st, a, cx):
    loc = seqloc(I, st, a[0])
    v = I.read(st, loc)
    k = key_summary(I, st, a[1], cx, ("bv", 0))
    k1 = key_summary(I, st, a[1], cx, ("bv", 1))
    r = ordterm(k, k1) if k and k1 else ("?",)
    I.write(st, loc, app("sorted", r, v))
    st.event("vec.sort", loc, v, r, cx.sp)
    return R(st, UNIT)


def key_summary(I, st, clo, cx, x):
    s = st.fork()
    r1 = ("H", s.fresh(), "cx")
    s.mem[r1] = x
    outs = calln(I, s, clo, [("ref", r1, ())], cx)
    rets = [(s2, o[1]) for s2, o in outs if o[0] == "ret"]
    if len(rets) == 1:
        return I.deep(rets[0][0], rets[0][1])
    return None


def ordterm(a, b):
    if a[0] == "adt" and a[1] == "core::cmp::Reverse" and b[0] == "adt":
        return app("ord", b[3][0], a[3][0])
    return app("ord", a, b)


# ---------------------------------------------------------------- comparison
def own_cmp(I, st, a, cx, trait, method, then):
    """a comparison by the type's own hand-written method, or None"""
    ty = cx.argtys[0] if cx.argtys else None
    t = I.F.tys[I.F.strip_ty(ty)] if ty is not None else {}
    if t.get("k") != "adt":
        return None
    for self_, n, p in I.F.impls_of(trait, method):
        b = I.F.body(p)
        if self_.get("p") == t.get("p") and b is not None and not b["span"].endswith("!") and p not in cx.stack and not I.opaque(p):
            out = []
            I.inlined.add(p)
            for s, o in I.run(b, [("vref", peel(I, st, a[0], cx, 0)), ("vref", peel(I, st, a[1], cx, 1))], st, cx.stack):
                out += then(s, o[1]) if o[0] == "ret" else [(s, o)]
            return out
    return None


@model("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne")
def m_eq(I, st, a, cx):
    no = cx.fn["p"].endswith("ne")
    r = own_cmp(I, st, a, cx, "core::cmp::PartialEq", "eq", lambda s, v: [(s, ("ret", neg(v) if no else v))])
    if r is not None:
        return r
    x, y = peel(I, st, a[0], cx, 0), peel(I, st, a[1], cx, 1)
    ne = cx.fn["p"].endswith("ne")
    t = eqterm(I, x, y)
    return R(st, neg(t) if ne else t)


def eqterm(I, x, y):
    while x[0] == "vref":
        x = x[1]
    while y[0] == "vref":
        y = y[1]
    if x == y:
        return TRUE
    if x[0] == "s" and y[0] == "s":
        return ("b", x[1] == y[1])
    if x[0] in ("c", "b", "ch") and y[0] == x[0]:
        return ("b", x[1] == y[1])
    if x[0] == "adt" and y[0] == "adt" and x[1] == y[1]:
        if x[2] != y[2]:
            return FALSE
        t = TRUE
        for p, q in zip(x[3], y[3]):
            e = eqterm(I, p, q)
            t = e if t == TRUE else FALSE if FALSE in (t, e) else app("and", t, e) if e != TRUE else t
        return t
    for p, q in ((x, y), (y, x)):
        if p[0] == "adt" and I.F.discr(p[1], p[2]) is not None:
            d = rel("Eq", I.discr_of(q), C(I.F.discr(p[1], p[2])))
            if q[0] in ("app",) and q[1] == "ord" and p[1] == ORDERING:
                o = {"Less": "lt", "Equal": "eq", "Greater": "gt"}[p[2]]
                return rel({o}, q[2][0], q[2][1])
            if not p[3]:
                return d
            t = d
            for i, f in enumerate(p[3]):
                pay = I.rd_proj(I.rd_proj(q, ("v", p[2])), ("f", i, I.F.field_name(p[1], p[2], i)))
                e = eqterm(I, f, pay)
                t = e if t == TRUE else app("and", t, e)
            return t
        if p[0] == "tup" and q[0] == "tup" and len(p[1]) == len(q[1]):
            t = TRUE
            for u, w in zip(p[1], q[1]):
                e = eqterm(I, u, w)
                t = e if t == TRUE else FALSE if FALSE in (t, e) else app("and", t, e) if e != TRUE else t
            return t
        if p[0] in ("c", "ch"):
            return rel("Eq", x, y)
    if x[0] == "s" or y[0] == "s":
        if y[0] != "s":
            x, y = y, x
        return app("streq", x, y)
    return rel("Eq", x, y)


@model("core::cmp::PartialOrd::lt", "core::cmp::PartialOrd::le", "core::cmp::PartialOrd::gt", "core::cmp::PartialOrd::ge")
def m_lt(I, st, a, cx):
    x, y = val(I, st, a[0], cx, 0), val(I, st, a[1], cx, 1)
    op = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[cx.fn["p"].rsplit("::", 1)[1]]
    ty = cx.argtys[0] if cx.argtys else None
    if ty is not None and I.F.tys[I.F.strip_ty(ty)]["k"] == "adt" and \
            I.F.tname(ty) == OPTION:
        return R(st, app("opt" + op, x, y))

    def by_order(s, v):
        yes = {"Lt": ("Less",), "Le": ("Less", "Equal"), "Gt": ("Greater",), "Ge": ("Greater", "Equal")}[op]
        out = []
        for s2, var, pay in I.opt(s, v):
            if var == "None":
                out.append((s2, ("ret", FALSE)))
                continue
            for o in ("Less", "Equal", "Greater"):
                s3 = s2.fork()
                t = eqterm(I, ("adt", ORDERING, o, ()), pay)
                if t == FALSE or t != TRUE and not I.assume(s3, t, True):
                    continue
                out.append((s3, ("ret", ("b", o in yes))))
        return out
    r = own_cmp(I, st, a, cx, "core::cmp::PartialOrd", "partial_cmp", by_order)
    if r is not None:
        return r
    return R(st, rel(op, x, y))


@model("core::cmp::Ord::cmp")
def m_cmp(I, st, a, cx):
    x, y = val(I, st, a[0], cx, 0), val(I, st, a[1], cx, 1)
    return R(st, app("ord", x, y))


@model("core::cmp::PartialOrd::partial_cmp")
def m_pcmp(I, st, a, cx):
    x, y = val(I, st, a[0], cx, 0), val(I, st, a[1], cx, 1)
    ty = cx.argtys[0] if cx.argtys else None
    if ty is not None and I.F.tys[I.F.strip_ty(ty)]["k"] == "float":
        return R(st, app("pord", x, y))
    return R(st, some(app("ord", x, y)))


@model("core::cmp::Ordering::reverse")
def m_rev_ord(I, st, a, cx):
    if a[0][0] == "app" and a[0][1] == "ord":
        return R(st, app("ord", a[0][2][1], a[0][2][0]))
    return NotImplemented


@model("core::cmp::Ordering::is_lt", "core::cmp::Ordering::is_le", "core::cmp::Ordering::is_gt",
       "core::cmp::Ordering::is_ge", "core::cmp::Ordering::is_eq", "core::cmp::Ordering::is_ne")
def m_ord_is(I, st, a, cx):
    if a[0][0] == "app" and a[0][1] == "ord":
        op = {"is_lt": "Lt", "is_le": "Le", "is_gt": "Gt", "is_ge": "Ge", "is_eq": "Eq", "is_ne": "Ne"}[
            cx.fn["p"].rsplit("::", 1)[1]]
        return R(st, rel(op, a[0][2][0], a[0][2][1]))
    return NotImplemented


@model("core::cmp::min", "core::cmp::max", "core::cmp::Ord::min", "core::cmp::Ord::max")
def m_min(I, st, a, cx):
    x, y = a[0], a[1]
    out = []
    mn = cx.fn["p"].endswith("min")
    for s, b in I.split(st, rel("Le", x, y)):
        out.append((s, ("ret", x if b == mn else y)))
    return out


@model("core::ops::range::Range::<Idx>::contains", "core::ops::range::RangeInclusive::<Idx>::contains")
def m_contains(I, st, a, cx):
    r = val(I, st, a[0], cx, 0)
    x = val(I, st, a[1], cx, 1)
    if r[0] == "adt" and len(r[3]) >= 2:
        hi = "Le" if "Inclusive" in r[1] else "Lt"
        p, q = rel("Ge", x, r[3][0]), rel(hi, x, r[3][1])
        return R(st, FALSE if FALSE in (p, q) else q if p == TRUE else p if q == TRUE else app("and", p, q))
    return NotImplemented


@model("core::intrinsics::discriminant_value", "core::mem::discriminant")
def m_discr(I, st, a, cx):
    return R(st, I.discr_of(val(I, st, a[0], cx, 0)))


@model("core::str::<impl str>::eq_ignore_ascii_case")
def m_eqic(I, st, a, cx):
    x, y = val(I, st, a[0], cx, 0), val(I, st, a[1], cx, 1)
    x, y = sorted((x, y), key=repr)
    return R(st, TRUE if x == y else app("eqic", x, y))


# ---------------------------------------------------------------- ? operator
@model("core::ops::try_trait::Try::branch")
def m_branch(I, st, a, cx):
    v = a[0]
    ty = I.F.tys[cx.argtys[0]] if cx.argtys else {}
    out = []
    if ty.get("p") == OPTION or (v[0] == "adt" and v[1] == OPTION):
        for s, var, pay in I.opt(st, v):
            out.append((s, ("ret", ("adt", CFLOW, "Continue", (pay,)) if var == "Some"
                            else ("adt", CFLOW, "Break", (NONE,)))))
        return out
    for s, var, pay in I.res(st, v):
        out.append((s, ("ret", ("adt", CFLOW, "Continue", (pay,)) if var == "Ok"
                        else ("adt", CFLOW, "Break", (err(pay),)))))
    return out


@model("core::ops::try_trait::FromResidual::from_residual")
def m_residual(I, st, a, cx):
    v = a[0]
    if v[0] == "adt" and v[1] == RESULT:
        return R(st, err(app("into", v[3][0])))
    if v[0] == "adt" and v[1] == OPTION:
        return R(st, NONE)
    return R(st, err(app("into", v)))


# ---------------------------------------------------------------- Option
def omodel(name):
    return model("core::option::Option::<T>::" + name)


def rmodel(name):
    return model("core::result::Result::<T, E>::" + name)


def vloc(I, st, v, cx):
    """(value, location) of a &Option argument"""
    loc = I.deref_loc(v)
    if loc[0][0] == "V" and loc[0] not in st.mem:
        st.mem[loc[0]] = loc[0][1]
    return I.read(st, loc), loc


@omodel("is_some")
def o_is_some(I, st, a, cx):
    v, _ = vloc(I, st, a[0], cx)
    return R(st, rel("Eq", I.discr_of(v), C(1)))


@omodel("is_none")
def o_is_none(I, st, a, cx):
    v, _ = vloc(I, st, a[0], cx)
    return R(st, rel("Eq", I.discr_of(v), C(0)))


@rmodel("is_ok")
def r_is_ok(I, st, a, cx):
    v, _ = vloc(I, st, a[0], cx)
    st.event("res.test", v, cx.sp, cx.body["path"] if cx.body else None)
    return R(st, rel("Eq", I.discr_of(v), C(0)))


@rmodel("is_err")
def r_is_err(I, st, a, cx):
    v, _ = vloc(I, st, a[0], cx)
    st.event("res.test", v, cx.sp, cx.body["path"] if cx.body else None)
    return R(st, rel("Eq", I.discr_of(v), C(1)))


@model("core::option::Option::<T>::unwrap", "core::option::Option::<T>::expect")
def o_unwrap(I, st, a, cx):
    out = []
    for s, var, pay in I.opt(st, a[0]):
        if var == "Some":
            out.append((s, ("ret", pay)))
        else:
            out.append((s, ("panic", "unwrap-none", cx.sp, cx.body["path"] if cx.body else None, a[0])))
    return out


@model("core::result::Result::<T, E>::unwrap", "core::result::Result::<T, E>::expect")
def r_unwrap(I, st, a, cx):
    out = []
    for s, var, pay in I.res(st, a[0]):
        if var == "Ok":
            out.append((s, ("ret", pay)))
        else:
            out.append((s, ("panic", "unwrap-err", cx.sp, cx.body["path"] if cx.body else None, a[0])))
    return out


@model("core::option::Option::<T>::unwrap_or", "core::option::Option::<T>::unwrap_or_default",
       "core::option::Option::<T>::unwrap_or_else")
def o_unwrap_or(I, st, a, cx):
    out = []
    for s, var, pay in I.opt(st, a[0]):
        if var == "Some":
            out.append((s, ("ret", pay)))
        elif cx.fn["p"].endswith("unwrap_or"):
            out.append((s, ("ret", a[1])))
        elif cx.fn["p"].endswith("_else"):
            out.extend(calln(I, s, a[1], [], cx))
        else:
            out.append((s, ("ret", app("default"))))
    return out


@model("core::result::Result::<T, E>::unwrap_or", "core::result::Result::<T, E>::unwrap_or_default",
       "core::result::Result::<T, E>::unwrap_or_else")
def r_unwrap_or(I, st, a, cx):
    out = []
    for s, var, pay in I.res(st, a[0]):
        if var == "Ok":
            out.append((s, ("ret", pay)))
        elif cx.fn["p"].endswith("unwrap_or"):
            out.append((s, ("ret", a[1])))
        elif cx.fn["p"].endswith("_else"):
            out.extend(calln(I, s, a[1], [pay], cx))
        else:
            out.append((s, ("ret", app("default"))))
    return out


@model("core::option::Option::<T>::map", "core::option::Option::<T>::and_then")
def o_map(I, st, a, cx):
    out = []
    for s, var, pay in I.opt(st, a[0]):
        if var == "Some":
            r = calln(I, s, a[1], [pay], cx)
            if cx.fn["p"].endswith("::map"):
                r = cont(I, r, lambda s2, v: [(s2, ("ret", some(v)))])
            out.extend(r)
        else:
            out.append((s, ("ret", NONE)))
    return out


@omodel("map_or")
def o_map_or(I, st, a, cx):
    out = []
    for s, var, pay in I.opt(st, a[0]):
        if var == "Some":
            out.extend(calln(I, s, a[2], [pay], cx))
        else:
            out.append((s, ("ret", a[1])))
    return out


@omodel("map_or_else")
def o_map_or_else(I, st, a, cx):
    out = []
    for s, var, pay in I.opt(st, a[0]):
        out.extend(calln(I, s, a[2], [pay], cx) if var == "Some" else calln(I, s, a[1], [], cx))
    return out


@model("core::option::Option::<T>::is_some_and", "core::option::Option::<T>::is_none_or")
def o_is_some_and(I, st, a, cx):
    out = []
    none = ("b", cx.fn["p"].endswith("none_or"))
    for s, var, pay in I.opt(st, a[0]):
        if var == "Some":
            out.extend(calln(I, s, a[1], [pay], cx))
        else:
            out.append((s, ("ret", none)))
    return out


@omodel("filter")
def o_filter(I, st, a, cx):
    out = []
    for s, var, pay in I.opt(st, a[0]):
        if var == "None":
            out.append((s, ("ret", NONE)))
            continue
        root = ("H", s.fresh(), "of")
        s.mem[root] = pay
        for s2, o in calln(I, s, a[1], [("ref", root, ())], cx):
            if o[0] != "ret":
                out.append((s2, o))
                continue
            for s3, b in I.split(s2, o[1]):
                out.append((s3, ("ret", some(pay) if b else NONE)))
    return out


@omodel("ok_or")
def o_ok_or(I, st, a, cx):
    return [(s, ("ret", ok(pay) if var == "Some" else err(a[1]))) for s, var, pay in I.opt(st, a[0])]


@omodel("ok_or_else")
def o_ok_or_else(I, st, a, cx):
    out = []
    for s, var, pay in I.opt(st, a[0]):
        if var == "Some":
            out.append((s, ("ret", ok(pay))))
        else:
            out.extend(cont(I, calln(I, s, a[1], [], cx), lambda s2, v: [(s2, ("ret", err(v)))]))
    return out


@model("core::option::Option::<T>::or", "core::option::Option::<T>::or_else")
def o_or(I, st, a, cx):
    out = []
    for s, var, pay in I.opt(st, a[0]):
        if var == "Some":
            out.append((s, ("ret", some(pay))))
        elif cx.fn["p"].endswith("or"):
            out.append((s, ("ret", a[1])))
        else:
            out.extend(calln(I, s, a[1], [], cx))
    return out


@model("core::option::Option::<T>::as_ref", "core::option::Option::<T>::as_mut", "core::option::Option::<T>::as_deref",
       "core::option::Option::<T>::as_deref_mut", "core::option::Option::<T>::iter_")
def o_as_ref(I, st, a, cx):
    v, loc = vloc(I, st, a[0], cx)
    out = []
    for s, var, pay in I.opt(st, v):
        if var == "Some":
            out.append((s, ("ret", some(I.mkref((loc[0], loc[1] + (("v", "Some"), ("f", 0, "0"))))))))
        else:
            out.append((s, ("ret", NONE)))
    return out


@model("core::result::Result::<T, E>::as_ref", "core::result::Result::<T, E>::as_mut")
def r_as_ref(I, st, a, cx):
    v, loc = vloc(I, st, a[0], cx)
    out = []
    for s, var, pay in I.res(st, v):
        rf = I.mkref((loc[0], loc[1] + (("v", var), ("f", 0, "0"))))
        out.append((s, ("ret", ok(rf) if var == "Ok" else err(rf))))
    return out


@omodel("take")
def o_take(I, st, a, cx):
    v, loc = vloc(I, st, a[0], cx)
    I.write(st, loc, NONE)
    return R(st, v)


@model("core::option::Option::<T>::replace", "core::option::Option::<T>::insert")
def o_replace(I, st, a, cx):
    v, loc = vloc(I, st, a[0], cx)
    I.write(st, loc, some(a[1]))
    if cx.fn["p"].endswith("insert"):
        return R(st, I.mkref((loc[0], loc[1] + (("v", "Some"), ("f", 0, "0")))))
    return R(st, v)


@model("core::mem::replace", "core::mem::take")
def m_replace(I, st, a, cx):
    v, loc = vloc(I, st, a[0], cx)
    if len(a) > 1:
        I.write(st, loc, a[1])
    else:
        t = I.F.tys[I.F.strip_ty(cx.argtys[0])] if cx.argtys else {}
        I.write(st, loc, ("seq", ()) if t.get("p") == "alloc::vec::Vec" else
                NONE if t.get("p") == OPTION else S("") if t.get("p") == "alloc::string::String" else app("default"))
    return R(st, v)


@model("core::mem::swap")
def m_mswap(I, st, a, cx):
    v, l1 = vloc(I, st, a[0], cx)
    w, l2 = vloc(I, st, a[1], cx)
    I.write(st, l1, w)
    I.write(st, l2, v)
    return R(st, UNIT)


@model("core::option::Option::<&T>::cloned", "core::option::Option::<&T>::copied",
       "core::option::Option::<&mut T>::cloned", "core::option::Option::<&mut T>::copied")
def o_cloned(I, st, a, cx):
    out = []
    for s, var, pay in I.opt(st, a[0]):
        out.append((s, ("ret", some(I.deref(s, pay)) if var == "Some" else NONE)))
    return out


@omodel("unwrap_unchecked")
def o_unwrap_unchecked(I, st, a, cx):
    return o_unwrap(I, st, a, cx)


@omodel("zip")
def o_zip(I, st, a, cx):
    out = []
    for s, v1, p1 in I.opt(st, a[0]):
        for s2, v2, p2 in I.opt(s, a[1]):
            out.append((s2, ("ret", some(("tup", (p1, p2))) if v1 == v2 == "Some" else NONE)))
    return out


@model("core::option::Option::<core::result::Result<T, E>>::transpose")
def o_transpose(I, st, a, cx):
    out = []
    for s, var, pay in I.opt(st, a[0]):
        if var == "None":
            out.append((s, ("ret", ok(NONE))))
        else:
            for s2, v2, p2 in I.res(s, pay):
                out.append((s2, ("ret", ok(some(p2)) if v2 == "Ok" else err(p2))))
    return out


# ---------------------------------------------------------------- Result
@rmodel("map")
def r_map(I, st, a, cx):
    out = []
    for s, var, pay in I.res(st, a[0]):
        if var == "Ok":
            out.extend(cont(I, calln(I, s, a[1], [pay], cx), lambda s2, v: [(s2, ("ret", ok(v)))]))
        else:
            out.append((s, ("ret", err(pay))))
    return out


@rmodel("map_err")
def r_map_err(I, st, a, cx):
    out = []
    for s, var, pay in I.res(st, a[0]):
        if var == "Ok":
            out.append((s, ("ret", ok(pay))))
        else:
            out.extend(cont(I, calln(I, s, a[1], [pay], cx), lambda s2, v: [(s2, ("ret", err(v)))]))
    return out


@rmodel("and_then")
def r_and_then(I, st, a, cx):
    out = []
    for s, var, pay in I.res(st, a[0]):
        if var == "Ok":
            out.extend(calln(I, s, a[1], [pay], cx))
        else:
            out.append((s, ("ret", err(pay))))
    return out


@rmodel("or_else")
def r_or_else(I, st, a, cx):
    out = []
    for s, var, pay in I.res(st, a[0]):
        if var == "Err":
            out.extend(calln(I, s, a[1], [pay], cx))
        else:
            out.append((s, ("ret", ok(pay))))
    return out


@rmodel("ok")
def r_ok(I, st, a, cx):
    st.event("res.drop", a[0], cx.sp, cx.body["path"] if cx.body else None)
    return [(s, ("ret", some(pay) if var == "Ok" else NONE)) for s, var, pay in I.res(st, a[0])]


@rmodel("err")
def r_err(I, st, a, cx):
    return [(s, ("ret", some(pay) if var == "Err" else NONE)) for s, var, pay in I.res(st, a[0])]


@model("core::bool::<impl bool>::then")
def b_then(I, st, a, cx):
    out = []
    for s, b in I.split(st, a[0]):
        if b:
            out.extend(cont(I, calln(I, s, a[1], [], cx), lambda s2, v: [(s2, ("ret", some(v)))]))
        else:
            out.append((s, ("ret", NONE)))
    return out


@model("core::bool::<impl bool>::then_some")
def b_then_some(I, st, a, cx):
    return [(s, ("ret", some(a[1]) if b else NONE)) for s, b in I.split(st, a[0])]


@model("core::ops::bit::Not::not")
def b_not(I, st, a, cx):
    return R(st, neg(a[0]))


# ---------------------------------------------------------------- integers
INTS = ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "u128", "i128"]


def int_model(name):
    return model(*["core::num::<impl %s>::%s" % (t, name) for t in INTS])


def _checked(opname, mk):
    @int_model("checked_" + opname)
    def f(I, st, a, cx):
        r = mk(a[0], a[1])
        if is_c(r) and r[1] >= 0:
            return R(st, some(r))
        out = []
        t = app("fits", r, S(cx.fn["p"].split("<impl ")[1].split(">")[0]))
        for s, b in I.split(st, t):
            out.append((s, ("ret", some(r) if b else NONE)))
        return out


_checked("add", add)
_checked("mul", mul)
_checked("sub", sub)


def _wrap(opname, mk):
    for pre in ("wrapping_", "saturating_", "overflowing_"):
        @int_model(pre + opname)
        def f(I, st, a, cx, _p=pre):
            return R(st, app(_p + opname, a[0], a[1]))


_wrap("add", add)
_wrap("mul", mul)
_wrap("sub", sub)


WIDTH = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128,
         "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}


@int_model("max_value")
def i_maxv(I, st, a, cx):
    t = cx.fn["p"].split("<impl ")[1].split(">")[0]
    return R(st, C((1 << (WIDTH[t] - (t[0] == "i"))) - 1))


@int_model("min_value")
def i_minv(I, st, a, cx):
    t = cx.fn["p"].split("<impl ")[1].split(">")[0]
    return R(st, C(0 if t[0] == "u" else -(1 << (WIDTH[t] - 1))))


@int_model("pow")
def i_pow(I, st, a, cx):
    if is_c(a[0]) and is_c(a[1]):
        return R(st, C(a[0][1] ** a[1][1]))
    if a[0] == C(2):
        return R(st, app("<<", C(1), a[1]))
    return R(st, app("pow", a[0], a[1]))


@model("core::convert::TryFrom::try_from", "core::convert::TryInto::try_into")
def i_try_from(I, st, a, cx):
    dst = None
    for t in cx.fn.get("a", []):
        s = I.F.tys[t]["s"]
        if s in INTS:
            dst = s
            if cx.fn["p"].endswith("try_from"):
                break
    if dst is None:
        return NotImplemented
    out = []
    for s, b in I.split(st, app("fits", a[0], S(dst))):
        out.append((s, ("ret", ok(a[0]) if b else err(app("tryfromint", a[0])))))
    return out


# ---------------------------------------------------------------- iterators
@model("csv::string_record::StringRecord::iter")
def record_iter(I, st, a, cx):
    return R(st, ("it", ("fields", I.deep(st, a[0])), C(0)))


@model("core::iter::traits::collect::IntoIterator::into_iter")
def it_into(I, st, a, cx):
    v = a[0]
    it = I.as_iter(st, v)
    if it is not None:
        return R(st, it)
    if isref(I, cx):
        t = I.F.tys[cx.argtys[0]]
        inner = I.F.tys[t["t"]]
        if inner.get("p") == "csv::string_record::StringRecord":
            return R(st, ("it", ("fields", I.deep(st, v)), C(0)))
        if inner["k"] in ("array", "slice") or inner.get("p") in ("alloc::vec::Vec",):
            loc = loc_of(I, st, v)
            return R(st, ("it", ("iter", I.read(st, loc), I.mkref(loc)), C(0)))
        if t.get("m") and v[0] == "ref":
            # an iterator lent: its elements from where it stands; where it stands afterwards is not known
            loc = loc_of(I, st, v)
            cur = I.as_iter(st, I.read(st, loc))
            if cur is not None and I.read(st, loc)[0] == "it":
                I.write(st, loc, ("it", ("opq", ("lent", st.fresh(), cur)), C(0)))
                return R(st, cur)
        return R(st, v) if inner["k"] != "adt" else R(st, ("it", opaque_it(I.deep(st, v)), C(0)))
    t = I.F.tys[cx.argtys[0]] if cx.argtys and cx.argtys[0] is not None else {"k": "?"}
    if t.get("p") == "alloc::vec::Vec" or t["k"] == "array":
        return R(st, ("it", ("into", v), C(0)))
    if t.get("p") == OPTION:
        return NotImplemented
    return R(st, ("it", opaque_it(v), C(0))) if v[0] not in ("it",) else R(st, v)


@model("core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut")
def it_iter(I, st, a, cx):
    loc = loc_of(I, st, a[0])
    return R(st, ("it", ("iter", I.read(st, loc), I.mkref(loc)), C(0)))


@model("alloc::vec::Vec::<T, A>::drain")
def it_drain(I, st, a, cx):
    loc = loc_of(I, st, a[0])
    v = I.read(st, loc)
    r = a[1]
    n = I.len_of(v)
    if r[0] == "adt" and r[1].endswith("RangeFull"):
        part, rest = v, ("seq", ())
    else:
        part = I.slice_of(v, r)
        hi = r[3][1] if r[1].endswith("::Range") else r[3][0] if r[1].endswith("::RangeTo") else n
        lo = r[3][0] if r[1].endswith(("::Range", "::RangeFrom")) else C(0)
        if lo == C(0):
            rest = ("tail", v, hi)
        elif hi == n:
            rest = ("app", "truncate", (v, lo))
        else:
            rest = app("drained", v, r)
    I.write(st, loc, rest)
    st.event("vec.drain", loc, v, r, cx.sp)
    return R(st, ("it", ("into", part), C(0)))


@model("alloc::vec::Vec::<T, A>::split_off")
def it_split_off(I, st, a, cx):
    loc = loc_of(I, st, a[0])
    v = I.read(st, loc)
    I.write(st, loc, ("app", "truncate", (v, a[1])))
    return R(st, ("tail", v, a[1]))


@model("core::iter::traits::iterator::Iterator::next", "core::iter::traits::iterator::Iterator::by_ref_")
def it_next(I, st, a, cx):
    loc = loc_of(I, st, a[0])
    head = I.at_head
    cur = I.as_iter(st, I.read(st, loc))
    if not head and cur is not None and I.plainly_sifted(cur[1]) and I.base(cur[1])[0] != "takewhile":
        return first_kept(I, st, loc, cur, cx)
    r = I.it_next(st, loc, cx.stack, cx.sp, head)
    if r is None:
        return NotImplemented
    t = cx.fn.get("ret") if cx.fn else None
    if t is not None and "Result<" in I.F.tys[t]["s"]:
        for s, v in r:
            s.event("yield", v, t, cx.sp)
    return [(s, ("ret", v)) for s, v in r]


def first_kept(I, st, loc, it, cx):
    """the first element a filter lets through, as a search does it"""
    d, pos = it[1], it[2]
    if pos != C(0):
        d = I.rebase(d, pos)
    base = I.base(d)[1]
    n = I.it_len(base)
    k = ("k", st.fresh())
    s0 = st.fork()
    out, rows = [], []
    desc = ("d", base)
    if n is None or I.assume(s0, rel("Lt", k, n), True):
        save, I.rejected = I.rejected, []
        try:
            for s, e in I.it_elem(s0, d, k, cx.stack, cx.sp):
                I.write(s, loc, ("it", I.rebase(d, add(k, C(1))), C(0)))
                s.event("search", "find", desc, k, cx.sp)
                out.append((s, ("ret", some(e))))
            rows = [(s, k, None, FALSE) for _, s in I.rejected]
        finally:
            I.rejected = save
    s3 = st.fork()
    s3.event("search-none", "find", desc, None, cx.sp)
    s3.event("forall", "find", desc, tuple((k, tuple(c for c in s.conds(st.pc)), r) for s, k, e, r in rows), cx.sp,
             tuple((k, e, tuple(s.events()[len(st.events()):]), r) for s, k, e, r in rows))
    I.write(s3, loc, ("it", ("into", ("seq", ())), C(0)))
    out.append((s3, ("ret", NONE)))
    return out


def opaque_it(v):
    """an iterator of another crate; the values of a command line argument are a plain list"""
    x = v
    while x[0] in ("fld", "dc"):
        x = x[1]
    if x[0] == "app" and x[1].startswith("call:clap::") and x[1].endswith("::values_of"):
        return ("into", v)
    return ("opq", v)


def adapt(kind, n=0):
    def f(I, st, a, cx):
        it = I.as_iter(st, a[0])
        if it is None:
            v = a[0]
            it = ("it", opaque_it(v), C(0))
        d = it[1]
        if it[2] != C(0):
            d = ("skip", d, it[2])
        return R(st, ("it", (kind, d) + tuple(a[1:]), C(0)))
    return f


IT = "core::iter::traits::iterator::Iterator::"
models[IT + "rev"] = adapt("rev")
models[IT + "enumerate"] = adapt("enum")
models[IT + "map"] = adapt("map")
models[IT + "filter"] = adapt("filter")
models[IT + "filter_map"] = adapt("fmap")
models[IT + "take_while"] = adapt("takewhile")
models[IT + "skip_while"] = adapt("skipwhile")
models[IT + "skip"] = adapt("skip")
models[IT + "take"] = adapt("take")
models[IT + "step_by"] = adapt("stepby")
models[IT + "cloned"] = adapt("cloned")
models[IT + "copied"] = adapt("cloned")
models[IT + "chain"] = adapt("chain")
models[IT + "peekable"] = adapt("peek")


@model(IT + "by_ref")
def it_by_ref(I, st, a, cx):
    return R(st, a[0])


@model(IT + "zip")
def it_zip(I, st, a, cx):
    it = I.as_iter(st, a[0])
    y = I.as_iter(st, a[1])
    if y is None:
        if cx.argtys and isref(I, cx, 1):
            loc = loc_of(I, st, a[1])
            y = ("it", ("iter", I.read(st, loc), I.mkref(loc)), C(0))
        else:
            y = ("it", ("into", a[1]), C(0))
    if it is None:
        return NotImplemented
    return R(st, ("it", ("zip", it[1], y[1]), C(0)))


def itarg(I, st, v):
    if v[0] in ("ref", "box"):
        v = I.deep(st, v)
    return I.as_iter(st, v)


@model(IT + "collect")
def it_collect(I, st, a, cx):
    it = I.as_iter(st, a[0])
    if it is None:
        if a[0][0] in ("ref", "vref"):
            return NotImplemented
        it = ("it", opaque_it(a[0]), C(0))
    d = it[1]
    t = cx.fn.get("ret") if cx.fn else None
    if t is not None and I.F.tys[t].get("p") == RESULT:
        st.event("collect", d, cx.sp)
        st.event("yield", ("collect", d), t, cx.sp)
        return R(st, ("collect", d))
    if t is not None and (I.F.tys[t].get("p") or "").endswith("::BTreeSet"):
        st.event("collect", d, cx.sp)
        return R(st, app("sorted", ("ascset",), ("collect", d)))
    if d[0] == "into" and it[2] == C(0):
        return R(st, d[1])
    if d[0] == "cloned" and d[1][0] == "iter":
        return R(st, d[1][1])
    st.event("collect", d, cx.sp)
    return R(st, ("collect", d))


@model(IT + "count")
def it_count(I, st, a, cx):
    it = I.as_iter(st, a[0])
    if it is None:
        return NotImplemented
    n = I.it_len(it[1])
    return R(st, n if n is not None else app("count", ("d", settled(I, st, it[1]))))


def settled(I, st, d):
    """a descriptor with the values that its closures have references to, which may be gone later on"""
    if d[0] == "clo":
        return ("clo", d[1], tuple(("vref", I.deep(st, I.read(st, (x[1], x[2])))) if x[0] == "ref" and x[1][0] in ("L", "H") else x for x in d[2]))
    return tuple(settled(I, st, x) if isinstance(x, tuple) and x and x[0] in ("filter", "map", "fmap", "clo", "opq", "d", "rev") else x for x in d)


def quant(I, st, it, clo, cx, byref):
    """[(state, k, elem, closure value)] on a generic element"""
    k = ("k", st.fresh())
    out = []
    n = I.it_len(it[1])
    s0 = st.fork()
    if n is not None and not I.assume(s0, rel("Lt", k, n), True):
        return [], []
    bad = []
    for s, e in I.it_elem(s0, it[1], k, cx.stack, cx.sp):
        arg = e
        if byref:
            root = ("H", s.fresh(), "q")
            s.mem[root] = e
            arg = ("ref", root, ())
        for s2, o in calln(I, s, clo, [arg], cx):
            if o[0] == "ret":
                out.append((s2, k, e, o[1]))
            else:
                bad.append((s2, o))
    return out, bad


@model(IT + "position", IT + "rposition", IT + "find", IT + "find_map", IT + "any", IT + "all")
def it_search(I, st, a, cx):
    it = itarg(I, st, a[0])
    if it is None:
        return NotImplemented
    name = cx.fn["p"].rsplit("::", 1)[1]
    n = I.it_len(it[1])
    if n is not None and is_c(n) and 0 <= n[1] <= 16 and I.base(it[1])[0] != "takewhile":
        return one_by_one(I, st, it, a[1], cx, name, n[1])
    rows, out = quant(I, st, it, a[1], cx, name == "find")
    desc = ("d", it[1])
    for s, k, e, r in rows:
        if name == "find_map":
            for s2, var, pay in I.opt(s, r):
                if var == "Some":
                    s2.event("search", name, desc, k, cx.sp)
                    out.append((s2, ("ret", some(pay))))
            continue
        want = name != "all"
        s2 = s.fork()
        if I.assume(s2, r, want):
            s2.event("search", name, desc, k, cx.sp)
            v = {"position": some(k), "rposition": some(k), "find": some(e), "any": TRUE, "all": FALSE}[name]
            out.append((s2, ("ret", v)))
    s3 = st.fork()
    s3.event("search-none", name, desc, None, cx.sp)
    # remember what the failed search says about a generic element
    s3.event("forall", name, desc, tuple((k, tuple(c for c in s.conds(st.pc)), r) for s, k, e, r in rows), cx.sp,
             tuple((k, e, tuple(s.events()[len(st.events()):]), r) for s, k, e, r in rows))
    out.append((s3, ("ret", {"any": FALSE, "all": TRUE}.get(name, NONE))))
    return out


def one_by_one(I, st, it, clo, cx, name, n):
    """a search through a list of known length looks at one element after the other"""
    out, alive = [], [st.fork()]
    for j in range(n):
        k = C(n - 1 - j if name == "rposition" else j)
        rest = []
        for s0 in alive:
            for s, e in I.it_elem(s0, it[1], k, cx.stack, cx.sp):
                arg = e
                if name == "find":
                    root = ("H", s.fresh(), "q")
                    s.mem[root] = e
                    arg = ("ref", root, ())
                for s2, o in calln(I, s, clo, [arg], cx):
                    if o[0] != "ret":
                        out.append((s2, o))
                        continue
                    if name == "find_map":
                        for s3, var, pay in I.opt(s2, o[1]):
                            if var == "Some":
                                out.append((s3, ("ret", some(pay))))
                            else:
                                rest.append(s3)
                        continue
                    for s3, b in I.split(s2, o[1]):
                        if b != (name != "all"):
                            rest.append(s3)
                        else:
                            out.append((s3, ("ret", {"position": some(k), "rposition": some(k), "find": some(e), "any": TRUE, "all": FALSE}[name])))
        alive = rest
    return out + [(s, ("ret", {"any": FALSE, "all": TRUE}.get(name, NONE))) for s in alive]


def _best(I, st, it, cmpv, which, cx, extra=None):
    """minimum / maximum element: fork empty / some generic k carrying a 'best' event"""
    out = []
    n = I.it_len(it[1])
    k = ("best", st.fresh())
    for s, b in I.split(st, rel("Gt", n, C(0)) if n is not None else app("more", ("d", it[1]))):
        if not b:
            out.append((s, ("ret", NONE)))
            continue
        if n is not None:
            I.assume(s, rel("Lt", k, n), True)
        for s2, e in I.it_elem(s, it[1], k, cx.stack, cx.sp):
            s2.event("best", which, ("d", it[1]), k, cmpv, cx.sp)
            out.append((s2, ("ret", some(e))))
    return out


@model(IT + "min_by", IT + "max_by")
def it_min_by(I, st, a, cx):
    it = itarg(I, st, a[0])
    if it is None:
        return NotImplemented
    s = st.fork()
    ka, kb = ("bv", 0), ("bv", 1)
    es = []
    for k in (ka, kb):
        r = I.it_elem(s, it[1], k, cx.stack, cx.sp)
        if len(r) != 1:
            return NotImplemented
        s, e = r[0]
        es.append(e)
    r = cmp_summary(I, s, a[1], cx, es[0], es[1])
    return _best(I, st, it, r, cx.fn["p"].rsplit("::", 1)[1][:3], cx)


@model(IT + "min_by_key", IT + "max_by_key")
def it_min_key(I, st, a, cx):
    it = itarg(I, st, a[0])
    if it is None:
        return NotImplemented
    s = st.fork()
    ks = []
    for k in (("bv", 0), ("bv", 1)):
        r = I.it_elem(s, it[1], k, cx.stack, cx.sp)
        if len(r) != 1:
            return NotImplemented
        s, e = r[0]
        ks.append(key_summary(I, s, a[1], cx, e))
    r = ordterm(ks[0], ks[1]) if ks[0] and ks[1] else None
    return _best(I, st, it, r, cx.fn["p"].rsplit("::", 1)[1][:3], cx)


@model(IT + "min", IT + "max")
def it_minmax(I, st, a, cx):
    it = itarg(I, st, a[0])
    if it is None:
        return NotImplemented
    s = st.fork()
    es = []
    for k in (("bv", 0), ("bv", 1)):
        r = I.it_elem(s, it[1], k, cx.stack, cx.sp)
        if len(r) != 1:
            return NotImplemented
        s, e = r[0]
        es.append(I.deep(s, e))
    return _best(I, st, it, app("ord", es[0], es[1]), cx.fn["p"].rsplit("::", 1)[1], cx)


def pseudo_loop(I, st, it, body_fn, cx, byval=True):
    """internal iteration (for_each / try_for_each / fold): one generic step, effects widened.
    body_fn(state, elem) -> outcomes; returns (loop record, entry state after loop)"""
    lid = ("loop", cx.body["path"] if cx.body else "?", cx.sp, st.fresh())
    widened = {}
    for _ in range(6):
        s0 = st.fork()
        for loc, sym in widened.items():
            I.write(s0, loc, sym)
        k = ("lv", lid, "pos")
        mark, pc = s0.trace, s0.pc
        n = I.it_len(it[1])
        s1 = s0.fork()
        if n is not None and not I.assume(s1, rel("Lt", k, n), True):
            break
        outs = []
        for s, e in I.it_elem(s1, it[1], k, cx.stack, cx.sp):
            outs.extend(body_fn(s, e))
        changed = {}
        for s, o in outs:
            if o[0] != "ret":
                continue
            for r in set(s0.mem):
                if s.mem.get(r, s0.mem[r]) != s0.mem[r]:
                    I.diff(s0.mem[r], s.mem[r], (r, ()), changed)
            for r in set(s.mem) - set(s0.mem):
                if r[0] in ("D", "ST"):
                    v0 = I.root_val(s0, r)
                    if v0 != s.mem[r]:
                        I.diff(v0, s.mem[r], (r, ()), changed)
        new = [l for l in changed if not any(l[0] == w[0] and w[1] == l[1][:len(w[1])] for w in widened)]
        if not new:
            break
        for l in new:
            for w in [w for w in widened if w[0] == l[0] and w[1][:len(l[1])] == l[1]]:
                del widened[w]
            widened[l] = ("lv", lid, repr(l))
    L = {"id": lid, "fn": cx.body["path"] if cx.body else "?", "head": cx.sp, "sp": cx.sp,
         "init": {sym: I.read(st, loc) for loc, sym in widened.items()},
         "loc": {sym: loc for loc, sym in widened.items()}, "iters": [], "exits": [], "iter": it}
    L["init"][("lv", lid, "pos")] = it[2]
    if n is not None:
        I.assume(s0, rel("Lt", ("lv", lid, "pos"), n), False)
    return L, s0, outs, mark, pc


def add_iter(I, L, s, mark, pc, extra=None):
    nx = {sym: I.read(s, loc) for sym, loc in L["loc"].items()}
    k = ("lv", L["id"], "pos")
    nx[k] = add(k, C(1))
    L["iters"].append({"events": s.events(mark), "conds": s.conds(pc), "next": nx, "st": s})


@model(IT + "fold", IT + "try_fold")
def it_fold(I, st, a, cx):
    it = itarg(I, st, a[0])
    if it is None:
        return NotImplemented
    clo = a[2]
    if clo[0] == "clo":
        root = ("H", st.fresh(), "fe")
        st.mem[root] = clo
        clo = ("ref", root, ())
    acc = ("H", st.fresh(), "acc")
    st.mem[acc] = a[1]
    tr = cx.fn["p"].endswith("try_fold")
    fails = []

    def body(s, e):
        out = []
        for s2, o in calln(I, s, clo, [s.mem[acc], e], cx):
            if o[0] != "ret":
                out.append((s2, o))
            elif tr:
                for s3, var, pay in I.res(s2, o[1]):
                    if var == "Ok":
                        s3.mem[acc] = pay
                        out.append((s3, ("ret", UNIT)))
                    else:
                        out.append((s3, ("fail", err(pay))))
            else:
                s2.mem[acc] = o[1]
                out.append((s2, ("ret", UNIT)))
        return out

    L, s0, outs, mark, pc = pseudo_loop(I, st, it, body, cx)
    res = []
    for s, o in outs:
        if o[0] == "ret":
            add_iter(I, L, s, mark, pc)
        else:
            splice(s, L, mark)
            res.append((s, ("ret", o[1]) if o[0] == "fail" else o))
    I.loops.append(L)
    s0.trace = (mark, ("loop", L))
    v = s0.mem[acc]
    res.append((s0, ("ret", ok(v) if tr else v)))
    return res


def splice(s, L, mark):
    t = (mark, ("loop", L))
    for e in s.events(mark):
        t = (t, e)
    s.trace = t


@model(IT + "for_each", IT + "try_for_each")
def it_for_each(I, st, a, cx):
    it = itarg(I, st, a[0])
    if it is None:
        return NotImplemented
    clo = a[1]
    if clo[0] == "clo":
        root = ("H", st.fresh(), "fe")
        st.mem[root] = clo
        clo = ("ref", root, ())
    tr = cx.fn["p"].endswith("try_for_each")
    L, s0, outs, mark, pc = pseudo_loop(I, st, it, lambda s, e: calln(I, s, clo, [e], cx), cx)
    res = []
    for s, o in outs:
        if o[0] == "ret" and not tr:
            add_iter(I, L, s, mark, pc)
        elif o[0] == "ret":
            for s2, var, pay in I.res(s, o[1]):
                if var == "Ok":
                    add_iter(I, L, s2, mark, pc)
                else:
                    splice(s2, L, mark)
                    res.append((s2, ("ret", err(pay))))
        else:
            res.append((s, o))
    I.loops.append(L)
    s0.trace = (mark, ("loop", L))
    res.append((s0, ("ret", ok(UNIT) if tr else UNIT)))
    return res


@model("core::ops::function::FnOnce::call_once", "core::ops::function::Fn::call", "core::ops::function::FnMut::call_mut")
def f_call(I, st, a, cx):
    args = list(a[1][1]) if len(a) > 1 and a[1][0] == "tup" else list(a[1:])
    return calln(I, st, a[0], args, cx)


# ---------------------------------------------------------------- divergence
@model("core::panicking::panic", "core::panicking::panic_fmt", "core::panicking::unreachable_default_msg",
       "core::panicking::assert_failed", "core::panicking::panic_display", "core::panicking::panic_explicit",
       "std::rt::begin_panic", "std::panicking::begin_panic")
def m_panic(I, st, a, cx):
    return [(st, ("panic", cx.fn["p"].rsplit("::", 1)[1], cx.sp, cx.body["path"] if cx.body else None,
                  tuple(a)))]


@model("std::process::exit", "std::process::abort")
def m_exit(I, st, a, cx):
    return [(st, ("exitproc", a[0] if a else None, cx.sp))]


# ---------------------------------------------------------------- strings: constant folding where decidable
def strfold(name, f):
    @model("core::str::<impl str>::" + name)
    def g(I, st, a, cx):
        x = val(I, st, a[0], cx, 0)
        y = val(I, st, a[1], cx, 1) if len(a) > 1 else None
        if y is not None and y[0] == "ch":
            y = S(y[1])
        if x[0] == "s" and y is not None and y[0] == "s":
            return R(st, ("b", f(x[1], y[1])))
        return R(st, app(name, x, y))


strfold("ends_with", lambda x, y: x.endswith(y))
strfold("starts_with", lambda x, y: x.startswith(y))
strfold("contains", lambda x, y: y in x)


@model("core::slice::<impl [T]>::starts_with", "core::slice::<impl [T]>::ends_with")
def m_slice_starts(I, st, a, cx):
    n = cx.fn["p"].rsplit("::", 1)[1]
    return R(st, app(n, val(I, st, a[0], cx), val(I, st, a[1], cx, 1)))


@model("core::str::<impl str>::trim", "core::str::<impl str>::to_lowercase", "alloc::str::<impl str>::to_lowercase",
       "alloc::str::<impl str>::to_uppercase", "core::str::<impl str>::to_ascii_lowercase",
       "alloc::str::<impl str>::to_ascii_lowercase")
def m_strfn(I, st, a, cx):
    x = val(I, st, a[0], cx, 0)
    n = cx.fn["p"].rsplit("::", 1)[1]
    if x[0] == "s":
        return R(st, S({"trim": x[1].strip()}.get(n, x[1].lower() if "lower" in n else x[1].upper())))
    r = app(n, x)
    if n == "trim":
        return R(st, ("vref", r))
    return R(st, r)


@model("core::str::<impl str>::chars")
def m_chars(I, st, a, cx):
    return R(st, ("it", ("opq", app("chars", val(I, st, a[0], cx))), C(0)))


@model("core::str::<impl str>::bytes")
def m_bytes(I, st, a, cx):
    return R(st, ("it", ("opq", app("bytes", val(I, st, a[0], cx))), C(0)))


def cuts(I, st, a, cx, last, n=None):
    """text cut at the first (last) place of a pattern: [(state, (before, after) or None)]"""
    x, y = val(I, st, a[0], cx, 0), val(I, st, a[n], cx, n)
    if y[0] == "ch":
        y = S(y[1])
    if x[0] == "s" and y[0] == "s":
        if y[1] not in x[1]:
            return x, [(st, None)]
        b, _, c = x[1].rpartition(y[1]) if last else x[1].partition(y[1])
        return x, [(st, (S(b), S(c)))]
    k = "r" if last else ""
    return x, [(s, (app(k + "before", x, y), app(k + "after", x, y)) if b else None) for s, b in I.split(st, app("contains", x, y))]


@model("core::str::<impl str>::rsplitn", "core::str::<impl str>::splitn")
def m_splitn(I, st, a, cx):
    if a[1] != C(2):
        return NotImplemented
    last = "rsplitn" in cx.fn["p"]
    x, cs = cuts(I, st, a, cx, last, 2)
    return [(s, ("ret", ("it", ("into", ("seq", tuple(("vref", p) for p in ((x,) if c is None else c[::-1] if last else c)))), C(0)))) for s, c in cs]


@model("core::str::<impl str>::split_once", "core::str::<impl str>::rsplit_once")
def m_split_once(I, st, a, cx):
    x, cs = cuts(I, st, a, cx, "rsplit" in cx.fn["p"], 1)
    return [(s, ("ret", NONE if c is None else some(("tup", tuple(("vref", p) for p in c))))) for s, c in cs]


@model("core::str::<impl str>::find", "core::str::<impl str>::rfind")
def m_str_find(I, st, a, cx):
    if val(I, st, a[1], cx, 1)[0] not in ("s", "ch"):
        return NotImplemented
    x, cs = cuts(I, st, a, cx, cx.fn["p"].endswith("rfind"), 1)
    return [(s, ("ret", NONE if c is None else some(I.len_of(c[0])))) for s, c in cs]


@model("core::str::<impl str>::strip_suffix", "core::str::<impl str>::strip_prefix")
def m_strip(I, st, a, cx):
    x = val(I, st, a[0], cx, 0)
    y = val(I, st, a[1], cx, 1)
    n = cx.fn["p"].rsplit("::", 1)[1]
    t = app("ends_with" if n == "strip_suffix" else "starts_with", x, y)
    out = []
    ln = I.len_of(y)
    for s, b in I.split(st, t):
        sl = app("slice", x, C(0), sub(I.len_of(x), ln)) if n == "strip_suffix" else \
            app("slice", x, ln, I.len_of(x))
        out.append((s, ("ret", some(("vref", sl)) if b else NONE)))
    return out


# ---------------------------------------------------------------- maps with statically known entries
HM = "std::collections::hash::map::HashMap::<K, V, S, A>::"


@model("std::collections::hash::map::HashMap::<K, V>::new", "std::collections::hash::map::HashMap::<K, V>::with_capacity",
       "alloc::collections::btree::map::BTreeMap::<K, V>::new")
def m_hm_new(I, st, a, cx):
    return R(st, ("hmap", ()))


def hm_key(t):
    return t[0] in ("s", "c", "b", "ch") or t[0] == "adt" and not t[3]


@model(HM + "insert", "alloc::collections::btree::map::BTreeMap::<K, V, A>::insert")
def m_hm_insert(I, st, a, cx):
    loc = loc_of(I, st, a[0], cx, 0)
    m = I.read(st, loc)
    k = I.deep(st, a[1])
    if m[0] != "hmap" or not hm_key(k):
        return NotImplemented
    old = [v for kk, v in m[1] if kk == k]
    I.write(st, loc, ("hmap", tuple(e for e in m[1] if e[0] != k) + ((k, a[2]),)))
    return R(st, some(old[0]) if old else NONE)


@model(HM + "get", HM + "contains_key", "alloc::collections::btree::map::BTreeMap::<K, V, A>::get",
       "core::ops::index::Index::index__map")
def m_hm_get(I, st, a, cx):
    m = I.deep(st, a[0])
    if m[0] != "hmap":
        return NotImplemented
    k = I.deep(st, val(I, st, a[1], cx, 1))
    out = []
    has = cx.fn["p"].endswith("contains_key")
    cur = [st]
    for kk, v in m[1]:
        nxt = []
        for s in cur:
            for s2, b in I.split(s, eqterm(I, kk, k)):
                if b:
                    out.append((s2, ("ret", TRUE if has else some(("vref", v)))))
                else:
                    nxt.append(s2)
        cur = nxt
    for s in cur:
        out.append((s, ("ret", FALSE if has else NONE)))
    return out


@model("lazy_static::lazy::Lazy::<T>::get")
def m_lazy_get(I, st, a, cx):
    return cont(I, calln(I, st, a[1], [], cx), lambda s, v: R(s, ("vref", v)))


# ---------------------------------------------------------------- utf-8 decoding: a function of the bytes
def _utf8(I, st, a, cx):
    return R(st, app("utf8", I.deep(st, a[0])))


for _n in ("core::str::converts::from_utf8", "core::str::converts::from_utf8_mut", "alloc::string::String::from_utf8",
           "core::str::<impl str>::from_utf8", "core::str::<impl str>::from_utf8_mut"):
    models[_n] = _utf8


@model("core::str::converts::from_utf8_unchecked", "alloc::string::String::from_utf8_lossy",
       "alloc::string::String::from_utf8_unchecked", "core::str::<impl str>::from_utf8_unchecked")
def m_utf8_total(I, st, a, cx):
    return R(st, payload_of(app("utf8", I.deep(st, a[0])), "Ok"))


def payload_of(t, var):
    return ("fld", ("dc", t, var), 0, "0")


def _bits(name, op):
    @int_model(name)
    def f(I, st, a, cx):
        return R(st, app(op, a[0], a[1]))


_bits("wrapping_shl", "<<")
_bits("wrapping_shr", ">>")


def _tobytes(e):
    @int_model("to_%s_bytes" % e)
    def f(I, st, a, cx):
        return R(st, app("bytes_%s_%s" % (e, cx.fn["p"].split("<impl ")[1].split(">")[0]), val(I, st, a[0], cx)))

    @int_model("from_%s_bytes" % e)
    def g(I, st, a, cx):
        return R(st, app("from_%s_%s" % (e, cx.fn["p"].split("<impl ")[1].split(">")[0]), I.deep(st, a[0])))


_tobytes("be")
_tobytes("le")


@model("alloc::slice::<impl [T]>::join", "alloc::slice::Join::join")
def m_join(I, st, a, cx):
    v, sep = I.deep(st, a[0]), val(I, st, a[1], cx, 1)
    while v[0] == "vref":
        v = v[1]
    if v[0] == "seq" and v[1] and sep[0] == "s":
        r = S("")
        for i, x in enumerate(v[1]):
            while x[0] in ("ref", "vref"):
                x = I.deref(st, x) if x[0] == "ref" else x[1]
            r = concat(concat(r, sep) if i else r, x)
        return R(st, r)
    return R(st, app("join", v, sep))
