"""Models of core/alloc/std/itertools functions used by the analysed code."""
import re
import math
from interp import (V, mk, I, B, S, F, T, Adt, Tup, Seq, Some, NONE, Ok, Err, ref, is_c, is_t, UNIT, UNDEF,
                    OPT, RES, CF, Ret, Call, Fork, Dead, DEFAULT, Incomplete)

TABLE = {}
PATTERNS = []


def model(*names):
    def deco(f):
        for n in names:
            TABLE[n] = f
        return f
    return deco


def pattern(rx):
    def deco(f):
        PATTERNS.append((re.compile(rx), f))
        return f
    return deco


O = "core::option::Option::<T>::"
OO = "core::option::Option::<core::option::Option<T>>::"
R = "core::result::Result::<T, E>::"
IT = "core::iter::traits::iterator::Iterator::"
IX = "itertools::Itertools::"


# ------------------------------------------------------------ helpers
def opt_cases(I_, st, v, f):
    """f(st, None | payload) -> action for each feasible case of an Option value/reference.
    If v is a reference, the payload is a reference."""
    base = v
    isref = False
    loc = None
    while base.k == "ref":
        isref = True
        loc = base
        base = I_.load(st, base.a[0], base.a[1])
    if base.k == "adt":
        if base.a[1] == "None":
            return f(st, None)
        if isref:
            return f(st, ref(loc.a[0], loc.a[1] + (("f", 0, "0", "Some"),)))
        return f(st, base.a[2][0])
    if base.k == "undef":
        raise Incomplete("option undefined")
    alts = []
    for s, nm in I_.variants_of(st, base, OPT, ["None", "Some"]):
        if nm == "None":
            alts.append((s, f(s, None)))
        else:
            alts.append((s, f(s, I_.proj_get(base, ("f", 0, "0", "Some")))))
    return alts[0][1] if len(alts) == 1 and alts[0][0] is st else Fork(alts)


def res_cases(I_, st, v, f):
    """f(st, ok?, payload)"""
    base = v
    isref = False
    loc = None
    while base.k == "ref":
        isref = True
        loc = base
        base = I_.load(st, base.a[0], base.a[1])
    if base.k == "adt":
        ok = base.a[1] == "Ok"
        if isref:
            return f(st, ok, ref(loc.a[0], loc.a[1] + (("f", 0, "0", base.a[1]),)))
        return f(st, ok, base.a[2][0])
    if not I_.o.follow_errors and not isinstance(st.facts.get(("var", base)), str):
        return f(st, True, I_.proj_get(base, ("f", 0, "0", "Ok")))
    alts = []
    for s, nm in I_.variants_of(st, base, RES, ["Ok", "Err"]):
        alts.append((s, f(s, nm == "Ok", I_.proj_get(base, ("f", 0, "0", nm)))))
    return alts[0][1] if len(alts) == 1 and alts[0][0] is st else Fork(alts)


def panic(I_, st, why):
    return Dead("panic", why)


def arg0(I_, st, ci, a):
    return a[0]


# ------------------------------------------------------------ identity-like
@model("core::hint::must_use", "core::convert::identity", "core::mem::ManuallyDrop::<T>::new",
       "anyhow::__private::must_use", "core::hint::black_box",
       "<T as core::convert::From<T>>::from", "core::iter::traits::iterator::Iterator::by_ref",
       "core::pin::Pin::<Ptr>::new", "core::option::Option::<T>::as_mut_slice",
       "<&T as core::ops::deref::Deref>::deref", "<&mut T as core::ops::deref::Deref>::deref")
def m_id(I_, st, ci, a):
    return a[0]


@model("<T as core::convert::Into<U>>::into", "core::convert::Into::into")
def m_into(I_, st, ci, a):
    vd = ci.callee.get("vdef", "")
    if ci.callee.get("via") in I_.p and ci.callee.get("via"):
        return DEFAULT
    if vd == "<T as core::convert::From<T>>::from":
        return a[0]
    tgt = ci.args[1] if len(ci.args) > 1 else ""
    src = ci.args[0] if ci.args else ""
    return convert(I_, st, src, tgt, a[0], vd)


TRANSPARENT = ("alloc::string::String", "smol_str::SmolStr", "alloc::borrow::Cow", "hugr_core::ops::OpType",
               "alloc::boxed::Box", "alloc::sync::Arc", "alloc::rc::Rc", "hugr_core::types::type_row::TypeRowBase",
               "hugr_core::hugr::ident::IdentList", "alloc::vec::Vec", "hugr_core::types::type_param::Term",
               "hugr_core::ops::constant::Value", "hugr_core::core::Port", "inkwell::", "f64", "usize", "u64", "u32",
               "i64", "u128", "hugr_core::types::TypeBase", "hugr_core::extension::op_def::SignatureFunc", "&str",
               "hugr_core::types::poly_func::PolyFuncTypeBase", "core::option::Option", "anyhow::Error")


def convert(I_, st, src, tgt, v, vd):
    t = tgt.lstrip("&")
    if t.startswith("core::option::Option<") and not src.startswith("core::option::Option"):
        return Some(v)
    if t.startswith("alloc::boxed::Box<dyn") or t.startswith("alloc::boxed::Box<"):
        return I_.new_cell(st, v, "box") if v.k != "ref" else v
    for p in TRANSPARENT:
        if t.startswith(p):
            return v if not src.startswith("&") else I_.content(st, v)
    if tgt == "":
        return DEFAULT
    r = T("into:" + tgt, I_.reify(st, v))
    return r


@pattern(r"^<.* as core::convert::From<.*>>::from$|^core::convert::From::from$|::<impl core::convert::From<.*> for .*>::from$")
def m_from(I_, st, ci, a):
    if ci.callee.get("key") in I_.p and ci.callee.get("key"):
        return DEFAULT
    if ci.fn == "<T as core::convert::From<T>>::from":
        return a[0]
    # args: [Self, T]
    tgt = ci.args[0] if ci.args else ""
    src = ci.args[1] if len(ci.args) > 1 else ""
    return convert(I_, st, src, tgt, a[0], ci.fn)


@pattern(r"^<.* as core::clone::Clone>::clone$|^core::clone::Clone::clone$|core::clone::impls::|<impl core::clone::Clone for \[T; N\]>::clone|::cloned_ref$")
def m_clone(I_, st, ci, a):
    v = a[0]
    if v.k == "ref":
        x = I_.load(st, v.a[0], v.a[1])
        # cloning a Box: new cell with the same contents
        if x.k == "ref" and x.a[0][0] == "box" and not x.a[1]:
            return I_.new_cell(st, I_.load(st, x.a[0], x.a[1]), "box")
        return x
    return v


@model("alloc::borrow::ToOwned::to_owned", "<T as alloc::borrow::ToOwned>::to_owned",
       "alloc::str::<impl alloc::borrow::ToOwned for str>::to_owned", "alloc::slice::<impl [T]>::to_vec",
       "alloc::slice::<impl alloc::borrow::ToOwned for [T]>::to_owned", "alloc::borrow::Cow::<'_, B>::into_owned",
       "alloc::borrow::Cow::<'_, B>::to_mut",
       "alloc::slice::<impl [T]>::into_vec", "alloc::str::<impl str>::into_string",
       "smol_str::SmolStr::new", "smol_str::SmolStr::new_inline", "smol_str::SmolStr::new_static",
       "alloc::string::String::as_str", "smol_str::SmolStr::as_str", "core::str::<impl str>::as_str",
       "alloc::string::String::into_boxed_str", "alloc::string::String::from_str",
       "<alloc::string::String as core::convert::From<&str>>::from",
       "alloc::vec::Vec::<T, A>::into_boxed_slice")
def m_owned(I_, st, ci, a):
    if ci.fn.endswith("to_mut"):
        return a[0]
    return I_.content(st, a[0])


@model("<T as alloc::string::ToString>::to_string", "alloc::string::ToString::to_string")
def m_to_string(I_, st, ci, a):
    v = I_.content(st, a[0])
    if v.k == "c":
        return S(disp(v))
    if ci.callee.get("via") in I_.p and ci.callee.get("via"):
        return DEFAULT
    return T("string", I_.reify(st, v))


@pattern(r" as core::ops::deref::Deref(Mut)?>::deref(_mut)?$|^core::ops::deref::Deref(Mut)?::deref(_mut)?$")
def m_deref(I_, st, ci, a):
    if ci.callee.get("key") in I_.p and ci.callee.get("key") and "LazyLock" not in ci.fn:
        return DEFAULT
    v = a[0]
    if v.k == "ref":
        x = I_.load(st, v.a[0], v.a[1])
        if x.k == "ref":
            return x
        if x.k == "t" and x.a[0] in ("static",):
            return T("deref", x)
        if is_c(x, "str"):
            return x
        if x.k == "adt" and x.a[0] == "alloc::borrow::Cow":
            return x.a[2][0] if x.a[1] == "Borrowed" else ref(v.a[0], v.a[1] + (("f", 0, "0", x.a[1]),))
        return v
    if v.k == "t" and v.a[0] == "static":
        return T("deref", v)
    return v


@model("lazy_static::lazy::Lazy::<T>::get")
def m_lazy(I_, st, ci, a):
    f = a[1] if len(a) > 1 else UNDEF
    f = I_.content(st, f)
    name = f.a[0] if f.k in ("clo", "fn") else str(f)
    return T("lazy", name)


@pattern(r"^core::convert::(AsRef::as_ref|AsMut::as_mut)$| as core::convert::As(Ref|Mut)<.*>>::as_(ref|mut)$|::Borrow(Mut)?<.*>>::borrow(_mut)?$|^core::borrow::Borrow(Mut)?::borrow(_mut)?$|<impl core::convert::AsRef<.*>::as_ref$|<impl core::borrow::Borrow<.*>::borrow$")
def m_asref(I_, st, ci, a):
    if ci.callee.get("key") in I_.p and ci.callee.get("key"):
        return DEFAULT
    v = a[0]
    if v.k == "ref":
        x = I_.load(st, v.a[0], v.a[1])
        if x.k == "ref":
            return x
        if is_c(x, "str"):
            return x
    return v


@model("alloc::vec::Vec::<T, A>::as_slice", "alloc::vec::Vec::<T, A>::as_mut_slice",
       "core::array::<impl [T; N]>::as_slice", "core::array::<impl [T; N]>::as_mut_slice",
       "alloc::vec::Vec::<T, A>::leak")
def m_slice(I_, st, ci, a):
    return m_deref(I_, st, ci, a) if False else a[0]


# ------------------------------------------------------------ Box / Rc / cells
@model("alloc::boxed::Box::<T>::new", "alloc::sync::Arc::<T>::new", "alloc::rc::Rc::<T>::new", "alloc::rcs::arc::Arc::<T>::new",
       "alloc::rcs::rc::Rc::<T>::new")
def m_box(I_, st, ci, a):
    return I_.new_cell(st, a[0], "box")


@model("alloc::boxed::Box::<T>::new_uninit")
def m_box_uninit(I_, st, ci, a):
    return I_.new_cell(st, UNDEF, "box")


@model("alloc::boxed::box_assume_init_into_vec_unsafe")
def m_box_vec(I_, st, ci, a):
    c, p = I_.deref(a[0])
    v = I_.load(st, c, p)
    while v.k == "with":
        v = v.a[1][0][1]
    return v


@model("core::cell::RefCell::<T>::new", "std::sync::poison::mutex::Mutex::<T>::new", "core::cell::Cell::<T>::new",
       "std::sync::poison::rwlock::RwLock::<T>::new")
def m_cell(I_, st, ci, a):
    return Adt("cell", "cell", (a[0],))


@model("core::cell::RefCell::<T>::borrow", "core::cell::RefCell::<T>::borrow_mut")
def m_borrow(I_, st, ci, a):
    v = I_.content(st, a[0])
    if v.k == "adt" and v.a[0] == "cell":
        p = a[0]
        while True:
            x = I_.load(st, p.a[0], p.a[1])
            if x.k == "ref":
                p = x
            else:
                break
        return ref(p.a[0], p.a[1] + (("f", 0, "0", None),))
    c, p = I_.deref(a[0])
    return ref(c, p) if a[0].k == "ref" else a[0]


@model("core::cell::RefCell::<T>::into_inner", "core::cell::Cell::<T>::into_inner")
def m_cell_into(I_, st, ci, a):
    v = I_.reify(st, a[0])
    return v.a[2][0] if v.k == "adt" and v.a[0] == "cell" else DEFAULT


@model("core::mem::swap")
def m_swap(I_, st, ci, a):
    (c1, p1), (c2, p2) = I_.deref(a[0]), I_.deref(a[1])
    x, y = I_.load(st, c1, p1), I_.load(st, c2, p2)
    I_.storev(st, c1, p1, y)
    I_.storev(st, c2, p2, x)
    return UNIT


@model("core::mem::replace")
def m_replace(I_, st, ci, a):
    c1, p1 = I_.deref(a[0])
    x = I_.load(st, c1, p1)
    I_.storev(st, c1, p1, a[1])
    return x


@model("core::mem::take")
def m_take_mem(I_, st, ci, a):
    c1, p1 = I_.deref(a[0])
    x = I_.load(st, c1, p1)
    d = Seq([]) if x.k == "seq" else NONE if x.k == "adt" and x.a[0] == OPT else \
        S("") if is_c(x, "str") else mk("map", x.a[0], ()) if x.k == "map" else None
    if d is None:
        t = ci.args[0] if ci.args else ""
        if t.startswith("alloc::vec::Vec"):
            d = Seq([])
        else:
            d = T("default", t)
    I_.storev(st, c1, p1, d)
    return x


@model("core::mem::drop", "core::mem::forget", "core::ptr::drop_in_place")
def m_drop(I_, st, ci, a):
    return UNIT


# ------------------------------------------------------------ Try
@pattern(r"Try>::branch$|^core::ops::try_trait::Try::branch$")
def m_branch(I_, st, ci, a):
    self_ty = ci.args[0] if ci.args else ""
    v = a[0]
    if self_ty.startswith("core::option::Option") or "option::Option" in ci.fn:
        def f(s, x):
            if x is None:
                return Adt(CF, "Break", (NONE,))
            return Adt(CF, "Continue", (x,))
        return opt_cases(I_, st, v, f)
    if self_ty.startswith("core::ops::control_flow::ControlFlow"):
        return v if v.k == "adt" else DEFAULT

    def g(s, ok, x):
        if ok:
            return Adt(CF, "Continue", (x,))
        return Adt(CF, "Break", (Err(x),))
    return res_cases(I_, st, v, g)


@pattern(r"FromResidual.*>::from_residual$")
def m_residual(I_, st, ci, a):
    return a[0]


@pattern(r"Try>::from_output$")
def m_from_output(I_, st, ci, a):
    t = ci.args[0] if ci.args else ""
    if t.startswith("core::option"):
        return Some(a[0])
    return Ok(a[0])


# ------------------------------------------------------------ Option
def ref_payload(x):
    return x


@model(O + "as_ref", O + "as_mut", O + "as_deref", O + "as_deref_mut")
def m_opt_as_ref(I_, st, ci, a):
    def f(s, x):
        return NONE if x is None else Some(x)
    return opt_cases(I_, st, a[0], f)


@model(O + "is_some", O + "is_none")
def m_is_some(I_, st, ci, a):
    want = "Some" if ci.fn.endswith("is_some") else "None"
    v = I_.content(st, a[0])
    if v.k == "adt":
        return B(v.a[1] == want)
    base = v.a[0] if v.k == "with" else v
    f = st.facts.get(("var", base))
    if isinstance(f, str):
        return B(f == want)
    alts = []
    for s, nm in I_.variants_of(st, base, OPT, ["None", "Some"]):
        alts.append((s, B(nm == want)))
    return Fork(alts)


@model(R + "is_ok", R + "is_err")
def m_is_ok(I_, st, ci, a):
    want = "Ok" if ci.fn.endswith("is_ok") else "Err"
    v = I_.content(st, a[0])
    if v.k == "adt":
        return B(v.a[1] == want)
    base = v.a[0] if v.k == "with" else v
    alts = []
    for s, nm in I_.variants_of(st, base, RES, ["Ok", "Err"]):
        alts.append((s, B(nm == want)))
    return Fork(alts) if len(alts) > 1 else alts[0][1]


@model(O + "unwrap", O + "expect", O + "unwrap_unchecked")
def m_unwrap(I_, st, ci, a):
    v = a[0]
    if v.k == "t":
        return T("some", v)
    return opt_cases(I_, st, v, lambda s, x: panic(I_, s, "unwrap on None") if x is None else x)


@model(R + "unwrap", R + "expect")
def m_runwrap(I_, st, ci, a):
    v = a[0]
    if v.k == "t":
        return T("ok", v)
    return res_cases(I_, st, v, lambda s, ok, x: x if ok else panic(I_, s, "unwrap on Err"))


@model(R + "unwrap_err", R + "expect_err")
def m_runwrap_err(I_, st, ci, a):
    v = a[0]
    if v.k == "t":
        return T("err", v)
    return res_cases(I_, st, v, lambda s, ok, x: panic(I_, s, "unwrap_err on Ok") if ok else x)


@model(O + "unwrap_or")
def m_unwrap_or(I_, st, ci, a):
    return opt_cases(I_, st, a[0], lambda s, x: a[1] if x is None else x)


@model(O + "unwrap_or_default", R + "unwrap_or_default")
def m_unwrap_or_default(I_, st, ci, a):
    d = default_of(I_, st, ci.args[0] if ci.args else "")
    via = ci.callee.get("via")

    def dflt(s):
        if d is not None:
            return d
        if via and via in I_.p:
            import interp
            return Call(interp.mk_fn_key(I_, via, ci.callee["vdef"]), [])
        return T("default", ci.args[0] if ci.args else "")
    if "result" in ci.fn:
        return res_cases(I_, st, a[0], lambda s, ok, x: x if ok else dflt(s))
    return opt_cases(I_, st, a[0], lambda s, x: dflt(s) if x is None else x)


def default_of(I_, st, ty):
    if ty in ("usize", "u64", "u32", "u8", "i64", "i32", "u16", "isize", "u128"):
        return I(0)
    if ty == "bool":
        return B(False)
    if ty == "f64":
        return F(0.0)
    if ty.startswith("alloc::vec::Vec<") or ty.startswith("alloc::collections::vec_deque") or re.match(r"&(.[a-z_]+ )?\[", ty):
        return Seq([])
    if ty.startswith("alloc::string::String"):
        return S("")
    if ty.startswith("core::option::Option<"):
        return NONE
    if re.match(r"(std::collections::hash|alloc::collections::btree|indexmap::|fxhash|rustc_hash)", ty):
        return mk("map", ty.split("<")[0], ())
    if ty == "()":
        return UNIT
    return None


@pattern(r" as core::default::Default>::default$|^core::default::Default::default$|<impl core::default::Default for .*>::default$")
def m_default(I_, st, ci, a):
    if ci.callee.get("key") in I_.p and ci.callee.get("key"):
        return DEFAULT
    t = ci.args[0] if ci.args else ""
    d = default_of(I_, st, t)
    if d is None and " as core::default" in ci.fn:
        t2 = ci.fn[1:].split(" as ")[0]
        d = default_of(I_, st, t2)
    return d if d is not None else T("default", t)


@model(O + "unwrap_or_else")
def m_unwrap_or_else(I_, st, ci, a):
    return opt_cases(I_, st, a[0], lambda s, x: Call(a[1], []) if x is None else x)


@model(R + "unwrap_or_else")
def m_runwrap_or_else(I_, st, ci, a):
    return res_cases(I_, st, a[0], lambda s, ok, x: x if ok else Call(a[1], [x]))


@model(R + "unwrap_or")
def m_runwrap_or(I_, st, ci, a):
    return res_cases(I_, st, a[0], lambda s, ok, x: x if ok else a[1])


@model(O + "map")
def m_omap(I_, st, ci, a):
    return opt_cases(I_, st, a[0], lambda s, x: NONE if x is None else
                     Call(a[1], [x], lambda I2, s2, r: Some(r)))


@model(O + "inspect")
def m_oinspect(I_, st, ci, a):
    def f(s, x):
        if x is None:
            return NONE
        c = I_.new_cell(s, x)
        return Call(a[1], [c], lambda I2, s2, r: Some(x))
    return opt_cases(I_, st, a[0], f)


@model(O + "map_or")
def m_omap_or(I_, st, ci, a):
    return opt_cases(I_, st, a[0], lambda s, x: a[1] if x is None else Call(a[2], [x]))


@model(O + "map_or_else")
def m_omap_or_else(I_, st, ci, a):
    return opt_cases(I_, st, a[0], lambda s, x: Call(a[1], []) if x is None else Call(a[2], [x]))


@model(O + "and_then")
def m_oand_then(I_, st, ci, a):
    return opt_cases(I_, st, a[0], lambda s, x: NONE if x is None else Call(a[1], [x]))


@model(O + "is_some_and")
def m_is_some_and(I_, st, ci, a):
    return opt_cases(I_, st, a[0], lambda s, x: B(False) if x is None else Call(a[1], [x]))


@model(O + "is_none_or")
def m_is_none_or(I_, st, ci, a):
    return opt_cases(I_, st, a[0], lambda s, x: B(True) if x is None else Call(a[1], [x]))


@model(O + "filter")
def m_ofilter(I_, st, ci, a):
    def f(s, x):
        if x is None:
            return NONE
        c = I_.new_cell(s, x)
        return Call(a[1], [c], lambda I2, s2, r: I2.fork_bool(s2, r, lambda s3, b: Some(x) if b else NONE))
    return opt_cases(I_, st, a[0], f)


@model(O + "ok_or")
def m_ok_or(I_, st, ci, a):
    return opt_cases(I_, st, a[0], lambda s, x: Err(a[1]) if x is None else Ok(x))


@model(O + "ok_or_else")
def m_ok_or_else(I_, st, ci, a):
    return opt_cases(I_, st, a[0], lambda s, x: Call(a[1], [], lambda I2, s2, r: Err(r)) if x is None else Ok(x))


@model(O + "or")
def m_oor(I_, st, ci, a):
    return opt_cases(I_, st, a[0], lambda s, x: a[1] if x is None else Some(x))


@model(O + "or_else")
def m_oor_else(I_, st, ci, a):
    return opt_cases(I_, st, a[0], lambda s, x: Call(a[1], []) if x is None else Some(x))


@model(O + "and")
def m_oand(I_, st, ci, a):
    return opt_cases(I_, st, a[0], lambda s, x: NONE if x is None else a[1])


@model(O + "zip")
def m_ozip(I_, st, ci, a):
    return opt_cases(I_, st, a[0], lambda s, x: NONE if x is None else
                     opt_cases(I_, s, a[1], lambda s2, y: NONE if y is None else Some(Tup(x, y))))


@model("core::option::Option::<&T>::cloned", "core::option::Option::<&T>::copied",
       "core::option::Option::<&mut T>::cloned", "core::option::Option::<&mut T>::copied")
def m_ocloned(I_, st, ci, a):
    return opt_cases(I_, st, a[0], lambda s, x: NONE if x is None else
                     Some(I_.load(s, x.a[0], x.a[1]) if x.k == "ref" else x))


@model(O + "take")
def m_otake(I_, st, ci, a):
    c, p = I_.deref(a[0])
    x = I_.load(st, c, p)
    I_.storev(st, c, p, NONE)
    return x


@model(O + "replace")
def m_oreplace(I_, st, ci, a):
    c, p = I_.deref(a[0])
    x = I_.load(st, c, p)
    I_.storev(st, c, p, Some(a[1]))
    return x


@model(O + "insert")
def m_oinsert(I_, st, ci, a):
    c, p = I_.deref(a[0])
    I_.storev(st, c, p, Some(a[1]))
    return ref(c, p + (("f", 0, "0", "Some"),))


@model(O + "get_or_insert_with")
def m_ogoiw(I_, st, ci, a):
    c, p = I_.deref(a[0])

    def f(s, x):
        if x is None:
            def k(I2, s2, r):
                I2.storev(s2, c, p, Some(r))
                return ref(c, p + (("f", 0, "0", "Some"),))
            return Call(a[1], [], k)
        return ref(c, p + (("f", 0, "0", "Some"),))
    return opt_cases(I_, st, a[0], f)


@model(O + "get_or_insert_default")
def m_ogoid(I_, st, ci, a):
    c, p = I_.deref(a[0])

    def f(s, x):
        if x is None:
            d = default_of(I_, s, ci.args[0] if ci.args else "")
            if d is None:
                raise Incomplete("default value of " + str(ci.args))
            I_.storev(s, c, p, Some(d))
        return ref(c, p + (("f", 0, "0", "Some"),))
    return opt_cases(I_, st, a[0], f)


@model("core::option::Option::<core::option::Option<T>>::flatten")
def m_oflatten(I_, st, ci, a):
    return opt_cases(I_, st, a[0], lambda s, x: NONE if x is None else x)


@model("core::option::Option::<core::result::Result<T, E>>::transpose")
def m_otranspose(I_, st, ci, a):
    return opt_cases(I_, st, a[0], lambda s, x: Ok(NONE) if x is None else
                     res_cases(I_, s, x, lambda s2, ok, y: Ok(Some(y)) if ok else Err(y)))


@model("core::result::Result::<core::option::Option<T>, E>::transpose")
def m_rtranspose(I_, st, ci, a):
    return res_cases(I_, st, a[0], lambda s, ok, x: Some(Err(x)) if not ok else
                     opt_cases(I_, s, x, lambda s2, y: NONE if y is None else Some(Ok(y))))


# ------------------------------------------------------------ Result
@model(R + "ok")
def m_rok(I_, st, ci, a):
    v = a[0]
    if v.k != "adt":
        # turning an unknown Result into an Option: both cases matter
        alts = []
        for s, nm in I_.variants_of(st, v, RES, ["Ok", "Err"]):
            alts.append((s, Some(I_.proj_get(v, ("f", 0, "0", "Ok"))) if nm == "Ok" else NONE))
        return Fork(alts) if len(alts) > 1 else alts[0][1]
    return Some(v.a[2][0]) if v.a[1] == "Ok" else NONE


@model(R + "err")
def m_rerr(I_, st, ci, a):
    v = a[0]
    if v.k != "adt":
        alts = []
        for s, nm in I_.variants_of(st, v, RES, ["Ok", "Err"]):
            alts.append((s, NONE if nm == "Ok" else Some(I_.proj_get(v, ("f", 0, "0", "Err")))))
        return Fork(alts) if len(alts) > 1 else alts[0][1]
    return Some(v.a[2][0]) if v.a[1] == "Err" else NONE


@model(R + "map_err")
def m_map_err(I_, st, ci, a):
    v = a[0]
    if v.k == "t" and not I_.o.follow_errors:
        return v
    return res_cases(I_, st, v, lambda s, ok, x: Ok(x) if ok else
                     Call(a[1], [x], lambda I2, s2, r: Err(r)))


@model(R + "map")
def m_rmap(I_, st, ci, a):
    return res_cases(I_, st, a[0], lambda s, ok, x: Err(x) if not ok else
                     Call(a[1], [x], lambda I2, s2, r: Ok(r)))


@model(R + "and_then")
def m_rand_then(I_, st, ci, a):
    return res_cases(I_, st, a[0], lambda s, ok, x: Err(x) if not ok else Call(a[1], [x]))


@model(R + "or_else")
def m_ror_else(I_, st, ci, a):
    return res_cases(I_, st, a[0], lambda s, ok, x: Ok(x) if ok else Call(a[1], [x]))


@model(R + "as_ref", R + "as_mut")
def m_ras_ref(I_, st, ci, a):
    return res_cases(I_, st, a[0], lambda s, ok, x: Ok(x) if ok else Err(x))


@model(R + "is_ok_and")
def m_is_ok_and(I_, st, ci, a):
    v = a[0]
    if v.k == "t":
        alts = []
        for s, nm in I_.variants_of(st, v, RES, ["Ok", "Err"]):
            alts.append((s, Call(a[1], [T("ok", v)]) if nm == "Ok" else B(False)))
        return Fork(alts)
    return res_cases(I_, st, v, lambda s, ok, x: Call(a[1], [x]) if ok else B(False))


@pattern(r"^core::bool::<impl bool>::then$")
def m_then(I_, st, ci, a):
    return I_.fork_bool(st, a[0], lambda s, b: Call(a[1], [], lambda I2, s2, r: Some(r)) if b else NONE)


@pattern(r"^core::bool::<impl bool>::then_some$")
def m_then_some(I_, st, ci, a):
    return I_.fork_bool(st, a[0], lambda s, b: Some(a[1]) if b else NONE)


# ------------------------------------------------------------ comparison
PORTS = ("hugr_core::core::IncomingPort", "hugr_core::core::OutgoingPort")


def structural_eq(I_, st, a, b, depth=0):
    """True/False/None"""
    a, b = I_.content(st, a), I_.content(st, b)
    if a is b and a.k != "undef":
        return True
    if a.k == "c" and b.k == "c":
        return a.a[1] == b.a[1]
    if a.k == "adt" and b.k == "adt" and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return False
        if len(a.a[2]) != len(b.a[2]):
            return False
        rs = [structural_eq(I_, st, x, y, depth + 1) for x, y in zip(a.a[2], b.a[2])]
    elif a.k == "adt" and b.k == "adt" and a.a[0] in PORTS and b.a[0] in PORTS:
        return False    # the two directions of a port
    elif a.k == "tup" and b.k == "tup" or a.k == "seq" and b.k == "seq":
        if len(a.a[0]) != len(b.a[0]):
            return False
        rs = [structural_eq(I_, st, x, y, depth + 1) for x, y in zip(a.a[0], b.a[0])]
    else:
        return None
    if any(r is False for r in rs):
        return False
    if all(r is True for r in rs):
        return True
    return None


@pattern(r"PartialEq(<.*>)?>::(eq|ne)$|^core::cmp::PartialEq::(eq|ne)$|<impl core::cmp::PartialEq.* for .*>::(eq|ne)$|SpecOptionPartialEq.*::eq$")
def m_eq(I_, st, ci, a):
    neg = ci.fn.endswith("::ne") or ci.def_.endswith("::ne")
    r = structural_eq(I_, st, a[0], a[1])
    if r is not None:
        return B(r != neg)
    x, y = I_.content(st, a[0]), I_.content(st, a[1])
    k = ci.callee.get("key")
    if k and k in I_.p:
        return DEFAULT
    if ci.callee.get("via") in I_.p and ci.callee.get("via") and ci.def_.endswith("::ne"):
        return DEFAULT
    # enum (Option/Result) compared with a constant variant
    for u, w in ((x, y), (y, x)):
        if u.k == "t" and w.k == "adt" and w.a[0] in (OPT,):
            alts = []
            for s, nm in I_.variants_of(st, u, OPT, ["None", "Some"]):
                if nm != w.a[1]:
                    alts.append((s, B(neg)))
                elif nm == "None":
                    alts.append((s, B(not neg)))
                else:
                    e = I_.binop1(s, "Eq", I_.reify(s, T("some", u)), I_.reify(s, w.a[2][0]))
                    alts.append((s, I_.not_(e) if neg else e))
            return Fork(alts)
        if u.k == "t" and w.k == "adt" and not w.a[2] and w.a[0] in I_.p.adts and len(I_.p.adts[w.a[0]]["variants"]) > 1:
            f = st.facts.get(("var", u))
            if isinstance(f, str):
                return B((f == w.a[1]) != neg)
            e = T("is", u, w.a[1])
            tr = I_.truth(st, e)
            if tr is not None:
                return B(tr != neg)
            return I_.not_(e) if neg else e
    e = I_.binop1(st, "Eq", I_.reify(st, x), I_.reify(st, y))
    return I_.not_(e) if neg else e


def ord_test(I_, st, v, m):
    """v: Option<Ordering> value; m in lt/le/gt/ge"""
    want = {"lt": ("Less",), "le": ("Less", "Equal"), "gt": ("Greater",), "ge": ("Greater", "Equal")}[m]
    if v.k == "adt":
        if v.a[1] == "None":
            return B(False)
        o = v.a[2][0]
        if o.k == "adt":
            return B(o.a[1] in want)
        if is_t(o, "cmp"):
            x, y = o.a[1], o.a[2]
            return I_.binop1(st, {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[m], x, y)
        return T("ord", m, o)
    return T("ord", m, v)


def ground_cmp(x, y):
    """-1, 0, 1 for known values that are ordered structurally (integers, lists, tuples, options), else None"""
    if x is y:
        return 0
    if x.k == "c" and y.k == "c" and x.a[0] == y.a[0] and x.a[0] in ("int", "str", "bool"):
        return (x.a[1] > y.a[1]) - (x.a[1] < y.a[1])
    if x.k == "adt" and y.k == "adt" and x.a[0] == y.a[0] == OPT:
        if "None" in (x.a[1], y.a[1]):
            return (x.a[1] != "None") - (y.a[1] != "None")
        return ground_cmp(x.a[2][0], y.a[2][0])
    if x.k == y.k and x.k in ("seq", "tup"):
        for u, w in zip(x.a[0], y.a[0]):
            r = ground_cmp(u, w)
            if r != 0:
                return r
        return (len(x.a[0]) > len(y.a[0])) - (len(x.a[0]) < len(y.a[0]))
    return None


@pattern(r"^core::cmp::PartialOrd::(lt|le|gt|ge)$|PartialOrd(<.*>)?( for .*)?>::(lt|le|gt|ge)$")
def m_ord(I_, st, ci, a):
    m = ci.def_.rsplit("::", 1)[1]
    k = ci.callee.get("key")
    if k and k in I_.p:
        return DEFAULT
    if ci.callee.get("via") and ci.callee["via"] in I_.p:
        return DEFAULT
    x, y = I_.reify(st, a[0]), I_.reify(st, a[1])
    g = ground_cmp(x, y)
    if g is not None and x.k != "c":
        return B({"lt": g < 0, "le": g <= 0, "gt": g > 0, "ge": g >= 0}[m])
    return I_.binop1(st, {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[m], x, y)


@pattern(r"^core::cmp::(Partial)?Ord::(partial_)?cmp$|(Partial)?Ord(<.*>)?( for .*)?>::(partial_)?cmp$")
def m_cmp(I_, st, ci, a):
    k = ci.callee.get("key")
    if k and k in I_.p:
        return DEFAULT
    x, y = I_.reify(st, a[0]), I_.reify(st, a[1])
    r = I_.binop1(st, "Cmp", x, y) if x.k in ("c", "t") and y.k in ("c", "t") else T("cmp", x, y)
    g = ground_cmp(x, y)
    if g is not None:
        r = Adt("core::cmp::Ordering", ["Less", "Equal", "Greater"][g + 1], ())
    elif x.k in ("seq", "tup") and y.k == x.k and (x.k == "seq" or len(x.a[0]) == len(y.a[0])):
        for u, w in zip(x.a[0], y.a[0]):
            if u is w:
                continue
            if u.k == "c" and w.k == "c":
                r = I_.binop1(st, "Cmp", u, w)
            break
        else:
            n = (len(x.a[0]) > len(y.a[0])) - (len(x.a[0]) < len(y.a[0]))
            r = Adt("core::cmp::Ordering", ["Less", "Equal", "Greater"][n + 1], ())
    return Some(r) if "partial" in ci.fn.rsplit("::", 1)[1] else r


@model("core::cmp::max", "core::cmp::min", "core::cmp::Ord::max", "core::cmp::Ord::min")
def m_max(I_, st, ci, a):
    nm = ci.def_.rsplit("::", 1)[1]
    x, y = I_.content(st, a[0]), I_.content(st, a[1])
    if x.k == "c" and y.k == "c":
        f = max if nm == "max" else min
        return mk("c", x.a[0], f(x.a[1], y.a[1]))
    if x.k == "adt" and y.k == "adt":
        imp = f"<{x.a[0]} as core::cmp::Ord>::cmp"
        if imp in I_.p:
            def k(I2, s, r):
                r = I2.reify(s, r)
                if r.k != "adt":
                    return T(nm, I2.reify(s, x), I2.reify(s, y))
                return (x if r.a[1] == "Greater" else y) if nm == "max" else (y if r.a[1] == "Greater" else x)
            from interp import mk_fn_key
            return Call(mk_fn_key(I_, imp, imp), [I_.new_cell(st, x), I_.new_cell(st, y)], k)
    return T(nm, I_.reify(st, x), I_.reify(st, y))


@model("core::cmp::Ordering::then_with")
def m_then_with(I_, st, ci, a):
    if a[0].k == "adt":
        if a[0].a[1] == "Equal":
            return Call(a[1], [])
        return a[0]
    return Call(a[1], [], lambda I2, s, r: T("then", a[0], r))


@model("core::cmp::Ordering::then")
def m_ord_then(I_, st, ci, a):
    if a[0].k == "adt":
        return a[1] if a[0].a[1] == "Equal" else a[0]
    return T("then", a[0], a[1])


@model("core::cmp::Ordering::reverse")
def m_ord_rev(I_, st, ci, a):
    if a[0].k == "adt":
        return Adt(a[0].a[0], {"Less": "Greater", "Greater": "Less", "Equal": "Equal"}[a[0].a[1]], ())
    if is_t(a[0], "cmp"):
        return T("cmp", a[0].a[2], a[0].a[1])
    return T("rev", a[0])


@pattern(r"^core::cmp::Ordering::is_(lt|le|gt|ge|eq|ne)$")
def m_is_lt(I_, st, ci, a):
    m = ci.fn.rsplit("_", 1)[1]
    if m in ("eq", "ne"):
        if a[0].k == "adt":
            return B((a[0].a[1] == "Equal") == (m == "eq"))
        if is_t(a[0], "cmp"):
            return I_.binop1(st, "Eq" if m == "eq" else "Ne", a[0].a[1], a[0].a[2])
        return T("ord", m, a[0])
    return ord_test(I_, st, Some(a[0]), m)


@model("core::intrinsics::discriminant_value", "core::mem::discriminant")
def m_discr(I_, st, ci, a):
    v = I_.content(st, a[0])
    ty = ci.args[0] if ci.args else ""
    r = I_.discr(st, v, ty.split("<")[0])
    return r


# ------------------------------------------------------------ arithmetic
@pattern(r"^core::ops::(arith|bit)::\w+::\w+$|^<.* as core::ops::(arith|bit)::(\w+)(<.*>)?>::\w+$|<impl core::ops::(arith|bit)::.*>::\w+$")
def m_arith(I_, st, ci, a):
    if ci.callee.get("key") in I_.p and ci.callee.get("key"):
        return DEFAULT
    m = ci.def_.rsplit("::", 1)[1]
    ops = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem", "bitand": "BitAnd",
           "bitor": "BitOr", "bitxor": "BitXor", "shl": "Shl", "shr": "Shr"}
    if m in ops:
        x, y = I_.content(st, a[0]), I_.content(st, a[1])
        if is_c(x, "str") or is_t(x, "concat") or "String" in ci.fn:
            return concat([x, y])
        return I_.binop1(st, ops[m], x, y)
    if m == "neg":
        return I_.unop(st, "Neg", I_.content(st, a[0]))
    if m == "not":
        return I_.unop(st, "Not", I_.content(st, a[0]))
    if m.endswith("_assign") and m[:-7] in ops:
        c, p = I_.deref(a[0])
        x, y = I_.load(st, c, p), I_.content(st, a[1])
        r = concat([x, y]) if is_c(x, "str") or is_t(x, "concat") else I_.binop1(st, ops[m[:-7]], x, y)
        I_.storev(st, c, p, r)
        return UNIT
    return DEFAULT


@pattern(r"^core::num::<impl \w+>::(saturating|wrapping|checked)_(add|sub|mul|div|pow)$|^core::num::saturating_int_impl::\w+$")
def m_num(I_, st, ci, a):
    kind, op = ci.fn.rsplit("::", 1)[1].split("_", 1)
    x, y = I_.content(st, a[0]), I_.content(st, a[1])
    if x.k == "c" and y.k == "c":
        r = {"add": lambda: x.a[1] + y.a[1], "sub": lambda: x.a[1] - y.a[1], "mul": lambda: x.a[1] * y.a[1],
             "div": lambda: x.a[1] // y.a[1], "pow": lambda: x.a[1] ** y.a[1]}[op]()
        unsigned = "<impl u" in ci.fn
        if r < 0 and unsigned:
            if kind == "saturating":
                return I(0)
            if kind == "checked":
                return NONE
        return Some(I(r)) if kind == "checked" else I(r)
    return T(f"{kind}_{op}", I_.reify(st, x), I_.reify(st, y))


@pattern(r"^(core|std)::(num::)?f64::<impl f64>::(\w+)$|^std::num::f64::<impl f64>::\w+$")
def m_f64(I_, st, ci, a):
    v = I_.reify(st, a[0])
    n = ci.fn.rsplit("::", 1)[1]
    if len(a) == 1 and is_c(v, "flt") and n in F64:
        return F64[n](v.a[1])
    return T("f64::" + n, *[I_.reify(st, x) for x in a])


F64 = {"is_nan": lambda x: B(math.isnan(x)), "is_infinite": lambda x: B(math.isinf(x)), "is_finite": lambda x: B(math.isfinite(x)),
       "abs": lambda x: F(abs(x)), "is_sign_negative": lambda x: B(math.copysign(1.0, x) < 0),
       "is_sign_positive": lambda x: B(math.copysign(1.0, x) > 0)}


# ------------------------------------------------------------ strings
def concat(parts):
    out = []
    for p in parts:
        ps = list(p.a[1:]) if is_t(p, "concat") else [p]
        for q in ps:
            if is_c(q, "str") and out and is_c(out[-1], "str"):
                out[-1] = S(out[-1].a[1] + q.a[1])
            elif is_c(q, "str") and q.a[1] == "":
                continue
            else:
                out.append(q)
    if not out:
        return S("")
    if len(out) == 1 and is_c(out[0], "str"):
        return out[0]
    return T("concat", *out)


def disp(v):
    k, x = v.a
    if k == "bool":
        return "true" if x else "false"
    if k == "flt":
        if x == int(x) and abs(x) < 1e15:
            return str(int(x))
        return repr(x)
    return str(x)


@model("core::fmt::rt::Argument::<'_>::new_display", "core::fmt::rt::Argument::<'_>::new_debug")
def m_arg(I_, st, ci, a):
    v = I_.content(st, a[0])
    dbg = ci.fn.endswith("debug")
    if v.k == "c" and not dbg:
        return S(disp(v))
    if dbg and v.k == "c":
        if v.a[0] in ("int", "bool"):
            return S(disp(v))
        if v.a[0] == "str":
            return S('"' + v.a[1] + '"')
        if v.a[0] == "flt":
            return S(repr(v.a[1]))
    if is_t(v, "concat") or is_t(v, "string"):
        return T("dbg", v) if dbg else v
    return T("dbg" if dbg else "string", I_.reify(st, v))


@pattern(r"^core::fmt::rt::Argument::<'_>::new_\w+$")
def m_arg2(I_, st, ci, a):
    v = I_.content(st, a[0])
    return T("fmt:" + ci.fn.rsplit("new_", 1)[1], I_.reify(st, v))


@model("core::fmt::Arguments::<'a>::new")
def m_args_new(I_, st, ci, a):
    tmpl = I_.content(st, a[0])
    args = I_.content(st, a[1])
    if not is_c(tmpl, "bytes") or args.k != "seq":
        return T("fmtargs", tmpl, args)
    b = tmpl.a[1]
    items = args.a[0]
    i = 0
    nxt = 0
    parts = []
    while i < len(b):
        x = b[i]
        i += 1
        if x == 0:
            break
        if x < 0x80:
            parts.append(S(b[i:i + x].decode("utf8", "replace")))
            i += x
        elif x == 0x80:
            n = int.from_bytes(b[i:i + 2], "little")
            i += 2
            parts.append(S(b[i:i + n].decode("utf8", "replace")))
            i += n
        elif x & 0xC0 == 0xC0:
            spec = []
            if x & 1:
                spec.append(b[i:i + 4])
                i += 4
            if x & 2:
                spec.append(b[i:i + 2])
                i += 2
            if x & 4:
                spec.append(b[i:i + 2])
                i += 2
            if x & 8:
                nxt = int.from_bytes(b[i:i + 2], "little")
                i += 2
            v = items[nxt] if nxt < len(items) else UNDEF
            nxt += 1
            if spec:
                v = T("fmtspec", v, b"".join(spec).hex())
            parts.append(v)
        else:
            return T("fmtargs", tmpl, args)
    return concat(parts)


@model("core::fmt::Arguments::<'a>::from_str", "core::fmt::Arguments::<'a>::from_str_nonconst",
       "core::fmt::Arguments::<'a>::new_const")
def m_args_str(I_, st, ci, a):
    return I_.content(st, a[0])


@model("alloc::fmt::format", "anyhow::__private::format_err")
def m_format(I_, st, ci, a):
    return a[0]


@model("core::fmt::Formatter::<'a>::write_str", "core::fmt::Formatter::<'a>::pad", "core::fmt::Formatter::<'a>::write_fmt",
       "core::fmt::Write::write_str", "core::fmt::Write::write_fmt")
def m_write_str(I_, st, ci, a):
    v = I_.content(st, a[0])
    if v.k == "adt" and v.a[0] == "core::fmt::Formatter":
        cell = v.a[2][0]
        cur = I_.load(st, cell.a[0], cell.a[1])
        x = I_.content(st, a[1])
        I_.storev(st, cell.a[0], cell.a[1], concat([cur, x]))
        return Ok(UNIT)
    if is_c(v, "str") or is_t(v, "concat"):
        c, p = I_.deref(a[0])
        I_.storev(st, c, p, concat([v, I_.content(st, a[1])]))
        return Ok(UNIT)
    return Ok(UNIT)


@pattern(r"^<str as core::fmt::Display>::fmt$|^<alloc::string::String as core::fmt::Display>::fmt$|^<smol_str::SmolStr as core::fmt::Display>::fmt$|^core::fmt::Display::fmt$|^core::fmt::num::imp::<impl core::fmt::Display for \w+>::fmt$|^<&T as core::fmt::Display>::fmt$|^core::fmt::float::<impl core::fmt::Display for f64>::fmt$")
def m_str_fmt(I_, st, ci, a):
    if ci.callee.get("key") in I_.p and ci.callee.get("key"):
        return DEFAULT
    v = I_.content(st, a[0])
    f = I_.content(st, a[1])
    if f.k == "adt" and f.a[0] == "core::fmt::Formatter":
        cell = f.a[2][0]
        cur = I_.load(st, cell.a[0], cell.a[1])
        x = S(disp(v)) if v.k == "c" else v if is_t(v, "concat") else T("string", I_.reify(st, v))
        I_.storev(st, cell.a[0], cell.a[1], concat([cur, x]))
    return Ok(UNIT)


@model("alloc::string::String::new")
def m_string_new(I_, st, ci, a):
    return S("")


@model("alloc::string::String::push_str", "alloc::string::String::push")
def m_push_str(I_, st, ci, a):
    c, p = I_.deref(a[0])
    x = I_.content(st, a[1])
    if is_c(x, "char"):
        x = S(x.a[1])
    I_.storev(st, c, p, concat([I_.load(st, c, p), x]))
    return UNIT


@pattern(r"^(core|alloc)::str::<impl str>::(\w+)$")
def m_str(I_, st, ci, a):
    m = ci.fn.rsplit("::", 1)[1]
    v = I_.content(st, a[0])
    xs = [I_.content(st, x) for x in a[1:]]
    if is_c(v, "str") and all(x.k == "c" for x in xs):
        s = v.a[1]
        ys = [x.a[1] for x in xs]
        if m == "starts_with":
            return B(s.startswith(ys[0]))
        if m == "ends_with":
            return B(s.endswith(ys[0]))
        if m == "contains":
            return B(ys[0] in s)
        if m == "to_lowercase" or m == "to_ascii_lowercase":
            return S(s.lower())
        if m == "to_uppercase" or m == "to_ascii_uppercase":
            return S(s.upper())
        if m == "trim":
            return S(s.strip())
        if m == "strip_prefix":
            return Some(S(s[len(ys[0]):])) if s.startswith(ys[0]) else NONE
        if m == "strip_suffix":
            return Some(S(s[:len(s) - len(ys[0])])) if s.endswith(ys[0]) else NONE
        if m == "len":
            return I(len(s.encode()))
        if m == "is_empty":
            return B(not s)
        if m == "replace":
            return S(s.replace(ys[0], ys[1]))
        if m == "chars":
            return I_.items_iter([C("char", x) for x in s]) if hasattr(I_, "items_iter") else Seq([mk("c", "char", x) for x in s])
        if m in ("bytes", "as_bytes"):
            return Seq([I(x) for x in s.encode()])
    if m == "parse":
        if ci.callee.get("via") in I_.p and ci.callee.get("via"):
            return DEFAULT
        ty = ci.args[0] if ci.args else ""
        if is_c(v, "str") and ty in ("f64", "f32"):
            # Rust's decimal grammar: no underscores, no surrounding blanks
            if re.match(r"[+-]?(inf|infinity|nan|(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?)$", v.a[1], re.I):
                return Ok(mk("c", "flt", float(v.a[1])))
            return Err(T("parse_error", v))
        return T("parse", ty, I_.reify(st, v))
    if m in ("as_bytes", "as_ptr"):
        return a[0]
    return T("str::" + m, I_.reify(st, v), *[I_.reify(st, x) for x in a[1:]])


@pattern(r"^anyhow::__private::not$|Bool as anyhow::__private::Not>::not$")
def m_ensure_not(I_, st, ci, a):
    v = I_.content(st, a[0])
    return B(not v.a[1]) if is_c(v, "bool") else DEFAULT


@model("alloc::string::String::as_bytes", "alloc::string::String::into_bytes")
def m_string_bytes(I_, st, ci, a):
    v = I_.content(st, a[0])
    return Seq([I(x) for x in v.a[1].encode()]) if is_c(v, "str") else DEFAULT


@model("alloc::string::String::is_empty")
def m_string_is_empty(I_, st, ci, a):
    v = I_.content(st, a[0])
    if is_c(v, "str"):
        return B(v.a[1] == "")
    return I_.binop1(st, "Eq", T("len", v), I(0))


@pattern(r"^alloc::slice::<impl \[T\]>::(join|concat)$|<impl .*Join<.*>::join$|<impl .*Concat<.*>::concat$")
def m_join_slice(I_, st, ci, a):
    v = I_.content(st, a[0])
    m = ci.def_.rsplit("::", 1)[1]
    it = I_.items(v)
    if it is not None:
        xs = [I_.content(st, x) for x in it]
        if m == "concat":
            if all(x.k == "seq" for x in xs):
                return Seq([y for x in xs for y in x.a[0]])
            if all(is_c(x, "str") or is_t(x, "concat") for x in xs):
                return concat(xs)
            return T("seqcat", *[I_.reify(st, x) for x in xs])
        sep = I_.content(st, a[1])
        if all(is_c(x, "str") or x.k == "t" for x in xs) and is_c(sep, "str"):
            out = []
            for i, x in enumerate(xs):
                if i:
                    out.append(sep)
                out.append(x)
            return concat(out)
    return T("join", I_.reify(st, v), *[I_.reify(st, x) for x in a[1:]])


# ------------------------------------------------------------ panics
@pattern(r"^core::panicking::|^std::rt::begin_panic|^core::option::(unwrap|expect)_failed|^core::result::unwrap_failed|^std::process::(exit|abort)$")
def m_panic(I_, st, ci, a):
    msg = I_.reify(st, a[0]) if a else UNIT
    return Dead("panic", msg.a[1] if is_c(msg, "str") else str(msg)[:200])


# ------------------------------------------------------------ Vec and slices
def seq_target(I_, st, p):
    """cell, proj of the sequence a pointer denotes"""
    while True:
        c, pr = I_.deref(p)
        v = I_.load(st, c, pr)
        if v.k == "ref":
            p = v
            continue
        return c, pr, v


VEC = "alloc::vec::Vec::<T, A>::"
VDQ = "alloc::collections::vec_deque::VecDeque::<T, A>::"
SL = "core::slice::<impl [T]>::"


@model("alloc::vec::Vec::<T>::new", "alloc::vec::Vec::<T>::with_capacity",
       "alloc::collections::vec_deque::VecDeque::<T>::new", "alloc::collections::vec_deque::VecDeque::<T>::with_capacity")
def m_vec_new(I_, st, ci, a):
    return Seq([])


@pattern(r"^core::(slice|array)::(raw::)?from_(ref|mut)$")
def m_from_ref(I_, st, ci, a):
    return Seq([I_.reify(st, a[0])]) if ci.fn.endswith("ref") else DEFAULT


@model("alloc::vec::from_elem")
def m_from_elem(I_, st, ci, a):
    n = I_.content(st, a[1])
    if is_c(n, "int") and n.a[1] <= 256:
        return Seq([a[0]] * n.a[1])
    return T("repeat", I_.reify(st, a[0]), I_.reify(st, n))


@model("alloc::slice::<impl [T]>::repeat")
def m_repeat(I_, st, ci, a):
    n = I_.content(st, a[1])
    v = I_.content(st, a[0])
    if is_c(n, "int") and v.k == "seq":
        return Seq(list(v.a[0]) * n.a[1])
    return T("repeat", I_.reify(st, v), I_.reify(st, n))


@model(VEC + "push", VDQ + "push_back")
def m_push(I_, st, ci, a):
    c, p, v = seq_target(I_, st, a[0])
    if v.k == "seq":
        I_.storev(st, c, p, Seq(list(v.a[0]) + [a[1]]))
    else:
        I_.storev(st, c, p, T("push", v, I_.reify(st, a[1])))
    return UNIT


@model(VDQ + "push_front")
def m_push_front(I_, st, ci, a):
    c, p, v = seq_target(I_, st, a[0])
    if v.k == "seq":
        I_.storev(st, c, p, Seq([a[1]] + list(v.a[0])))
    else:
        I_.storev(st, c, p, T("push_front", v, I_.reify(st, a[1])))
    return UNIT


@model(VEC + "pop", VDQ + "pop_back", VDQ + "pop_front")
def m_pop(I_, st, ci, a):
    c, p, v = seq_target(I_, st, a[0])
    front = ci.fn.endswith("pop_front")
    if v.k == "seq":
        xs = list(v.a[0])
        if not xs:
            return NONE
        x = xs.pop(0) if front else xs.pop()
        I_.storev(st, c, p, Seq(xs))
        return Some(x)
    if is_t(v, "push") and not front:
        I_.storev(st, c, p, v.a[1])
        return Some(v.a[2])
    s2 = st.clone()
    e = I_.binop1(st, "Eq", T("len", v), I(0))
    tr = I_.truth(st, e)
    alts = []
    if tr is not True:
        if tr is None:
            I_.set_truth(st, e, False)
        nm = "front" if front else "back"
        I_.storev(st, c, p, T("rest_" + nm, v))
        alts.append((st, Some(T(nm, v))))
    if tr is not False:
        I_.set_truth(s2, e, True)
        alts.append((s2, NONE))
    return Fork(alts)


@model(VEC + "len", VDQ + "len", SL + "len", "core::str::<impl str>::len", "alloc::string::String::len")
def m_len(I_, st, ci, a):
    return I_.len_of(st, a[0])


@model(VEC + "is_empty", VDQ + "is_empty", SL + "is_empty")
def m_is_empty(I_, st, ci, a):
    n = I_.len_of(st, a[0])
    return I_.binop1(st, "Eq", n, I(0))


@model(VEC + "clear", VDQ + "clear")
def m_clear(I_, st, ci, a):
    c, p, v = seq_target(I_, st, a[0])
    I_.storev(st, c, p, Seq([]))
    return UNIT


@model(VEC + "dedup")
def m_vdedup(I_, st, ci, a):
    c, p, v = seq_target(I_, st, a[0])
    if v.k != "seq":
        return DEFAULT
    xs = [I_.reify(st, x) for x in v.a[0]]
    if not all(ground(I_, x) for x in xs):
        return DEFAULT
    I_.storev(st, c, p, Seq([x for i, x in enumerate(v.a[0]) if i == 0 or xs[i] is not xs[i - 1] and xs[i] != xs[i - 1]]))
    return UNIT


@model(VEC + "shrink_to_fit", VEC + "reserve")
def m_shrink(I_, st, ci, a):
    return UNIT


@model(VEC + "resize")
def m_resize(I_, st, ci, a):
    c, p, v = seq_target(I_, st, a[0])
    n = I_.content(st, a[1])
    if c is None or v.k != "seq" or not is_c(n, "int"):
        return DEFAULT
    k = n.a[1]
    I_.storev(st, c, p, Seq(v.a[0][:k] + (a[2],) * (k - len(v.a[0]))))
    return UNIT


@model(VEC + "truncate")
def m_truncate(I_, st, ci, a):
    c, p, v = seq_target(I_, st, a[0])
    n = I_.content(st, a[1])
    if v.k == "seq" and is_c(n, "int"):
        I_.storev(st, c, p, Seq(v.a[0][:n.a[1]]))
    else:
        I_.storev(st, c, p, T("truncate", v, n))
    return UNIT


@model(VEC + "insert")
def m_vinsert(I_, st, ci, a):
    c, p, v = seq_target(I_, st, a[0])
    n = I_.content(st, a[1])
    if v.k == "seq" and is_c(n, "int"):
        xs = list(v.a[0])
        xs.insert(n.a[1], a[2])
        I_.storev(st, c, p, Seq(xs))
    else:
        I_.storev(st, c, p, T("vinsert", v, n, I_.reify(st, a[2])))
    return UNIT


@model(VEC + "remove", VEC + "swap_remove")
def m_vremove(I_, st, ci, a):
    c, p, v = seq_target(I_, st, a[0])
    n = I_.content(st, a[1])
    if v.k == "seq" and is_c(n, "int"):
        xs = list(v.a[0])
        if n.a[1] >= len(xs):
            return panic(I_, st, "remove out of range")
        x = xs[n.a[1]]
        if ci.fn.endswith("swap_remove"):
            xs[n.a[1]] = xs[-1]
            xs.pop()
        else:
            xs.pop(n.a[1])
        I_.storev(st, c, p, Seq(xs))
        return x
    I_.storev(st, c, p, T(ci.fn.rsplit("::", 1)[1], v, n))
    return T("ix", v, n)


@model(SL + "reverse")
def m_reverse(I_, st, ci, a):
    c, p, v = seq_target(I_, st, a[0])
    I_.storev(st, c, p, Seq(tuple(reversed(v.a[0]))) if v.k == "seq" else T("rev", v))
    return UNIT


@model(SL + "swap")
def m_sl_swap(I_, st, ci, a):
    c, p, v = seq_target(I_, st, a[0])
    i, j = I_.content(st, a[1]), I_.content(st, a[2])
    if v.k == "seq" and is_c(i, "int") and is_c(j, "int"):
        xs = list(v.a[0])
        xs[i.a[1]], xs[j.a[1]] = xs[j.a[1]], xs[i.a[1]]
        I_.storev(st, c, p, Seq(xs))
    else:
        I_.storev(st, c, p, T("swap", v, i, j))
    return UNIT


@model(SL + "contains")
def m_contains(I_, st, ci, a):
    c, p, v = seq_target(I_, st, a[0])
    if v.k == "seq":
        rs = [structural_eq(I_, st, x, a[1]) for x in v.a[0]]
        if any(r is True for r in rs):
            return B(True)
        if all(r is False for r in rs):
            return B(False)
    return T("contains", I_.reify(st, v), I_.reify(st, a[1]))


def elem_ref(I_, st, c, p, v, n):
    return ref(c, p + (("i", n, False),))


@model(SL + "first", SL + "last", SL + "first_mut", SL + "last_mut", VDQ + "front", VDQ + "back",
       VDQ + "front_mut", VDQ + "back_mut")
def m_first(I_, st, ci, a):
    c, p, v = seq_target(I_, st, a[0])
    m = ci.fn.rsplit("::", 1)[1]
    fst = m.startswith("f")
    if v.k == "seq":
        if not v.a[0]:
            return NONE
        return Some(elem_ref(I_, st, c, p, v, 0 if fst else len(v.a[0]) - 1))
    if is_t(v, "push") and not fst:
        return Some(I_.new_cell(st, v.a[2]))
    e = I_.binop1(st, "Eq", T("len", v), I(0))
    return I_.fork_bool(st, e, lambda s, b: NONE if b else Some(T("front" if fst else "back", v)))


@model(SL + "get", SL + "get_mut", VDQ + "get", VDQ + "get_mut")
def m_get(I_, st, ci, a):
    c, p, v = seq_target(I_, st, a[0])
    i = I_.content(st, a[1])
    if v.k == "seq" and is_c(i, "int"):
        if i.a[1] < len(v.a[0]):
            return Some(elem_ref(I_, st, c, p, v, i.a[1]))
        return NONE
    if i.k == "adt":
        return T("getrange", I_.reify(st, v), I_.reify(st, i))
    e = I_.binop1(st, "Lt", i, I_.len_of(st, v) if v.k == "seq" else T("len", v))
    return I_.fork_bool(st, e, lambda s, b: Some(T("ix", v, i)) if b else NONE)


@pattern(r"ops::index::Index(Mut)?<.*>>::index(_mut)?$|<impl core::ops::index::Index(Mut)?<.*> for .*>::index(_mut)?$|^core::ops::index::Index(Mut)?::index(_mut)?$")
def m_index(I_, st, ci, a):
    if ci.callee.get("key") in I_.p and ci.callee.get("key"):
        return DEFAULT
    c, p, v = seq_target(I_, st, a[0])
    i = I_.content(st, a[1])
    if v.k == "seq":
        if is_c(i, "int"):
            if i.a[1] >= len(v.a[0]):
                return panic(I_, st, "index out of range")
            return elem_ref(I_, st, c, p, v, i.a[1])
        r = range_of(i, len(v.a[0]))
        if r:
            lo, hi = r
            if hi > len(v.a[0]) or lo > hi:
                return panic(I_, st, "slice out of range")
            return ref(c, p + (("ss", lo, hi, False),))
        if i.k == "adt" and i.a[1] == "RangeFull":
            return a[0]
    if v.k == "map":
        r = map_get(I_, st, c, p, v, i)
        if r is not None:
            return r if r != "none" else panic(I_, st, "no entry")
    if is_c(v, "str"):
        r = range_of(i, len(v.a[1]))
        if r:
            return S(v.a[1][r[0]:r[1]])
    if v.k == "t" and is_c(i, "int"):
        return ref(c, p + (("i", i.a[1], False),))
    if i.k == "adt" and i.a[1] == "RangeFull":
        return a[0]
    if v.k == "t":
        return ref(c, p + (("ix", I_.reify(st, i)),))
    return T("ix", I_.reify(st, v), I_.reify(st, i))


def range_of(i, n):
    if i.k != "adt":
        return None
    nm = i.a[1]
    fs = i.a[2]
    if not all(is_c(x, "int") for x in fs):
        return None
    xs = [x.a[1] for x in fs]
    if nm == "Range":
        return xs[0], xs[1]
    if nm == "RangeFrom":
        return xs[0], n
    if nm == "RangeTo":
        return 0, xs[0]
    if nm == "RangeToInclusive":
        return 0, xs[0] + 1
    return None


@model(SL + "split_at", SL + "split_at_mut")
def m_split_at(I_, st, ci, a):
    c, p, v = seq_target(I_, st, a[0])
    i = I_.content(st, a[1])
    if v.k == "seq" and is_c(i, "int"):
        return Tup(ref(c, p + (("ss", 0, i.a[1], False),)), ref(c, p + (("ss", i.a[1], len(v.a[0]), False),)))
    return Tup(T("slice_to", I_.reify(st, v), I_.reify(st, i)), T("slice_from", I_.reify(st, v), I_.reify(st, i)))


@model(SL + "split_first", SL + "split_last")
def m_split_first(I_, st, ci, a):
    c, p, v = seq_target(I_, st, a[0])
    f = ci.fn.endswith("first")
    if v.k == "seq":
        n = len(v.a[0])
        if not n:
            return NONE
        if f:
            return Some(Tup(elem_ref(I_, st, c, p, v, 0), ref(c, p + (("ss", 1, n, False),))))
        return Some(Tup(elem_ref(I_, st, c, p, v, n - 1), ref(c, p + (("ss", 0, n - 1, False),))))
    return DEFAULT


@model(VEC + "split_off")
def m_split_off(I_, st, ci, a):
    c, p, v = seq_target(I_, st, a[0])
    i = I_.content(st, a[1])
    if v.k == "seq" and is_c(i, "int"):
        I_.storev(st, c, p, Seq(v.a[0][:i.a[1]]))
        return Seq(v.a[0][i.a[1]:])
    I_.storev(st, c, p, T("slice_to", v, i))
    return T("slice_from", v, i)


@model(VEC + "append")
def m_append(I_, st, ci, a):
    c, p, v = seq_target(I_, st, a[0])
    c2, p2, w = seq_target(I_, st, a[1])
    I_.storev(st, c2, p2, Seq([]))
    I_.storev(st, c, p, seqcat(I_, st, v, w))
    return UNIT


def seqcat(I_, st, v, w):
    parts = []
    for x in (v, w):
        if is_t(x, "seqcat"):
            parts.extend(x.a[1:])
        else:
            parts.append(x)
    out = []
    for x in parts:
        if x.k == "seq" and not x.a[0]:
            continue
        if x.k == "seq" and out and out[-1].k == "seq":
            out[-1] = Seq(out[-1].a[0] + x.a[0])
        else:
            out.append(x)
    if not out:
        return Seq([])
    if len(out) == 1:
        return out[0]
    return T("seqcat", *[I_.reify(st, x) for x in out])


@model(VEC + "splice")
def m_vsplice(I_, st, ci, a):
    c, p, v = seq_target(I_, st, a[0])
    r = I_.content(st, a[1])
    it = I_.content(st, a[2])
    xs = None
    if it.k == "iter" and it.a[0] == "seq":
        xs = list(it.a[1])
    elif it.k == "seq":
        xs = list(it.a[0])
    if v.k == "seq" and xs is not None and r.k == "adt" and r.a[1] == "Range" and all(is_c(x, "int") for x in r.a[2]):
        lo, hi = r.a[2][0].a[1], r.a[2][1].a[1]
        old = list(v.a[0])
        if 0 <= lo <= hi <= len(old):
            I_.storev(st, c, p, Seq(old[:lo] + xs + old[hi:]))
            return mk("iter", "seq", tuple(old[lo:hi]))
    return DEFAULT


@model(VEC + "drain")
def m_drain(I_, st, ci, a):
    c, p, v = seq_target(I_, st, a[0])
    r = a[1]
    if v.k == "seq":
        if r.k == "adt" and r.a[1] == "RangeFull" or (r.k == "t" and "RangeFull" in str(r.a)):
            I_.storev(st, c, p, Seq([]))
            return mk("iter", "seq", v.a[0])
        rr = range_of(r, len(v.a[0]))
        if rr:
            xs = v.a[0][rr[0]:rr[1]]
            I_.storev(st, c, p, Seq(v.a[0][:rr[0]] + v.a[0][rr[1]:]))
            return mk("iter", "seq", xs)
    I_.storev(st, c, p, T("drained", v, I_.reify(st, r)))
    return mk("iter", "sym", T("drain", v, I_.reify(st, r)), 0)


@model(VEC + "retain")
def m_retain(I_, st, ci, a):
    c, p, v = seq_target(I_, st, a[0])
    if v.k == "seq":
        def go(I2, s, i, keep):
            if i == len(v.a[0]):
                I2.storev(s, c, p, Seq(keep))
                return UNIT
            cell = I2.new_cell(s, v.a[0][i])
            return Call(a[1], [cell], lambda I3, s3, r: I3.fork_bool(
                s3, r, lambda s4, b: go(I3, s4, i + 1, keep + ([v.a[0][i]] if b else []))))
        return go(I_, st, 0, [])
    e = T("elem", v)
    cell = I_.new_cell(st, e)

    def k(I2, s, r):
        I2.storev(s, c, p, T("retain", v, I2.reify(s, r)))
        return UNIT
    return Call(a[1], [cell], k)


class _Rev:
    def __init__(self, x):
        self.x = x

    def __lt__(self, o):
        return o.x < self.x

    def __eq__(self, o):
        return self.x == o.x


def order_key(v):
    """a python value ordered like v, or None when v is not concrete"""
    if v.k == "c":
        return v.a[1]
    if v.k in ("seq", "tup"):
        r = [order_key(x) for x in v.a[0]]
        return None if None in r else tuple(r)
    if v.k == "adt":
        if v.a[0] == "core::cmp::Reverse":
            r = order_key(v.a[2][0])
            return None if r is None else _Rev(r)
        if v.a[1] == "None" and not v.a[2]:
            return (0,)
        if v.a[1] == "Some":
            r = order_key(v.a[2][0])
            return None if r is None else (1, r)
        if v.a[0].startswith("either::") and len(v.a[2]) == 1:
            r = order_key(v.a[2][0])
            return None if r is None else (int(v.a[1] == "Right"), r)
        if v.a[2] and v.a[1] == v.a[0].rsplit("::", 1)[-1]:
            r = [order_key(x) for x in v.a[2]]
            return None if None in r else tuple(r)
    return None


def by_keys(I_, st, xs, f, k, fallback):
    """xs stably sorted by the concrete keys f gives: k(st, [(key, x)]); fallback(st) when a key is not concrete"""
    def go(s, i, acc):
        if i == len(xs):
            return k(s, sorted(acc, key=lambda e: e[0]))

        def got(I2, s2, r):
            kk = order_key(I2.reify(s2, r))
            if kk is None:
                return fallback(s2)
            return go(s2, i + 1, acc + [(kk, xs[i])])
        return Call(f, [I_.new_cell(s, xs[i])], got)
    return go(st, 0, [])


def by_cmp(I_, st, xs, f, k, fallback):
    """xs stably sorted by the comparison f (insertion sort)"""
    def go(s, i, acc):
        if i == len(xs):
            return k(s, acc)

        def ins(s2, j):
            if j == 0:
                return go(s2, i + 1, [xs[i]] + acc)

            def got(I2, s3, r):
                r = I2.reify(s3, r)
                if r.k != "adt":
                    return fallback(s3)
                if r.a[1] == "Greater":
                    return ins(s3, j - 1)
                return go(s3, i + 1, acc[:j] + [xs[i]] + acc[j:])
            return Call(f, [I_.new_cell(s2, acc[j - 1]), I_.new_cell(s2, xs[i])], got)
        return ins(s, len(acc))
    return go(st, 0, [])


@pattern(r"^alloc::slice::<impl \[T\]>::sort(_by_key|_by|_unstable)?|^core::slice::<impl \[T\]>::sort_unstable")
def m_sort(I_, st, ci, a):
    c, p, v = seq_target(I_, st, a[0])
    nm = ci.fn.rsplit("::", 1)[1]
    if v.k == "seq" and len(v.a[0]) <= 1:
        return UNIT
    if v.k == "seq":
        xs = list(v.a[0])

        def put(s, ys):
            I_.storev(s, c, p, Seq(ys))
            return UNIT

        def opaque(s):
            I_.storev(s, c, p, T("sorted", I_.reify(s, v), nm, *([I_.reify(s, I_.content(s, a[1]))] if a[1:] else [])))
            return UNIT
        if nm.endswith("_key"):
            return by_keys(I_, st, xs, a[1], lambda s, ks: put(s, [x for _, x in ks]), opaque)
        if nm.endswith("_by"):
            return by_cmp(I_, st, xs, a[1], put, opaque)
        ks = [order_key(I_.reify(st, x)) for x in xs]
        if None not in ks:
            return put(st, [xs[i] for i in sorted(range(len(xs)), key=lambda i: ks[i])])
    f = a[1:] and I_.content(st, a[1])
    I_.storev(st, c, p, T("sorted", I_.reify(st, v), nm, *( [I_.reify(st, f)] if f else [])))
    return UNIT


@model("core::array::from_fn")
def m_array_from_fn(I_, st, ci, a):
    n = None
    for x in ci.args:
        if x.isdigit():
            n = int(x)
        elif x in I_.o.cparams:
            n = I_.o.cparams[x]
    if n is None:
        return T("from_fn", I_.reify(st, a[0]))

    def go(I2, s, i, acc):
        if i == n:
            return Seq(acc)
        return Call(a[0], [I(i)], lambda I3, s3, r: go(I3, s3, i + 1, acc + [r]))
    return go(I_, st, 0, [])


@pattern(r"^core::array::<impl \[T; N\]>::map$")
def m_array_map(I_, st, ci, a):
    v = I_.content(st, a[0])
    if v.k != "seq":
        return T("array_map", I_.reify(st, v), I_.reify(st, a[1]))

    def go(I2, s, i, acc):
        if i == len(v.a[0]):
            return Seq(acc)
        return Call(a[1], [v.a[0][i]], lambda I3, s3, r: go(I3, s3, i + 1, acc + [r]))
    return go(I_, st, 0, [])


@pattern(r"TryInto<U>>::try_into$|^core::convert::TryInto::try_into$|TryFrom<.*>>::try_from$|<impl core::convert::TryFrom<.*>::try_from$|^core::convert::TryFrom::try_from$")
def m_try_into(I_, st, ci, a):
    if ci.callee.get("via") in I_.p and ci.callee.get("via"):
        return DEFAULT
    if ci.callee.get("key") in I_.p and ci.callee.get("key"):
        return DEFAULT
    if "TryInto" in ci.def_:
        tgt = ci.args[1] if len(ci.args) > 1 else ""
    else:
        tgt = ci.args[0] if ci.args else ""
    v = I_.content(st, a[0])
    m = re.match(r"^\[.*; (\w+)\]$", tgt)
    if m:
        if v.k == "seq":
            if m.group(1).isdigit() and int(m.group(1)) != len(v.a[0]):
                return Err(v)
            return Ok(v)
        r = T("as_array", v, m.group(1))
        return Ok(v)
    if v.k == "c" and v.a[0] == "int":
        return Ok(v)
    if tgt.startswith("hugr_core::types::type_row") or tgt in ("u8", "u16", "u32", "u64", "usize", "i64", "u128", "i32", "f64"):
        return Ok(v)
    return T("try_into:" + tgt, I_.reify(st, v))


# ------------------------------------------------------------ iterators
def is_set(m):
    return "set" in m.a[0].lower()


def map_items(I_, st, m, index=False):
    """entries in iteration order: sorted for ordered containers whose keys are known"""
    xs = list(enumerate(m.a[1]))
    if "btree" in m.a[0].lower() and len(xs) > 1:
        ks = [order_key(I_.reify(st, e[0])) for _, e in xs]
        if None not in ks:
            try:
                xs = [xs[i] for i in sorted(range(len(xs)), key=lambda i: ks[i])]
            except TypeError:
                pass
    return xs if index else [e for _, e in xs]


def as_iter(I_, st, v, ci=None):
    """an iterator value for v"""
    if v.k == "iter":
        return v
    if v.k == "seq":
        return mk("iter", "seq", v.a[0])
    if v.k == "map":
        return mk("iter", "seq", tuple(x if is_set(v) else Tup(x, y) for x, y in map_items(I_, st, v)))
    if v.k == "adt":
        if v.a[0] == OPT:
            return mk("iter", "seq", v.a[2] if v.a[1] == "Some" else ())
        if v.a[0] == RES:
            return mk("iter", "seq", v.a[2] if v.a[1] == "Ok" else ())
        nm = v.a[1]
        if v.a[0].startswith("either::") and nm in ("Left", "Right"):
            return as_iter(I_, st, v.a[2][0])
        if v.a[0] == "chunkby":
            return as_iter(I_, st, v.a[2][0])
        if nm == "Range":
            lo, hi = v.a[2]
            if is_c(lo, "int") and is_c(hi, "int"):
                return mk("iter", "seq", tuple(I(i) for i in range(lo.a[1], hi.a[1])))
            return mk("iter", "sym", T("range", I_.reify(st, lo), I_.reify(st, hi)), 0)
        if nm == "RangeInclusive":
            lo, hi = v.a[2][:2]
            if is_c(lo, "int") and is_c(hi, "int"):
                return mk("iter", "seq", tuple(I(i) for i in range(lo.a[1], hi.a[1] + 1)))
        if nm == "RangeFrom":
            lo = v.a[2][0]
            if is_c(lo, "int"):
                return mk("iter", "from", lo.a[1])
        if I_.o.user_iter:
            key = I_.o.user_iter(I_, st, v)
            if key:
                return mk("iter", "user", _in.mk_fn_key(I_, key, key), v)
        return mk("iter", "sym", I_.reify(st, v), 0)
    if v.k == "ref":
        x = I_.load(st, v.a[0], v.a[1])
        if x.k == "iter":
            return mk("iter", "byref", v)
        if x.k == "seq":
            return mk("iter", "seq", tuple(ref(v.a[0], v.a[1] + (("i", i, False),)) for i in range(len(x.a[0]))))
        if x.k == "ref":
            return as_iter(I_, st, x)
        if x.k == "adt" and x.a[0] == "chunkby":
            return as_iter(I_, st, x)
        if x.k == "adt" and x.a[0] == OPT:
            return mk("iter", "seq", (ref(v.a[0], v.a[1] + (("f", 0, "0", "Some"),)),) if x.a[1] == "Some" else ())
        if x.k == "map":
            out = []
            for i, (kk, vv) in map_items(I_, st, x, True):
                out.append(I_.new_cell(st, kk) if is_set(x) else Tup(I_.new_cell(st, kk), ref(v.a[0], v.a[1] + (("mv", i),))))
            return mk("iter", "seq", tuple(out))
        if x.k == "adt" and x.a[1] in ("Range", "RangeInclusive", "RangeFrom"):
            return mk("iter", "byref", v)
        return mk("iter", "sym", I_.reify(st, x), 0)
    return mk("iter", "sym", v, 0)


@pattern(r"IntoIterator>::into_iter$|^core::iter::traits::collect::IntoIterator::into_iter$|<impl core::iter::traits::collect::IntoIterator for .*>::into_iter$")
def m_into_iter(I_, st, ci, a):
    if ci.callee.get("key") in I_.p and ci.callee.get("key"):
        return DEFAULT
    return as_iter(I_, st, a[0])


@model(SL + "iter", SL + "iter_mut", VDQ + "iter", VDQ + "iter_mut", "alloc::vec::Vec::<T, A>::iter",
       "hugr_core::types::type_row::TypeRowBase::<RV>::iter", O + "iter", O + "iter_mut", O + "into_iter")
def m_iter(I_, st, ci, a):
    return as_iter(I_, st, a[0])


def next_item(I_, st, it, k):
    """k(st, item|None, it2) -> action"""
    kind = it.a[0]
    if kind == "seq":
        xs = it.a[1]
        if not xs:
            return k(st, None, it)
        return k(st, xs[0], mk("iter", "seq", xs[1:]))
    if kind == "from":
        return k(st, I(it.a[1]), mk("iter", "from", it.a[1] + 1))
    if kind == "repeat":
        return k(st, it.a[1], it)
    if kind == "user":
        cell = I_.new_cell(st, it.a[2])

        def got(I2, s, r):
            rest = mk("iter", "user", it.a[1], I2.load(s, cell.a[0], cell.a[1]))
            return opt_cases(I2, s, r, lambda s2, x: k(s2, x, rest))
        return Call(it.a[1], [cell], got)
    if kind == "succ":
        def step(s, x):
            if x is None:
                return k(s, None, mk("iter", "seq", ()))
            return Call(it.a[2], [I_.new_cell(s, x)], lambda I2, s2, r: k(s2, x, mk("iter", "succ", r, it.a[2])))
        return opt_cases(I_, st, it.a[1], step)
    if kind == "byref":
        p = it.a[1]
        inner = I_.load(st, p.a[0], p.a[1])
        if inner.k == "ref":
            return next_item(I_, st, mk("iter", "byref", inner), lambda s, x, _: k(s, x, it))
        if inner.k in ("adt", "t", "seq", "map"):
            inner = as_iter(I_, st, inner)

        def kk(s, x, i2):
            I_.storev(s, p.a[0], p.a[1], i2)
            return k(s, x, it)
        return next_item(I_, st, inner, kk)
    if kind == "sym":
        t, n = it.a[1], it.a[2]
        if is_t(t, "seqcat") and n == 0:
            its = None
            for part in reversed(t.a[1:]):
                pi = as_iter(I_, st, part)
                its = pi if its is None else mk("iter", "chain", pi, its)
            return next_item(I_, st, its, k)
        if n >= I_.o.sym_iter:
            return k(st, None, mk("iter", "seq", ()))
        e = T("more", t, I(n))
        tr = I_.truth(st, e)
        if tr is None:
            s2 = st.clone()
            I_.set_truth(st, e, True)
            I_.set_truth(s2, e, False)
            return Fork([(st, k(st, T("elem", t, I(n)) if n or I_.o.sym_iter > 1 else T("elem", t), mk("iter", "sym", t, n + 1))),
                         (s2, k(s2, None, mk("iter", "seq", ())))])
        if tr:
            return k(st, T("elem", t, I(n)) if n or I_.o.sym_iter > 1 else T("elem", t), mk("iter", "sym", t, n + 1))
        return k(st, None, mk("iter", "seq", ()))
    if kind == "map":
        def km(s, x, i2):
            if x is None:
                return k(s, None, mk("iter", "map", i2, it.a[2]))
            return Call(it.a[2], [x], lambda I2, s2, r: k(s2, r, mk("iter", "map", i2, it.a[2])))
        return next_item(I_, st, it.a[1], km)
    if kind == "cloned":
        return next_item(I_, st, it.a[1], lambda s, x, i2: k(
            s, None if x is None else (I_.load(s, x.a[0], x.a[1]) if x.k == "ref" else x), mk("iter", "cloned", i2)))
    if kind == "filter":
        def kf(s, x, i2):
            if x is None:
                return k(s, None, mk("iter", "filter", i2, it.a[2]))
            c = I_.new_cell(s, x)
            nx = mk("iter", "filter", i2, it.a[2])
            return Call(it.a[2], [c], lambda I2, s2, r: I2.fork_bool(
                s2, r, lambda s3, b: k(s3, x, nx) if b else next_item(I2, s3, nx, k)))
        return next_item(I_, st, it.a[1], kf)
    if kind in ("filter_map", "map_while"):
        def kfm(s, x, i2):
            nx = mk("iter", kind, i2, it.a[2])
            if x is None:
                return k(s, None, nx)

            def after(I2, s2, r):
                return opt_cases(I2, s2, r, lambda s3, y: (next_item(I2, s3, nx, k) if kind == "filter_map" else
                                                          k(s3, None, mk("iter", "seq", ()))) if y is None else k(s3, y, nx))
            return Call(it.a[2], [x], after)
        return next_item(I_, st, it.a[1], kfm)
    if kind == "take_while":
        def ktw(s, x, i2):
            if x is None:
                return k(s, None, it)
            c = I_.new_cell(s, x)
            return Call(it.a[2], [c], lambda I2, s2, r: I2.fork_bool(
                s2, r, lambda s3, b: k(s3, x, mk("iter", "take_while", i2, it.a[2])) if b else
                k(s3, None, mk("iter", "seq", ()))))
        return next_item(I_, st, it.a[1], ktw)
    if kind == "skip_while":
        def ksw(s, x, i2):
            if x is None:
                return k(s, None, i2)
            c = I_.new_cell(s, x)
            return Call(it.a[2], [c], lambda I2, s2, r: I2.fork_bool(
                s2, r, lambda s3, b: next_item(I2, s3, mk("iter", "skip_while", i2, it.a[2]), k) if b else k(s3, x, i2)))
        return next_item(I_, st, it.a[1], ksw)
    if kind == "inspect":
        def ki(s, x, i2):
            if x is None:
                return k(s, None, it)
            c = I_.new_cell(s, x)
            return Call(it.a[2], [c], lambda I2, s2, r: k(s2, x, mk("iter", "inspect", i2, it.a[2])))
        return next_item(I_, st, it.a[1], ki)
    if kind == "enumerate":
        n = it.a[2]
        return next_item(I_, st, it.a[1], lambda s, x, i2: k(
            s, None, it) if x is None else k(s, Tup(I(n) if n >= 0 else T("index", x), x), mk("iter", "enumerate", i2, n + 1)))
    if kind == "zip":
        def kz(s, x, i2):
            if x is None:
                return k(s, None, mk("iter", "zip", i2, it.a[2]))
            return next_item(I_, s, it.a[2], lambda s2, y, j2: k(s2, None, mk("iter", "zip", i2, j2)) if y is None
                             else k(s2, Tup(x, y), mk("iter", "zip", i2, j2)))
        return next_item(I_, st, it.a[1], kz)
    if kind == "chain":
        def kc(s, x, i2):
            if x is None:
                return next_item(I_, s, it.a[2], k)
            return k(s, x, mk("iter", "chain", i2, it.a[2]))
        return next_item(I_, st, it.a[1], kc)
    if kind == "take":
        n = it.a[2]
        if isinstance(n, V):
            # symbolic count: unknown prefix
            return next_item(I_, st, it.a[1], lambda s, x, i2: k(s, x, mk("iter", "take", i2, n)))
        if n <= 0:
            return k(st, None, it)
        return next_item(I_, st, it.a[1], lambda s, x, i2: k(s, x, mk("iter", "take", i2, n - 1)))
    if kind == "skip":
        n = it.a[2]
        if isinstance(n, V):
            raise Incomplete("symbolic skip")
        if n <= 0:
            return next_item(I_, st, it.a[1], k)
        return next_item(I_, st, it.a[1], lambda s, x, i2: k(s, None, i2) if x is None else
                         next_item(I_, s, mk("iter", "skip", i2, n - 1), k))
    if kind == "peekable":
        pk = it.a[2]
        if pk:
            x = pk[0]
            nx = mk("iter", "peekable", it.a[1], ())
            return k(st, None if x.k == "none" else x, nx)
        return next_item(I_, st, it.a[1], lambda s, x, i2: k(s, x, mk("iter", "peekable", i2, ())))
    if kind == "flat":
        cur = it.a[2]

        def outer(s):
            def ko(s2, x, i2):
                if x is None:
                    return k(s2, None, mk("iter", "flat", i2, None))
                return next_item(I_, s2, mk("iter", "flat", i2, as_iter(I_, s2, x)), k)
            return next_item(I_, s, it.a[1], ko)
        if cur is None:
            return outer(st)

        def kc(s, x, c2):
            if x is None:
                return next_item(I_, s, mk("iter", "flat", it.a[1], None), k)
            return k(s, x, mk("iter", "flat", it.a[1], c2))
        return next_item(I_, st, cur, kc)
    if kind in NEXT:
        return NEXT[kind](I_, st, it, k)
    raise Incomplete(f"iterator {kind}")


NEXT = {}


def is_symbolic(it):
    kind = it.a[0]
    if kind == "sym":
        return True
    if kind == "byref":
        return False
    return any(is_symbolic(x) for x in it.a[1:] if isinstance(x, V) and x.k == "iter")


def drain_all(I_, st, it, k):
    """collect all items: k(st, items)"""
    def go(s, i, acc):
        if len(acc) > 400:
            raise Incomplete("infinite iterator")
        return next_item(I_, s, i, lambda s2, x, i2: k(s2, acc) if x is None else go(s2, i2, acc + [x]))
    return go(st, it, [])


def sym_seq(I_, st, it, k):
    """describe a pipeline over a sequence of unknown length: k(st, term)."""
    kind = it.a[0]
    if kind == "sym":
        return k(st, it.a[1])
    if kind == "seq":
        return k(st, Seq(it.a[1]))
    if kind == "cloned":
        return sym_seq(I_, st, it.a[1], k)
    if kind == "map":
        def km(s, base):
            e = elem_of(base)
            return Call(it.a[2], [e], lambda I2, s2, r: k(s2, T("maps", base, I2.reify(s2, r))))
        return sym_seq(I_, st, it.a[1], km)
    if kind == "chain":
        return sym_seq(I_, st, it.a[1], lambda s, b1: sym_seq(I_, s, it.a[2], lambda s2, b2: k(s2, seqcat(I_, s2, b1, b2))))
    if kind == "zip":
        return sym_seq(I_, st, it.a[1], lambda s, b1: sym_seq(I_, s, it.a[2], lambda s2, b2: k(
            s2, T("zips", I_.reify(s2, b1), I_.reify(s2, b2)))))
    if kind == "enumerate":
        return sym_seq(I_, st, it.a[1], lambda s, b: k(s, T("enums", I_.reify(s, b))))
    if kind in ("take", "skip"):
        n = it.a[2] if isinstance(it.a[2], V) else I(it.a[2])
        return sym_seq(I_, st, it.a[1], lambda s, b: k(s, T(kind, I_.reify(s, b), n)))
    if kind in ("filter", "filter_map", "flat", "take_while", "map_while", "skip_while", "inspect"):
        def kf(s, base):
            if kind == "flat":
                return k(s, T("flattens", I_.reify(s, base)))
            e = elem_of(base)
            arg = I_.new_cell(s, e) if kind in ("filter", "take_while", "skip_while", "inspect") else e
            return Call(it.a[2], [arg], lambda I2, s2, r: k(s2, T(kind + "s", I2.reify(s2, base), I2.reify(s2, r))))
        return sym_seq(I_, st, it.a[1], kf)
    if kind == "peekable":
        return sym_seq(I_, st, it.a[1], k)
    if kind == "byref":
        return k(st, T("byref", I_.reify(st, it.a[1])))
    if kind in ("from", "repeat"):
        return k(st, T(kind, it.a[1] if isinstance(it.a[1], V) else I(it.a[1])))
    raise Incomplete("sym " + kind)


def elem_of(base):
    if is_t(base, "maps"):
        return base.a[2]
    if is_t(base, "zips"):
        return Tup(elem_of(base.a[1]), elem_of(base.a[2]))
    if is_t(base, "enums"):
        return Tup(T("index", base.a[1]), elem_of(base.a[1]))
    if is_t(base, "take") or is_t(base, "skip") or is_t(base, "filters"):
        return elem_of(base.a[1])
    if is_t(base, "filter_maps"):
        r = base.a[2]
        if r.k == "adt" and r.a[1] == "Some":
            return r.a[2][0]
        return T("some", r)
    if base.k == "seq" and base.a[0] and all(x is base.a[0][0] for x in base.a[0]):
        return base.a[0][0]
    return T("elem", base)


def recv_iter(I_, st, v):
    """iterator value behind the self argument of an Iterator method taking self"""
    return as_iter(I_, st, v)


@pattern(r"Iterator>::next$|^core::iter::traits::iterator::Iterator::next$|<impl core::iter::traits::iterator::Iterator for .*>::next$")
def m_next(I_, st, ci, a):
    if ci.callee.get("key") in I_.p and ci.callee.get("key"):
        return DEFAULT
    p = a[0]
    while p.k == "ref":
        v = I_.load(st, p.a[0], p.a[1])
        if v.k == "ref":
            p = v
        else:
            break
    if p.k != "ref":
        c = ("H", p)
        v = I_.load_cell(st, c)
        p = ref(c)
    if v.k == "t":
        it = mk("iter", "sym", v, 0)
    elif v.k in ("iter", "seq", "adt"):
        it = as_iter(I_, st, v)
    else:
        raise Incomplete(f"next on {v}")

    def k(s, x, i2):
        I_.storev(s, p.a[0], p.a[1], i2)
        return NONE if x is None else Some(x)
    return next_item(I_, st, it, k)


@pattern(r"DoubleEndedIterator>::next_back$|^core::iter::traits::double_ended::DoubleEndedIterator::next_back$")
def m_next_back(I_, st, ci, a):
    p = a[0]
    while True:
        v = I_.load(st, p.a[0], p.a[1])
        if v.k == "ref":
            p = v
        else:
            break
    it = as_iter(I_, st, v) if v.k != "t" else mk("iter", "sym", v, 0)
    r = reversed_iter(I_, st, it)

    def k(s, x, i2):
        I_.storev(s, p.a[0], p.a[1], reversed_iter(I_, s, i2))
        return NONE if x is None else Some(x)
    return next_item(I_, st, r, k)


def reversed_iter(I_, st, it):
    kind = it.a[0]
    if kind == "seq":
        return mk("iter", "seq", tuple(reversed(it.a[1])))
    if kind in ("map", "filter", "filter_map", "inspect"):
        return mk("iter", kind, reversed_iter(I_, st, it.a[1]), it.a[2])
    if kind == "cloned":
        return mk("iter", "cloned", reversed_iter(I_, st, it.a[1]))
    if kind == "chain":
        return mk("iter", "chain", reversed_iter(I_, st, it.a[2]), reversed_iter(I_, st, it.a[1]))
    if kind == "zip":
        a, b = it.a[1], it.a[2]
        if a.a[0] == "seq" and b.a[0] == "seq":
            n = min(len(a.a[1]), len(b.a[1]))
            return mk("iter", "zip", mk("iter", "seq", tuple(reversed(a.a[1][:n]))), mk("iter", "seq", tuple(reversed(b.a[1][:n]))))
        return mk("iter", "zip", reversed_iter(I_, st, a), reversed_iter(I_, st, b))
    if kind == "enumerate":
        if it.a[1].a[0] == "seq":
            xs = it.a[1].a[1]
            return mk("iter", "seq", tuple(reversed([Tup(I(i + it.a[2]), x) for i, x in enumerate(xs)])))
    if kind == "sym":
        t = it.a[1]
        return mk("iter", "sym", t.a[1] if is_t(t, "rev") else T("rev", t), it.a[2])
    if not is_symbolic(it) and kind not in ("from", "repeat", "repw", "fromfn", "cycle", "succ"):
        return it.a[1] if kind == "revall" else mk("iter", "revall", it)
    return mk("iter", "sym", T("rev", I_.reify(st, it)), 0)


def simple_adapter(name, kind, argn):
    @model(IT + name)
    def f(I_, st, ci, a):
        it = recv_iter(I_, st, a[0])
        if argn == 0:
            return mk("iter", kind, it)
        return mk("iter", kind, it, a[1])
    return f


for _n in ("map", "filter", "filter_map", "map_while", "take_while", "skip_while", "inspect"):
    simple_adapter(_n, _n, 1)
simple_adapter("cloned", "cloned", 0)
simple_adapter("copied", "cloned", 0)


@model(IT + "enumerate")
def m_enumerate(I_, st, ci, a):
    return mk("iter", "enumerate", recv_iter(I_, st, a[0]), 0)


@model(IT + "zip", "core::iter::adapters::zip::zip", IX + "zip_eq", "itertools::zip_eq::zip_eq")
def m_zip(I_, st, ci, a):
    return mk("iter", "zip", recv_iter(I_, st, a[0]), as_iter(I_, st, a[1]))


@model("core::iter::sources::successors::successors", "core::iter::successors")
def m_successors(I_, st, ci, a):
    return mk("iter", "succ", a[0], a[1])


@model(IX + "zip_longest")
def m_zip_longest(I_, st, ci, a):
    x, y = recv_iter(I_, st, a[0]), as_iter(I_, st, a[1])
    if x.k != "iter" or y is None or x.a[0] == "sym" or y.a[0] == "sym":
        return DEFAULT
    EB = "itertools::either_or_both::EitherOrBoth"

    def both(s, l, r):
        out = []
        for i in range(max(len(l), len(r))):
            if i < len(l) and i < len(r):
                out.append(Adt(EB, "Both", (l[i], r[i])))
            else:
                out.append(Adt(EB, "Left", (l[i],)) if i < len(l) else Adt(EB, "Right", (r[i],)))
        return Ret(mk("iter", "seq", tuple(out)))
    return drain_all(I_, st, x, lambda s, l: drain_all(I_, s, y, lambda s2, r: both(s2, l, r)))


@model(IT + "chain")
def m_chain(I_, st, ci, a):
    return mk("iter", "chain", recv_iter(I_, st, a[0]), as_iter(I_, st, a[1]))


@model(IT + "take", IT + "skip", "core::iter::adapters::skip", IT + "step_by")
def m_takeskip(I_, st, ci, a):
    kind = ci.fn.rsplit("::", 1)[1]
    n = I_.content(st, a[1])
    it = recv_iter(I_, st, a[0])
    if kind == "step_by":
        if it.a[0] == "seq" and is_c(n, "int"):
            return mk("iter", "seq", it.a[1][::n.a[1]])
        return mk("iter", "sym", T("step_by", I_.reify(st, it), n), 0)
    if is_c(n, "int"):
        if it.a[0] == "seq":
            return mk("iter", "seq", it.a[1][:n.a[1]] if kind == "take" else it.a[1][n.a[1]:])
        if kind == "take" and it.a[0] == "repeat":
            return mk("iter", "seq", (it.a[1],) * n.a[1])
        return mk("iter", kind, it, n.a[1])
    if kind == "take" and it.a[0] == "repeat":
        return mk("iter", "sym", T("repeat", I_.reify(st, it.a[1]), I_.reify(st, n)), 0)
    if is_symbolic(it) or it.a[0] == "seq":
        base = it.a[1] if it.a[0] == "sym" else Seq(it.a[1]) if it.a[0] == "seq" else None
        if base is not None:
            return mk("iter", "sym", T(kind, I_.reify(st, base), I_.reify(st, n)), 0)
        return sym_seq(I_, st, it, lambda s, b: mk("iter", "sym", T(kind, I_.reify(s, b), I_.reify(s, n)), 0))
    return mk("iter", kind, it, n)


@model(IT + "rev")
def m_rev(I_, st, ci, a):
    return reversed_iter(I_, st, recv_iter(I_, st, a[0]))


@model(IT + "peekable")
def m_peekable(I_, st, ci, a):
    return mk("iter", "peekable", recv_iter(I_, st, a[0]), ())


@model("core::iter::adapters::peekable::Peekable::<I>::peek")
def m_peek(I_, st, ci, a):
    p = a[0]
    while True:
        it = I_.load(st, p.a[0], p.a[1])
        if it.k == "ref":
            p = it
        else:
            break
    if it.a[2]:
        x = it.a[2][0]
        return NONE if x.k == "none" else Some(I_.new_cell(st, x))

    def k(s, x, i2):
        I_.storev(s, p.a[0], p.a[1], mk("iter", "peekable", i2, (mk("none") if x is None else x,)))
        return NONE if x is None else Some(I_.new_cell(s, x))
    return next_item(I_, st, it.a[1], k)


@model(IT + "flat_map")
def m_flat_map(I_, st, ci, a):
    return mk("iter", "flat", mk("iter", "map", recv_iter(I_, st, a[0]), a[1]), None)


@model(IT + "flatten", IX + "concat")
def m_flatten(I_, st, ci, a):
    return mk("iter", "flat", recv_iter(I_, st, a[0]), None)


@model(IX + "flatten_ok")
def m_flatten_ok(I_, st, ci, a):
    return mk("iter", "flat", recv_iter(I_, st, a[0]), None)


@model("core::iter::sources::once::once")
def m_once(I_, st, ci, a):
    return mk("iter", "seq", (a[0],))


@model("core::iter::sources::empty::empty")
def m_empty(I_, st, ci, a):
    return mk("iter", "seq", ())


@model("core::iter::sources::repeat::repeat")
def m_irepeat(I_, st, ci, a):
    return mk("iter", "repeat", a[0])


@model("core::iter::sources::repeat_n::repeat_n", "itertools::repeat_n")
def m_repeat_n(I_, st, ci, a):
    n = I_.content(st, a[1])
    if is_c(n, "int") and n.a[1] < 300:
        return mk("iter", "seq", (a[0],) * n.a[1])
    return mk("iter", "sym", T("repeat", I_.reify(st, a[0]), I_.reify(st, n)), 0)


def coll_kind(ty):
    if ty.startswith(("alloc::vec::Vec<", "alloc::collections::vec_deque", "alloc::boxed::Box<[", "smallvec",
                      "hugr_core::types::type_row::TypeRow")):
        return "vec"
    if ty.startswith("alloc::string::String"):
        return "string"
    if ty.startswith("core::result::Result<"):
        return "result"
    if ty.startswith("core::option::Option<"):
        return "option"
    if re.match(r"(std::collections::hash::map|alloc::collections::btree::map|indexmap::map)", ty):
        return "map"
    if re.match(r"(std::collections::hash::set|alloc::collections::btree::set|indexmap::set)", ty):
        return "set"
    return "other"


def inner_ty(ty):
    """first generic argument"""
    i = ty.index("<") + 1
    d = 0
    for j in range(i, len(ty)):
        if ty[j] in "<([":
            d += 1
        elif ty[j] in ">)]" and ty[j - 1] != "-":
            if d == 0:
                return ty[i:j]
            d -= 1
        elif ty[j] == "," and d == 0:
            return ty[i:j]
    return ty[i:]


def build_coll(I_, st, ty, xs):
    k = coll_kind(ty)
    if k in ("vec", "other"):
        return Seq(xs)
    if k == "string":
        return concat([I_.content(st, x) if not is_c(x, "char") else S(x.a[1]) for x in xs])
    if k == "map":
        m = mk("map", ty.split("<")[0], ())
        for x in xs:
            x = I_.content(st, x)
            kk, vv = (x.a[0][0], x.a[0][1]) if x.k == "tup" else (T(".", x, "0"), T(".", x, "1"))
            m = map_put(I_, st, m, kk, vv)
        return m
    if k == "set":
        m = mk("map", ty.split("<")[0], ())
        for x in xs:
            m = map_put(I_, st, m, x, UNIT)
        return m
    return Seq(xs)


def collect_to(I_, st, it, ty, k=lambda s, v: v):
    ck = coll_kind(ty)
    if ck == "result":
        ity = inner_ty(ty)
        if is_symbolic(it):
            def ks(s, t):
                # elements are Results: assume success per element
                if is_t(t, "maps"):
                    r = t.a[2]
                    if r.k == "adt" and r.a[0] == RES:
                        if r.a[1] == "Err":
                            return k(s, r)
                        t = T("maps", t.a[1], r.a[2][0])
                    else:
                        t = T("maps", t.a[1], T("ok", r))
                else:
                    t = T("oks", I_.reify(s, t))
                return k(s, Ok(wrap_coll(I_, s, ity, t)))
            return sym_seq(I_, st, it, ks)

        def go(s, i, acc):
            def kn(s2, x, i2):
                if x is None:
                    return k(s2, Ok(build_coll(I_, s2, ity, acc)))
                return res_cases(I_, s2, x, lambda s3, ok, y: go(s3, i2, acc + [y]) if ok else k(s3, Err(y)))
            return next_item(I_, s, i, kn)
        return go(st, it, [])
    if ck == "option":
        ity = inner_ty(ty)
        if is_symbolic(it):
            def ko(s, t):
                v = T("somes", I_.reify(s, t))
                alts = []
                for s2, nm in I_.variants_of(s, T("all_some", t), OPT, ["None", "Some"]):
                    alts.append((s2, k(s2, NONE) if nm == "None" else k(s2, Some(v))))
                return Fork(alts)
            return sym_seq(I_, st, it, ko)

        def go2(s, i, acc):
            def kn(s2, x, i2):
                if x is None:
                    return k(s2, Some(build_coll(I_, s2, ity, acc)))
                return opt_cases(I_, s2, x, lambda s3, y: k(s3, NONE) if y is None else go2(s3, i2, acc + [y]))
            return next_item(I_, s, i, kn)
        return go2(st, it, [])
    if is_symbolic(it):
        return sym_seq(I_, st, it, lambda s, t: k(s, wrap_coll(I_, s, ty, t)))
    return drain_all(I_, st, it, lambda s, xs: k(s, build_coll(I_, s, ty, xs)))


def wrap_coll(I_, st, ty, t):
    ck = coll_kind(ty)
    if ck in ("vec", "other"):
        return t
    return T("collect_" + ck, I_.reify(st, t))


@model(IT + "collect")
def m_collect(I_, st, ci, a):
    ty = ci.args[1] if len(ci.args) > 1 else ""
    return collect_to(I_, st, recv_iter(I_, st, a[0]), ty)


@model(IX + "collect_vec")
def m_collect_vec(I_, st, ci, a):
    return collect_to(I_, st, recv_iter(I_, st, a[0]), "alloc::vec::Vec<")


@model(IX + "try_collect")
def m_try_collect(I_, st, ci, a):
    ty = next((x for x in ci.args[1:] if coll_kind(x) != "other"), "alloc::vec::Vec<T>")
    return collect_to(I_, st, recv_iter(I_, st, a[0]), "core::result::Result<" + ty + ", E>")


@pattern(r"FromIterator<.*>>::from_iter$|^core::iter::traits::collect::FromIterator::from_iter$")
def m_from_iter(I_, st, ci, a):
    if ci.callee.get("key") in I_.p and ci.callee.get("key"):
        return DEFAULT
    return collect_to(I_, st, as_iter(I_, st, a[0]), ci.args[0] if ci.args else "")


@pattern(r"Extend<.*>>::extend$|^core::iter::traits::collect::Extend::extend$")
def m_extend(I_, st, ci, a):
    if ci.callee.get("key") in I_.p and ci.callee.get("key"):
        return DEFAULT
    c, p, v = seq_target(I_, st, a[0])
    it = as_iter(I_, st, a[1])
    fn = ci.fn
    if v.k == "map":
        if is_symbolic(it):
            return sym_seq(I_, st, it, lambda s, t: (I_.storev(s, c, p, T("mapext", I_.reify(s, v), I_.reify(s, t))), UNIT)[1])

        def km(s, xs):
            m = I_.load(s, c, p)
            for x in xs:
                x = I_.content(s, x)
                if x.k == "tup" and len(x.a[0]) == 2 and "set" not in v.a[0]:
                    m = map_put(I_, s, m, x.a[0][0], x.a[0][1])
                else:
                    m = map_put(I_, s, m, x, UNIT)
            I_.storev(s, c, p, m)
            return UNIT
        return drain_all(I_, st, it, km)
    if "Vec" not in fn and "VecDeque" not in fn and v.k not in ("seq",):
        if is_symbolic(it):
            return sym_seq(I_, st, it, lambda s, t: (I_.log(s, fn, [I_.reify(s, v), I_.reify(s, t)], UNIT, ci, ci.where, a),
                                                     I_.storev(s, c, p, T("ext", I_.reify(s, v), I_.reify(s, t))), UNIT)[2])
        return drain_all(I_, st, it, lambda s, xs: (I_.storev(s, c, p, T("ext", I_.reify(s, v), I_.reify(s, Seq(xs)))), UNIT)[1])
    # references are copied (Extend<&T>)
    isref = "Extend<&" in fn

    def fin(s, w):
        cur = I_.load(s, c, p)
        I_.storev(s, c, p, seqcat(I_, s, cur, w))
        return UNIT
    if is_symbolic(it):
        return sym_seq(I_, st, it, fin)
    return drain_all(I_, st, it, lambda s, xs: fin(s, Seq([I_.load(s, x.a[0], x.a[1]) if isref and x.k == "ref" else x for x in xs])))


@model(VEC + "extend_from_slice")
def m_extend_slice(I_, st, ci, a):
    c, p, v = seq_target(I_, st, a[0])
    w = I_.content(st, a[1])
    I_.storev(st, c, p, seqcat(I_, st, v, w))
    return UNIT


@model(IT + "for_each")
def m_for_each(I_, st, ci, a):
    it = recv_iter(I_, st, a[0])

    def go(s, i):
        return next_item(I_, s, i, lambda s2, x, i2: UNIT if x is None else
                         Call(a[1], [x], lambda I2, s3, r: go(s3, i2)))
    return go(st, it)


@model(IT + "try_for_each")
def m_try_for_each(I_, st, ci, a):
    p = a[0]
    it = mk("iter", "byref", p) if p.k == "ref" else as_iter(I_, st, p)

    def go(s, i):
        def kn(s2, x, i2):
            if x is None:
                return Ok(UNIT)
            return Call(a[1], [x], lambda I2, s3, r: res_cases(I2, s3, r, lambda s4, ok, y: go(s4, i2) if ok else Err(y)))
        return next_item(I_, s, i, kn)
    return go(st, it)


@model(IT + "fold")
def m_fold(I_, st, ci, a):
    it = recv_iter(I_, st, a[0])
    if is_symbolic(it):
        def ks(s, t):
            return Call(a[2], [T("acc", I_.reify(s, a[1])), elem_of(t)],
                        lambda I2, s2, r: T("fold", I2.reify(s2, t), I2.reify(s2, a[1]), I2.reify(s2, r)))
        return sym_seq(I_, st, it, ks)

    def go(s, i, acc):
        return next_item(I_, s, i, lambda s2, x, i2: acc if x is None else
                         Call(a[2], [acc, x], lambda I2, s3, r: go(s3, i2, r)))
    return go(st, it, a[1])


@model(IT + "try_fold")
def m_try_fold(I_, st, ci, a):
    it = mk("iter", "byref", a[0]) if a[0].k == "ref" else as_iter(I_, st, a[0])

    def go(s, i, acc):
        def kn(s2, x, i2):
            if x is None:
                return Ok(acc)
            return Call(a[2], [acc, x], lambda I2, s3, r: res_cases(I2, s3, r, lambda s4, ok, y: go(s4, i2, y) if ok else Err(y)))
        return next_item(I_, s, i, kn)
    return go(st, it, a[1])


@model(IT + "reduce")
def m_reduce(I_, st, ci, a):
    it = recv_iter(I_, st, a[0])

    def go(s, i, acc):
        return next_item(I_, s, i, lambda s2, x, i2: Some(acc) if x is None else
                         Call(a[1], [acc, x], lambda I2, s3, r: go(s3, i2, r)))
    return next_item(I_, st, it, lambda s, x, i2: NONE if x is None else go(s, i2, x))


def quant(name, any_):
    @model(IT + name)
    def f(I_, st, ci, a):
        p = a[0]
        it = mk("iter", "byref", p) if p.k == "ref" else as_iter(I_, st, p)
        src = it
        while src.a[0] == "byref":
            x = I_.load(st, src.a[1].a[0], src.a[1].a[1])
            if x.k == "ref":
                src = mk("iter", "byref", x)
                continue
            if x.k != "iter":
                x = as_iter(I_, st, x)
            src = x
        if is_symbolic(src):
            def ks(s, t):
                def kk(I2, s2, r):
                    if is_c(r, "bool") and r.a[1] == (not any_):
                        return r
                    e = T(name, I2.reify(s2, t), I2.reify(s2, r))
                    return e
                return Call(a[1], [elem_of(t)], kk)
            return sym_seq(I_, st, src, ks)

        def go(s, i):
            return next_item(I_, s, i, lambda s2, x, i2: B(not any_) if x is None else
                             Call(a[1], [x], lambda I2, s3, r: I2.fork_bool(
                                 s3, r, lambda s4, b: B(any_) if b == any_ else go(s4, i2))))
        return go(st, it)
    return f


quant("any", True)
quant("all", False)


@model(IT + "find", IT + "position", IT + "find_map", IX + "find_or_first")
def m_find(I_, st, ci, a):
    m = ci.fn.rsplit("::", 1)[1]
    p = a[0]
    it = mk("iter", "byref", p) if p.k == "ref" else as_iter(I_, st, p)

    def go(s, i, n):
        def kn(s2, x, i2):
            if x is None:
                return NONE
            if m == "find_map":
                return Call(a[1], [x], lambda I2, s3, r: opt_cases(I2, s3, r, lambda s4, y: go(s4, i2, n + 1) if y is None else Some(y)))
            arg = I_.new_cell(s2, x) if m == "find" else x
            return Call(a[1], [arg], lambda I2, s3, r: I2.fork_bool(
                s3, r, lambda s4, b: (Some(x) if m == "find" else Some(pos_of(x, n))) if b else go(s4, i2, n + 1)))
        return next_item(I_, s, i, kn)
    return go(st, it, 0)


def pos_of(x, n):
    if is_t(x, "elem"):
        return T("index", x.a[1]) if len(x.a) == 2 else T("index", x.a[1], x.a[2])
    return I(n)


@model(IT + "count", IT + "sum", IT + "product", "core::iter::traits::accum::Sum::sum")
def m_sum(I_, st, ci, a):
    m = ci.fn.rsplit("::", 1)[1]
    it = recv_iter(I_, st, a[0])
    if is_symbolic(it):
        return sym_seq(I_, st, it, lambda s, t: I_.len_of(s, t) if m == "count" and t.k == "seq" else
                       T({"count": "len"}.get(m, m), I_.reify(s, t)))

    def kd(s, xs):
        if m == "count":
            return I(len(xs))
        if not xs:
            d = default_of(I_, s, ci.args[1] if len(ci.args) > 1 else "")
            if d is not None:
                return d if m == "sum" else I(1)
        xs = [I_.content(s, x) for x in xs]
        if xs and all(x.k in ("c", "t") for x in xs):
            acc = xs[0]
            for x in xs[1:]:
                acc = I_.binop1(s, "Add" if m == "sum" else "Mul", acc, x)
            return acc
        return T(m, Seq([I_.reify(s, x) for x in xs]))
    return drain_all(I_, st, it, kd)


@model(IT + "max", IT + "min", IT + "max_by_key", IT + "min_by_key", IT + "max_by", IT + "min_by", IX + "sorted", IX + "sorted_by_key", IX + "sorted_by", IX + "sorted_by_cached_key", IX + "sorted_unstable_by_key", IX + "sorted_unstable_by", IX + "position_min_by_key", IX + "unique", IX + "dedup", IX + "counts", IX + "join", IX + "exactly_one", IX + "at_most_one", IT + "last", IX + "tuple_windows", IX + "partition_map", IX + "minmax", IX + "sorted_unstable", IX + "all_equal", IX + "all_unique", IX + "duplicates", IX + "into_group_map", IX + "kmerge")
def m_aggr(I_, st, ci, a):
    m = ci.fn.rsplit("::", 1)[1]
    it = recv_iter(I_, st, a[0])
    extra = [I_.reify(st, I_.content(st, x)) for x in a[1:]]

    def fin(s, v):
        xs = list(v.a[0]) if v.k == "seq" else None
        if m == "exactly_one":
            if xs is not None:
                return Ok(xs[0]) if len(xs) == 1 else Err(v)
            return T("exactly_one", I_.reify(s, v))
        if m == "at_most_one" and xs is not None:
            return Ok(Some(xs[0]) if xs else NONE) if len(xs) <= 1 else Err(v)
        if m == "last":
            if xs is not None:
                return Some(xs[-1]) if xs else NONE
            return T("last", I_.reify(s, v))
        if m == "join" and xs is not None and is_c(extra[0], "str"):
            out = []
            for i, x in enumerate(xs):
                x = I_.content(s, x)
                if i:
                    out.append(extra[0])
                out.append(S(disp(x)) if x.k == "c" else x if is_t(x, "concat") else T("string", I_.reify(s, x)))
            return concat(out)
        if m in ("max", "min") and xs is not None and xs:
            cs = [I_.content(s, x) for x in xs]
            if all(is_c(x) for x in cs):
                f = max if m == "max" else min
                return Some(f(cs, key=lambda x: x.a[1]))
            if len(cs) > 1 and all(x.k == "adt" for x in cs):
                from interp import mk_fn_key
                imp = f"<{cs[0].a[0]} as core::cmp::Ord>::cmp"
                if imp in I_.p:
                    return by_cmp(I_, s, cs, mk_fn_key(I_, imp, imp), lambda s2, ys: Some(ys[0] if m == "min" else ys[-1]), lambda s2: T(m, I_.reify(s2, v)))
        if m in ("max", "min", "max_by_key", "min_by_key", "max_by", "min_by") and xs is not None:
            if not xs:
                return NONE
            if len(xs) == 1:
                return Some(xs[0])
        if m == "tuple_windows" and xs is not None:
            n = 2
            return mk("iter", "seq", tuple(Tup(*xs[i:i + n]) for i in range(len(xs) - n + 1)))
        if m in ("dedup", "unique") and xs is not None:
            ks = [I_.reify(s, x) for x in xs]
            if all(ground(I_, x) for x in ks):
                return mk("iter", "seq", tuple(x for i, x in enumerate(xs) if ks[i] not in (ks[max(i - 1, 0):i] if m == "dedup" else ks[:i])))
        if m == "kmerge" and xs is not None:
            rows = [I_.reify(s, x) for x in xs]
            if all(r.k == "seq" for r in rows):
                import heapq
                ks = [[order_key(x) for x in r.a[0]] for r in rows]
                if all(None not in k_ for k_ in ks):
                    out = heapq.merge(*[[(k_, j, i) for i, k_ in enumerate(row)] for j, row in enumerate(ks)], key=lambda e: e[0])
                    return mk("iter", "seq", tuple(rows[j].a[0][i] for _, j, i in out))
        if m.startswith("sorted") and xs is not None and len(xs) <= 1:
            return mk("iter", "seq", tuple(xs))
        if m in ("sorted", "sorted_unstable") and xs is not None:
            ks = [order_key(I_.reify(s, x)) for x in xs]
            if None not in ks:
                return mk("iter", "seq", tuple(xs[i] for i in sorted(range(len(xs)), key=lambda i: ks[i])))

        def opaque(s2):
            r = T(m, I_.reify(s2, v), *extra)
            return mk("iter", "sym", r, 0) if m.startswith("sorted") else r
        if m in ("sorted_by_key", "sorted_by_cached_key", "sorted_unstable_by_key") and xs is not None:
            return by_keys(I_, s, xs, a[1], lambda s2, ks: mk("iter", "seq", tuple(x for _, x in ks)), opaque)
        if m in ("sorted_by", "sorted_unstable_by") and xs is not None:
            return by_cmp(I_, s, xs, a[1], lambda s2, ys: mk("iter", "seq", tuple(ys)), opaque)
        if m == "position_min_by_key" and xs:
            return by_keys(I_, s, xs, a[1], lambda s2, ks: Some(I([i for i, x in enumerate(xs) if x is ks[0][1]][0])), opaque)
        if m in ("min_by_key", "max_by_key") and xs:
            return by_keys(I_, s, xs, a[1], lambda s2, ks: Some(ks[0][1] if m == "min_by_key" else [x for kk, x in ks if kk == ks[-1][0]][-1]), opaque)
        if m in ("min_by", "max_by") and xs:
            return by_cmp(I_, s, xs, a[1], lambda s2, ys: Some(ys[0] if m == "min_by" else ys[-1]), opaque)
        r = T(m, I_.reify(s, v), *extra)
        if m.startswith("sorted") or m in ("unique", "dedup", "tuple_windows", "duplicates"):
            return mk("iter", "sym", r, 0)
        return r
    if is_symbolic(it):
        return sym_seq(I_, st, it, fin)
    return drain_all(I_, st, it, lambda s, xs: fin(s, Seq(xs)))


@model(IT + "nth")
def m_nth(I_, st, ci, a):
    n = I_.content(st, a[1])
    p = a[0]
    it = mk("iter", "byref", p) if p.k == "ref" else as_iter(I_, st, p)
    src = it
    while src.a[0] == "byref":
        x = I_.load(st, src.a[1].a[0], src.a[1].a[1])
        src = mk("iter", "byref", x) if x.k == "ref" else x if x.k == "iter" else as_iter(I_, st, x)
    if is_symbolic(src):
        return sym_seq(I_, st, src, lambda s, t: T("nth", I_.reify(s, t), n))
    if not is_c(n, "int"):
        return T("nth", I_.reify(st, src), n)

    def go(s, i, m):
        return next_item(I_, s, i, lambda s2, x, i2: NONE if x is None else Some(x) if m == 0 else go(s2, i2, m - 1))
    return go(st, it, n.a[1])


@model(IX + "into_group_map_by")
def m_group_by(I_, st, ci, a):
    it = recv_iter(I_, st, a[0])
    if is_symbolic(it):
        return DEFAULT

    def go(s, xs, i, acc):
        if i == len(xs):
            return mk("map", "std::collections::hash::map::HashMap", tuple((k, Seq(v)) for k, v in acc))

        def got(I2, s2, r):
            k = I2.reify(s2, r)
            if not ground(I2, k):
                raise Incomplete("group key is not known")
            new = [(kk, vv + [xs[i]] if kk == k else vv) for kk, vv in acc]
            return go(s2, xs, i + 1, new if any(kk == k for kk, _ in acc) else acc + [(k, [xs[i]])])
        return Call(a[1], [I_.new_cell(s, xs[i])], got)
    return drain_all(I_, st, it, lambda s, xs: go(s, xs, 0, []))


@model(IX + "next_tuple", IX + "collect_tuple", IX + "next_array", IX + "collect_array")
def m_next_tuple(I_, st, ci, a):
    m = ci.fn.rsplit("::", 1)[1]
    p = a[0]
    it = mk("iter", "byref", p) if p.k == "ref" else as_iter(I_, st, p)
    arr = "array" in m
    if arr:
        n = next((int(x) for x in ci.args if x.isdigit()), None)
        if n is None:
            return DEFAULT
    else:
        ty = next((x for x in ci.args if x.startswith("(")), None)
        if ty is None:
            return DEFAULT
        d = 0
        n = 0
        tok = False
        for ch in ty[1:-1]:
            if ch in "<([":
                d += 1
            if ch in ">)]":
                d -= 1
            if ch == "," and d == 0:
                n += 1
                tok = False
            elif ch != " ":
                tok = True
        n += tok
    if is_symbolic(it):
        return sym_seq(I_, st, it, lambda s, t: Some(Tup(*[T("ix", I_.reify(s, t), I(i)) for i in range(n)])))

    def go(s, i, acc):
        if len(acc) == n:
            if m.startswith("collect"):
                return next_item(I_, s, i, lambda s2, x, i2: Some(Seq(acc) if arr else Tup(*acc)) if x is None else NONE)
            return Some(Seq(acc) if arr else Tup(*acc))
        return next_item(I_, s, i, lambda s2, x, i2: NONE if x is None else go(s2, i2, acc + [x]))
    return go(st, it, [])


@model(IT + "unzip", IX + "multiunzip")
def m_unzip(I_, st, ci, a):
    it = recv_iter(I_, st, a[0])
    if is_symbolic(it):
        def ks(s, t):
            if is_t(t, "maps") and t.a[2].k == "tup":
                return Tup(*[T("maps", t.a[1], x) for x in t.a[2].a[0]])
            return Tup(T("unzip", t, I(0)), T("unzip", t, I(1)))
        return sym_seq(I_, st, it, ks)

    def kd(s, xs):
        xs = [I_.content(s, x) for x in xs]
        n = len(xs[0].a[0]) if xs and xs[0].k == "tup" else 2
        return Tup(*[Seq([I_.proj_get(x, ("f", i, str(i), None)) for x in xs]) for i in range(n)])
    return drain_all(I_, st, it, kd)


@model(IT + "partition")
def m_partition(I_, st, ci, a):
    it = recv_iter(I_, st, a[0])
    if is_symbolic(it):
        def ks(s, t):
            c = I_.new_cell(s, elem_of(t))
            return Call(a[1], [c], lambda I2, s2, r: Tup(T("filters", I2.reify(s2, t), I2.reify(s2, r)),
                                                         T("filters", I2.reify(s2, t), I2.not_(I2.reify(s2, r)))))
        return sym_seq(I_, st, it, ks)

    def go(s, i, l, r):
        def kn(s2, x, i2):
            if x is None:
                return Tup(Seq(l), Seq(r))
            c = I_.new_cell(s2, x)
            return Call(a[1], [c], lambda I2, s3, v: I2.fork_bool(
                s3, v, lambda s4, b: go(s4, i2, l + [x], r) if b else go(s4, i2, l, r + [x])))
        return next_item(I_, s, i, kn)
    return go(st, it, [], [])


@pattern(r"ExactSizeIterator(>|)::len$|^core::iter::traits::exact_size::ExactSizeIterator::len$|ExactSizeIterator>::len$")
def m_iter_len(I_, st, ci, a):
    p = a[0]
    v = I_.content(st, p)
    if v.k == "iter":
        if v.a[0] == "seq":
            return I(len(v.a[1]))
        if v.a[0] in ("map", "cloned", "enumerate") and isinstance(v.a[1], V) and v.a[1].a[0] == "seq":
            return I(len(v.a[1].a[1]))
        if is_symbolic(v):
            return T("len", I_.reify(st, v.a[1]) if v.a[0] == "sym" else I_.reify(st, v))
    if v.k == "seq":
        return I(len(v.a[0]))
    return T("len", I_.reify(st, v))


@pattern(r"Iterator::size_hint$|::size_hint$")
def m_size_hint(I_, st, ci, a):
    return T("size_hint", I_.reify(st, a[0]))


# ------------------------------------------------------------ maps
MAPT = (r"(std::collections::hash::map::HashMap|alloc::collections::btree::map::BTreeMap|indexmap::map::IndexMap|"
        r"std::collections::hash::set::HashSet|alloc::collections::btree::set::BTreeSet|indexmap::set::IndexSet)")


def ground(I_, v):
    """value without unknowns"""
    if v.k == "c":
        return True
    if v.k == "adt":
        return all(ground(I_, x) for x in v.a[2])
    if v.k in ("tup", "seq"):
        return all(ground(I_, x) for x in v.a[0])
    return False


def map_put(I_, st, m, k, v):
    kr = I_.reify(st, k)
    out = []
    done = False
    for x, y in m.a[1]:
        if I_.reify(st, x) is kr:
            out.append((x, v))
            done = True
        else:
            out.append((x, y))
    if not done:
        out.append((kr, v))
    return mk("map", m.a[0], tuple(out))


def map_find(I_, st, m, k):
    """index | -1 (absent) | None (unknown)"""
    kr = I_.reify(st, k)
    unk = False
    for i, (x, y) in enumerate(m.a[1]):
        xr = I_.reify(st, x)
        if xr is kr:
            return i
        e = structural_eq(I_, st, xr, kr)
        if e is True:
            return i
        if e is None:
            unk = True
    return None if unk else -1


def map_get(I_, st, c, p, m, k):
    i = map_find(I_, st, m, k)
    if i is None:
        return None
    if i < 0:
        return "none"
    return ref(c, p + (("mv", i),))


import interp as _in

_pg, _ps = _in.Interp.proj_get, _in.Interp.proj_set


def proj_get(self, v, e):
    if e[0] == "mv":
        if v.k == "map":
            return v.a[1][e[1]][1]
        return T("mapval", v, I(e[1]))
    return _pg(self, v, e)


def proj_set(self, v, proj, i, val):
    if i < len(proj) and proj[i][0] == "mv" and v.k == "map":
        n = proj[i][1]
        es = list(v.a[1])
        es[n] = (es[n][0], self.proj_set(es[n][1], proj, i + 1, val))
        return mk("map", v.a[0], tuple(es))
    if i < len(proj) and proj[i][0] == "ss":
        items = self.items(v)
        _, lo, hi, fe = proj[i]
        if items is None:
            raise Incomplete("store to slice")
        hi = len(items) - hi if fe else hi
        sub = self.proj_set(Seq(items[lo:hi]), proj, i + 1, val)
        return Seq(items[:lo] + sub.a[0] + items[hi:])
    return _ps(self, v, proj, i, val)


_in.Interp.proj_get = proj_get
_in.Interp.proj_set = proj_set


@pattern(r"^" + MAPT + r"::<[^:]*>::(new|with_capacity|default|with_hasher)$")
def m_map_new(I_, st, ci, a):
    return mk("map", ci.fn.split("::<")[0], ())


@pattern(r"^" + MAPT + r"::<.*>::(insert|get|get_mut|remove|contains_key|contains|entry|keys|values|values_mut|iter|iter_mut|into_iter|len|is_empty|into_keys|into_values|pop_first|first|swap_remove|shift_remove|get_or_insert_with|clear|get_index_of|get_index|first_key_value|last_key_value|insert_full|get_full|shift_insert)$")
def m_map(I_, st, ci, a):
    m = ci.fn.rsplit("::", 1)[1]
    c, p, v = seq_target(I_, st, a[0])
    if v.k != "map":
        if m in ("keys", "values", "iter", "into_iter", "into_keys", "into_values", "iter_mut", "values_mut"):
            return mk("iter", "sym", T(ci.fn.rsplit("::", 1)[1], I_.reify(st, v), *ver_tag(I_, st, v)), 0)
        if m == "is_empty":
            return I_.binop1(st, "Eq", T("len", v), I(0))
        if m == "len":
            return T("len", v)
        return DEFAULT
    isset = "Set" in v.a[0] or "set" in v.a[0]
    if m in ("insert",):
        i = map_find(I_, st, v, a[1])
        I_.log(st, ci.fn, [v] + [I_.reify(st, x) for x in a[1:]], UNIT, ci, ci.where, a)
        if i is None:
            I_.storev(st, c, p, map_put(I_, st, v, a[1], a[2] if len(a) > 2 else UNIT))
            return T("map_insert_old", I_.reify(st, v), I_.reify(st, a[1]))
        old = v.a[1][i][1] if i >= 0 else None
        I_.storev(st, c, p, map_put(I_, st, v, a[1], a[2] if len(a) > 2 else UNIT))
        if isset:
            return B(i < 0)
        return NONE if old is None else Some(old)
    if m in ("get", "get_mut"):
        if isset:
            return DEFAULT
        r = map_get(I_, st, c, p, v, a[1])
        if r is None:
            return T("map_get", I_.reify(st, v), I_.reify(st, a[1]))
        return NONE if r == "none" else Some(r)
    if m in ("contains_key", "contains"):
        i = map_find(I_, st, v, a[1])
        if i is None:
            return T("map_has", I_.reify(st, v), I_.reify(st, a[1]))
        return B(i >= 0)
    if m in ("remove", "swap_remove", "shift_remove"):
        i = map_find(I_, st, v, a[1])
        if i is None:
            I_.storev(st, c, p, T("map_remove", I_.reify(st, v), I_.reify(st, a[1])))
            return T("map_get", I_.reify(st, v), I_.reify(st, a[1]))
        if i < 0:
            return B(False) if isset else NONE
        old = v.a[1][i][1]
        I_.storev(st, c, p, mk("map", v.a[0], v.a[1][:i] + v.a[1][i + 1:]))
        return B(True) if isset else Some(old)
    if m == "len":
        return I(len(v.a[1]))
    if m == "is_empty":
        return B(not v.a[1])
    if m == "clear":
        I_.storev(st, c, p, mk("map", v.a[0], ()))
        return UNIT
    if m in ("first", "pop_first") and isset and "btree" in v.a[0]:
        l = map_items(I_, st, v, True)
        if not l:
            return NONE
        i, _ = l[0]
        x = v.a[1][i][0]
        if m == "first":
            return Some(I_.new_cell(st, x))
        I_.storev(st, c, p, mk("map", v.a[0], v.a[1][:i] + v.a[1][i + 1:]))
        return Some(x)
    if m in ("keys", "into_keys"):
        return mk("iter", "seq", tuple(x if m == "into_keys" else I_.new_cell(st, x) for x, _ in map_items(I_, st, v)))
    if m in ("values", "into_values", "values_mut"):
        if m == "into_values":
            return mk("iter", "seq", tuple(y for _, y in map_items(I_, st, v)))
        return mk("iter", "seq", tuple(ref(c, p + (("mv", i),)) for i, _ in map_items(I_, st, v, True)))
    if m in ("get_index_of", "get_index") and isset:
        if m == "get_index_of":
            i = map_find(I_, st, v, a[1])
            return DEFAULT if i is None else Some(I(i)) if i >= 0 else NONE
        n = I_.content(st, a[1])
        if not is_c(n, "int"):
            return DEFAULT
        return Some(I_.new_cell(st, v.a[1][n.a[1]][0])) if n.a[1] < len(v.a[1]) else NONE
    if m in ("iter", "iter_mut"):
        if isset:
            return mk("iter", "seq", tuple(I_.new_cell(st, x) for x, _ in map_items(I_, st, v)))
        return as_iter(I_, st, ref(c, p))
    if m == "into_iter":
        return as_iter(I_, st, v)
    if m == "entry":
        i = map_find(I_, st, v, a[1])
        e = Adt("entry", "Entry", (ref(c, p), a[1]))
        if i is None:
            return DEFAULT
        return Adt(ci.desty.split("<")[0], "Occupied" if i >= 0 else "Vacant", (e,))
    return DEFAULT


@pattern(r"::(OccupiedEntry|VacantEntry)::<.*>::(get|get_mut|into_mut|insert|key|into_key|remove|remove_entry|insert_entry)$")
def m_entry2(I_, st, ci, a):
    m = ci.fn.rsplit("::", 1)[1]
    e = I_.content(st, a[0])
    if not (e.k == "adt" and e.a[0] == "entry"):
        return DEFAULT
    p, key = e.a[2]
    mv = I_.load(st, p.a[0], p.a[1])
    i = map_find(I_, st, mv, key) if mv.k == "map" else None
    if i is None:
        return DEFAULT
    if m in ("key",):
        return I_.new_cell(st, key)
    if m == "into_key":
        return key
    if m in ("get", "get_mut", "into_mut"):
        return ref(p.a[0], p.a[1] + (("mv", i),)) if i >= 0 else DEFAULT
    if m == "insert":
        old = mv.a[1][i][1] if i >= 0 else None
        I_.log(st, ci.fn, [I_.reify(st, mv), I_.reify(st, key), I_.reify(st, a[1])], UNIT, ci, ci.where, a)
        nm = map_put(I_, st, mv, key, a[1])
        I_.storev(st, p.a[0], p.a[1], nm)
        if "OccupiedEntry" in ci.fn:
            return old
        j = map_find(I_, st, nm, key)
        return ref(p.a[0], p.a[1] + (("mv", j),))
    if m == "remove" and i >= 0:
        I_.storev(st, p.a[0], p.a[1], mk("map", mv.a[0], mv.a[1][:i] + mv.a[1][i + 1:]))
        return mv.a[1][i][1]
    if m == "remove_entry" and i >= 0:
        I_.storev(st, p.a[0], p.a[1], mk("map", mv.a[0], mv.a[1][:i] + mv.a[1][i + 1:]))
        return Tup(key, mv.a[1][i][1])
    return DEFAULT


def ver_tag(I_, st, v):
    n = st.ver.get(v, 0)
    return (I(n),) if n else ()


@pattern(r"::Entry::<.*>::(or_insert|or_insert_with|or_default|or_insert_with_key|and_modify)$")
def m_entry(I_, st, ci, a):
    e = a[0]
    m = ci.fn.rsplit("::", 1)[1]
    if e.k == "adt" and e.a[1] in ("Occupied", "Vacant"):
        e = e.a[2][0]
    if not (e.k == "adt" and e.a[0] == "entry"):
        if m in ("or_insert_with",) and a[1].k in ("clo", "fn"):
            # unknown map: present (a term) or freshly inserted
            s2 = st.clone()
            t = T("entry_val", I_.reify(st, e))
            cond = T("entry_occupied", I_.reify(st, e))
            I_.set_truth(st, cond, True)
            I_.set_truth(s2, cond, False)

            def k(I2, s, r):
                I2.log(s, "entry_insert", [I2.reify(s, e), I2.reify(s, r)], UNIT, ci, ci.where, a)
                return I2.new_cell(s, r)
            return Fork([(st, t), (s2, Call(a[1], [], k))])
        return DEFAULT
    p, key = e.a[2]
    mv = I_.load(st, p.a[0], p.a[1])
    i = map_find(I_, st, mv, key) if mv.k == "map" else None
    if i is not None and i >= 0:
        return ref(p.a[0], p.a[1] + (("mv", i),))

    def put(I2, s, v):
        cur = I2.load(s, p.a[0], p.a[1])
        nm = map_put(I2, s, cur, key, v)
        I2.storev(s, p.a[0], p.a[1], nm)
        kr = I2.reify(s, key)
        for j, (x, y) in enumerate(nm.a[1]):
            if I2.reify(s, x) is kr:
                return ref(p.a[0], p.a[1] + (("mv", j),))
    if mv.k != "map":
        return DEFAULT
    if m == "or_insert":
        return put(I_, st, a[1])
    if m == "or_insert_with":
        return Call(a[1], [], put)
    if m == "or_default":
        d = default_of(I_, st, ci.args[1] if len(ci.args) > 1 else "")
        return put(I_, st, d if d is not None else T("default", ci.args[1] if len(ci.args) > 1 else ""))
    return DEFAULT


# ------------------------------------------------------------ either
@pattern(r"^either::Either::<L, R>::(unwrap_left|unwrap_right|left|right|is_left|is_right|either)$")
def m_either(I_, st, ci, a):
    m = ci.fn.rsplit("::", 1)[1]
    v = I_.content(st, a[0])
    if v.k != "adt":
        return T("either::" + m, I_.reify(st, v))
    isl = v.a[1] == "Left"
    x = v.a[2][0]
    if m == "unwrap_left":
        return x if isl else panic(I_, st, "unwrap_left")
    if m == "unwrap_right":
        return x if not isl else panic(I_, st, "unwrap_right")
    if m == "left":
        return Some(x) if isl else NONE
    if m == "right":
        return NONE if isl else Some(x)
    if m == "is_left":
        return B(isl)
    if m == "is_right":
        return B(not isl)
    return Call(a[1] if isl else a[2], [x])


# ------------------------------------------------------------ tracing: ignore
@pattern(r"^tracing|^log::|tracing_core::|^<tracing")
def m_tracing(I_, st, ci, a):
    if ci.fn.endswith("is_never"):
        return B(True)
    if "PartialOrd<tracing_core::metadata::LevelFilter>>" in ci.fn:
        return B(False)
    return T("tracing", ci.fn.rsplit("::", 1)[1])


@model("core::convert::AsMut::as_mut")
def m_as_mut(I_, st, ci, a):
    return a[0]



@model("core::ops::range::RangeInclusive::<Idx>::new")
def _range_incl(I_, st, ci, a):
    return Adt("core::ops::range::RangeInclusive", "RangeInclusive", (I_.reify(st, a[0]), I_.reify(st, a[1]), B(False)))


import models2
