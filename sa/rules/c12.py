"""Every operation with arguments is converted to its generic form (name, arguments) and read back by abstract execution
with symbolic argument values; the value read back must be the value written, the arguments must fit the declared
parameters, and the signature the arguments select must be the one this operation stands for. Names of all operation
sets are read back through from_def, and belong to the extension that defines them."""
import re
from interp import *
from models import *
import exts, sig

CO = r"tket_qsystem::extension::classical_compute::"


def ext_id_term(X, t):
    return X.sig.string(t)


class Hook:
    """hugr's side of the conversion: ExtensionOp/OpDef accessors, try_from_name, TypeRow <-> TypeArg"""

    def __init__(self, cx, X):
        self.cx, self.X = cx, X

    def __call__(self, I_, st, ci, a):
        d = ci.def_ or ""
        full = d + " " + " ".join(map(str, ci.args))
        nm = d.rsplit("::", 1)[-1]
        x = I_.content(st, a[0]) if a else None
        if x is not None and is_t(x, "extop"):
            if nm == "def":
                return Ret(T("opdef", x.a[1], x.a[2]))
            if nm == "args":
                return Ret(x.a[3])
        if x is not None and is_t(x, "opdef"):
            if nm == "name":
                return Ret(x.a[1])
            if nm == "extension_id":
                return Ret(T("extid", x.a[2]))
        if nm == "try_from_name":
            ty = str(ci.args[0])
            ks = self.cx.P.find(r"^<" + re.escape(ty) + r" as .*FromStr>::from_str$")
            ke = self.cx.P.find(r"^<" + re.escape(ty) + r" as .*MakeOpDef>::extension$")
            if not ks or not ke:
                raise Incomplete(f"no FromStr/extension for {ty}")
            ext = I_.reify(st, I_.content(st, a[1]))
            fv = mk_fn(I_, ks[0])
            ev = mk_fn(I_, ke[0])

            def k(I2, s2, r):
                return res_cases(I2, s2, r, lambda s3, ok, v: Call(ev, [v], lambda I4, s4, e: self.same_ext(I4, s4, e, ext, v)) if ok else Ret(Err(T("not_member"))))
            return Call(fv, [a[0]], k)
        if nm == "try_from" or nm == "try_into":
            y = I_.reify(st, x) if x is not None else None
            if y is not None and is_t(y, "rowarg"):
                return Ret(Ok(y.a[1]))
            if y is not None and is_t(y, "row"):
                return Ret(Ok(y))
        if nm in ("from", "into") and x is not None:
            y = I_.reify(st, x)
            if is_t(y, "row"):
                return Ret(T("rowarg", y) if "TypeRow" in full and ("Term" in full or "TypeArg" in full) else y)
        if nm == "as_nat" and x is not None and x.k == "adt":
            return Ret(Some(x.a[2][0]) if x.a[1] == "BoundedNat" else NONE)
        if nm == "as_string" and x is not None and x.k == "adt":
            return Ret(Some(x.a[2][0]) if x.a[1] == "String" else NONE)
        if nm == "to_vec" and x is not None and x.k == "seq":
            return Ret(x)
        if nm in ("from_op", "from_extension_op") and is_t(x, "extop"):
            ty = str(ci.args[0])
            ks = self.cx.P.find(r"^<" + re.escape(ty) + r" as .*MakeOpDef>::from_def$")
            if ks:
                return Call(mk_fn(I_, ks[0]), [T("opdef", x.a[1], x.a[2])], None)
        if nm in ("eq", "ne") and len(a) == 2:
            v = [I_.reify(st, I_.content(st, y)) for y in a]
            if any(is_t(y, "lazy") for y in v) and all(is_t(y, "lazy") or is_c(y, "str") for y in v):
                w = [self.X.sig.string(y) for y in v]
                return Ret(B((w[0] == w[1]) == (nm == "eq")))
        return DEFAULT

    def same_ext(self, I_, st, e, ext, v):
        mine = ext_id_term(self.X, I_.reify(st, e))
        theirs = ext.a[1].a[1] if is_t(ext, "extid") else ext_id_term(self.X, ext)
        return Ret(Ok(v)) if mine == theirs else Ret(Err(T("wrong_extension")))


def meth(cx, adt, trait, name):
    e = re.escape(adt)
    return cx.key(r"(^<" + e + r" as [^ ]*" + trait + r"[^ ]*>|<impl [^ ]*" + trait + r"[^ ]* for " + e + r">)::" + name + "$")


def mk_fn(I_, key):
    import interp
    return interp.mk_fn_key(I_, key, key)


def one(cx, key, args, hook, what, it_out=None):
    it, outs = cx.run(key, args, on_call=hook)
    rs = [o for o in outs if o.kind in ("ret", "panic")]
    if len(rs) != len(outs):
        raise Abort_(what, outs)
    return it, rs


class Abort_(Incomplete):
    def __init__(self, what, outs):
        super().__init__(f"{what}: " + "; ".join(f"{o.kind} {getattr(o.st, 'cutreason', '')}" for o in outs)[:300])


def name_of(X, it, o):
    return X.sig.string(it.reify(o.st, o.value))


def run(cx):
    X = exts.Exts(cx)
    hook = Hook(cx, X)
    owner = {}
    defs = {}
    statics = X.statics()
    byname = {}
    for key, name, ver, clos in statics:
        byname[key] = name
        d = cx.guard("names", name, X.load, key, name, ver, clos)
        if not d:
            continue
        defs[name] = d
    # ---- 1. names of every operation set
    n = 0
    for k in cx.P.find(r"^<tket.* as .*MakeOpDef>::from_def$"):
        adt = re.match(r"<(.*?) as ", k).group(1)
        for v in X.variants(adt):
            n += 1
            cx.guard("names", f"{adt}::{v.a[1]}", names, cx, X, hook, adt, v, k, defs, byname)
    cx.floor("names", "operations in operation sets", n, 60)
    # ---- 2. arguments
    n = 0
    for label, adt, val, kinds, want in values(cx):
        n += 1
        cx.guard("arguments", label, roundtrip, cx, X, hook, label, adt, val, kinds, want, defs)
    cx.floor("arguments", "parametrised operations", n, 25)
    done = {adt for _, adt, _, _, _ in values(cx)}
    for k in cx.P.find(r"tket.*MakeExtensionOp.*>::type_args$"):
        adt = re.match(r"<(.*?) as ", k).group(1) if k.startswith("<") else re.search(r" for (.*)>::type_args$", k).group(1)
        if not cx.check("arguments", f"{adt} is covered", adt in done,
                        "an operation with arguments the rule has no values for"):
            pass
    # ---- 3. classical computation types
    for m in ("wasm", "gpu"):
        cx.guard("types", m, types, cx, X, hook, m)
    cx.assume("hugr's ExtensionOp keeps name and arguments; TypeRow and its argument form convert into each other without loss; "
              "try_from_name checks the name and the extension")


def names(cx, X, hook, adt, v, fromdef, defs, byname):
    label = f"{adt.rsplit('::', 1)[-1]}::{v.a[1]}"
    nm = X.id_of(adt, v)
    it, outs = cx.run(cx.key(r"^<" + re.escape(adt) + r" as .*MakeOpDef>::extension$"), {"self": v})
    ext = {X.sig.string(it.reify(o.st, o.value)) for o in outs if o.kind == "ret"}
    if len(ext) != 1:
        raise Incomplete(f"extension of {label}")
    ext = ext.pop()
    for o_ext in (ext, "some.other.extension"):
        it, rs = one(cx, fromdef, [T("opdef", S(nm), S(o_ext))], hook, label)
        got = [strip(it.reify(o.st, o.value)) if o.kind == "ret" else T(o.kind) for o in rs]
        if o_ext == ext:
            cx.check("names", f"{label} read back from its name", got == [Ok(v)],
                     f"writes the name {nm!r}, which is read back as {[show(g) for g in got]}")
        else:
            cx.check("names", f"{label} name of another extension", all(g.k == "adt" and g.a[1] == "Err" or is_t(g, "err") for g in got),
                     f"{o_ext}.{nm} is read as {[show(g) for g in got]}")
    if ext in defs:
        cx.check("names", f"{label} belongs to {ext}", nm in defs[ext]["operations"], f"extension {ext} does not define {nm}")
    k2 = cx.P.find(r"^<" + re.escape(adt) + r" as .*MakeOpDef>::extension_ref$")
    if k2:
        it, outs = cx.run(k2[0], {"self": v})
        refs = [it.reify(o.st, o.value) for o in outs if o.kind == "ret"]
        cx.check("names", f"{label} extension reference", len(refs) == 1 and {byname.get(x) for x in lazies(cx, refs[0])} == {ext},
                 f"the reference is to {[show(r) for r in refs]}, the extension is {ext}")


def lazies(cx, t, depth=0):
    out = set()
    for s in subterms(t):
        if is_t(s, "lazy"):
            k = s.a[1]
            if "EXTENSION_REF" in k and depth < 3:
                it, outs = cx.run(k)
                for o in outs:
                    out |= lazies(cx, it.reify(o.st, o.value), depth + 1)
            else:
                out.add(k)
    return out


RD = "tket_qsystem::extension::result::"


def values(cx):
    """(label, concrete type, value, kinds of its arguments, signature it stands for)"""
    tag = T("tag")
    out = []

    def result(dn, arr, w):
        simple = Adt(RD + "SimpleArgs", "Int", (I(w),)) if w is not None else Adt(RD + "SimpleArgs", "Basic", ())
        args = Adt(RD + "ResultArgs", "Array", (simple, I(7))) if arr else Adt(RD + "ResultArgs", "Simple", (simple,))
        rec = ctor(cx, RD + "ResultOp", {"tag": tag, "result_op": Adt(RD + "ResultOpDef", dn, ()), "args": args})
        elt = {"Bool": "bool", "Int": f"int({w})", "UInt": f"int({w})", "F64": "float64"}[dn.replace("Arr", "")]
        t = f"array(7,{elt})" if arr else elt
        return (f"ResultOp {dn} width {w}", RD + "ResultOp", rec, None, ([t], []))
    for b in ("Bool", "F64"):
        out.append(result(b, False, None))
        out.append(result("Arr" + b, True, None))
    for b in ("Int", "UInt"):
        for w in (0, 3, 6):
            out.append(result(b, False, w))
            out.append(result("Arr" + b, True, w))
    sr = "tket::extension::debug::StateResult"
    out.append(("StateResult", sr, ctor(cx, sr, {"tag": tag, "num_qubits": I(5)}), None, (["array(5,qubit)"], ["array(5,qubit)"])))
    sy = "tket::extension::sympy::SympyOp"
    out.append(("SympyOp", sy, ctor(cx, sy, {"expr": T("expr")}), None, ([], ["tket.rotation.rotation"])))
    fo = "tket_qsystem::extension::futures::FutureOp"
    fut = "tket.futures.Future(ty)"
    for d, s in (("Read", ([fut], ["ty"])), ("Dup", ([fut], [fut, fut])), ("Free", ([fut], []))):
        out.append((f"FutureOp {d}", fo, ctor(cx, fo, {"op": Adt(fo + "Def", d, ()), "typ": T("ty")}), None, s))
    for m, ad in (("wasm", "WasmExtension"), ("gpu", "GpuExtension")):
        adt = "tket_qsystem::extension::classical_compute::ComputeOp"
        full = f"{adt}<tket_qsystem::extension::classical_compute::{m}::{ad}>"
        i, o = T("row", S("in")), T("row", S("out"))
        p = "tket." + m + "."
        func, res = f"{p}func([in],[out])", f"{p}result([out])"
        for v, fs, s in (("GetContext", {}, (["usize"], [f"sum(|{p}context)"])), ("DisposeContext", {}, ([p + "context"], [])),
                         ("LookupById", {"id": I(9), "inputs": i, "outputs": o}, ([p + "module"], [func])),
                         ("LookupByName", {"name": T("name"), "inputs": i, "outputs": o}, ([p + "module"], [func])),
                         ("Call", {"inputs": i, "outputs": o}, ([p + "context", func, "in"], [res])),
                         ("ReadResult", {"outputs": o}, ([res], [p + "context", "out"]))):
            out.append((f"{m} {v}", full, ctor(cx, adt, fs, v), None, s))
    return out


def ctor(cx, adt, fields, variant=None):
    vs = cx.P.adt_variants(adt)
    v = [x for x in vs if variant is None or x["name"] == variant]
    if len(v) != 1:
        raise Incomplete(f"type {adt} {variant}")
    names = [f["name"] if isinstance(f, dict) else f for f in v[0].get("fields", [])]
    if sorted(names) != sorted(fields):
        raise Incomplete(f"fields of {adt} {variant}: {names}")
    return Adt(adt, v[0]["name"], tuple(fields[n] for n in names))


def roundtrip(cx, X, hook, label, adt, val, kinds, want, defs):
    e = re.escape(adt)
    it, rs = one(cx, meth(cx, adt, "MakeExtensionOp", "op_id"), {"self": val}, hook, label)
    if len(rs) != 1:
        raise Incomplete(f"{len(rs)} names")
    nm = name_of(X, it, rs[0])
    it, rs = one(cx, meth(cx, adt, "MakeRegisteredOp", "extension_id"), {"self": val}, hook, label)
    ext = name_of(X, it, rs[0])
    it, rs = one(cx, meth(cx, adt, "MakeExtensionOp", "type_args"), {"self": val}, hook, label)
    rs = [o for o in rs if o.kind == "ret"]
    if len(rs) != 1:
        raise Incomplete(f"{len(rs)} argument lists")
    args = it.reify(rs[0].st, rs[0].value)
    if args.k != "seq":
        raise Incomplete(f"arguments {show(args)[:200]}")
    args = Seq([norm_arg(x) for x in args.a[0]])
    key = meth(cx, adt, "MakeExtensionOp", "from_extension_op")
    it, rs = one(cx, key, [T("extop", S(nm), S(ext), args)], hook, label)
    got = [strip(it.reify(o.st, o.value)) if o.kind == "ret" else T(o.kind) for o in rs]
    cx.check("arguments", f"{label} read back", got == [Ok(strip(val))],
             f"written as {ext}.{nm}{show(args)}, read back as {[show(g) for g in got]}")
    cx.check("arguments", f"{label} is defined", ext in defs and nm in defs[ext]["operations"], f"extension {ext} does not define {nm}")
    s = defs[ext]["operations"][nm]["signature"]
    ps = s["params"]
    cx.check("arguments", f"{label} fits the declared parameters",
             len(ps) == len(args.a[0]) and all(fits(p, a) for p, a in zip(ps, args.a[0])),
             f"parameters {ps}, arguments {show(args)}")
    sub = [argname(a) for a in args.a[0]]
    got = ([tyname(t, sub) for t in s["body"]["input"]], [tyname(t, sub) for t in s["body"]["output"]])
    cx.check("arguments", f"{label} selects its signature", got == (list(want[0]), list(want[1])), f"selects {got}, stands for {want}")


def norm_arg(t):
    while is_t(t) and t.a[0].rsplit("::", 1)[-1] in ("into", "from", "clone", "to_owned") and len(t.a) == 2:
        t = t.a[1]
    return wrap_arg(t)


TA = "hugr_core::types::type_param::Term"


def wrap_arg(t):
    """plain values converted into arguments by From"""
    if t.k == "adt" and t.a[1] == "List":
        y = t.a[2][0]
        while y.k == "iter" and y.a[0] == "sym" and y.a[2] == 0 or is_t(y) and len(y.a) == 2 and y.a[0].rsplit("::", 1)[-1] in (
                "map_into", "into_owned", "collect", "into_iter", "clone", "to_owned"):
            y = y.a[1]
        return T("rowarg", y) if is_t(y, "row") else t
    if t.k == "adt" or is_t(t, "rowarg"):
        return t
    if is_t(t, "ty"):
        return Adt(TA, "Runtime", (t,))
    if t == T("tag") or t == T("expr") or t == T("name"):
        return Adt(TA, "String", (t,))
    if is_c(t, "int"):
        return Adt(TA, "BoundedNat", (t,))
    return t


def strip(t):
    if is_t(t, "zst"):
        return Adt(t.a[1], t.a[1].rsplit("::", 1)[-1], ())
    if is_t(t, "string") and len(t.a) == 2:
        return strip(t.a[1])
    if t.k == "adt":
        return Adt(t.a[0], t.a[1], tuple(strip(x) for x in t.a[2]))
    return t


def fits(p, a):
    k = a.a[1] if a.k == "adt" else "List" if is_t(a, "rowarg") else None
    return {"String": "String", "BoundedNat": "BoundedNat", "Type": "Runtime", "List": "List"}.get(p["tp"]) == k


def argname(a):
    if is_t(a, "rowarg"):
        return a.a[1].a[1].a[1]
    v = a.a[2][0]
    return "ty" if is_t(v, "ty") else str(v.a[1]) if is_c(v) else show(v)


def tyname(t, sub):
    if t["t"] in ("V", "R"):
        return sub[t["i"]]
    if t["t"] == "Q":
        return "qubit"
    if t["t"] == "I":
        return "usize"
    if t["t"] == "Sum":
        if t["s"] == "Unit":
            return "bool" if t["size"] == 2 else f"unit{t['size']}"
        return "sum(" + "|".join(",".join(tyname(x, sub) for x in r) for r in t["rows"]) + ")"
    if t["t"] == "Opaque":
        aa = []
        for x in t["args"]:
            if x["tya"] == "Type":
                aa.append(tyname(x["ty"], sub))
            elif x["tya"] == "Variable":
                aa.append(sub[x["idx"]])
            elif x["tya"] == "List":
                aa.append("[" + ",".join(sub[y["idx"]] if y["tya"] == "Variable" else tyname(y["ty"], sub) for y in x["elems"]) + "]")
            else:
                aa.append(str(x.get("n", x.get("arg"))))
        pre = t["extension"] + "." if t["extension"].startswith("tket") else ""
        return pre + t["id"] + ("(" + ",".join(aa) + ")" if aa else "")
    return str(t)


def types(cx, X, hook, m):
    """ComputeType -> CustomType -> ComputeType"""
    adt = "tket_qsystem::extension::classical_compute::ComputeType"
    i, o = T("row", S("in")), T("row", S("out"))
    key = cx.key(r"^tket_qsystem::extension::classical_compute::ComputeType::<.*>::custom_type$")
    ext = {"wasm": "WasmExtension", "gpu": "GpuExtension"}[m]
    back = meth(cx, f"{adt}<tket_qsystem::extension::classical_compute::{m}::{ext}>", "TryFrom<.*CustomType", "try_from")
    for v, fs in (("Module", {}), ("Context", {}), ("Func", {"inputs": i, "outputs": o}), ("Result", {"outputs": o})):
        names = [f["name"] if isinstance(f, dict) else f for x in cx.P.adt_variants(adt) if x["name"] == v for f in x.get("fields", [])]
        val = Adt(adt, v, tuple(fs[n] for n in names))

        def th(I_, st, ci, a):
            d = ci.def_ or ""
            nm = d.rsplit("::", 1)[-1]
            x = I_.content(st, a[0]) if a else None
            if d.endswith("CustomType::new"):
                r = [I_.reify(st, y) for y in a]
                return Ret(T("ctype", r[0], r[1], r[2], r[3]))
            if x is not None and is_t(x, "ctype"):
                if nm == "name":
                    return Ret(S(X.sig.string(x.a[1])))
                if nm == "args":
                    return Ret(Seq([norm_arg(y) for y in X.sig.seq(x.a[2])]))
                if nm == "extension":
                    return Ret(x.a[3])
            return hook(I_, st, ci, a)
        it, rs = one(cx, key, {"self": val, "extension_id": T("hugr_core::hugr::ident::IdentList::new_unchecked", S("tket." + m)), "extension_ref": T("extref")}, th, v)
        cts = [it.reify(x.st, x.value) for x in rs if x.kind == "ret"]
        if len(cts) != 1 or not is_t(cts[0], "ctype"):
            raise Incomplete(f"{m} {v}: {[show(c) for c in cts]}")
        it, rs = one(cx, back, [cts[0]], th, v)
        got = [it.reify(x.st, x.value) if x.kind == "ret" else T(x.kind) for x in rs]
        cx.check("types", f"{m} {v} read back", got == [Ok(val)], f"written as {show(cts[0])}, read back as {[show(g) for g in got]}")
