"""C07: (1) the replacements that the boolean-replacement pass registers are collected by abstract execution of the pass; every replacement
circuit is evaluated on every representation of its operands (a plain boolean, or a pending measurement with either outcome) and compared
with the truth table of the operation it replaces; constants, measurements and array accesses likewise. (2) the code generator of the boolean
operations is executed abstractly and the emitted instructions are interpreted for all operand values."""
import itertools, re
import ll, sig, rt, circ
from interp import mk, I, B, S, T, Adt, Seq, Some, NONE, Ok, is_t, is_c, show, Incomplete, DEFAULT, UNIT

BO = "tket::extension::bool::BoolOp"
CB = "tket::extension::bool::ConstBool"
QS = "tket_qsystem::extension::qsystem::QSystemOp"
TK = "tket::ops::TketOp"
TM = "hugr_core::types::type_param::Term"
PASS = r"^<tket_qsystem::replace_bools::ReplaceBoolPass as hugr_passes::composable::ComposablePass<H>>::run$"
TRUTH = {"read": lambda a: a, "make_opaque": lambda a: a, "not": lambda a: 1 - a, "eq": lambda a, b: int(a == b), "and": lambda a, b: a & b,
         "or": lambda a, b: a | b, "xor": lambda a, b: a ^ b}


def K(t):
    k = sig.kind(t)
    return {"bool": "sumbool", "tket.bool.bool": "bool", "tket.futures.Future(bool)": "Future"}.get(k, k)


def is_op(t, path, name):
    o = rt.op_in(t)
    return o is not None and o.a[0] == path and o.a[1] == name


def val(v, outcome):
    """the boolean a lowered value stands for"""
    if isinstance(v, tuple) and v[0] == "sum" and len(v[2]) == 1:
        x = v[2][0]
        if v[1] == 0 and isinstance(x, tuple) and x[0] == "sum" and x[2] == ():
            return x[1]
        if v[1] == 1 and isinstance(x, tuple) and x[0] == "fut":
            return outcome[x[1]][1]
    raise rt.Wrong(f"{v} is not a lowered boolean")


def reps(b, name):
    """representations of the opaque boolean b: (value, futures)"""
    return [(("sum", 0, (("sum", b, ()),)), {}), (("sum", 1, (("fut", name),)), {name: ("sum", b, ())})]


def accounted(e, inputs, outs):
    """every future and qubit is used exactly once: consumed or returned"""
    def toks(v):
        if isinstance(v, tuple):
            if v and v[0] in ("fut", "q"):
                yield v
            else:
                for x in v:
                    yield from toks(x)
    ret = list(toks(tuple(outs)))
    if len(set(ret)) != len(ret):
        raise rt.Wrong("a pending result is returned twice")
    for t in ret:
        if e.used.get(t):
            raise rt.Wrong(f"{t[1]} is returned after it was consumed")
    for t in set(toks(tuple(inputs))) | set(e.used):
        if not e.used.get(t) and t not in ret:
            raise rt.Wrong(f"{t[1]} is neither used nor returned")


def evaluate(o, tmpl, inputs, outcome, ops=None):
    e = rt.Eval(o, outcome, ops)
    outs = e.run(rt.hugr_of(tmpl), inputs)
    accounted(e, inputs, outs)
    return outs, e


def calls(kind, args):
    """parameters on which registered replacement functions are run"""
    r = []
    if kind == "pop" and "StaticArray" not in show(args[0]):
        for n in (0, 1, 3):
            for t in ("lintype", "copytype"):
                r.append((f"{n} {t}", args[1], [Seq([Adt(TM, "BoundedNat", [I(n)]), Adt(TM, "Runtime", [T(t)])])]))
    if kind == "const":
        for b in (0, 1):
            r.append((f"const {b}", args[1], [T("oconst", B(b)), T("rtarg")]))
    return r


def consts(I_, st, ci, a):
    d, nm = ci.def_, ci.def_.rsplit("::", 1)[1]
    if a:
        x = I_.reify(st, I_.content(st, a[0]))
        if is_t(x, "oconst"):
            if nm == "value" and "OpaqueValue" in d:
                return a[0]
            if nm.startswith("downcast"):
                return Some(Adt(CB, "ConstBool", [x.a[1]])) if any("ConstBool" in str(t) for t in ci.args) else NONE
    return circ_hook(I_, st, ci, a)


circ_hook = circ.Builder()


# ------------------------------------------------------------ types of static array elements
OB, NB = T("ety", S("opaque bool")), T("esum", Seq([Seq([]), Seq([])]))
INT = T("ety", S("int"))


def esum(*rows):
    return T("esum", Seq([Seq(list(r)) for r in rows]))


ELEMS = {"opaque booleans": OB, "integers": INT, "pairs of opaque boolean and integer": esum([OB, INT]), "optional opaque booleans": esum([], [OB]),
         "nested sums": esum([INT], [esum([OB, OB], [INT])], [OB]), "static arrays of opaque booleans": T("esarr", OB), "optional integers": esum([], [INT])}


def new_type(t):
    """the type after replacement"""
    if t == OB:
        return NB
    if is_t(t, "esum"):
        return T("esum", Seq([Seq([new_type(x) for x in r.a[0]]) for r in t.a[1].a[0]]))
    if is_t(t, "esarr"):
        return T("esarr", new_type(t.a[1]))
    return t


def isty(t):
    return is_t(t, "ety") or is_t(t, "esum") or is_t(t, "esarr")


def values(t, d=0):
    """(replaced value, original value) of every shape; leaves are distinct booleans or tokens"""
    if t == OB:
        return [(("sum", b, ()), ("opaque", b)) for b in (0, 1)]
    if is_t(t, "esum"):
        r = []
        for i, row in enumerate(t.a[1].a[0]):
            for combo in itertools.product(*[values(x, d + 1) for x in row.a[0]]):
                r.append((("sum", i, tuple(c[0] for c in combo)), ("sum", i, tuple(c[1] for c in combo))))
        return r
    return [(("tok", show(t)), ("tok", show(t)))]


def static_types(I_, st, ci, a):
    """hugr's type operations on these types; ReplaceTypes applied to a type, value or circuit"""
    d, nm = ci.def_, ci.def_.rsplit("::", 1)[1]
    if not a:
        return consts(I_, st, ci, a)
    x = I_.reify(st, I_.content(st, a[0]))
    if nm == "option_type":
        return esum([], [x])
    if nm == "static_array_type" and isty(x):
        return T("esarr", x)
    if nm in ("eq", "ne") and "PartialEq" in d:
        y = I_.reify(st, I_.content(st, a[1]))
        for u, v in ((x, y), (y, x)):
            if u.k == "tup" and u.a[0] and is_t(u.a[0][0], "extof"):
                t, s = u.a[0][0].a[1], repr(v)
                m = t == OB and "BOOL" in s and "STATIC_ARRAY" not in s or is_t(t, "esarr") and ("STATIC_ARRAY" in s or "static_array" in s)
                return B(m == (nm == "eq"))
    if nm in ("transform", "change_value", "run") and len(a) > 1:
        r = I_.reify(st, I_.content(st, a[1] if nm == "transform" else a[0]))
        if not is_t(r, "rt"):
            return consts(I_, st, ci, a)
        cell = a[0] if nm == "transform" else a[1]
        v = I_.reify(st, I_.content(st, cell))
        if nm == "transform" and isty(v):
            n = new_type(v)
            I_.storev(st, cell.a[0], cell.a[1], n)
            I_.log(st, "rt::uses", [r], UNIT, ci, ci.where, [])
            return Ok(B(n != v))
        if nm == "change_value" and is_t(v, "elem"):
            I_.storev(st, cell.a[0], cell.a[1], T("newelem", v.a[1]))
            I_.log(st, "rt::uses", [r], UNIT, ci, ci.where, [])
            return Ok(B(True))
        if nm == "run" and is_t(v, "hugr"):
            I_.log(st, "rt::uses", [r], UNIT, ci, ci.where, [])
            gets = [e for e in st.events if e.fn == "circ::node" and is_t(e.args[0], "sget")]
            t = gets[-1].args[0].a[1]
            return Ok(B(new_type(t) != t))
    if isty(x):
        if nm == "as_type_enum":
            te = "hugr_core::types::TypeEnum"
            return Adt(te, "Sum", [x]) if is_t(x, "esum") else Adt(te, "Extension", [x])
        if nm in ("extension", "name") and "CustomType" in d:
            return T("extof", x, S(nm))
        if nm == "variants":
            return x.a[1]
        if nm in ("from", "into", "clone", "as_sum"):
            return x
    if nm == "try_into" and x.k == "seq" and all(isty(y) for y in x.a[0]):
        return Ok(x)
    if nm == "add_static_array_get":
        t, b = I_.reify(st, a[1]), x
        n = circ.nxt(st)
        h = T("node", T("sget", t), Seq([I_.reify(st, y) for y in a[2:]]), I(n))
        I_.log(st, "circ::node", [h.a[1], h.a[2], b], h, ci, ci.where, [])
        return Ok(T("wire", h, I(0)))
    if is_t(x, "oval"):
        if nm == "value" and "OpaqueValue" in d:
            return a[0]
        if nm.startswith("downcast"):
            return Some(x.a[1]) if any("StaticArrayValue" in str(t) for t in ci.args) else NONE
    if is_t(x, "sarrv") and nm == "get_contents":
        return x.a[2]
    if x.k == "with" and is_t(x.a[0], "sav") and nm == "get_element_type":
        return x.a[0].a[1]
    return consts(I_, st, ci, a)


def static_calls(kind, args):
    r = []
    what = repr(args[0])
    if kind == "const":
        r += [x for x in calls(kind, args)]
    for name, t in ELEMS.items():
        if "STATIC_ARRAY" not in what and "StaticArray" not in what:
            continue
        if kind in ("ptype", "pop"):
            r.append((name, args[1], [Seq([Adt(TM, "Runtime", [t])])]))
        if kind == "pconst":
            r.append((name, args[1], [T("oval", mk("with", T("sav", t), (("value", T("sarrv", t, Seq([T("elem", I(i)) for i in range(3)]))), ("name", S("nm"))))), T("rt", I(0))]))
    return r


def static_arrays(cx):
    rule = "constant arrays keep their elements"
    key = cx.key(PASS)
    it, outs = cx.run(key, {}, on_call=rt.RT(inner=static_types, calls=static_calls), max_steps=8000000)
    n = 0
    for o in outs:
        if o.kind != "ret":
            cx.fail(rule, "completes", f"the pass ends with {o.kind}: {show(o.value) if o.value else o.st.cutreason}")
            continue
        v = it.reify(o.st, o.value)
        if v.k == "adt" and v.a[1] == "Err":
            continue
        n += 1
        static_path(cx, rule, o)
    cx.floor(rule, "paths", n, 1)


def static_path(cx, rule, o):
    R = rt.Reg(o)
    runs = [(r, regs) for r, h, regs in R.runs if show(h) == "hugr"]
    stat = [i for i, (r, regs) in enumerate(runs) if any("STATIC_ARRAY" in repr(x[0]) for k, x in regs)]
    main = [i for i, (r, regs) in enumerate(runs) if any(k == "type" and "tket.bool" in show(x[0]) for k, x in regs)]
    if not cx.check(rule, "applied to the program before the boolean type is replaced", len(stat) == 1 and len(main) == 1 and stat[0] < main[0],
                    f"replacements of constant arrays are applied at {stat}, of booleans at {main}"):
        return
    rid = runs[stat[0]][0]
    for e in o.events:
        if e.fn == "rt::uses":
            regs = R.of.get(e.args[0], [])
            ok = any(k == "type" and "tket.bool" in show(x[0]) and show(x[1]) == "bool_t()" for k, x in regs) and any(k == "const" and "tket.bool" in show(x[0]) for k, x in regs)
            if not cx.check(rule, "elements become plain booleans", ok or e.args[0] == T("rt", I(0)), "elements are converted by replacements that do not make them plain booleans"):
                break
    n = {}
    for r, what, label, v in R.res:
        name = label.a[1]
        if r == runs[main[0]][0]:
            continue
        if name.startswith("const "):
            b = int(name[-1])
            x = v.a[2][0] if v.k == "adt" and v.a[1] in ("Ok", "Some") else v
            cx.check(rule, f"element {bool(b)}", is_t(x) and x.a[0].endswith("from_bool") and x.a[1] == B(b), f"becomes {show(x)[:200]}")
            n["element"] = n.get("element", 0) + 1
            continue
        t = ELEMS[name]
        nt = new_type(t)
        x = v.a[2][0] if v.k == "adt" and v.a[1] == "Ok" else v
        some = x.a[2][0] if x.k == "adt" and x.a[1] == "Some" else None
        s = show(what)
        kd = "get" if "::get" in s else "len" if "::len" in s else "const" if x is not v else "type"
        key = f"{kd} of {name}"
        if r == rid:
            n[kd] = n.get(kd, 0) + 1
        if kd != "const" and nt == t:
            cx.check(rule, key, some is None, "replaced although nothing changes")
            continue
        if not cx.check(rule, key + " is replaced", some is not None, "not replaced although the element type changes"):
            continue
        if kd == "type":
            cx.check(rule, key, some == T("esarr", nt), f"becomes {show(some)}")
        elif kd == "len":
            cx.check(rule, key, "instantiate" in show(some) and T("esarr", nt) != some and repr(Seq([nt])) in repr(some) and "::len" in show(some), f"replaced by {show(some)[:300]}")
        elif kd == "const":
            w = dict(some.a[1]) if some.k == "with" else {}
            av = w.get("value")
            ok = is_t(av) and av.a[0].endswith("::new") and av.a[1] == nt and av.a[2] == Seq([T("newelem", I(i)) for i in range(3)]) and w.get("name") == S("nm")
            cx.check(rule, key, ok, f"becomes {show(some)[:400]}")
        else:
            for nv, ov in [(("sum", 0, ()), ("sum", 0, ()))] + [(("sum", 1, (a,)), ("sum", 1, (b,))) for a, b in values(t)]:
                def ops(e, op, vs):
                    if is_t(op, "sget"):
                        if vs != [("arr", "a"), ("ix", "i")]:
                            raise rt.Wrong(f"element access with {vs}")
                        return [nv]
                    q = rt.op_in(op)
                    if q is not None and q.a[:2] == (BO, "make_opaque"):
                        return [("opaque", e.bool(vs[0]))]
                    return None
                try:
                    out = rt.Eval(o, {}, ops).run(rt.hugr_of(some), [("arr", "a"), ("ix", "i")])
                except rt.Wrong as x:
                    out = str(x)
                cx.check(rule, key + f" holding {ov}", out == [ov], f"gives {out}")
    for k, lo in (("element", 2), ("get", len(ELEMS)), ("len", len(ELEMS)), ("const", len(ELEMS)), ("type", len(ELEMS))):
        cx.floor(rule, f"replacements of {k}", n.get(k, 0), lo)


def run(cx):
    cx.guard("pass", "replacement pass", replacements, cx)
    cx.guard("constant arrays keep their elements", "static arrays", static_arrays, cx)
    cx.guard("code generation", "boolean code generator", codegen, cx)
    cx.assume("ReplaceTypes applies each registered replacement to every occurrence of its target")
    cx.assume("hugr's logic, integer comparison, option and borrow-array operations have their documented meaning")


def replacements(cx):
    g = sig.Sig(cx)
    key = cx.key(PASS)
    it, outs = cx.run(key, {}, on_call=rt.RT(inner=consts, calls=calls), max_steps=6000000)
    good = 0
    for o in outs:
        if o.kind != "ret":
            cx.fail("pass", "completes", f"the pass ends with {o.kind}: {show(o.value) if o.value else o.st.cutreason}")
            continue
        v = it.reify(o.st, o.value)
        if v.k == "adt" and v.a[1] == "Err":
            continue
        good += 1
        one_path(cx, g, o)
    cx.floor("coverage", "successful paths of the pass", good, 1)


def find(regs, kind, path, name):
    return [r for k, r in regs if k == kind and is_op(r[0], path, name)]


def one_path(cx, g, o):
    R = rt.Reg(o)
    rule = "replacements are applied to the program"
    runs = [(r, h, regs) for r, h, regs in R.runs if show(h) == "hugr"]
    main = [(r, regs) for r, h, regs in runs if any(k == "type" and "tket.bool" in show(x[0]) for k, x in regs)]
    if not cx.check(rule, "boolean replacement", len(main) == 1, f"{len(main)} replacements of the boolean type are applied"):
        return
    rid, regs = main[0]
    rule = "type of replaced booleans"
    for k, x in regs:
        if k == "type" and "tket.bool" in show(x[0]):
            want = {"t": "Sum"}
            ty = rows(g, x[1])
            cx.check(rule, "bool", ty == [["sumbool"], ["Future"]], f"booleans become {ty}, required a boolean or a pending boolean")
    boolops(cx, g, o, regs)
    constants(cx, o, R, rid)
    measures(cx, g, o, regs)
    arrays(cx, o, R, rid, regs)


def rows(g, t):
    while is_t(t) and not t.a[0].endswith("SumType::new") and len(t.a) == 2:
        t = t.a[1]
    if is_t(t) and t.a[0].endswith("SumType::new"):
        t = t.a[1]
    if t.k != "seq":
        return show(t)[:200]
    r = []
    for x in t.a[0]:
        xs = x.a[0] if x.k == "seq" else [x]
        r.append([kind(g, y) for y in xs])
    return r


def kind(g, t):
    j = g.type(t)
    k = K(j)
    return k


def boolops(cx, g, o, regs):
    rule = "replacement keeps the truth table"
    vs = [v["name"] for v in cx.P.adt_variants(BO) or []]
    cx.floor("coverage", "boolean operations", len(vs), 7)
    for op in vs:
        if op not in TRUTH:
            cx.fail(rule, op, "no truth table is known for this operation")
            continue
        ts = find(regs, "op", BO, op)
        if not cx.check(rule, f"{op} is replaced", len(ts) >= 1, "no replacement is registered, although the boolean type is replaced"):
            continue

        def go():
            tmpl = ts[-1][1]
            body = g.of(BO, Adt(BO, op, ()))["body"]
            ins, outs = [K(x) for x in body["input"]], [K(x) for x in body["output"]]
            opts = []
            for i, k in enumerate(ins):
                if k == "sumbool":
                    opts.append([(("sum", b, ()), {}, b) for b in (0, 1)])
                else:
                    opts.append([(v, f, b) for b in (0, 1) for v, f in reps(b, f"f{i}")])
            for combo in itertools.product(*opts):
                outcome = {}
                for _, f, _ in combo:
                    outcome.update(f)
                key = f"{op} of " + ", ".join(f"{'pending' if f else 'plain'} {b}" for _, f, b in combo)
                try:
                    r, e = evaluate(o, tmpl, [v for v, _, _ in combo], outcome)
                    if len(r) != 1:
                        raise rt.Wrong(f"{len(r)} results")
                    got = val(r[0], outcome) if outs[0] != "sumbool" else r[0][1] if r[0][0] == "sum" and r[0][2] == () else r[0]
                except rt.Wrong as x:
                    cx.fail(rule, key, str(x))
                    continue
                want = TRUTH[op](*[b for _, _, b in combo])
                cx.check(rule, key, got == want, f"the replacement gives {got}, required {want}")
        cx.guard(rule, op, go)


def constants(cx, o, R, rid):
    rule = "constants keep their value"
    n = 0
    for r, what, label, v in R.res:
        if r != rid or not label.a[1].startswith("const"):
            continue
        b = int(label.a[1][-1])
        n += 1
        x = v.a[2][0] if v.k == "adt" and v.a[1] in ("Ok", "Some") else v
        x = rt.unwrapped(x)
        ok = is_t(x) and x.a[0].endswith("::sum") and is_c(x.a[1], "int") and x.a[1].a[1] == 0 and x.a[2].k == "seq" and len(x.a[2].a[0]) == 1
        y = x.a[2].a[0][0] if ok else None
        ok = ok and is_t(y) and y.a[0].endswith("from_bool") and is_c(y.a[1], "bool") and int(y.a[1].a[1]) == b
        cx.check(rule, f"constant {bool(b)}", ok, f"becomes {show(x)[:300]}, required the plain boolean {bool(b)}")
    cx.check(rule, "constants are replaced", n == 2, "no replacement for boolean constants is registered")


def measures(cx, g, o, regs):
    rule = "measurement delivers its own outcome"
    todo = [(TK, "MeasureFree")]
    for v in cx.P.adt_variants(QS) or []:
        body = g.of(QS, Adt(QS, v["name"], ()))["body"]
        if any(K(x) == "bool" for x in body["input"] + body["output"]):
            todo.append((QS, v["name"]))
    cx.floor("coverage", "measurements returning booleans", len(todo), 3)
    for path, op in todo:
        name = path.rsplit("::", 1)[1] + "::" + op
        ts = find(regs, "op", path, op)
        if not cx.check(rule, f"{name} is replaced", len(ts) >= 1, "no replacement is registered, although its result type is replaced"):
            continue

        def go():
            outs = [K(x) for x in g.of(path, Adt(path, op, ()))["body"]["output"]]
            for b in (0, 1):
                outcome = {"m0": ("sum", b, ())}
                try:
                    r, e = evaluate(o, ts[-1][1], [("q", "q")], outcome)
                    meas = [t for t in e.trace if t[0].startswith("LazyMeasure")]
                    want = "LazyMeasureReset" if "qubit" in outs else "LazyMeasure"
                    cx.check(rule, f"{name} measures", [t[0] for t in meas] == [want] and meas[0][1] == "q", f"performs {meas}, required {want} of the qubit")
                    shape = ["qubit" if x[0] == "q" else "bool" for x in r]
                    if not cx.check(rule, f"{name} outputs", shape == outs, f"outputs {shape}, required {outs}"):
                        continue
                    got = val(r[outs.index("bool")], outcome)
                    cx.check(rule, f"{name} with outcome {b}", got == b, f"delivers {got}")
                except rt.Wrong as x:
                    cx.fail(rule, f"{name} with outcome {b}", str(x))
        cx.guard(rule, name, go)


def array_ops(e, op, vs):
    s = show(op)
    if "ifromusize" in s:
        return [vs[0]]
    m = re.search(r"IntOpDef::(\w+)", s)
    if m:
        f = {"ilt_u": lambda x, y: x < y, "ilt_s": lambda x, y: x < y, "ile_u": lambda x, y: x <= y, "ile_s": lambda x, y: x <= y, "igt_u": lambda x, y: x > y,
             "ige_u": lambda x, y: x >= y, "ieq": lambda x, y: x == y, "ine": lambda x, y: x != y}.get(m.group(1))
        if f is None:
            raise Incomplete(f"integer operation {m.group(1)}")
        return [("sum", int(f(*vs)), ())]
    m = re.search(r"BArrayUnsafeOpDef::(\w+|r#\w+)", s)
    if m:
        nm = m.group(1).replace("r#", "")
        if nm == "borrow":
            arr, i = vs
            if i >= len(arr[1]) or arr[1][i] is None:
                raise rt.Wrong("borrows an element that is out of range or borrowed")
            return [("arr", arr[1][:i] + (None,) + arr[1][i + 1:]), arr[1][i]]
        if nm == "return":
            arr, i, x = vs
            if i >= len(arr[1]) or arr[1][i] is not None:
                raise rt.Wrong("returns an element that was not borrowed")
            return [("arr", arr[1][:i] + (x,) + arr[1][i + 1:])]
    return None


def arrays(cx, o, R, rid, regs):
    rule = "array access keeps the elements"
    pops = [r for k, r in regs if k == "pop"]
    linear = {r[0]: len(r) > 2 and "with_linearization" in show(r[2]) and "true" in show(r[2]) for r in pops}
    done = {"clone": 0, "discard": 0, "get": 0}
    for r, what, label, v in R.res:
        if r != rid or not re.match(r"\d", label.a[1]):
            continue
        n, t = label.a[1].split()
        n = int(n)
        s = repr(what)
        nm = "clone" if "ARRAY_CLONE" in s else "discard" if "ARRAY_DISCARD" in s else "get" if "::get" in show(what) else None
        if nm is None:
            cx.fail(rule, show(what)[:120], "an array operation is replaced for which no meaning is known")
            continue
        key = f"{nm} on {n} elements"
        if t == "copytype":
            cx.check(rule, key + " that are copyable", v.k == "adt" and v.a[1] == "None", "replaced although the element type needs no change")
            continue
        if not cx.check(rule, key + " is replaced", v.k == "adt" and v.a[1] == "Some", "not replaced although the elements can no longer be copied"):
            continue

        def go():
            tm = v.a[2][0]
            done[nm] += 1
            if nm == "discard":
                cx.check(rule, key, "'drop'" in show(tm) and "GUPPY_EXTENSION" in repr(tm), f"replaced by {show(tm)[:200]}, required a drop")
                return
            cx.check(rule, key + " copies by reference count", linear.get(what), "copies of elements are not turned into duplications")
            els = tuple(f"e{i}" for i in range(n))
            if nm == "clone":
                e = rt.Eval(o, {}, array_ops)
                out = e.run(rt.hugr_of(tm), [("arr", els)])
                cx.check(rule, key, out == [("arr", els)] * 2, f"gives {out}, required two copies")
                return
            for i in range(n + 2):
                e = rt.Eval(o, {}, array_ops)
                try:
                    out = e.run(rt.hugr_of(tm), [("arr", els), i])
                except rt.Wrong as x:
                    cx.fail(rule, key + f" at index {i}", str(x))
                    continue
                want = [("sum", 1, (els[i],)) if i < n else ("sum", 0, ()), ("arr", els)]
                cx.check(rule, key + f" at index {i}", out == want, f"gives {out}, required {want}")
        cx.guard(rule, key, go)
    for k, lo in (("clone", 2), ("discard", 2), ("get", 1)):
        cx.floor(rule, f"replacements of array {k}", done[k], lo)


def codegen(cx):
    rule = "compiled boolean operation keeps the truth table"
    g = sig.Sig(cx)
    for v in cx.P.adt_variants(BO) or []:
        op = v["name"]
        if op not in TRUTH:
            continue

        def go():
            body = g.of(BO, Adt(BO, op, ()))["body"]
            ins, outs = [K(x) for x in body["input"]], [K(x) for x in body["output"]]
            n = 0
            rs = ll.drive(cx, "BoolCodegenExtension", ("op", Adt(BO, op, ()), ll.args_of(len(ins), ["i1" if k == "bool" else None for k in ins])))
            for it, o, p, ret in rs:
                if p is None:
                    cx.fail(rule, op, ll.failure(o, ret))
                    continue
                n += 1
                for bs in itertools.product((0, 1), repeat=len(ins)):
                    key = f"{op} of {', '.join(map(str, bs))}"
                    try:
                        r = ll.Run(p, [("sum", b, ()) if k == "sumbool" else b for k, b in zip(ins, bs)])
                    except ll.Bad as x:
                        cx.fail(rule, key, str(x))
                        continue
                    want = TRUTH[op](*bs)
                    want = [("sum", want, ()) if k == "sumbool" else want for k in outs]
                    cx.check(rule, key, r.out == want and not r.dead and not r.trace, f"the emitted code gives {r.out}, required {want}")
            cx.check(rule, op, n > 0, "no code is generated")
        cx.guard(rule, op, go)
    rule = "compiled boolean constant"
    for b in (0, 1):
        def gc():
            rs = ll.drive(cx, "BoolCodegenExtension", ("const", Adt(CB, "ConstBool", [B(b)])))
            ok = len(rs) >= 1
            for it, o, p, ret in rs:
                ok = ok and p is not None and ll.type_of(ret) == ll.ty("i1") and ll.Run(p, []).val(ret) == b
            cx.check(rule, str(bool(b)), ok, f"compiled to {[show(x[3]) for x in rs if x[3]]}")
        cx.guard(rule, str(b), gc)
    rule = "compiled boolean type"

    def gt():
        rs = ll.drive(cx, "BoolCodegenExtension", ("type", ".", T("customty")))
        cx.check(rule, "bool", len(rs) == 1 and rs[0][3] == ll.ty("i1"), f"compiled to {[show(x[3]) for x in rs if x[3]]}")
    cx.guard(rule, "bool", gt)
