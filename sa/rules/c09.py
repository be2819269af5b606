"""C09: reference counts of pending results. (1) the code generator of every future operation is executed abstractly for every result type;
the emitted calls are accounted against the references the operation receives and hands on. (2) the replacements that lower booleans, copies
and drops are collected by abstract execution: copies of pending results become duplicate operations and discards become free operations,
and every replacement circuit uses each pending result exactly once on every path. (3) measurements deliver one reference to a new result."""
import itertools
import ll, sig, rt
from rules import c07, c08
from interp import mk, I, B, S, T, Adt, Seq, Some, Ok, is_t, is_c, show, Incomplete, DEFAULT

FO = "tket_qsystem::extension::futures::FutureOpDef"
FOP = "tket_qsystem::extension::futures::FutureOp"
INC, DEC = "___inc_future_refcount", "___dec_future_refcount"
READS = {"___read_future_bool": "bool", "___read_future_uint": "int6"}
TYPES = ["bool", "int6", "int5", "qubit"]
DROPS = r"^<tket_qsystem::lower_drops::LowerDropsPass as hugr_passes::composable::ComposablePass<H>>::run$"


def same_type(name, s):
    """does the type written s denote the result type `name`?"""
    if "INT_TYPES" in s:
        return name.startswith("int") and f"[{name[3:]}]" in s
    if "bool_t" in s:
        return name == "bool"
    raise Incomplete(f"comparison of the result type with {s[:100]}")


def hook(opval):
    def h(it, st, c, a):
        nm = c.def_.rsplit("::", 1)[1]
        if nm in ("from_optype", "from_op", "from_extension_op") and "FutureOp" in c.full:
            d = "FutureOpDef" in c.full.split(" as ")[0]
            r = opval.a[2][0] if d else opval
            return (Some if nm == "from_optype" else Ok)(r)
        if nm in ("eq", "ne") and len(a) == 2:
            x, y = [it.reify(st, it.content(st, z)) for z in a]
            for u, v in ((x, y), (y, x)):
                if is_t(u, "rty"):
                    return B(same_type(u.a[1].a[1], show(v)) == (nm == "eq"))
        return DEFAULT
    return h


def codegen(cx):
    rule = "references balance on every path of the generated code"
    g = sig.Sig(cx)
    ops = [v["name"] for v in cx.P.adt_variants(FO) or []]
    cx.floor("coverage", "future operations", len(ops), 3)
    supported = set()
    for ty in TYPES:
        def gt():
            t = ("type", ".", T("futcustom", S(ty)))

            def th(it, st, c, a):
                nm = c.def_.rsplit("::", 1)[1]
                x = it.reify(st, it.content(st, a[0])) if a else S("")
                if is_t(x, "futcustom"):
                    if nm == "name":
                        return S("Future")
                    if nm == "args":
                        return Seq([Adt(c07.TM, "Runtime", [T("rty", x.a[1])])])
                return hook(None)(it, st, c, a) if nm in ("eq", "ne") else DEFAULT
            for it, o, p, ret in ll.drive(cx, "FuturesCodegenExtension", t, hook=th):
                if p is not None:
                    supported.add(ty)
                    cx.check("pending results are runtime handles", ty, ret == ll.ty("i64"), f"represented as {show(ret)}")
        cx.guard("pending results are runtime handles", ty, gt)
    cx.check("pending results are runtime handles", "supported result types", supported == {"bool", "int6"},
             f"pending results of types {sorted(supported)} have a representation; the runtime can read booleans and 64 bit integers")
    for op in ops:
        def ops_():
            body = g.of(FO, Adt(FO, op, ()))["body"]
            ins = [sig.kind(x) for x in body["input"]]
            outs = [sig.kind(x) for x in body["output"]]
            nin, nout = sum("Future" in k for k in ins), sum("Future" in k for k in outs)
            cx.check("signature of future operations", op, (nin, nout, len(ins), len(outs)) == {"Read": (1, 0, 1, 1), "Dup": (1, 2, 1, 2), "Free": (1, 0, 1, 0)}.get(op),
                     f"takes {ins} and returns {outs}")
            for ty in TYPES:
                key = f"{op} of {ty}"
                opval = Adt(FOP, "FutureOp", [Adt(FO, op, ()), T("rty", S(ty))])
                good = 0
                for it, o, p, ret in ll.drive(cx, "FuturesCodegenExtension", ("op", Adt(FO, op, ()), ll.args_of(len(ins), ["i64"] * len(ins))), hook=hook(opval)):
                    if p is None:
                        if o.kind != "ret" or ret is None:
                            cx.fail(rule, key, ll.failure(o, ret))
                        continue
                    good += 1
                    for val in (0, 1) if ty == "bool" else (12345, 0):
                        account(cx, rule, key, p, op, ty, nin, outs, val)
                if ty in supported:
                    cx.check(rule, key + " is generated", good > 0, "no code is generated")
                else:
                    cx.check(rule, key, good == 0 or op != "Read", "code is generated for a result type the runtime cannot read")
        cx.guard(rule, op, ops_)


def account(cx, rule, key, p, op, ty, nin, outs, val):
    try:
        r = ll.Run(p, [f"f{i}" for i in range(nin)], lambda nm, a, n: val if nm in READS else None)
    except ll.Bad as x:
        return cx.fail(rule, key, str(x))
    count = {f"f{i}": 1 for i in range(nin)}
    reads = 0
    for nm, a, _ in r.trace:
        f = a[0] if len(a) == 1 else None
        if f not in count:
            return cx.fail(rule, key, f"{nm} is called on {a}")
        if count[f] <= 0:
            return cx.fail(rule, key, f"{nm} is called after the last reference was given back")
        if nm == INC:
            count[f] += 1
        elif nm == DEC:
            count[f] -= 1
        elif nm in READS:
            reads += 1
            if READS[nm] != ty:
                return cx.fail(rule, key, f"a pending {ty} is read by {nm}")
        else:
            return cx.fail(rule, key, f"unknown runtime routine {nm}")
    cx.check(rule, key + " declares its routines", all(is_t(t, "fnty") and len(t.a[2].a[0]) == 1 and t.a[2].a[0][0] == ll.ty("i64")
             and t.a[1] == ll.ty({"___read_future_bool": "i1", "___read_future_uint": "i64"}.get(n, "void")) for n, ts in p.externs.items() for t in ts),
             "a runtime routine is declared with the wrong type")
    out = r.out if r.out is not None else []
    if not cx.check(rule, key + " outputs", len(out) == len(outs) and not r.dead, f"{len(out)} outputs, declared {len(outs)}"):
        return
    for k, x in zip(outs, out):
        if "Future" in k:
            if x not in count:
                return cx.fail(rule, key, f"returns {x} as a pending result")
            count[x] -= 1
    cx.check(rule, key, all(v == 0 for v in count.values()), f"references left over after the operation: {count}")
    if op == "Read":
        w = ("sum", val, ()) if ty == "bool" else val
        cx.check(rule, key + f" delivers {val}", reads == 1 and out == [w], f"reads {reads} times and delivers {out}")
    else:
        cx.check(rule, key + " does not wait", reads == 0, "the result is read by an operation that does not read")


def future_of(t, name="bool_t"):
    s = show(t)
    return "FUTURE_TYPE_NAME" in s and name in s and "tket.futures" in s


def linearisation(cx, o, regs, key):
    rule = "copies duplicate and discards free"
    lins = [x for k, x in regs if k == "lin" and future_of(x[0])]
    if not cx.check(rule, f"{key}: pending booleans", len(lins) == 1 and len(lins[0]) == 3, "no copy and discard operations are registered for pending booleans"):
        return
    ty, dup, free = lins[0]
    for name, tm, want in (("copy", dup, "Dup"), ("discard", free, "Free")):
        op = rt.op_in(tm.a[2][0]) if tm.k == "adt" and tm.a[1] == "SingleOp" else None
        ok = op is not None and op.a[0] == FOP and op.a[2][0].a[1] == want and "bool_t" in show(op.a[2][1])
        cx.check(rule, f"{key}: {name}", ok, f"{name} is lowered to {show(tm)[:200]}, required {want} of a pending boolean")


def passes(cx):
    rule = "replacement uses each pending result exactly once"
    g = sig.Sig(cx)
    key = cx.key(c07.PASS)
    it, outs = cx.run(key, {}, on_call=rt.RT(inner=c07.consts), max_steps=6000000)
    n = 0
    for o in outs:
        if o.kind != "ret" or (it.reify(o.st, o.value).k == "adt" and it.reify(o.st, o.value).a[1] == "Err"):
            continue
        R = rt.Reg(o)
        main = [(r, regs) for r, h, regs in R.runs if show(h) == "hugr" and any(k == "type" and "tket.bool" in show(x[0]) for k, x in regs)]
        if not cx.check("copies duplicate and discards free", "boolean replacement is applied", len(main) == 1, "not found"):
            continue
        n += 1
        regs = main[0][1]
        linearisation(cx, o, regs, "boolean replacement")
        copying = [x for k, x in regs if k == "pop" and ("ARRAY_CLONE" in repr(x[0]) or "::get" in show(x[0]))]
        cx.check("copies duplicate and discards free", "array operations that copy elements are found", len(copying) >= 2, f"{len(copying)} found")
        for x in copying:
            cx.check("copies duplicate and discards free", "elements copied by " + ("clone" if "ARRAY_CLONE" in repr(x[0]) else "get"),
                     len(x) > 2 and "with_linearization" in show(x[2]) and "true" in show(x[2]), "the copy of the elements takes no references")
        for k, x in regs:
            if k != "op":
                continue
            op = rt.op_in(x[0])
            if op is None or op.a[0] not in (c07.BO, c07.QS, c07.TK):
                cx.fail(rule, show(x[0])[:100], "an operation is replaced for which no signature is known")
                continue

            def go():
                name = op.a[0].rsplit("::", 1)[1] + "::" + op.a[1]
                ins = [c07.K(t) for t in g.of(op.a[0], op)["body"]["input"]]
                opts = []
                for i, kd in enumerate(ins):
                    if kd == "bool":
                        opts.append([z for b in (0, 1) for z in c07.reps(b, f"f{i}")])
                    elif kd == "qubit":
                        opts.append([(("q", f"q{i}"), {})])
                    else:
                        opts.append([(("sum", b, ()), {}) for b in (0, 1)])
                for combo in itertools.product(*opts):
                    outcome = {"m0": ("sum", 0, ())}
                    for _, f in combo:
                        outcome.update(f)
                    pend = [f for _, fs in combo for f in fs]
                    k2 = f"{name} with {len(pend)} pending operands"
                    try:
                        r, e = c07.evaluate(o, x[1], [v for v, _ in combo], outcome)
                        cx.check(rule, k2, True)
                    except rt.Wrong as w:
                        cx.fail(rule, k2, str(w))
            cx.guard(rule, show(op), go)
    cx.floor("coverage", "paths of the boolean replacement", n, 1)

    rule = "drops of guppy values free what they hold"
    key = cx.key(DROPS)
    it, outs = cx.run(key, {}, on_call=rt.RT(calls=lambda kind, a: [("drop", a[1], [Seq([Adt(c07.TM, "Runtime", [T("dropped")])])])] if kind == "pop" else []))
    n = 0
    for o in outs:
        if o.kind != "ret":
            cx.fail(rule, "completes", f"ends with {o.kind}")
            continue
        R = rt.Reg(o)
        runs = [(r, regs) for r, h, regs in R.runs if show(h) == "hugr"]
        if not cx.check(rule, "applied to the program", len(runs) == 1, "the replacement is not applied"):
            continue
        n += 1
        regs = runs[0][1]
        linearisation(cx, o, regs, "lowering of drops")
        pops = [x for k, x in regs if k == "pop" and "GUPPY_EXTENSION" in repr(x[0]) and "'drop'" in show(x[0]) or "DROP_OP_NAME" in repr(x[0])]
        if not cx.check(rule, "drop is lowered", len(pops) == 1, "the drop operation is not replaced"):
            continue
        x = pops[0]
        cx.check(rule, "discarded by type", len(x) > 2 and "with_linearization" in show(x[2]) and "true" in show(x[2]), "the dropped value is not discarded according to its type")
        for r, what, label, v in R.res:
            t = v.a[2][0] if v.k == "adt" and v.a[1] == "Some" else None
            ok = t is not None and t.k == "adt" and t.a[1] == "CompoundOp"
            if not cx.check(rule, "drop becomes a discarding circuit", ok, f"becomes {show(v)[:200]}"):
                continue
            h = rt.hugr_of(t)
            b = h.a[1]
            ev = [e for e in o.events if e.fn in ("circ::connect", "circ::set_outputs") or e.fn == "circ::node"]
            s = show(b)
            cx.check(rule, "drop takes the value and returns nothing", is_t(h, "taken") and not ev and ("dropped(), [])" in s or "[dropped()], [])" in s),
                     f"circuit {show(h)[:200]} with {[e.fn for e in ev]}")
    cx.floor("coverage", "paths of the lowering of drops", n, 1)


def futuretype(cx):
    """pending results cannot be copied silently"""
    rule = "pending results are linear"
    key = cx.key(r"^tket_qsystem::extension::futures::future_type$")
    it, outs = cx.run(key, {})
    for o in outs:
        s = show(it.reify(o.st, o.value))
        cx.check(rule, "type of pending results", o.kind == "ret" and "TypeBound::Linear" in s and "Copyable" not in s, f"declared as {s[:200]}")


def run(cx):
    cx.guard("code generation", "future operations", codegen, cx)
    cx.guard("passes", "lowering passes", passes, cx)
    cx.guard("pending results are linear", "future_type", futuretype, cx)
    measures(cx)
    cx.assume("ReplaceTypes inserts the registered duplicate and free operations for every copy and discard (hugr's linearizer)")
    cx.assume("the runtime's measurement routines hand one reference to the caller; the emitted instructions have LLVM semantics")


def measures(cx):
    """a lazy measurement hands on the handle the runtime gave it, without touching its count"""
    rule = "measurement hands on its reference"
    for op in c08.DEVICE:
        if not op.startswith("Lazy"):
            continue

        def go():
            g = sig.Sig(cx)
            ins = g.of(c08.QS, Adt(c08.QS, op, ()))["body"]["input"]
            n = 0
            for it, o, p, ret in ll.drive(cx, "QSystemCodegenExtension", ("op", Adt(c08.QS, op, ()), ll.args_of(len(ins)))):
                if p is None:
                    cx.fail(rule, op, ll.failure(o, ret))
                    continue
                n += 1
                r = ll.Run(p, ["q"], lambda nm, a, k: f"{nm}#{k}")
                fs = [x for x in r.out if isinstance(x, str) and "measure" in x]
                cx.check(rule, op, len(fs) == 1 and not any("refcount" in c[0] for c in r.trace), f"outputs {r.out} after {[c[0] for c in r.trace]}")
            cx.check(rule, op + " is generated", n > 0, "no code is generated")
        cx.guard(rule, op, go)
