"""C10: the code generators of result and state-result operations are executed abstractly for every operation, several labels and array
lengths; the emitted instructions are interpreted, and the single runtime call is compared with the operation: routine of the data type,
pointer to a length-prefixed tag that names the data type and the label, tag length, and the value or the array descriptor in memory."""
import re
import ll, sig
from interp import mk, I, S, T, Adt, Tup, Seq, Ok, is_t, is_c, show, Incomplete, DEFAULT

EXT = "tket_qsystem::extension::result::"
RD = EXT + "ResultOpDef"
SR = "tket::extension::debug::StateResult"
# operation: routine, type in tag, array?, data pointer type, value parameter type
OPS = {"Bool": ("print_bool", "BOOL", False, "i1"), "Int": ("print_int", "INT", False, "i64"), "UInt": ("print_uint", "INT", False, "i64"),
       "F64": ("print_float", "FLOAT", False, "double"), "ArrBool": ("print_bool_arr", "BOOLARR", True, "i1"), "ArrInt": ("print_int_arr", "INTARR", True, "i64"),
       "ArrUInt": ("print_uint_arr", "INTARR", True, "i64"), "ArrF64": ("print_float_arr", "FLOATARR", True, "double")}
LABELS = ["c", "my result", "UPPER:x", "a" * 40, "ü√"]
LENGTHS = [0, 1, 2, 7, 33]


def hook(opval, name):
    def h(it, st, c, a):
        if c.def_.endswith("from_extension_op") and name in c.full:
            return Ok(opval)
        if c.def_.endswith("::array_to_ptr"):
            return Ok(ll.X("arrptr", it.reify(st, a[-1])))
        return DEFAULT
    return h


def tag_of(p, r, ptr):
    if not (isinstance(ptr, tuple) and ptr[0] == "global" and ptr[1] in p.globals):
        return None
    return ll.string_bytes(p.globals[ptr[1]])


def array_ok(r, mem, ptr, n, data, dty):
    """descriptor: length, 1, data pointer, pointer to n zero mask entries"""
    if not (isinstance(ptr, tuple) and ptr[0] == "mem" and ptr[2] == ()):
        return f"the array argument is {ptr}, not a descriptor"
    f = [mem.get(("mem", ptr[1], (i,))) for i in range(4)]
    if f[0] != n or f[1] != 1:
        return f"the descriptor has dimensions {f[0]} x {f[1]}, required {n} x 1"
    if f[2] != data:
        return f"the descriptor points to {f[2]}, not to the array's elements"
    m = mem.get(f[3]) if isinstance(f[3], tuple) else None
    if m is None or m[0] != "struct" or list(m[1:]) != [0] * n:
        return f"the mask is {m}, required {n} zeros"
    if mem.get(("size", f[3][1])) not in (n, None):
        return f"the mask has room for {mem.get(('size', f[3][1]))} entries"
    return None


def desc_type(t, dty):
    """pointer to { i32, i32, data*, i1* }"""
    want = T("ptr", T("structty", Seq([ll.ty("i32"), ll.ty("i32"), T("ptr", ll.ty(dty)), T("ptr", ll.ty("i1"))])))
    return t == want


def one(cx, rule, key, gen, want, opval, opname, args, fn, tag, nargs_out, array, val, dty, valtype):
    good = 0
    for it, o, p, ret in ll.drive(cx, gen, want, hook=hook(opval, opname), max_steps=400000):
        if p is None:
            cx.fail(rule, key, ll.failure(o, ret))
            continue
        good += 1
        inputs = {"sum0": ("sum", 0, ()), "sum1": ("sum", 1, ())}
        for v in val:
            try:
                r = ll.Run(p, [v])
            except ll.Bad as e:
                return cx.fail(rule, key, str(e))
            if [c[0] for c in r.trace] != [fn]:
                return cx.fail(rule, key, f"calls {[c[0] for c in r.trace]}, required a single call of {fn}")
            nm, a, mem = r.trace[0]
            if len(a) != 3:
                return cx.fail(rule, key, f"{fn} is called with {len(a)} arguments")
            b = tag_of(p, r, a[0])
            w = tag.encode()
            if not cx.check(rule, key, b == [len(w)] + list(w), f"the tag is {bytes(b) if b else show(T('x', S(str(a[0]))))}, required {bytes([len(w)]) + w}"):
                return
            if not cx.check(rule, key, a[1] == len(w), f"the tag length is given as {a[1]}, required {len(w)}"):
                return
            if array is None:
                x = v[1] if isinstance(v, tuple) else v
                if not cx.check(rule, key, a[2] == x, f"the reported value is {a[2]}, required {x}"):
                    return
            else:
                msg = array_ok(r, mem, a[2], array, ("arrptr", v), dty)
                if not cx.check(rule, key, msg is None, msg or ""):
                    return
            if not cx.check(rule, key, r.out == [v][:nargs_out] and not r.dead, f"outputs {r.out}"):
                return
            for t in p.externs[fn]:
                ps = t.a[2].a[0] if is_t(t, "fnty") else []
                i8p = T("ptr", ll.ty("i8"))
                ok = len(ps) == 3 and t.a[1] == ll.ty("void") and ps[0] == i8p and ps[1] == ll.ty("i64") and (desc_type(ps[2], dty) if array is not None else ps[2] == ll.ty(valtype))
                if not cx.check(rule, key, ok, f"{fn} is declared as {show(t)}"):
                    return
    cx.check(rule, key, good > 0, "no successful path of the code generator")


def run(cx):
    rule = "result reported through the routine, tag and length of its operation"
    ops = [v["name"] for v in cx.P.adt_variants(RD) or []]
    cx.floor("coverage", "result operations", len(ops), 8)
    for op in ops:
        if op not in OPS:
            cx.fail(rule, op, "no meaning is known for this operation")
            continue
        fn, tag, arr, dty = OPS[op]
        simple = Adt(EXT + "SimpleArgs", "Int", [I(6)]) if "Int" in op else Adt(EXT + "SimpleArgs", "Basic", ())
        for lab in LABELS:
            for n in (LENGTHS if arr else [None]):
                if arr and lab not in LABELS[:2] and not cx.thorough and n != 2:
                    continue
                ra = Adt(EXT + "ResultArgs", "Array", [simple, I(n)]) if arr else Adt(EXT + "ResultArgs", "Simple", [simple])
                opval = Adt(EXT + "ResultOp", "ResultOp", [S(lab), Adt(RD, op, ()), ra])
                key = f"{op} labelled {lab!r}" + (f" of length {n}" if arr else "")
                val = ["v"] if op != "Bool" else [("sum", 0, ()), ("sum", 1, ())]
                cx.guard(rule, key, one, cx, rule, key, "ResultsCodegenExtension", ("op", Adt(RD, op, ()), ll.args_of(1)), opval, "ResultOp", None,
                         fn, f"USER:{tag}:{lab}", 0, n, val, dty, dty)
    rule = "state reported with its tag and qubits, which are returned"
    for lab in LABELS:
        for n in LENGTHS:
            opval = Adt(SR, "StateResult", [S(lab), I(n)])
            key = f"StateResult labelled {lab!r} of {n} qubits"
            cx.guard(rule, key, one, cx, rule, key, "DebugCodegenExtension", ("named", ".", ".", ll.args_of(1)), opval, "StateResult", None,
                     "print_state_result", f"USER:STATE:{lab}", 1, n, ["v"], "i64", None)

    def reg():
        r = ll.registered(cx, "DebugCodegenExtension")
        g = sig.Sig(cx)
        nm = [(g.string(a[0]), g.string(a[1])) for a in r["named"]]
        cx.check(rule, "registered under the operation's name", nm == [("tket.debug", "StateResult")], f"registered for {nm}")
    cx.guard(rule, "registration", reg)
    rule = "empty label refused"
    for op in ops:
        def go():
            fn, tag, arr, dty = OPS[op]
            simple = Adt(EXT + "SimpleArgs", "Basic", ())
            ra = Adt(EXT + "ResultArgs", "Array", [simple, I(2)]) if arr else Adt(EXT + "ResultArgs", "Simple", [simple])
            opval = Adt(EXT + "ResultOp", "ResultOp", [S(""), Adt(RD, op, ()), ra])
            rs = ll.drive(cx, "ResultsCodegenExtension", ("op", Adt(RD, op, ()), ll.args_of(1)), hook=hook(opval, "ResultOp"))
            cx.check(rule, op, rs and all(p is None for _, _, p, _ in rs), "a result without a label is reported")
        cx.guard(rule, op, go)
    rule = "label too long for its length prefix refused"
    for n in (241, 242, 250, 300):
        def go():
            opval = Adt(EXT + "ResultOp", "ResultOp", [S("b" * n), Adt(RD, "F64", ()), Adt(EXT + "ResultArgs", "Simple", [Adt(EXT + "SimpleArgs", "Basic", ())])])
            rs = ll.drive(cx, "ResultsCodegenExtension", ("op", Adt(RD, "F64", ()), ll.args_of(1)), hook=hook(opval, "ResultOp"), max_steps=800000)
            total = len("USER:FLOAT:") + n
            ok = [p for _, _, p, _ in rs if p is not None]
            if total > 255:
                cx.check(rule, str(n), rs and not ok, f"a tag of {total} bytes is emitted with a one byte length")
            else:
                b = [ll.string_bytes(g) for p in ok for g in p.globals.values()]
                cx.check(rule, str(n), ok and all(x and x[0] == total == len(x) - 1 for x in b), "a tag of fewer than 256 bytes is not emitted")
        cx.guard(rule, str(n), go)
    elements(cx)
    cx.assume("the emitted instructions have LLVM semantics")
    cx.assume("runtime routine names, tag prefixes and the descriptor layout (x, y, data, mask) are those of the runtime interface")


def elements(cx):
    """array_to_ptr of both array representations yields a pointer to the first element of that array"""
    rule = "pointer to the array's own elements"
    for gen, want in (("HeapArrayLowering", "heap"), ("StackArrayLowering", "stack")):
        def go():
            key = cx.key(r"^<tket_qsystem::llvm::array_utils::" + gen + r"<ACG> as .*ArrayLowering>::array_to_ptr$")
            n = 0
            for it, o, p in ll.emit(cx, key, {"val": T("arg", I(0), T("arrty", ll.ty("i64"), I(5)))}):
                if p is None:
                    continue
                n += 1
                v = it.reify(o.st, o.value).a[2][0]
                r = ll.Run(p, ["arr"])
                x = r.val(v)
                if want == "heap":
                    ok = x == ("gep", ("fatptr", "arr"), ("fatoff", "arr"))
                else:
                    ok = isinstance(x, tuple) and x[0] == "mem" and r.mem.get(x) == "arr" and r.mem.get(("size", x[1])) == 5
                cx.check(rule, gen, ok, f"the pointer is {x}, memory {r.mem}")
            cx.check(rule, gen + " analysed", n > 0, "no result")
        cx.guard(rule, gen, go)
