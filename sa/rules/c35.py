"""C35: the code generators of the prelude (panics, exits, error and string constants) are executed abstractly; the emitted instructions are
interpreted for many codes and messages, and the runtime call and the bytes of the constants are compared with what the runtime expects."""
import ll
from interp import mk, I, B, S, T, Adt, Tup, Seq, Ok, is_t, is_c, show, Incomplete, DEFAULT

G = r"^<tket_qsystem::llvm::prelude::QISPreludeCodegen as .*PreludeCodegen>::%s(::<.*>)?$"
CODES = [0, 1, 2, 42, 1000, 1001, 1023, 65535, 65536, 70001, 2**30, 2**31 - 1001, 2**31 - 1, 2**31, 2**32 - 1]
TEXTS = ["", "a", "PANIC", "EXIT", "a" * 40, "ü√ multi-byte √√√√", "1234567890123", "0123456789" * 23, "x" * 245, "x" * 246, "x" * 247, "x" * 254, "x" * 255,
         "x" * 256, "x" * 300, "é" * 122, "é" * 123, "é" * 127, "é" * 128, "x" * 600, "with\nnewline", "EXIT:INT:twice"]
I8P = T("ptr", ll.ty("i8"))
ERR = T("structty", Seq([ll.ty("i32"), I8P]))


def hook(it, st, c, a):
    nm = c.def_.rsplit("::", 1)[-1]
    if nm == "llvm_type" and len(a) == 2 and "error" in show(it.reify(st, a[1])):
        return Ok(ERR)
    if nm == "get_named_enum_kind_id":
        return I(sum(ord(x) * 31 ** k for k, x in enumerate(it.reify(st, a[0]).a[1])) % 99991 + 1)
    if nm == "as_string" or nm == "value" and "ConstString" in c.full:
        return it.reify(st, a[0]).a[2][0]
    return DEFAULT


hook.first = True
NORETURN = sum(ord(x) * 31 ** k for k, x in enumerate("noreturn")) % 99991 + 1
STR = "hugr_core::extension::prelude::"


def run(cx):
    stops(cx)
    consts(cx)
    kinds(cx)


def declared(p, o):
    t = p.externs.get("panic", [])
    if not t or any(not (is_t(x, "fnty") and x.a[1] == ll.ty("void") and list(x.a[2].a[0]) == [ll.ty("i32"), I8P]) for x in t):
        return f"panic is declared as {[show(x) for x in t]}"
    at = [e for e in o.events if e.fn == "ll::add_attribute"]
    if not any("Function" in show(e.args[1]) and is_t(e.args[2], "iw:create_enum_attribute") and e.args[2].a[1] == I(NORETURN) for e in at):
        return f"panic is not declared as not returning: {[show(x) for e in at for x in e.args]}"
    return None


def stops(cx):
    """panic ends all shots: codes above 1000; exit ends the shot with its own code"""
    for name, shift in (("emit_panic", 1000), ("emit_exit", 0)):
        rule = "a panic ends all shots, an exit its own, with its code and message"
        key = cx.key(G % name)
        good = 0
        for it, o, p in ll.emit(cx, key, [T("self"), T("ctx"), T("arg", I(0))], hook=hook, max_steps=200000):
            if p is None:
                continue
            good += 1
            m = declared(p, o)
            cx.check("the routine that stops is declared as it is", name, m is None, m or "")
            for code in CODES:
                try:
                    r = ll.Run(p, [("struct", code, "message")])
                except ll.Bad as e:
                    cx.fail(rule, name, str(e))
                    break
                got = [(n, [x & (2**32 - 1) if isinstance(x, int) else x for x in a]) for n, a, _ in r.trace]
                if not cx.check(rule, f"{name} {code}", got == [("panic", [(code + shift) & (2**32 - 1), "message"])],
                                f"{name} of code {code} calls {got}, required panic({code + shift}, message)"):
                    break
        cx.floor(rule, f"{name} paths", good, 1)
    key = cx.key(G % "emit_print")
    for it, o, p in ll.emit(cx, key, [T("self"), T("ctx"), T("arg", I(0))], hook=hook, max_steps=200000):
        cx.check("printing to the console calls nothing", "emit_print", p is not None and not [x for b in p.blocks.values() for x in b], "emit_print emits instructions")


def text_at(p, v):
    try:
        r = ll.Run(p, [])
        a = r.val(v)
    except (ll.Bad, KeyError) as e:
        return None
    if isinstance(a, tuple) and a[0] == "global" and a[1] in p.globals:
        b = ll.string_bytes(p.globals[a[1]])
        return bytes(b) if b is not None else None
    return None


def consts(cx):
    rule = "the bytes of a text constant: its length, then the text"
    key = cx.key(G % "emit_const_string")
    for s in TEXTS:
        one(cx, rule, key, f"string of {len(s)}: {s[:20]!r}", Adt(STR + "ConstString", "ConstString", (S(s),)), s.encode(), None)
    key = cx.key(G % "emit_const_error")
    rule = "an error constant holds its code and its message with the tag the runtime looks for"
    for i, s in enumerate(TEXTS):
        for code in (CODES if i in (0, 3) else [42]):
            v = Adt(STR + "ConstError", "ConstError", (I(code), S(s)))
            one(cx, rule, key, f"error {code} of {len(s)}: {s[:20]!r}", v, ("EXIT:INT:" + s).encode(), code)


def one(cx, rule, key, lb, v, text, code):
    good = bad = 0
    for it, o, p in ll.emit(cx, key, [T("self"), T("ctx"), v], hook=hook, max_steps=400000):
        if p is None:
            bad += 1
            if len(text) < 256:
                w = it.reify(o.st, o.value) if o.value is not None and o.kind == "ret" else o.value
                cx.fail(rule, lb, f"no constant: {o.kind} {show(w)[:200] if w is not None and not isinstance(w, str) else w} {o.st.cutreason}")
            continue
        good += 1
        if not cx.check(rule, lb, len(text) < 256, f"{len(text)} bytes do not fit the length byte, but a constant is made"):
            continue
        w = it.reify(o.st, o.value).a[2][0]
        while w.k == "adt" and len(w.a[2]) == 1:
            w = w.a[2][0]
        if code is not None:
            f = w.a[2].a[0] if is_t(w, "k") and w.a[2].k == "seq" else ()
            if not cx.check(rule, lb, len(f) == 2 and w.a[1] == ERR, f"the constant is {show(w)[:200]}"):
                continue
            c = ll.Run(p, []).val(f[0])
            cx.check(rule, lb, c == code and ll.type_of(f[0]) == ll.ty("i32"), f"the code is {c}, required {code}")
            w = f[1]
        b = text_at(p, w)
        cx.check(rule, lb, b == bytes([len(text)]) + text, f"the text is {b}, required {bytes([len(text)]) + text}")
        cx.check(rule, lb, ll.type_of(w) == I8P or is_t(w, "x") and w.a[2].a[0][-1] == I8P, f"the text has type {show(ll.type_of(w))}")
    if len(text) < 256:
        # the name is free, taken by the same constant, or taken by another one
        cx.check(rule, lb, good >= 3, f"{good} ways to find a name for the constant, {bad} without one")


def kinds(cx):
    for name in ("usize_type", "qubit_type"):
        key = cx.key(G % name)
        for it, o, p in ll.emit(cx, key, [T("self"), T("session")], hook=hook):
            v = it.reify(o.st, o.value) if o.kind == "ret" else None
            cx.check("sizes and qubits are 64-bit integers", name, v == ll.ty("i64"), f"{name} is {show(v) if v is not None else o.kind}")
