"""C05: classical and symbolic expressions across pytket.
Export: the emitter hooks are executed abstractly for every boolean and float operation; the classical expression (with its bit
positions) or the parameter string they build is evaluated and compared with the operation. Import: the expression grammar
(param.pest, read as a parsing expression grammar), the precedence table and the tree-building functions are composed on
expression strings that cover every operator pair, nesting and function, and the resulting operation tree is compared with the
standard reading of the string; classical expressions are decoded for every operator, argument shape and position table."""
import itertools, math, os, re
import circ, qsem, pytk
from interp import V, mk, I, F, S, T, Adt, Tup, Seq, Some, NONE, Ok, Err, is_c, is_t, show, subterms, DEFAULT, Incomplete, Call, Ret
from pytk import *

BOOL = "tket::extension::bool::BoolOp"
TRUTH = {"eq": (2, lambda a, b: a == b), "not": (1, lambda a: not a), "and": (2, lambda a, b: a and b), "or": (2, lambda a, b: a or b),
         "xor": (2, lambda a, b: a != b)}
CLOP = {"BitAnd": (2, lambda a, b: a & b), "BitOr": (2, lambda a, b: a | b), "BitXor": (2, lambda a, b: a ^ b), "BitEq": (2, lambda a, b: int(a == b)),
        "BitNeq": (2, lambda a, b: int(a != b)), "BitNot": (1, lambda a: 1 - a), "BitZero": (0, lambda: 0), "BitOne": (0, lambda: 1),
        # on one-bit registers
        "RegAnd": (2, lambda a, b: a & b), "RegOr": (2, lambda a, b: a | b), "RegXor": (2, lambda a, b: a ^ b), "RegEq": (2, lambda a, b: int(a == b)),
        "RegNeq": (2, lambda a, b: int(a != b)), "RegNot": (1, lambda a: 1 - a)}
CX = "tket_json_rs::clexpr::"
FLOAT = {"fadd": (2, lambda a, b: a + b), "fsub": (2, lambda a, b: a - b), "fmul": (2, lambda a, b: a * b), "fdiv": (2, lambda a, b: a / b),
         "fpow": (2, lambda a, b: a ** b), "fneg": (1, lambda a: -a), "fabs": (1, abs), "ffloor": (1, math.floor), "fceil": (1, math.ceil),
         "fround": (1, round), "fmax": (2, max), "fmin": (2, min), "radd": (2, lambda a, b: a + b)}
COMPARE = [f for f in ("feq", "fne", "flt", "fgt", "fle", "fge")]


def clvar(kind, i):
    return Adt(CX + "operator::ClArgument", "Terminal", [Adt(CX + "operator::ClTerminal", "Variable", [Adt(CX + "operator::ClVariable", kind, [I(i)])])])


# ------------------------------------------------------------------ boolean export
def seqof(v, what):
    if v is None or v.k != "seq":
        raise Incomplete(f"{what} not determined: {show(v)[:120] if v is not None else None}")
    return list(v.a[0])


def num(v, what):
    if not is_c(v, "int"):
        raise Incomplete(f"{what} not determined: {show(v)[:120]}")
    return v.a[1]


def rec(v, i, name):
    """field of a record, built as an aggregate or by default() plus assignments"""
    f = field(v, name)
    if f is None and v.k == "adt":
        f = v.a[2][i]
    if f is None:
        raise Incomplete(f"field {name} not determined: {show(v)[:160]}")
    return f


def clvalue(op, bitvals, positions, regs):
    """value of a ClOperator record given the value of each position"""
    nm = rec(op, 0, "op")
    args = seqof(rec(op, 1, "args"), "arguments")
    if nm.k != "adt":
        raise Incomplete("operator not determined: " + show(nm)[:80])
    vals = []
    for a in args:
        if a.k == "adt" and a.a[1] == "Terminal":
            t = a.a[2][0]
            if t.a[1] == "Int":
                vals.append(num(t.a[2][0], "literal"))
                continue
            v = t.a[2][0]
            i = num(v.a[2][0], "variable")
            vals.append(bitvals[positions[i]] if v.a[1] == "Bit" else bitvals[regs[i]])
        else:
            vals.append(clvalue(a.a[2][0], bitvals, positions, regs))
    if nm.a[1] not in CLOP or CLOP[nm.a[1]][0] != len(vals):
        raise Incomplete(f"operator {nm.a[1]} with {len(vals)} arguments")
    return CLOP[nm.a[1]][1](*vals)


def adt_named(cx, name):
    ks = [k for k in cx.P.adts if k.endswith("::" + name) and k.startswith("tket::serialize::pytket")]
    if len(ks) != 1:
        raise Incomplete(f"type {name} not found")
    return ks[0]


def opfields(cx, adt):
    return list(cx.P.adt_variants(adt)[0]["fields"])


def bool_export(cx):
    rule = "boolean operation exported with its truth table"
    key = cx.key(r"^<tket::serialize::pytket::extension::bool::BoolEmitter as .*PytketEmitter<.*>>::op_to_pytket$")
    variants = [v["name"] for v in cx.P.adt_variants(BOOL)]
    cx.floor("coverage", "boolean operations", len(variants), 7)
    opq = [r"::emit_command$", r"::get_input_values(_internal)?$", r"::param_expression$", r"::new_qubit", r"::new_bit", r"::new_param$",
           r"ValueTracker.*::register_wire$", r"::node_output_values$", r"::emit_transparent_node$"]
    RC = adt_named(cx, "RegisterCount")
    rcf = opfields(cx, RC)

    def count(q, b, p):
        return Adt(RC, "RegisterCount", [I({"qubits": q, "bits": b, "params": p}[f]) for f in rcf])

    for op in variants:
        def go():
            nin = TRUTH[op][0] if op in TRUTH else 1
            fresh = []

            def hook(it, st, c, args):
                if c.fn.endswith("::node_output_values"):
                    return Ok(Seq([Tup(T("wire_out", I(0)), count(0, 1, 0))]))
                if "::new_bit" in c.fn:
                    # without an exclusion list, the tracker may hand out any register that is not in use: one of the inputs just read
                    if c.fn.endswith("::new_bit"):
                        return T("b", I(0))
                    x = it.reify(st, args[-1]) if len(args) > 1 else None
                    if x is not None and x.k == "seq" and all(T("b", I(i)) in x.a[0] for i in range(nin)):
                        return T("fresh")
                    return T("b", I(0))
                if c.fn.endswith("from_extension_op"):
                    return Ok(Adt(BOOL, op, ())) if "BoolOp" in c.full else Err(T("other"))
                if c.fn.endswith("::get_input_values"):
                    return Ok(Adt(TVALS, "TrackedValues", [Seq([]), Seq([T("b", I(i)) for i in range(nin)]), Seq([])]))
                if c.fn.endswith("::get_metadata"):
                    return NONE
                if c.fn.endswith("::register_wire"):
                    it.log(st, "vp::register_wire", args, Ok(Tup()), c, c.where, c.raw)
                    return Ok(Tup())
                return DEFAULT
            it, outs = cx.run(key, on_call=hook, opaque=opq, effectful=opq)
            done = 0
            for o in rets(outs):
                stt = status(o)
                if stt in ("Err", "Unsupported"):
                    continue
                done += 1
                cmds = events(o, "::emit_command")
                trans = events(o, "::emit_transparent_node")
                if op not in TRUTH:
                    cx.check(rule, op, not cmds and len(trans) == 1, "not forwarded unchanged")
                    continue
                if len(cmds) != 1 or trans:
                    return cx.fail(rule, op, f"{len(cmds)} commands")
                cmd, qs, bs = (it.reify(o.st, x) for x in cmds[0].args[1:4])
                bs = seqof(bs, "command bits")
                if len({show(b) for b in bs}) != len(bs):
                    return cx.fail(rule, op, f"the same bit is passed twice: {[show(b) for b in bs]}")
                reg = events(o, "vp::register_wire")
                if len(reg) != 1:
                    return cx.fail(rule, op, f"{len(reg)} output wires registered")
                ov = seqof(it.reify(o.st, reg[0].args[2]), "output values")
                ov = [x.a[2][0] if x.k == "adt" and x.a[1] == "Bit" else x for x in ov]
                if len(ov) != 1 or ov[0] not in bs:
                    return cx.fail(rule, op, f"the result is tracked as {[show(x) for x in ov]}, the command has bits {[show(b) for b in bs]}")
                opos = bs.index(ov[0])
                if ov[0] in [T("b", I(i)) for i in range(nin)]:
                    return cx.fail(rule, op, "the result overwrites an input bit")
                ce = opt(field(cmd, "classical_expr"))
                ot = field(cmd, "op_type")
                if not (ot is not None and ot.k == "adt" and ot.a[1] == "ClExpr"):
                    return cx.fail(rule, op, f"operation type {show(ot)}")
                posn = {num(t.a[0][0], "bit"): num(t.a[0][1], "position") for t in seqof(rec(ce, 0, "bit_posn"), "bit positions")}
                outp = rec(ce, 3, "output_posn")
                outp = [num(x, "output") for x in seqof(outp.a[2][0] if outp.k == "adt" else outp, "output positions")]
                if outp != [opos]:
                    return cx.fail(rule, op, f"the expression writes positions {outp}, the result bit is at position {opos}")
                if any(p >= len(bs) for p in posn.values()):
                    return cx.fail(rule, op, f"positions {posn} for {len(bs)} bits")
                sig = opt(field(cmd, "signature"))
                sg = strs(sig) if sig is not None else ["B"] * len(bs)
                if sg is not None and sg != ["B"] * len(bs):
                    return cx.fail(rule, op, f"signature {sg} for {len(bs)} bits")
                pos_in = [bs.index(T("b", I(i))) if T("b", I(i)) in bs else None for i in range(nin)]
                if None in pos_in:
                    return cx.fail(rule, op, "an input bit is not passed to the command")
                for xs in itertools.product((0, 1), repeat=nin):
                    vals = [0] * len(bs)
                    for p, x in zip(pos_in, xs):
                        vals[p] = x
                    got = clvalue(rec(ce, 1, "expr"), vals, posn, {})
                    want = int(bool(TRUTH[op][1](*[bool(x) for x in xs])))
                    if not cx.check(rule, op, got == want, f"{op}{xs} is exported as an expression with value {got}"):
                        return
            cx.check(rule, op + " supported", done > 0, "never exported")
        cx.guard(rule, op, go)


def bool_const(cx):
    rule = "boolean constant exported with its value"
    key = cx.key(r"^<tket::serialize::pytket::extension::bool::BoolEmitter as .*PytketEmitter<.*>>::const_to_pytket$")
    for b in (True, False):
        def go():
            def hook(it, st, c, args):
                if "downcast_ref" in c.fn:
                    return Some(T("constbool")) if "ConstBool" in "".join(c.args) + c.full else NONE
                if c.fn.endswith("ConstBool::value"):
                    return mk("c", "bool", b)
                if "::new_bit" in c.fn:
                    return T("fresh")
                return DEFAULT
            it, outs = cx.run(key, on_call=hook, opaque=[r"::new_bit", r"::emit_command$"], effectful=[r"::new_bit", r"::emit_command$"])
            n = 0
            for o in rets(outs):
                v = it.reify(o.st, o.value)
                if not (v.k == "adt" and v.a[1] == "Ok"):
                    continue
                n += 1
                if T("fresh") not in list(subterms(v)):
                    return cx.fail(rule, str(b), f"tracked as {show(v)[:120]}")
                cmds = events(o, "::emit_command")
                if len(cmds) != 1:
                    return cx.fail(rule, str(b), f"{len(cmds)} commands: the register may hold another value already")
                cmd, qs, bs = (it.reify(o.st, x) for x in cmds[0].args[1:4])
                ot = field(cmd, "op_type")
                cl = opt(field(cmd, "classical"))
                if cl is not None and cl.k == "box":
                    cl = cl.a[0]
                vals = [x for x in subterms(cl) if x.k == "seq"] if cl is not None else []
                ok = ot is not None and ot.k == "adt" and ot.a[1] == "SetBits" and list(bs.a[0]) == [T("fresh")] and len(vals) == 1 and \
                    [x for x in vals[0].a[0]] == [mk("c", "bool", b)]
                if not cx.check(rule, str(b), ok, f"exported as {show(ot) if ot is not None else None} {show(cl)[:120] if cl is not None else None} on {show(bs)}"):
                    return
            cx.check(rule, f"{b} exported", n > 0, "never exported")
        cx.guard(rule, str(b), go)


# ------------------------------------------------------------------ boolean import
def bool_import(cx):
    rule = "classical expression imported with its truth table"
    key = cx.key(r"^<tket::serialize::pytket::extension::bool::BoolEmitter as .*PytketDecoder>::op_to_hugr$")
    OPR = CX + "operator::ClOperator"
    ops = [v["name"] for v in cx.P.adt_variants(CX + "op::ClOp")]
    ofl = opfields(cx, OPR)
    cfl = opfields(cx, CX + "ClExpr")
    rfl = opfields(cx, CX + "InputClRegister")

    def operator(op, args):
        d = {"op": Adt(CX + "op::ClOp", op, ()), "args": Seq(args)}
        return Adt(OPR, "ClOperator", [d[f] for f in ofl])

    def clexpr(op, args, bitp, regs, outp):
        d = {"bit_posn": Seq([Tup(I(a), I(b)) for a, b in bitp]), "expr": operator(op, args),
             "reg_posn": Seq([Adt(CX + "InputClRegister", "InputClRegister", [{"index": I(i), "bits": Adt(CX + "ClRegisterBits", "ClRegisterBits", [Seq([I(b) for b in bb])])}[f] for f in rfl])
                              for i, bb in regs]),
             "output_posn": Adt(CX + "ClRegisterBits", "ClRegisterBits", [Seq([I(x) for x in outp])])}
        return Adt(CX + "ClExpr", "ClExpr", [d[f] for f in cfl])
    lit = Adt(CX + "operator::ClArgument", "Terminal", [Adt(CX + "operator::ClTerminal", "Int", [I(1)])])
    b0, b1, b2 = (clvar("Bit", i) for i in range(3))
    r0, r1 = clvar("Register", 0), clvar("Register", 1)

    def nested(op):
        return Adt(CX + "operator::ClArgument", "Expression", [operator(op, [b0, b1])])
    ident = [(0, 0), (1, 1), (2, 2)]
    cases = []
    for op in ops:
        n = CLOP[op][0] if op in CLOP else 2
        if n == 2:
            shapes = [[b0, b1], [b1, b0], [b0, b0], [b0, lit], [nested("BitAnd"), b1], [b0, nested("BitOr")], [b2, b0], [r0, r1], [r1, r0], [b0], [b0, b1, b2]]
        elif n == 1:
            shapes = [[b0], [b1], [lit], [nested("BitXor")], [r0], [r1], [b0, b1]]
        else:
            shapes = [[], [b0]]
        for si, sh in enumerate(shapes):
            for bitp, regs, outp, nb in ((ident, [], [len(sh)], len(sh) + 1), (ident[:2], [], [2], 3), ([(0, 1), (1, 0), (2, 2)], [], [2], 3), ([(0, 2), (1, 1), (2, 0)], [], [0], 3),
                                         (ident, [], [0], 3), (ident[:2], [], [1], 2), ([], [(0, [0]), (1, [1])], [2], 3), ([], [(1, [0]), (0, [2])], [1], 3),
                                         ([], [(0, [0, 1]), (1, [1])], [2], 3), (ident, [], [2, 1], 3), (ident, [], [], 3), (ident, [], [7], 3), ([(0, 9), (1, 1), (2, 2)], [], [2], 3)):
                if si > 2 and not cx.thorough and (bitp, outp) not in ((ident, [len(sh)]), (ident[:2], [2]), ([(0, 1), (1, 0), (2, 2)], [2])) and not regs:
                    continue
                cases.append((op, sh, bitp, regs, outp, nb))
    good = 0
    handled = set()
    for op, sh, bitp, regs, outp, nb in cases:
        ce = clexpr(op, sh, bitp, regs, outp)
        k = f"{op}({', '.join(argtext(a) for a in sh)}) bits {bitp} registers {regs} output {outp} of {nb}"

        def go():
            fld = opfields(cx, "tket_json_rs::circuit_json::Operation")
            opv = Adt("tket_json_rs::circuit_json::Operation", "Operation",
                      [Some(ce) if f == "classical_expr" else (Adt(OPT, "ClExpr", ()) if f == "op_type" else NONE) for f in fld])
            it, outs = cx.run(key, {"op": opv, "qubits": Seq([]), "bits": Seq([T("b", I(i)) for i in range(nb)]), "params": Seq([])},
                              opaque=DEC_OPAQUE, effectful=DEC_OPAQUE, max_steps=100000)
            for o in outs:
                if o.kind == "panic":
                    return cx.fail(rule, k, "panics")
            seen = False
            for o in rets(outs):
                evs = events(o, "::add_node_with_wires")
                s = status(o)
                if s == "Unsupported":
                    seen = True
                    cx.check(rule, k, not evs, "a node is added and the operation still reported as unsupported")
                    continue
                if s == "Err":
                    continue
                seen = True
                if len(evs) != 1:
                    return cx.fail(rule, k, f"{len(evs)} nodes added")
                a = [it.reify(o.st, x) for x in evs[0].args]
                bop = [x for x in subterms(a[1]) if x.k == "adt" and x.a[0] == BOOL]
                if len(bop) != 1 or bop[0].a[1] not in TRUTH:
                    return cx.fail(rule, k, f"decoded as {show(a[1])[:80]}")
                n, f = TRUTH[bop[0].a[1]]
                ins = [x.a[1].a[1] for x in seqof(a[4], "input bits")]
                os_ = [x.a[1].a[1] for x in seqof(a[5], "output bits")]
                if len(ins) != n or len(os_) != 1:
                    return cx.fail(rule, k, f"{bop[0].a[1]} with {len(ins)} input and {len(os_)} output bits")
                if outp != os_:
                    return cx.fail(rule, k, f"the result goes to bit {os_[0]}, the expression writes {outp}")
                handled.add(op)
                rg = {i: bb[0] for i, bb in regs if len(bb) == 1}
                for xs in itertools.product((0, 1), repeat=nb):
                    try:
                        want = clvalue(rec(ce, cfl.index("expr"), "expr"), xs, dict(bitp), rg)
                    except (Incomplete, KeyError, IndexError) as e:
                        return cx.fail(rule, k, f"accepted as {bop[0].a[1]}, but the expression is not a boolean operation on the bits ({e})")
                    got = int(bool(f(*[bool(xs[i]) for i in ins])))
                    if got != want:
                        return cx.fail(rule, k, f"decoded as {bop[0].a[1]} of bits {ins}: value {got} instead of {want} on {xs}")
                cx.check(rule, k, True, "")
            cx.check(rule, k + " reached", seen, "no outcome")
        cx.guard(rule, k, go)
    cx.check(rule, "operators supported", {"BitAnd", "BitOr", "BitXor", "BitNot", "BitEq"} <= handled, f"only {sorted(handled)} are decoded: exported operations are not read back")


def argtext(a):
    if a.a[1] == "Expression":
        return "nested"
    t = a.a[2][0]
    if t.a[1] == "Int":
        return "literal"
    v = t.a[2][0]
    return f"{v.a[1].lower()}{v.a[2][0].a[1]}"


# ------------------------------------------------------------------ float export
OPERANDS = ["x", "1", "-x", "(x) + (y)", "(x) - (y)", "(x) * (y)", "(x) ** (y)", "max(x, y)", "0.5", "x + y", "x - y", "x*y", "x**y", "x/y", "-1.5", "-(x) + (y)"]


def num_eq(a, b):
    return a == b or abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


def float_export(cx):
    rule = "parameter arithmetic exported as the same function"
    for em, fam, short in (("float::FloatEmitter", "FloatOps", "hugr_core::std_extensions::arithmetic::float_ops::FloatOps"),
                           ("rotation::RotationEmitter", "RotationOp", "tket::extension::rotation::RotationOp")):
        key = cx.key(r"^<tket::serialize::pytket::extension::" + em + r" as .*PytketEmitter<.*>>::op_to_pytket$")
        if fam == "FloatOps":
            ops = [v["name"] for v in cx.P.adt_variants(short)]
        else:
            ops = [v["name"] for v in cx.P.adt_variants(short)]
        exported = set()
        for op in ops:
            n = FLOAT[op][0] if op in FLOAT else (2 if op in COMPARE else 1)
            pool = OPERANDS if cx.thorough else OPERANDS
            pairs = [(a,) for a in pool] if n == 1 else [(a, b) for a in pool for b in pool if cx.thorough or a in ("x", "1", "(x) - (y)", "x + y") or b in ("y", "1", "x + y", "-x")]
            for ps in pairs:
                k = f"{op} of {', '.join(ps)}"

                def go():
                    def hook(it, st, c, args):
                        if c.fn.endswith("::emit_transparent_node"):
                            fl = opfields(cx, adt_named(cx, "OutputParamArgs"))
                            a = Adt(adt_named(cx, "OutputParamArgs"), "OutputParamArgs", [{"expected_count": I(1), "input_params": Seq([S(p) for p in ps])}[f] for f in fl])

                            def k2(I2, s2, r):
                                I2.log(s2, "vp::params", [r], None, c, c.where, c.raw)
                                return Ret(Ok(Tup()))
                            return Call(args[3], [a], k2)
                        return DEFAULT
                    it, outs = encode(cx, key, fam, Adt(short, op, ()), 0, 0, [], hook=hook)
                    some = False
                    for o in rets(outs):
                        s = status(o)
                        if s in ("Unsupported", "Err"):
                            some = True
                            cx.check(rule, k, not events(o, "vp::params"), "exported and reported as unsupported")
                            continue
                        evs = events(o, "vp::params")
                        if len(evs) != 1:
                            return cx.fail(rule, k, f"{len(evs)} sets of parameters")
                        got = strs(it.reify(o.st, evs[0].args[0]))
                        if got is None:
                            return cx.fail(rule, k, f"not determined: {show(it.reify(o.st, evs[0].args[0]))[:160]}")
                        some = True
                        if not got:
                            cx.check(rule, k, True, "")       # the wrong number of parameters is refused by emit_transparent_node
                            continue
                        if len(got) != 1:
                            return cx.fail(rule, k, f"exported as {got}")
                        if op not in FLOAT and op not in ("to_halfturns", "from_halfturns_unchecked", "from_halfturns"):
                            return cx.fail(rule, k, f"exported as {got}, which has no parameter meaning")
                        f = FLOAT[op][1] if op in FLOAT else (lambda a: a)
                        exported.add(op)
                        for x, y in ((0.7, 1.9), (2.3, 0.4), (1.2, 3.3)):
                            env = {"x": x, "y": y}
                            try:
                                want = f(*[evalexpr(p, env) for p in ps])
                            except (ZeroDivisionError, OverflowError):
                                continue
                            try:
                                g = evalexpr(got[0], env)
                            except (SyntaxError, KeyError):
                                return cx.fail(rule, k, f"exported as {got[0]!r}, which is not an expression")
                            if not num_eq(g, want):
                                return cx.fail(rule, k, f"exported as {got[0]!r}: {g} instead of {want} at x={x}, y={y}")
                        cx.check(rule, k, True, "")
                    cx.check(rule, k + " reached", some, "no outcome")
                cx.guard(rule, k, go)
        cx.floor("coverage", f"{fam} operations exported", len(exported), 12 if fam == "FloatOps" else 1)


# ------------------------------------------------------------------ the expression grammar
class Peg:
    """pest grammar: parsing expression grammar with implicit whitespace, silent (_) and atomic (@) rules"""

    def __init__(self, text):
        text = re.sub(r"//[^\n]*", "", text)
        self.toks = re.findall(r'\^?"(?:[^"\\]|\\.)*"|\'.\'\.\.\'.\'|[A-Za-z_]\w*|[{}()|~?*+=!&@$]|\S', text)
        self.i = 0
        self.rules = {}
        while self.i < len(self.toks):
            name = self.next()
            self.expect("=")
            mod = ""
            if self.peek() in ("_", "@", "$", "!"):
                mod = self.next()
            self.expect("{")
            if self.peek() == "|":
                self.next()
            e = self.choice()
            self.expect("}")
            self.rules[name] = (mod, e)

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else None

    def next(self):
        self.i += 1
        return self.toks[self.i - 1]

    def expect(self, t):
        x = self.next()
        if x != t:
            raise Incomplete(f"grammar syntax: {t} expected, found {x}")

    def choice(self):
        alts = [self.seq()]
        while self.peek() == "|":
            self.next()
            alts.append(self.seq())
        return ("alt", alts) if len(alts) > 1 else alts[0]

    def seq(self):
        xs = [self.post()]
        while self.peek() == "~":
            self.next()
            xs.append(self.post())
        return ("seq", xs) if len(xs) > 1 else xs[0]

    def post(self):
        if self.peek() in ("!", "&"):
            t = self.next()
            return ("not" if t == "!" else "and", self.post())
        e = self.atom()
        while self.peek() in ("?", "*", "+"):
            e = (self.next(), e)
        return e

    def atom(self):
        t = self.next()
        if t == "(":
            e = self.choice()
            self.expect(")")
            return e
        if t.startswith('^"'):
            return ("ilit", eval(t[1:]))
        if t.startswith('"'):
            return ("lit", eval(t))
        if re.match(r"'.'\.\.'.'$", t):
            return ("range", t[1], t[6])
        if re.match(r"[A-Za-z_]\w*$", t):
            return ("ref", t)
        raise Incomplete(f"grammar construct {t}")

    BUILTIN = {"ASCII_ALPHA": str.isalpha, "ASCII_ALPHANUMERIC": str.isalnum, "ASCII_DIGIT": lambda c: c in "0123456789", "ASCII_NONZERO_DIGIT": lambda c: c in "123456789",
               "ANY": lambda c: True, "ASCII_ALPHA_LOWER": str.islower, "ASCII_ALPHA_UPPER": str.isupper}

    def skip(self, s, p, at):
        if at or "WHITESPACE" not in self.rules:
            return p
        while True:
            r = self.m(self.rules["WHITESPACE"][1], s, p, True)
            if r is None or r[0] == p:
                return p
            p = r[0]

    def m(self, e, s, p, at):
        """(end, pairs) or None"""
        k = e[0]
        if k == "lit":
            return (p + len(e[1]), []) if s.startswith(e[1], p) else None
        if k == "ilit":
            return (p + len(e[1]), []) if s[p:p + len(e[1])].lower() == e[1].lower() else None
        if k == "range":
            return (p + 1, []) if p < len(s) and e[1] <= s[p] <= e[2] else None
        if k == "ref":
            n = e[1]
            if n == "SOI":
                return (p, []) if p == 0 else None
            if n == "EOI":
                return (p, [("EOI", "", [])]) if p == len(s) else None
            if n in self.BUILTIN and n not in self.rules:
                return (p + 1, []) if p < len(s) and s[p].isascii() and self.BUILTIN[n](s[p]) else None
            if n not in self.rules:
                raise Incomplete(f"grammar rule {n}")
            mod, b = self.rules[n]
            r = self.m(b, s, p, at or mod in ("@", "$") if mod != "!" else False)
            if r is None:
                return None
            inner = [] if mod == "@" else r[1]
            return r[0], (r[1] if mod == "_" else [(n, s[p:r[0]], inner)])
        if k == "alt":
            for x in e[1]:
                r = self.m(x, s, p, at)
                if r is not None:
                    return r
            return None
        if k == "seq":
            out = []
            for i, x in enumerate(e[1]):
                if i:
                    p = self.skip(s, p, at)
                r = self.m(x, s, p, at)
                if r is None:
                    return None
                p, q = r
                out = out + q
            return p, out
        if k == "?":
            return self.m(e[1], s, p, at) or (p, [])
        if k in ("*", "+"):
            out = []
            n = 0
            while True:
                q = self.skip(s, p, at) if n else p
                r = self.m(e[1], s, q, at)
                if r is None or (r[0] == p and n):
                    break
                p = r[0]
                out = out + r[1]
                n += 1
            return None if k == "+" and not n else (p, out)
        if k == "not":
            return None if self.m(e[1], s, p, at) else (p, [])
        if k == "and":
            return (p, []) if self.m(e[1], s, p, at) else None
        raise Incomplete("grammar construct " + k)

    def parse(self, rule, s):
        r = self.m(("ref", rule), s, 0, False)
        return None if r is None else r[1]


def pair(p):
    return T("pair", S(p[0]), S(p[1]), Seq([pair(x) for x in p[2]]))


RULE = "tket::serialize::pytket::decoder::param::parser::Rule"
PP = "tket::serialize::pytket::decoder::param::parser::PytketParam"


class Parser:
    """abstract execution of parse_pytket_param over the grammar"""

    def __init__(self, cx):
        self.cx = cx
        self.key = cx.key(r"^tket::serialize::pytket::decoder::param::parser::parse_pytket_param$")
        base = "/repo/tket/src"
        pfile = os.path.join(base, "serialize/pytket/decoder/param/parser.rs")
        m = re.search(r'#\[grammar\s*=\s*"([^"]+)"\]', open(pfile).read())
        if not m:
            raise Incomplete("grammar file not found")
        self.peg = Peg(open(os.path.join(base, m.group(1))).read())
        self.table = None

    def pratt_table(self):
        """[(level, kind, rule, assoc)] of the lazily built precedence table"""
        if self.table is not None:
            return self.table
        key = self.cx.key(r"PRATT_PARSER as core::ops::deref::Deref>::deref::__static_ref_initialize$")
        it, outs = self.cx.run(key)
        rs = rets(outs)
        if len(rs) != 1:
            raise Incomplete("precedence table not determined")
        v = it.reify(rs[0].st, rs[0].value)
        levels = []

        def ops(t):
            t = it.reify(rs[0].st, t)
            nm, args = callname(t)
            if nm == "BitOr":
                return ops(args[0]) + ops(args[1])
            if nm in ("infix", "prefix", "postfix"):
                return [(nm, args[0].a[1], args[1].a[1] if nm == "infix" else None)]
            raise Incomplete("precedence entry " + show(t)[:120])

        def walk(t):
            nm, args = callname(t)
            if nm == "new":
                return
            if nm != "op":
                raise Incomplete("precedence table " + show(t)[:160])
            walk(args[0])
            levels.append(ops(args[1]))
        walk(v)
        self.table = {(kind, r): (i + 1, assoc) for i, l in enumerate(levels) for kind, r, assoc in l}
        return self.table

    def tree(self, items):
        tb = self.pratt_table()
        pos = [0]

        def rn(p):
            return p.a[1].a[1]

        def nud():
            p = items[pos[0]]
            pos[0] += 1
            if ("prefix", rn(p)) in tb:
                return ("pre", p, expr(tb[("prefix", rn(p))][0] * 10 - 1))
            if ("infix", rn(p)) in tb:
                raise Incomplete("operator without operand")
            return ("leaf", p)

        def expr(rbp):
            l = nud()
            while pos[0] < len(items):
                p = items[pos[0]]
                if ("postfix", rn(p)) in tb:
                    if tb[("postfix", rn(p))][0] * 10 <= rbp:
                        return l
                    pos[0] += 1
                    l = ("post", p, l)
                    continue
                if ("infix", rn(p)) not in tb:
                    raise Incomplete(f"pest would panic: {rn(p)} is not in the precedence table")
                lv, assoc = tb[("infix", rn(p))]
                if lv * 10 <= rbp:
                    return l
                pos[0] += 1
                r = expr(lv * 10 if assoc == "Left" else lv * 10 - 1)
                l = ("in", p, l, r)
            return l
        t = expr(0)
        return t

    def hook(self, it, st, c, args):
        fn = c.fn
        if fn.endswith("::parse") and "ParamParser" in fn + c.full and "pest::parser::Parser" in fn + c.full:
            rule, s = it.reify(st, args[-2]), it.reify(st, args[-1])
            if rule.k != "adt" or not is_c(s, "str"):
                raise Incomplete("parser input not determined")
            r = self.peg.parse(rule.a[1], s.a[1])
            return Err(T("syntax_error")) if r is None else Ok(mk("iter", "seq", tuple(pair(x) for x in r)))
        if "pest::iterators::pair::Pair" in fn and "Pairs" not in fn.split("::")[-2]:
            nm = fn.rsplit("::", 1)[-1]
            p = it.reify(st, args[0])
            if is_t(p, "pair"):
                if nm == "as_rule":
                    return Adt(RULE, p.a[1].a[1], ())
                if nm == "as_str":
                    return p.a[2]
                if nm == "into_inner":
                    return mk("iter", "seq", p.a[3].a[0])
        if "pratt_parser" in fn:
            nm = fn.rsplit("::", 1)[-1]
            if nm in ("map_primary",):
                return T("pratt", args[1], NONE, NONE, NONE)
            if nm in ("map_infix", "map_prefix", "map_postfix"):
                p = it.reify(st, args[0])
                i = {"map_infix": 2, "map_prefix": 3, "map_postfix": 4}[nm]
                a = list(p.a)
                a[i] = args[1]
                return T(*a)
            if nm == "parse":
                p = it.reify(st, args[0])
                q = it.reify(st, args[1])
                if q.k == "ref":
                    q = it.load(st, q.a[0], q.a[1])
                if not is_t(p, "pratt") or q.k != "iter" or q.a[0] != "seq":
                    raise Incomplete("operands of the precedence parser not determined")
                t = self.tree(list(q.a[1]))
                prim, inf, pre, post = p.a[1:5]

                def ev(t, s, k):
                    if t[0] == "leaf":
                        return Call(prim, [t[1]], lambda I2, s2, r: k(s2, r))
                    if t[0] == "pre":
                        return ev(t[2], s, lambda s2, r: Call(pre, [t[1], r], lambda I3, s3, v: k(s3, v)))
                    if t[0] == "post":
                        return ev(t[2], s, lambda s2, r: Call(post, [r, t[1]], lambda I3, s3, v: k(s3, v)))
                    return ev(t[2], s, lambda s2, l: ev(t[3], s2, lambda s3, r: Call(inf, [l, t[1], r], lambda I4, s4, v: k(s4, v))))
                return ev(t, st, lambda s, v: Ret(v))
        return DEFAULT

    def parse(self, s):
        """the PytketParam built for a string"""
        it, outs = self.cx.run(self.key, {"param": S(s)}, on_call=self.hook, max_steps=400000, recursion=40, max_depth=400)
        rs = rets(outs)
        if len(outs) != 1 or len(rs) != 1:
            raise Incomplete(f"parsing {s!r}: outcomes {[o.kind for o in outs]}")
        return it.reify(rs[0].st, rs[0].value)


def callname(t):
    if t.k == "t" and t.a and isinstance(t.a[0], str):
        nm = t.a[0]
        args = [x for x in t.a[1:] if isinstance(x, V)]
        if nm == "bin":
            return t.a[1], args
        return re.split(r"::|>", nm)[-1], args
    raise Incomplete("precedence table " + show(t)[:120])


class Undef(Exception):
    pass


def astval(v, env):
    """value of a PytketParam tree; opaque sympy leaves are read as the text they carry"""
    if v.k != "adt" or v.a[0] != PP:
        raise Incomplete("expression tree not determined: " + show(v)[:120])
    k = v.a[1]
    if k == "Constant":
        if not (is_c(v.a[2][0], "flt") or is_c(v.a[2][0], "int")):
            raise Incomplete("constant not determined")
        if not math.isfinite(v.a[2][0].a[1]):
            raise Undef("a constant that is not finite cannot be loaded")
        return v.a[2][0].a[1]
    if k == "InputVariable":
        n = v.a[2][0].a[1]
        return math.pi if n == "pi" else env[n]
    if k == "Sympy":
        return evalexpr(v.a[2][0].a[1], env)
    if k == "Operation":
        op = [x for x in subterms(v.a[2][0]) if x.k == "adt" and (x.a[0].endswith("FloatOps") or x.a[0].endswith("RotationOp"))]
        args = v.a[2][1]
        if len(op) != 1 or op[0].a[1] not in FLOAT or args.k != "seq":
            raise Incomplete("operation not determined: " + show(v)[:120])
        n, f = FLOAT[op[0].a[1]]
        if len(args.a[0]) != n:
            raise Undef(f"{op[0].a[1]} is given {len(args.a[0])} operands")
        ty = v.a[2][2]
        if ty.k != "adt" or (ty.a[1] == "Rotation") != (op[0].a[0].endswith("RotationOp")) or ty.a[1] == "FloatRadians":
            raise Undef(f"{op[0].a[1]} is labelled as working on {show(ty)}")
        return f(*[astval(x, env) for x in args.a[0]])
    raise Incomplete("expression tree " + k)


def strings(thorough):
    out = ["x", "2", "0.5", "37.", "1e3", "1e-2", "2.5E+1", "-x", "-2", "--x", "- x", "(x)", "((x))", "x_1", "(-x)", "-(-x)", "-(x + y)", "0", "00" if False else "0.0", "1e999", "-1e999 + x" if False else "x"]
    ops = ["+", "-", "*", "/", "**"]
    for o in ops:
        out += [f"x {o} y", f"x{o}y", f"2{o}3", f"-x {o} y", f"x {o} -y", f"-x {o} -y", f"-2 {o} 3", f"2{o}-3", f"-2{o}-3", f"-(x {o} y)", f"(-x) {o} y", f"-2.5 {o} x", f"x {o} --y" if False else f"x {o} (-y)",
                f"(x) {o} (y)", f"-(x) {o} (y)", f"max(x, y) {o} min(x, 2)", f"-max(x, y) {o} z", f"pi {o} x", f"-pi{o}4"]
        for p in ops:
            out += [f"x {o} y {p} z", f"(x {o} y) {p} z", f"x {o} (y {p} z)", f"-x {o} y {p} z", f"x {o} -y {p} z", f"x {o} y {p} -z", f"(x) {o} ((y) {p} (z))", f"((x) {o} (y)) {p} (z)"]
            for q in ops:
                if thorough or (o in ("-", "**") or p in ("/", "**")):
                    out.append(f"x {o} y {p} z {q} w")
                if thorough:
                    out += [f"-x {o} y {p} z {q} w", f"x {o} -y {p} z {q} w", f"x {o} y {p} -z {q} w", f"x {o} (y {p} z) {q} w", f"(x {o} y) {p} (z {q} w)"]
    for f in ("max", "min"):
        out += [f"{f}(x, y)", f"{f}(y, x)", f"{f}(x + y, z * w)", f"{f}(-x, y)", f"{f}(x,y)", f"{f}(x)", f"{f}(x, y, z)", f"{f}({f}(x, y), z)", f"{f}( x , y , )", f"{f} (x, y)"]
    for f in ("abs", "floor", "ceil", "round"):
        out += [f"{f}(x)", f"{f}(-x)", f"{f}(x - y)", f"{f}(x) ** y", f"-{f}(x)", f"x - {f}(y) - z", f"{f}({f}(x))", f"{f}((x) - (y))"]
    return list(dict.fromkeys(out))


IMPLICIT = [("2x", "2*x"), ("2 x", "2*x"), ("2(x + y)", "2*(x + y)"), ("3pi/4", "3*pi/4"), ("-3pi/4", "-3*pi/4"), ("2max(x, y)", "2*max(x, y)"), ("x - 2y", "x - 2*y"),
            ("2/3x", "2/(3*x)"), ("-2x", "-2*x"), ("2.5(x)", "2.5*x"), ("1 + 2x", "1 + 2*x"), ("x*2y", "x*2*y"), ("pi/2", "pi/2"), ("-pi/2", "-pi/2")]


def grammar(cx):
    rule = "expression string read with its standard meaning"
    ps = []

    def mkp():
        ps.append(Parser(cx))
        cx.check(rule, "precedence table", len(ps[0].pratt_table()) >= 5, "fewer than five operators")
    cx.guard(rule, "parser", mkp)
    if not ps:
        return
    p = ps[0]
    n = known = 0
    for s, ref in [(s, s) for s in strings(cx.thorough)] + IMPLICIT:
        def go():
            nonlocal n, known
            v = p.parse(s)
            n += 1
            if v.k == "adt" and v.a[1] == "Sympy":
                ok = is_c(v.a[2][0], "str") and v.a[2][0].a[1].strip() == s.strip()
                return cx.check(rule, s, ok, f"kept as the opaque expression {show(v.a[2][0])}")
            known += 1
            for env in ({"x": 0.7, "y": 1.9, "z": 2.6, "w": 1.3, "x_1": 4.1}, {"x": 2.3, "y": 0.4, "z": 1.7, "w": 0.6, "x_1": 0.2}):
                try:
                    want = evalexpr(ref, env)
                except (ZeroDivisionError, OverflowError):
                    continue
                except TypeError:
                    want = None     # a call with a number of arguments the function does not take
                try:
                    got = astval(v, env)
                except Undef as e:
                    return cx.fail(rule, s, str(e))
                except (ZeroDivisionError, OverflowError):
                    got = None
                if isinstance(got, complex) or isinstance(want, complex):
                    ok = got is not None and want is not None and abs(got - want) < 1e-9
                else:
                    ok = got is not None and want is not None and num_eq(got, want)
                if not ok:
                    return cx.fail(rule, s, f"read as {asttext(v)}: {got} instead of {want}")
            cx.check(rule, s, True, "")
        cx.guard(rule, s, go)
    cx.floor("coverage", "expression strings read", n, 350)
    cx.floor("coverage", "expression strings decoded to operations", known, 340)


def asttext(v):
    if v.k != "adt":
        return show(v)[:60]
    if v.a[1] == "Operation":
        op = [x for x in subterms(v.a[2][0]) if x.k == "adt" and x.a[0].endswith("Op") or x.k == "adt" and x.a[0].endswith("Ops")]
        return f"{op[0].a[1] if op else '?'}({', '.join(asttext(x) for x in v.a[2][1].a[0])})"
    x = v.a[2][0]
    return str(x.a[1]) if x.k == "c" else show(x)[:40]


# ------------------------------------------------------------------ loading the tree
def loading(cx):
    rule = "expression tree loaded as the same function"
    key = cx.key(r"^tket::serialize::pytket::decoder::wires::WireTracker::load_half_turns_parameter$")
    FO, RO = "hugr_core::std_extensions::arithmetic::float_ops::FloatOps", "tket::extension::rotation::RotationOp"

    def opn(name, args):
        adt, ty = (RO, "Rotation") if name == "radd" else (FO, "FloatHalfTurns")
        return Adt(PP, "Operation", [Adt(adt, name, ()), Seq(args), Adt(PT, ty, ())])

    def con(x):
        return Adt(PP, "Constant", [F(x)])
    sub = opn("fsub", [con(7.25), con(2.5)])
    trees = []
    for name, (n, f) in FLOAT.items():
        a = [con(4.75), con(1.5)][:n]
        trees.append((f"{name}(4.75{', 1.5' if n == 2 else ''})", opn(name, a), f(*[4.75, 1.5][:n])))
        trees.append((f"{name} of nested", opn(name, [sub] + a[1:]), f(*[4.75, 1.5][:n])))
        if n == 2:
            trees.append((f"{name} with nested second operand", opn(name, [con(0.5), sub]), f(0.5, 4.75)))
    for name, t, want in trees:
        for h in [NONE] + [Some(Adt(PT, x, ())) for x in ("FloatRadians", "FloatHalfTurns", "Rotation")]:
            k = f"{name} with hint {show(h)}"

            def go():
                b = circ.Builder()

                def hook(it, st, c, args):
                    if c.fn.endswith("parse_pytket_param"):
                        return t
                    return b(it, st, c, args)
                it, outs = cx.run(key, {"type_hint": h, "param": S("p")}, on_call=hook)
                rs = rets(outs)
                for o in rs:
                    v = it.reify(o.st, o.value)
                    if v.k != "adt" or v.a[0] != LP:
                        return cx.fail(rule, k, f"not established: {show(v)[:200]}")
                    ty, w = v.a[2][0].a[1], v.a[2][1]
                    try:
                        got = qsem.Circ([]).num(w)
                    except qsem.Shape as e:
                        return cx.fail(rule, k, f"not established: {e}")
                    scale = math.pi if ty == "FloatRadians" else 1.0
                    if not cx.check(rule, k, num_eq(got, want * scale), f"loaded as {got} {ty}, required {want}"):
                        return
                cx.check(rule, k + " reached", len(rs) > 0, "no result")
            cx.guard(rule, k, go)


def run(cx):
    bool_export(cx)
    bool_const(cx)
    bool_import(cx)
    float_export(cx)
    grammar(cx)
    loading(cx)
    cx.assume("expression strings follow sympy syntax and precedence; implicit multiplication binds tighter than every operator (documented in param.pest)")
    cx.assume("pest parses according to the PEG semantics of the grammar file, and its precedence climbing follows the declared table")
