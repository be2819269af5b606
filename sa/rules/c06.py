"""C06: every conversion between half-turns, rotations and radians is executed abstractly on a symbolic angle; the arithmetic it
builds (hugr operations, LLVM instructions, expression strings or plain floats) is evaluated as a linear function of the angle and
its factor compared with the factor the two units require."""
import itertools, math, re
import circ, qsem, pytk, ll
from interp import V, mk, I, F, S, T, Adt, Tup, Seq, Some, NONE, Ok, Err, is_c, is_t, show, subterms, DEFAULT, Incomplete
from pytk import *

pi = math.pi
UNIT = {"FloatRadians": pi, "FloatHalfTurns": 1.0, "Rotation": 1.0}     # size of one half-turn in this representation
CONV = {"FloatRadians": "as_float_radians", "FloatHalfTurns": "as_float_half_turns", "Rotation": "as_rotation"}
PARAM = "tket::serialize::pytket::decoder::param::parser::PytketParam"
WT = r"^tket::serialize::pytket::decoder::wires::WireTracker::load_half_turns_parameter$"
FLOATS = [0.0, 1.0, -1.0, 0.5, 0.25, 2.0, -3.5, 1e-3, 123456.789, pi, -pi, 2 * pi, pi / 2, -pi / 2, pi / 4, 3 * pi / 4, -pi / 4, -3 * pi / 4,
          pi / 3, pi / 8, 1.5707963, 1e15, 5e-7]


def linear(w):
    """factor of inw(0) in the value of a wire"""
    v = [qsem.Circ([x]).num(w) for x in (0.0, 1.0, -2.5, 7.25)]
    if abs(v[0]) > 1e-12 or abs(v[2] + 2.5 * v[1]) > 1e-9 or abs(v[3] - 7.25 * v[1]) > 1e-9:
        raise Incomplete("not a multiple of the input")
    return v[1]


def wire_type(w):
    """True if the wire carries a float, False for a rotation, None if it is the source wire"""
    n = w.a[1] if is_t(w, "wire") else None
    if n is None or not is_t(n, "node"):
        return "cst" if is_t(w, "cst") else None
    op = n.a[1]
    for s in subterms(op):
        if s.k == "adt" and s.a[0].endswith("FloatOps"):
            return "float"
        if s.k == "adt" and s.a[0].endswith("RotationOp"):
            return "float" if s.a[1] == "to_halfturns" else "rotation"
    return None


def well_typed(w, src):
    """the operations between source and result are applied to wires of the right kind (float or rotation)"""
    if is_t(w, "inw"):
        return src
    if is_t(w, "cst"):
        t = show(w)
        return "rotation" if "ConstRotation" in t or "rotation" in t.lower() else "float"
    n = w.a[1]
    op, ins = n.a[1], n.a[2].a[0]
    kinds = [well_typed(x, src) for x in ins]
    nm = op.a[1]
    if op.a[0].endswith("FloatOps"):
        if any(k != "float" for k in kinds):
            raise Incomplete(f"{nm} applied to {kinds}")
        return "float"
    if op.a[0].endswith("RotationOp"):
        want = {"to_halfturns": ["rotation"], "from_halfturns_unchecked": ["float"], "radd": ["rotation", "rotation"]}.get(nm)
        if kinds != want:
            raise Incomplete(f"{nm} applied to {kinds}")
        return "float" if nm == "to_halfturns" else "rotation"
    raise Incomplete(f"operation {show(op)}")


KIND = {"FloatRadians": "float", "FloatHalfTurns": "float", "Rotation": "rotation"}


def conversions(cx):
    rule = "conversion between parameter representations"
    for src in UNIT:
        for dst in UNIT:
            for fn in (CONV[dst], "with_type"):
                k = f"{fn}: {src} -> {dst}"
                key = cx.key(r"^tket::serialize::pytket::decoder::param::LoadedParameter::" + fn + "::<")
                args = {"self": Adt(LP, "LoadedParameter", [Adt(PT, src, ()), T("inw", I(0))])}
                if fn == "with_type":
                    args["typ"] = Adt(PT, dst, ())

                def go():
                    it, outs = cx.run(key, args, on_call=circ.Builder())
                    rs = rets(outs)
                    if not rs:
                        return cx.fail(rule, k, "no result")
                    for o in rs:
                        v = it.reify(o.st, o.value)
                        if v.k != "adt" or v.a[0] != LP:
                            return cx.fail(rule, k, f"not established: {show(v)[:200]}")
                        ty, w = v.a[2]
                        if ty.k != "adt" or ty.a[1] != dst:
                            return cx.fail(rule, k, f"result is labelled {show(ty)}")
                        kind = well_typed(w, KIND[src])
                        f = linear(w)
                        want = UNIT[dst] / UNIT[src]
                        if kind != KIND[dst]:
                            return cx.fail(rule, k, f"result wire carries a {kind}")
                        if not cx.check(rule, k, abs(f - want) < 1e-12, f"the angle is multiplied by {f}, required {want}"):
                            return
                cx.guard(rule, k, go)


def loading(cx):
    """parameters of pytket commands become wires with the labelled type and the same number"""
    rule = "loaded parameter denotes the written number"
    key = cx.key(WT)
    hints = [NONE] + [Some(Adt(PT, t, ())) for t in UNIT]
    parsed = {"constant 0.75": (Adt(PARAM, "Constant", [F(0.75)]), 0.75), "pi": (Adt(PARAM, "InputVariable", [S("pi")]), pi),
              "constant -2.5": (Adt(PARAM, "Constant", [F(-2.5)]), -2.5)}
    for name, (p, val) in parsed.items():
        for h in hints:
            k = f"{name} with hint {show(h)}"

            def go():
                b = circ.Builder()

                def hook(it, st, c, args):
                    if c.fn.endswith("parse_pytket_param"):
                        return p
                    return b(it, st, c, args)
                it, outs = cx.run(key, {"type_hint": h, "param": S("p")}, on_call=hook)
                rs = rets(outs)
                for o in rs:
                    v = it.reify(o.st, o.value)
                    if v.k != "adt" or v.a[0] != LP:
                        return cx.fail(rule, k, f"not established: {show(v)[:200]}")
                    ty, w = v.a[2][0].a[1], v.a[2][1]
                    got = qsem.Circ([]).num(w)
                    t = show(w)
                    kind = "rotation" if "ConstRotation" in t else "float"
                    if kind != KIND[ty]:
                        return cx.fail(rule, k, f"a {kind} constant is labelled {ty}")
                    # the written number counts half-turns
                    if not cx.check(rule, k, abs(got - val * UNIT[ty]) < 1e-12, f"loaded as {got} {ty}"):
                        return
                if not rs:
                    cx.fail(rule, k, "no result")
            cx.guard(rule, k, go)


def device_export(cx):
    """radian angles of device gates are written in half-turns"""
    rule = "device angle written in half-turns"
    key = cx.key(r"^<tket_qsystem::pytket::qsystem::QSystemEmitter as .*PytketEmitter<.*>>::op_to_pytket$")
    exprs = ["x", "(x) * (pi)", "(x) + (y)", "(x) - (y)", "-(x)", "(x) / (y)", "(x) * (y)", "(x) ** (y)", "max(x, y)", "pi", "pi/2", "0.5", "-1.25",
             "(x) + (y) * (pi)", "((x) + (y)) * (pi)", "(x) * ((y) * (pi))", "(x) - (y) - (x) * (pi)", "((x) * (pi)) * (pi)", "x * (pi)", "(x) * (y) * (pi)",
             "((x) / (2)) * (pi)", "abs(x) * (pi)", "max((x), (y) * (pi))"]
    for op, npar in (("Rz", 1), ("PhasedX", 2), ("ZZPhase", 1)):
        for e in exprs:
            for pos in range(npar):
                k = f"{op} parameter {pos} = {e}"

                def go():
                    ps = ["0.25"] * npar
                    ps[pos] = e
                    it, outs = encode(cx, key, "QSystemOp", Adt(QS, op, ()), 2 if op == "ZZPhase" else 1, 0, ps)
                    n = 0
                    for o in rets(outs):
                        for ev in events(o, "::emit_command"):
                            cmd = it.reify(o.st, ev.args[1])
                            got = strs(opt(field(cmd, "params")))
                            n += 1
                            if got is None or len(got) != npar:
                                return cx.fail(rule, k, f"parameters not determined: {show(cmd)[:200]}")
                            for i in range(npar):
                                for x, y in ((0.7, 1.9), (2.3, 0.4), (5.1, 3.3)):
                                    env = {"x": x, "y": y}
                                    try:
                                        a = evalexpr(got[i], env)
                                    except (SyntaxError, KeyError):
                                        return cx.fail(rule, k, f"written as {got[i]!r}, which is not an expression")
                                    want = evalexpr(ps[i], env) / pi
                                    if abs(a - want) > 1e-9 * max(1, abs(want)):
                                        return cx.fail(rule, k, f"parameter {i}: {ps[i]} radians is written as {got[i]!r}: {a} instead of {want} half-turns at x={x}, y={y}")
                    cx.check(rule, k, n > 0, "no command written")
                cx.guard(rule, k, go)


def consts(cx):
    """constants are written as the same number"""
    rule = "constant written as the same number"
    for em, ad in (("float::FloatEmitter", ("hugr_core::std_extensions::arithmetic::float_types::ConstF64", "ConstF64")),
                   ("rotation::RotationEmitter", ("tket::extension::rotation::ConstRotation", "ConstRotation"))):
        key = cx.key(r"^<tket::serialize::pytket::extension::" + em + r" as .*PytketEmitter<.*>>::const_to_pytket$")
        for x in FLOATS:
            k = f"{ad[1]} {x!r}"

            def go():
                def hook(it, st, c, args):
                    if "downcast_ref" in c.fn:
                        return Some(Adt(ad[0], ad[1], [F(x)])) if ad[1] in "".join(c.args) + c.full else NONE
                    if c.fn.endswith("::value") and ad[1] == "ConstF64" and "float_types" in c.fn:
                        return F(x)
                    return DEFAULT
                it, outs = cx.run(key, on_call=hook, opaque=[r"::new_param$"], effectful=[r"::new_param$"], max_steps=200000)
                n = 0
                for o in rets(outs):
                    evs = events(o, "::new_param")
                    if len(evs) != 1:
                        return cx.fail(rule, k, f"{len(evs)} parameters created")
                    v = it.reify(o.st, evs[0].args[1])
                    n += 1
                    if is_c(v, "flt") or is_c(v, "int"):
                        got = float(v.a[1])
                    elif is_c(v, "str"):
                        got = evalexpr(re.sub(r"(\d)pi", r"\1*pi", v.a[1]), {})
                    else:
                        return cx.fail(rule, k, f"not established: {show(v)[:200]}")
                    if abs(got - x) > 1e-9:
                        return cx.fail(rule, k, f"written as {show(v)} = {got}")
                cx.check(rule, k, n > 0, "no parameter created")
            cx.guard(rule, k, go)


def plain(cx):
    """ConstRotation's own conversions"""
    rule = "rotation constant conversions"
    CR = "tket::extension::rotation::ConstRotation"
    key = cx.key(r"ConstRotation::to_radians$")
    for x in FLOATS:
        def go():
            it, outs = cx.run(key, {"self": Adt(CR, "ConstRotation", [F(x)])})
            for o in rets(outs):
                v = it.reify(o.st, o.value)
                cx.check(rule, f"to_radians of {x} half-turns", is_c(v, "flt") and abs(v.a[1] - x * pi) < 1e-9 * max(1, abs(x)), f"gives {show(v)}")
        cx.guard(rule, f"to_radians of {x}", go)
    key2 = cx.key(r"ConstRotation::from_radians$")
    for x in FLOATS:
        def go():
            it, outs = cx.run(key2, {"theta": F(x)})
            n = 0
            for o in rets(outs):
                v = it.reify(o.st, o.value)
                if v.k == "adt" and v.a[1] == "Ok":
                    n += 1
                    y = v.a[2][0]
                    cx.check(rule, f"from_radians {x}", y.k == "adt" and is_c(y.a[2][0], "flt") and abs(y.a[2][0].a[1] - x / pi) < 1e-9 * max(1, abs(x)), f"gives {show(y)}")
            cx.check(rule, f"from_radians {x} accepted", n == 1, "no result")
        cx.guard(rule, f"from_radians {x}", go)
    k3 = cx.key(r"ConstRotation::half_turns$")
    it, outs = cx.run(k3, {"self": Adt(CR, "ConstRotation", [F(0.75)])})
    for o in rets(outs):
        cx.check(rule, "half_turns", is_c(it.reify(o.st, o.value), "flt") and it.reify(o.st, o.value).a[1] == 0.75, show(o.value))


def codegen(cx):
    """the LLVM value of a rotation is the number of half-turns"""
    rule = "generated code keeps the number of half-turns"
    inf, nan = float("inf"), float("nan")
    RO = "tket::extension::rotation::RotationOp"
    ops = [v["name"] for v in cx.P.adt_variants(RO)]
    cx.floor("coverage", "rotation operations", len(ops), 4)
    fin = [0.0, 0.25, -1.5, 3.75, 1e9]

    def want(op, xs):
        x = xs[0]
        ok = x == x and abs(x) != inf
        if op == "radd":
            return [xs[0] + xs[1]], False
        if op == "to_halfturns":
            return [x], False
        if op == "from_halfturns":
            return [("sum", 1, (x,)) if ok else ("sum", 0, ())], False
        if op == "from_halfturns_unchecked":
            return ([x], False) if ok else (None, True)
        raise Incomplete("no oracle for this operation")
    for op in ops:
        n = 2 if op == "radd" else 1

        def go():
            good = 0
            for it, o, p, ret in ll.drive(cx, "RotationCodegenExtension", ("op", Adt(RO, op, ()), ll.args_of(n, ["double"] * n))):
                if p is None:
                    cx.fail(rule, f"RotationOp {op}", ll.failure(o, ret))
                    continue
                good += 1
                for xs in itertools.product(fin + ([inf, -inf, nan] if n == 1 else []), repeat=n):
                    w, dead = want(op, xs)
                    try:
                        r = ll.Run(p, list(xs))
                    except ll.Bad as e:
                        return cx.fail(rule, f"RotationOp {op}", f"for {xs}: {e}")
                    if dead:
                        ok = r.dead and r.out is None and [c[0] for c in r.trace] == ["panic!"]
                    else:
                        ok = not r.dead and r.trace == [] and r.out == w
                    if not cx.check(rule, f"RotationOp {op}", ok, f"for {xs} half-turns the code outputs {r.out}{' and stops' if r.dead else ''}, calls {[c[0] for c in r.trace]}; required {w if not dead else 'a panic'}"):
                        return
            cx.check(rule, f"RotationOp {op} compiled", good > 0, "no successful path")
        cx.guard(rule, f"RotationOp {op}", go)
    # constants
    for x in FLOATS[:6]:
        def go():
            rs = ll.drive(cx, "RotationCodegenExtension", ("const", Adt("tket::extension::rotation::ConstRotation", "ConstRotation", [F(x)])))
            for it, o, p, v in rs:
                cx.check(rule, f"rotation constant {x}", p is not None and is_t(v, "k") and v.a[1] == ll.ty("double") and v.a[2] == F(x), f"compiled to {show(v) if v else None}")
            cx.check(rule, f"rotation constant {x} compiled", len(rs) > 0, "no result")
        cx.guard(rule, f"rotation constant {x}", go)

    def go():
        rs = ll.drive(cx, "RotationCodegenExtension", ("type", "rotation", T("hugr_type")))
        ok = [v for it, o, p, v in rs if p is not None]
        cx.check(rule, "rotation type", ok and all(v == ll.ty("double") for v in ok), f"rotations are represented as {[show(v) for v in ok]}")
    cx.guard(rule, "rotation type", go)


def lowering(cx):
    """rotation angles of core gates become radians of device gates"""
    from rules import c02
    ops = ["Rx", "Ry", "Rz", "CRz"]
    it, outs = c02.lowering(cx, ops)
    seen = 0
    rule = "lowered angle is the half-turn count times pi"
    for o in rets(outs):
        for e in o.events:
            if not e.fn.endswith("::replace_op") and "circ::" not in e.fn:
                continue
            t = [x for x in e.args if isinstance(x, V)]
            for x in t:
                for s in subterms(it.reify(o.st, x)):
                    if is_t(s, "node") and s.a[1].k == "adt" and s.a[1].a[0] == QS and s.a[1].a[1] in ("Rz", "PhasedX", "ZZPhase"):
                        nq = 2 if s.a[1].a[1] == "ZZPhase" else 1
                        for w in s.a[2].a[0][nq:]:
                            try:
                                vals = []
                                for a in (0.0, 1.0):
                                    env = [("q", 0), a] if not any(is_t(z, "inw") and z.a[1] == I(2) for z in subterms(w)) else [("q", 0), ("q", 1), a]
                                    vals.append(qsem.Circ(env).num(w))
                            except qsem.Shape as ex:
                                cx.fail(rule, f"{s.a[1].a[1]}", f"not established: {ex}")
                                continue
                            f = (vals[1] - vals[0]) / pi
                            seen += 1
                            cx.check(rule, f"angle of {s.a[1].a[1]} in a lowered gate: factor {round(f, 4)}", abs(f) < 1e-9 or min(abs(abs(f) - g) for g in (1, 0.5)) < 1e-9,
                                     f"the half-turn parameter enters with factor {vals[1] - vals[0]}, not a simple multiple of pi")
    cx.floor("coverage", "lowered angles", seen, 4)


def run(cx):
    conversions(cx)
    loading(cx)
    device_export(cx)
    consts(cx)
    plain(cx)
    codegen(cx)
    lowering(cx)
    cx.assume("expression strings follow sympy syntax and precedence (the format pytket reads)")
