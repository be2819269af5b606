"""Shared by C04-C06: abstract runs of the pytket encoder hooks and decoder hooks."""
import re
from interp import V, mk, I, S, T, Adt, Tup, Seq, Some, NONE, Ok, Err, is_c, is_t, show, subterms, DEFAULT, Incomplete

TK = "tket::ops::TketOp"
QS = "tket_qsystem::extension::qsystem::QSystemOp"
TVALS = "tket::serialize::pytket::encoder::value_tracker::TrackedValues"
OPT = "tket_json_rs::optype::OpType"
PT = "tket::serialize::pytket::decoder::param::ParameterType"
LP = "tket::serialize::pytket::decoder::param::LoadedParameter"

ENC_OPAQUE = [r"::emit_command$", r"::get_input_values(_internal)?$", r"::register_node_outputs$", r"::param_expression$",
              r"::new_qubit$", r"::new_bit$", r"::new_param$", r"ValueTracker.*::register_wire$", r"::node_output_values$",
              r"::emit_transparent_node$"]
DEC_OPAQUE = [r"::add_node_with_wires$", r"::wire_up_node$", r"::load_half_turns(_with_type|_parameter)?$", r"::register_node_outputs$"]


class NoEmit(Exception):
    pass


def encode(cx, key, fam, op, nq, nb, params, ob=0, opaque=None, hook=None, wirecounts=None):
    """outcomes of one emitter hook for an operation with nq qubits, nb bits in, these parameter expressions, ob new bits out"""
    def on_call(it, st, c, args):
        if hook:
            r = hook(it, st, c, args)
            if r is not DEFAULT:
                return r
        if c.fn.endswith("from_extension_op"):
            return Ok(op) if fam in c.full else Err(T("other"))
        if c.fn.endswith("::get_input_values"):
            return Ok(Adt(TVALS, "TrackedValues", [Seq([T("q", I(i)) for i in range(nq)]), Seq([T("b", I(i)) for i in range(nb)]),
                                                   Seq([T("p", I(i)) for i in range(len(params))])]))
        if c.fn.endswith("::register_node_outputs"):
            return Ok(Adt(TVALS, "TrackedValues", [Seq([]), Seq([T("nb", I(i)) for i in range(ob)]), Seq([])]))
        if c.fn.endswith("::param_expression"):
            x = it.reify(st, args[1])
            if is_t(x, "p"):
                return params[x.a[1].a[1]] if isinstance(params[x.a[1].a[1]], V) else S(params[x.a[1].a[1]])
        if c.fn.endswith("::get_metadata"):
            return NONE
        if c.fn.endswith("HugrView::node_outputs"):
            return Seq([T("port", I(i)) for i in range(4)])
        return DEFAULT
    return cx.run(key, on_call=on_call, opaque=opaque or ENC_OPAQUE, effectful=opaque or ENC_OPAQUE)


def field(v, name):
    """field of a record built by `default()` plus assignments; None if never assigned"""
    if v.k == "with":
        for k, x in v.a[1]:
            if k == name:
                return x
        return field(v.a[0], name)
    return None


def strs(v):
    """list of strings of a sequence of concrete strings, or None"""
    if v is None or v.k != "seq" or not all(is_c(x, "str") for x in v.a[0]):
        return None
    return [x.a[1] for x in v.a[0]]


def opt(v):
    """content of Some, None for None, raises otherwise"""
    if v.k == "adt" and v.a[1] == "Some":
        return v.a[2][0]
    if v.k == "adt" and v.a[1] == "None":
        return None
    raise Incomplete("optional value not determined: " + show(v)[:120])


# ------------------------------------------------------------------ expressions
def evalexpr(s, env):
    """value of a pytket parameter expression: sympy (Python) syntax"""
    import ast, math
    tree = ast.parse(s.strip(), mode="eval")

    def ev(n):
        if isinstance(n, ast.Expression):
            return ev(n.body)
        if isinstance(n, ast.BinOp):
            a, b = ev(n.left), ev(n.right)
            if isinstance(n.op, ast.Add):
                return a + b
            if isinstance(n.op, ast.Sub):
                return a - b
            if isinstance(n.op, ast.Mult):
                return a * b
            if isinstance(n.op, ast.Div):
                return a / b
            if isinstance(n.op, ast.Pow):
                return a ** b
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            return -ev(n.operand)
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            return n.value
        if isinstance(n, ast.Name):
            if n.id == "pi":
                return math.pi
            return env[n.id]
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
            f = {"max": max, "min": min, "abs": abs, "floor": math.floor, "ceil": math.ceil, "ceiling": math.ceil, "round": round}[n.func.id]
            return f(*[ev(x) for x in n.args])
        raise SyntaxError("unsupported expression " + s)
    return ev(tree)


def events(o, suffix):
    return [e for e in o.events if e.fn.endswith(suffix)]


def rets(outs):
    return [o for o in outs if o.kind == "ret"]


def status(o):
    """Success / Unsupported / Err / None (undetermined) of a hook's return value"""
    v = o.value
    if isinstance(v, V) and v.k == "adt":
        if v.a[1] == "Ok":
            x = v.a[2][0]
            if x.k == "adt":
                return x.a[1]
            return None
        if v.a[1] == "Err":
            return "Err"
    return None
