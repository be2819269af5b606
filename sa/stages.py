"""Extraction of the sequence of pipeline stages from a driver function."""
import itertools, re
from interp import is_t, is_c, show, T, S, B, UNIT
from cx import Abort

OPAQUE = [r"ComposablePass.*>?::run$", r"::force_order$|::force_order::<", r"inline_constant_functions", r"lower_tk2_op(::<|$)"]


def classify(fn, table):
    for name, rx in table:
        if re.search(rx, fn):
            return name
    return None


def object_of(v):
    while is_t(v, "after"):
        v = v.a[2]
    return v


def trace(o, table):
    """[(stage, event)] of the outcome, in execution order"""
    out = []
    for e in o.events:
        s = classify(e.fn, table)
        if s is None and e.fn.endswith("::run") and "ComposablePass" in e.fn:
            s = "other:" + e.fn
        if s:
            out.append((s, e))
    return out


def default_value(cx, key):
    it, outs = cx.run(key)
    if len(outs) != 1 or outs[0].kind != "ret":
        raise Abort(f"{key} is not a single returning path")
    return it.reify(outs[0].st, outs[0].value)


def call_setter(cx, key, val, b):
    """value of the pass object after setter(b)"""
    it, outs = cx.run(key, [val, B(b)])
    if len(outs) != 1 or outs[0].kind != "ret":
        raise Abort(f"setter {key} is not a single returning path")
    v = it.reify(outs[0].st, outs[0].value)
    return it.reify(outs[0].st, it.argvals[0]) if v is UNIT else v


def hugr_arg(e):
    """the program a stage is applied to"""
    for a, ty in zip(reversed(e.args), reversed(e.args)):
        a = object_of(a)
        if is_t(a, "in"):
            return a
    return None


def is_ok(v):
    return v.k == "adt" and v.a[1] == "Ok"


def is_err(v):
    return v.k == "adt" and v.a[1] == "Err"


def stage_failures(cx, rule, key, runkey, val, table, **opts):
    """with failing stages followed: a stage that fails ends the run with an error"""
    it, outs = cx.run(runkey, {"self": val}, opaque=OPAQUE, follow_errors=True, **opts)
    n = 0
    for o in outs:
        tr = trace(o, table)
        if o.kind != "ret" or not tr:
            continue
        v = it.reify(o.st, o.value)
        # stages whose result was found to be Err on this path
        bad = [s for s, e in tr if o.facts.get(("var", e.res)) == "Err"]
        if bad:
            n += 1
            cx.check(rule, f"{key}: failure of {bad[0]}", is_err(v) and tr[-1][0] == bad[0],
                     f"when stage {bad[0]} fails, the run continues or reports success")
    return n
