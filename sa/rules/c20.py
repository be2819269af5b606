"""C20: (1) the arithmetic of every cost type is extracted component by component as terms over symbolic components and the
terms are evaluated: addition, subtraction, change, division, sum and identity; (2) comparison is decided for every pair of
costs with components in {0,1,2}; (3) the operation cost functions are extracted for every gate and for operations that are
not gates; (4) circuit cost, cost of a set of nodes, and the cost change of a rewrite are extracted on uninterpreted circuits
with every kind of content, and must count the old and the new part with the same measure; (5) the thresholds of the strategy
cost functions are evaluated on a grid of costs."""
import itertools
from interp import V, mk, I, B, S, T, F, Adt, Tup, Seq, Some, is_c, is_t, UNIT, Ret, DEFAULT, show
from cx import Abort
import costs
from costs import World, circ, rewrite

LEX = "tket::circuit::cost::LexicographicCost"
POINTS = [0, 1, 2, 3, 5, 8, 1000, (1 << 40) + 7]


class Unknown(Exception):
    pass


def ev(t, env):
    """value of an extracted integer term"""
    if is_c(t):
        return t.a[1]
    if t.k == "t":
        n = t.a[0].rsplit("::", 1)[-1]
        if ">" in n:
            n = n.rsplit(">", 1)[-1]
        if n in env:
            return env[n]
        if n in ("Add", "Sub", "Mul", "Div", "Rem", "saturating_sub", "saturating_add", "saturating_add_signed", "wrapping_add", "wrapping_sub", "min", "max", "div_ceil",
                 "Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            x, y = (ev(z, env) for z in t.a[1:3])
            return {"Add": lambda: x + y, "wrapping_add": lambda: x + y, "Sub": lambda: x - y, "wrapping_sub": lambda: x - y, "Mul": lambda: x * y,
                    "Div": lambda: x // y if x >= 0 else -(-x // y), "Rem": lambda: x % y, "min": lambda: min(x, y), "max": lambda: max(x, y),
                    "div_ceil": lambda: -(-x // y), "saturating_sub": lambda: max(0, x - y), "saturating_add": lambda: x + y,
                    "saturating_add_signed": lambda: max(0, x + y), "Eq": lambda: x == y, "Ne": lambda: x != y, "Lt": lambda: x < y,
                    "Le": lambda: x <= y, "Gt": lambda: x > y, "Ge": lambda: x >= y}[n]()
        if n in ("default",):
            return 0
        if n in ("some", "ok"):
            return ev(t.a[1], env)
        if n in ("checked_add_signed", "checked_add", "checked_sub"):
            x, y = (ev(z, env) for z in t.a[1:3])
            return x - y if n == "checked_sub" else x + y
        if n == "try_from":
            return ev(t.a[-1], env)
        if n in ("cast", "int", "get", "iadd", "from", "into"):
            return ev(t.a[-1], env)
        if n == "bin":
            return ev(T(t.a[1], *t.a[2:]), env)
    raise Unknown(show(t)[:200])


def lex(vs):
    return Adt(LEX, "LexicographicCost", (Seq(tuple(vs)),))


def comps(v, n):
    """components of a cost value"""
    if n is None:
        return [v]
    if v.k == "adt" and v.a[0] == LEX:
        s = v.a[2][0]
        if s.k == "seq" and len(s.a[0]) == n:
            return list(s.a[0])
    raise Unknown(show(v)[:200])


def arithmetic(cx, key, label, n, args, want, consts=None, neg=()):
    """args: list of component-name prefixes; want(env, i) -> value of component i"""
    def go():
        def sym(p):
            vs = [T(f"{p}{i}") for i in range(n if n is not None else 1)]
            return vs[0] if n is None else lex(vs)
        it, outs = cx.run(key, [sym(p) if isinstance(p, str) else p for p in args], cparams={"N": n} if n is not None else {})
        names = [f"{p}{i}" for p in args if isinstance(p, str) for i in range(n if n is not None else 1)] + (consts or [])
        rets = [o for o in outs if o.kind == "ret"]
        cx.check("arithmetic", label + " returns", len(rets) == len(outs) and rets, f"{key} can stop without a result")
        vals = [1, 2, 3, 7] if len(names) > 3 else POINTS
        good, bad = 0, None
        envs = list(itertools.product(vals, repeat=len(names))) if len(vals) ** len(names) <= 600 else [
            tuple(vals[(j * (k + 1) + j // 3 + k) % len(vals)] for k in range(len(names))) for j in range(200)]
        for turn, e in ((t, e) for e in envs for t in ((0, 1) if neg else (0,))):
            env = dict(zip(names, e))
            if neg:                     # a change of cost can also be negative
                env = {x: (-y if x[:-1] in neg and (turn + int(x[-1])) % 2 else y) for x, y in env.items()}
            w = [want(env, i) for i in range(n if n is not None else 1)]
            if None in w:
                continue
            hit = [o for o in rets if all(holds(f, env) for f in o.trail)]
            if len(hit) != 1:
                bad = (env, "no single result")
                break
            v = it.reify(hit[0].st, hit[0].value)
            if is_t(v, "default"):
                got = [0] * (n if n is not None else 1)
            else:
                got = [ev(c, env) for c in comps(v, n)]
            if got != w:
                bad = (env, f"gives {got}, should give {w}")
                break
            good += 1
        cx.check("arithmetic", label, bad is None, f"{key}: for {bad and bad[0]} {bad and bad[1]}")
    try:
        cx.guard("arithmetic", label, go)
    except Unknown as e:
        cx.fail("arithmetic", label, f"not established: the extracted result {e} is not an integer term")


def holds(f, env):
    """a branch decision (cond, value) under env"""
    if isinstance(f, str):
        return True
    try:
        c, b = f[0], f[1]
        if isinstance(c, V) and b in ("None", "Some", "Ok", "Err"):
            return (ev(c, env) >= 0) == (b in ("Some", "Ok"))
        if isinstance(c, V) and isinstance(b, (bool, int)):
            return bool(ev(c, env)) == bool(b)
    except Unknown:
        pass
    raise Unknown(f"condition {f}")


def signed(env, p, i):
    return env[f"{p}{i}"]


def run(cx):
    P = cx.P
    # ---------------------------------------------------------------- (1) arithmetic
    impls = {None: ("usize", "isize")}
    for n in (None, 0, 1, 2, 3):
        u = "usize" if n is None else r"tket::circuit::cost::LexicographicCost<usize, N>"
        tag = "usize" if n is None else f"LexicographicCost<_, {n}>"
        cc = "<" + u + r" as tket::circuit::cost::CircuitCost>::"
        k = lambda m: cx.key("^" + cc.replace("<usize, N>", "<usize, N>") + m + "$", m)
        arithmetic(cx, k("sub_cost"), f"{tag} change between two costs", n, ["a", "b"], lambda e, i: e[f"a{i}"] - e[f"b{i}"])
        arithmetic(cx, k("add_delta"), f"{tag} cost plus change", n, ["a", "b"], lambda e, i: max(0, e[f"a{i}"] + e[f"b{i}"]), neg=("b",))
        arithmetic(cx, k("div_cost"), f"{tag} division", n, ["a", T("n0")], lambda e, i: -(-e[f"a{i}"] // e["n0"]) if e[f"a{i}"] and e["n0"] else None, ["n0"])
        if n is not None:
            g = r"^<tket::circuit::cost::LexicographicCost<T, N> as core::"
            arithmetic(cx, cx.key(g + r"ops::arith::Add>::add$"), f"{tag} addition", n, ["a", "b"], lambda e, i: e[f"a{i}"] + e[f"b{i}"])
            addassign(cx, cx.key(g + r"ops::arith::AddAssign>::add_assign$"), tag, n)
            arithmetic(cx, cx.key(g + r"default::Default>::default$"), f"{tag} zero", n, [], lambda e, i: 0)
            total(cx, cx.key(g + r"iter::traits::accum::Sum>::sum::<I>$"), tag, n)
        for ty, m in (("usize", "CircuitCost>::as_usize"), ("isize", "CostDelta>::as_isize")):
            nm = ty if n is None else LEX + f"<{ty}, N>"
            kk = f"<{nm} as tket::circuit::cost::{m}"
            if kk not in P:
                cx.fail("arithmetic", f"{tag} {m}", "not found")
                continue
            first(cx, kk, f"{tag} {m.split('::')[1]}", n)
    # ---------------------------------------------------------------- (2) ordering
    for op in ("Ord>::cmp", "PartialOrd>::partial_cmp"):
        order(cx, cx.key(r"^<tket::circuit::cost::LexicographicCost<T, N> as core::cmp::" + op + "$"), op)
    # ---------------------------------------------------------------- (3) operation costs
    opcosts(cx)
    # ---------------------------------------------------------------- (4) sums and changes
    changes(cx)
    # ---------------------------------------------------------------- (5) thresholds
    thresholds(cx)
    cx.floor("coverage", "arithmetic obligations", sum(cx.rules.get("arithmetic", [0, 0])), 30)


def addassign(cx, key, tag, n):
    def go():
        box = []

        def setup(it, st):
            pass
        ref = []

        def first_arg(it, st):
            r = it.new_cell(st, lex([T(f"a{i}") for i in range(n)]))
            ref.append(r)
            return r
        it, outs = cx.run(key, [first_arg, lex([T(f"b{i}") for i in range(n)])], cparams={"N": n})
        ok = True
        for o in outs:
            if o.kind != "ret":
                ok = False
                continue
            c = comps(it.reify(o.st, ref[0]), n)
            for e in ([1, 10], [7, 0], [5, 100]):
                env = {f"a{i}": e[0] + i for i in range(n)} | {f"b{i}": e[1] + 3 * i for i in range(n)}
                ok = ok and [ev(x, env) for x in c] == [env[f"a{i}"] + env[f"b{i}"] for i in range(n)]
        cx.check("arithmetic", f"{tag} adding in place", ok and outs, f"{key} does not add component by component")
    try:
        cx.guard("arithmetic", f"{tag} adding in place", go)
    except Unknown as e:
        cx.fail("arithmetic", f"{tag} adding in place", f"not established: {e}")


def total(cx, key, tag, n):
    for m in (0, 1, 2, 3):
        label = f"{tag} sum of {m}"

        def go():
            items = [lex([T(f"x{j}{i}") for i in range(n)]) for j in range(m)]
            it, outs = cx.run(key, [mk("iter", "seq", tuple(items))], cparams={"N": n}, inline=None)
            ok = len(outs) >= 1
            for o in outs:
                v = it.reify(o.st, o.value) if o.kind == "ret" else None
                if v is None:
                    ok = False
                    continue
                env = {f"x{j}{i}": 10 ** j * (i + 1) for j in range(m) for i in range(n)}
                got = [0] * n if is_t(v, "default") else [ev(c, env) for c in comps(v, n)]
                ok = ok and got == [sum(env[f"x{j}{i}"] for j in range(m)) for i in range(n)]
            cx.check("arithmetic", label, ok, f"{key} is not the component-wise sum: {[show(it.reify(o.st, o.value))[:200] for o in outs if o.kind == 'ret']}")
        try:
            cx.guard("arithmetic", label, go)
        except Unknown as e:
            cx.fail("arithmetic", label, f"not established: {e}")


def first(cx, key, label, n):
    def go():
        a = T("a0") if n is None else lex([T(f"a{i}") for i in range(n)])
        it, outs = cx.run(key, [a], cparams={"N": n} if n is not None else {})
        ok = bool(outs)
        for o in outs:
            v = it.reify(o.st, o.value) if o.kind == "ret" else None
            ok = ok and v is not None and all(ev(v, {f"a{i}": x + 10 * i for i in range(3)}) == (x if n != 0 else 0) for x in POINTS)
        cx.check("arithmetic", label, ok, f"{key} is not the most significant component")
    try:
        cx.guard("arithmetic", label, go)
    except Unknown as e:
        cx.fail("arithmetic", label, f"not established: {e}")


def order(cx, key, op):
    names = {-1: "Less", 0: "Equal", 1: "Greater"}
    for n in (1, 2, 3):
        vs = list(itertools.product(range(3 if n < 3 else 2), repeat=n))
        for a in vs:
            for b in vs:
                label = f"{op} of {a} and {b}"

                def go():
                    it, outs = cx.run(key, [lex([I(x) for x in a]), lex([I(x) for x in b])], cparams={"N": n})
                    w = names[(a > b) - (a < b)]
                    got = set()
                    for o in outs:
                        v = it.reify(o.st, o.value) if o.kind == "ret" else None
                        if v is not None and v.k == "adt" and v.a[1] == "Some":
                            v = v.a[2][0]
                        got.add(v.a[1] if v is not None and v.k == "adt" else show(v) if v is not None else o.kind)
                    cx.check("order", label, got == {w}, f"{key} says {sorted(got)}, the more significant component says {w}")
                cx.guard("order", label, go)


QUANTUM = {"H", "CX", "T", "S", "V", "X", "Y", "Z", "Tdg", "Sdg", "Vdg", "Rz", "Rx", "Toffoli", "Ry", "CZ", "CY", "CRz"}
NOT_GATES = {"Measure", "MeasureFree", "QAlloc", "TryQAlloc", "QFree", "Reset"}
OTHERS = ["other.CX", "other.Rz", "prelude.Noop", "tket.bool.read"]


def opcosts(cx):
    P = cx.P
    variants = [v["name"] for v in P.adt_variants("tket::ops::TketOp")]
    cx.floor("coverage", "gates", len(variants), 20)
    ops = [f"tket.quantum.{v}" for v in variants] + OTHERS
    F = r"^tket::rewrite::strategy::LexicographicCostFunction::<for<'a> fn\(&'a hugr_core::ops::OpType\) -> usize, 2>::"
    opc = cx.key(r"^<tket::rewrite::strategy::LexicographicCostFunction<F, N> as tket::rewrite::strategy::StrategyCost>::op_cost$")
    table = [("cx_count", "CX"), ("rz_count", "Rz"), ("default_cx_strategy", "CX")]
    dk = r"^<tket::rewrite::strategy::LexicographicCostFunction<for<'a> fn\(&'a hugr_core::ops::OpType\) -> usize, 2> as core::default::Default>::default$"
    for fn, gate in table + [("default", "CX")]:
        def go():
            it, outs = cx.run(cx.key(dk if fn == "default" else F + fn + "$"))
            cf = [it.reify(o.st, o.value) for o in outs if o.kind == "ret"]
            if len(cf) != 1 or len(outs) != 1:
                raise Abort(f"{fn} has more than one result")
            v = cf[0]
            while not v.a[0].endswith("LexicographicCostFunction"):
                v = v.a[2][0]
            return v, it
        r = cx.guard("operation cost", fn, go)
        if r is None:
            continue
        cfv, it0 = r
        for o in ops:
            label = f"{fn} of {o}"

            def go2():
                w = World(P, {"c": [("Module", None, None), ("ExtensionOp", 0, o)]}, {"c": 0})
                from interp import Interp, Opts
                it = Interp(P, Opts(on_call=w, cparams={"N": 2}))
                it.callees.update(it0.callees)
                outs = it.run(opc, [cfv, w.optype("c", 1)])
                cx.note(it, outs)
                g = o.rsplit(".", 1)[1] if o.startswith("tket.quantum.") else None
                isq = None if g is None else True if g in QUANTUM else False if g in NOT_GATES else None
                for x in outs:
                    if x.kind != "ret":
                        cx.fail("operation cost", label, "no result")
                        return
                    c = [ev(z, {}) for z in comps(it.reify(x.st, x.value), 2)]
                    if g is None:
                        cx.check("operation cost", label, c == [0, 0], f"an operation that is no gate is counted as {c}")
                    else:
                        cx.check("operation cost", label + ", major", c[0] == int(g == gate), f"counted {c[0]}")
                        q = quantum(cx, g)
                        cx.check("operation cost", label + ", minor", c[1] == int(q), f"counted {c[1]}, {'a' if q else 'not a'} quantum gate")
            try:
                cx.guard("operation cost", label, go2)
            except Unknown as e:
                cx.fail("operation cost", label, f"not established: {e}")
    # direct predicates
    for fn, want in (("is_cx", lambda g: g == "CX"), ("is_quantum", lambda g: g is not None and quantum(cx, g))):
        key = cx.key(rf"^tket::circuit::cost::{fn}$")
        for o in ops:
            g = o.rsplit(".", 1)[1] if o.startswith("tket.quantum.") else None

            def go3():
                w = World(P, {"c": [("Module", None, None), ("ExtensionOp", 0, o)]}, {"c": 0})
                it, outs = cx.run(key, [w.optype("c", 1)], on_call=w)
                got = {show(it.reify(x.st, x.value)) if x.kind == "ret" else x.kind for x in outs}
                cx.check("operation cost", f"{fn} of {o}", got == {show(B(bool(want(g))))}, f"{key} says {got}")
            cx.guard("operation cost", f"{fn} of {o}", go3)
    # the gamma strategies
    for fn in ("exhaustive_cx", "exhaustive_cx_with_gamma"):
        def go4():
            it0, outs = cx.run(cx.key(r"^tket::rewrite::strategy::GammaStrategyCost::<for<'a> fn\(&'a hugr_core::ops::OpType\) -> usize>::" + fn + "$"))
            v = it0.reify(outs[0].st, outs[0].value)
            while not v.a[0].endswith("GammaStrategyCost"):
                v = v.a[2][0]
            gk = cx.key(r"^<tket::rewrite::strategy::GammaStrategyCost<C> as tket::rewrite::strategy::StrategyCost>::op_cost$")
            for o in ops:
                g = o.rsplit(".", 1)[1] if o.startswith("tket.quantum.") else None
                w = World(P, {"c": [("Module", None, None), ("ExtensionOp", 0, o)]}, {"c": 0})
                from interp import Interp, Opts
                it = Interp(P, Opts(on_call=w))
                it.callees.update(it0.callees)
                os_ = it.run(gk, [v, w.optype("c", 1)])
                cx.note(it, os_)
                got = {ev(it.reify(x.st, x.value), {}) if x.kind == "ret" else x.kind for x in os_}
                cx.check("operation cost", f"{fn} of {o}", got == {int(g == "CX")}, f"counted {got}")
        try:
            cx.guard("operation cost", fn, go4)
        except Unknown as e:
            cx.fail("operation cost", fn, f"not established: {e}")


def quantum(cx, g):
    if g in QUANTUM:
        return True
    if g in NOT_GATES:
        return False
    raise Abort(f"gate {g} is not in the table of gates")


# -------------------------------------------------------------------------------- sums and changes
CONTENT = [("gate", [("ExtensionOp", "tket.quantum.H")]), ("two gates", [("ExtensionOp", "tket.quantum.CX"), ("ExtensionOp", "tket.quantum.Rz")]),
           ("opaque operation", [("OpaqueOp", "other.op")]), ("no-op", [("ExtensionOp", "prelude.Noop")]),
           ("tuples", [("ExtensionOp", "prelude.MakeTuple"), ("ExtensionOp", "prelude.UnpackTuple")]),
           ("constant", [("LoadConstant", None)]), ("nested", [("DFG", [("ExtensionOp", "tket.quantum.H"), ("ExtensionOp", "tket.quantum.CX"), ("ExtensionOp", "prelude.Noop")])]),
           ("conditional", [("Conditional", [("Case", [("ExtensionOp", "tket.quantum.H")]), ("Case", [])])]), ("nothing", [])]
COUNTED = lambda k, o: k in ("ExtensionOp", "OpaqueOp") and o not in ("prelude.Noop", "prelude.MakeTuple", "prelude.UnpackTuple")


def graph(items, wrap):
    """a hugr whose entry point holds `items`; returns (nodes, entry, top-level nodes of the items)"""
    g = [("Module", None, None)]
    e = 0
    for k in wrap:
        g.append((k, e, None))
        e = len(g) - 1
        g.append(("Input", e, None))
        g.append(("Output", e, None))
    tops = []

    def put(x, par):
        k, sub = x
        g.append((k, par, sub if isinstance(sub, str) else None))
        i = len(g) - 1
        if isinstance(sub, list):
            if k != "Conditional":
                g.append(("Input", i, None))
                g.append(("Output", i, None))
            for y in sub:
                put(y, i)
        return i
    for x in items:
        tops.append(put(x, e))
    return g, e, tops


def gates(items):
    return sum(gates(s) if isinstance(s, list) else int(COUNTED(k, s)) for k, s in items)


def changes(cx):
    P = cx.P
    weights = {}

    def weight(o):
        return weights.setdefault(o, len(weights) + 1)
    nd = cx.key(r"^tket::rewrite::CircuitRewrite::node_count_delta$")
    no = cx.key(r"^tket::circuit::Circuit::<T>::num_operations$")
    ccost = cx.key(r"^tket::circuit::Circuit::<T>::circuit_cost::<F, C>$")
    ncost = cx.key(r"^tket::circuit::Circuit::<T>::nodes_cost::<F, C, impl IntoIterator<Item = T::Node>>$")
    RS = r"as tket::rewrite::strategy::RewriteStrategy>::"
    pre = cx.key(r"^<Self " + RS + "pre_rewrite_cost$")
    post = cx.key(r"^<Self " + RS + "post_rewrite_cost$")
    scost = cx.key(r"^<Self " + RS + "circuit_cost::<impl HugrView<Node = Node>>$")
    gcost = cx.key(r"^<tket::rewrite::strategy::GreedyRewriteStrategy " + RS + "circuit_cost::<impl HugrView<Node = Node>>$")

    def one(key, args, w, label):
        it, outs = cx.run(key, args, on_call=w)
        got = set()
        for o in outs:
            v = it.reify(o.st, o.value) if o.kind == "ret" else None
            if v is None or not is_c(v):
                raise Abort(f"{key}: {o.kind} {show(v)[:200] if v is not None else o.st.cutreason}")
            got.add(v.a[1])
        if len(got) != 1:
            raise Abort(f"{key}: {sorted(got)}")
        return got.pop()
    for (na, a), (nb, b) in itertools.product(CONTENT, CONTENT):
        extra = [("ExtensionOp", "tket.quantum.T")]
        g, e, tops = graph(extra + a, ["FuncDefn"])
        tops = tops[1:]
        r, re_, rtops = graph(b, ["FuncDefn", "DFG"])
        w = World(P, {"host": g, "rep": r}, {"host": e, "rep": re_}, {0: (tops, "rep")}, cost=weight)
        label = f"{na} by {nb}"

        def go():
            d = one(nd, [rewrite(0)], w, label)
            cx.check("cost change", f"nodes of replacing {label}", d == len(b) - len(a), f"{nd} gives {d}: {len(a)} nodes are replaced by {len(b)}")
            p = one(pre, [T("self"), rewrite(0), circ("host")], w, label)
            q = one(post, [T("self"), rewrite(0)], w, label)
            cx.check("cost change", f"old cost of replacing {label}", p == w.total("host", tops), f"{pre} gives {p}")
            cx.check("cost change", f"new cost of replacing {label}", q == w.total("rep"), f"{post} gives {q}")
        cx.guard("cost change", label, go)
    for st in ("ExhaustiveGreedyStrategy", "ExhaustiveThresholdStrategy"):
        key = cx.key(rf"^<tket::rewrite::strategy::{st}<T> " + RS + "op_cost$")
        g, e, tops = graph([("ExtensionOp", "tket.quantum.H"), ("ExtensionOp", "other.op"), ("LoadConstant", None)], ["FuncDefn"])
        for k in tops:
            def go():
                w = World(P, {"host": g}, {"host": e}, {}, cost=weight)
                n = one(key, [Adt("tket::rewrite::strategy::" + st, st, (T("strat"),)), w.optype("host", k)], w, st)
                cx.check("cost", f"{st} cost of {g[k][2] or g[k][0]}", n == weight(g[k][2] or g[k][0]), f"{key} is not the cost the strategy was given")
            cx.guard("cost", f"{st} cost of {g[k][2] or g[k][0]}", go)
    for na, a in CONTENT:
        g, e, tops = graph(a, ["FuncDefn"])
        w = World(P, {"host": g}, {"host": e}, {}, cost=weight)

        def go():
            n = one(no, [circ("host")], w, na)
            cx.check("cost", f"number of operations of {na}", n == gates(a), f"{no} counts {n}, there are {gates(a)}")
            n = one(gcost, [T("gr"), circ("host")], w, na)
            cx.check("cost", f"greedy cost of {na}", n == gates(a), f"{gcost} gives {n}, there are {gates(a)}")
            n = one(scost, [T("self"), circ("host")], w, na)
            cx.check("cost", f"cost of {na}", n == w.total("host"), f"{scost} gives {n}, not {w.total('host')}")
        cx.guard("cost", na, go)


# -------------------------------------------------------------------------------- thresholds
def thresholds(cx):
    P = cx.P
    dk = cx.key(r"^<Self as tket::rewrite::strategy::StrategyCost>::under_threshold$")
    gk = cx.key(r"^<tket::rewrite::strategy::GammaStrategyCost<C> as tket::rewrite::strategy::StrategyCost>::under_threshold$")
    w = World(P, {}, {}, {})
    for p, t in itertools.product((0, 1, 2, 5), repeat=2):
        def go():
            it, outs = cx.run(dk, [T("self"), I(p), I(t)], on_call=w)
            got = {show(it.reify(o.st, o.value)) if o.kind == "ret" else o.kind for o in outs}
            cx.check("threshold", f"default, {p} -> {t}", got == {show(B(t <= p))}, f"{dk} says {got}")
        cx.guard("threshold", f"default, {p} -> {t}", go)
    for g in (0.5, 1.0, 1.0001, 2.0):
        fs = P.adts["tket::rewrite::strategy::GammaStrategyCost"]["variants"][0]["fields"]
        s = Adt("tket::rewrite::strategy::GammaStrategyCost", "GammaStrategyCost", tuple(F(g) if f == "gamma" else T("f") for f in fs))
        for p, t in itertools.product((0, 1, 2, 4), repeat=2):
            def go():
                it, outs = cx.run(gk, [s, I(p), I(t)])
                got = {show(it.reify(o.st, o.value)) if o.kind == "ret" else o.kind for o in outs}
                cx.check("threshold", f"gamma {g}, {p} -> {t}", got == {show(B(t < g * p))}, f"{gk} says {got}")
            cx.guard("threshold", f"gamma {g}, {p} -> {t}", go)
