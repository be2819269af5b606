"""C41: the command iterator and the accessors of a command are executed abstractly on families of concrete circuits (mixed linear
and copyable rows in any order, allocation and release, constants, calls, order edges, every admissible topological order) and
compared with the definition: every operation once, dependencies first, and the unit of a port is the unit of the wire at it."""
import random
from interp import V, mk, I, B, S, T, Adt, Tup, Seq, Some, NONE, is_c, is_t, show, Ret
import hg, region, exprs, models
from hg import node, inp, outp
from cmds import Cmds, circ
from rules.c28 import describe, whole

CMD = r"^tket::circuit::command::Command::<'_, T>::%s$"
LU = "tket::circuit::units::LinearUnit"
CU = "hugr_core::core::CircuitUnit"


def lin(t):
    return not t.a[2][0].a[1]


def ask(cx, model, g, key, args, drain=False):
    """the value of a function of the program on this circuit"""
    def post(I_, st, v):
        v = I_.reify(st, v)
        it = models.as_iter(I_, st, v) if drain else None
        if it is None:
            return Ret(v)
        return models.drain_all(I_, st, it, lambda s, l: Ret(Seq([I_.reify(s, x) for x in l])))
    it, res = cx.run(key, args, setup=lambda it, st: st.side.__setitem__("hg", g), on_call=model, post=post, user_iter=model.user_iter, recursion=30,
                     loop_decisions=200, max_visits=20000)
    if len(res) != 1 or res[0].kind != "ret":
        return None, [(o.kind, str(o.st.cutreason)) for o in res]
    return it.reify(res[0].st, res[0].value), None


def nid(v):
    return v.a[2][0].a[1]


def demanded(g, nodes):
    """operations that must be listed: constants and their loads only when a listed operation consumes them"""
    out = {n for n in nodes if g.nodes[n].op.a[1] not in ("Const", "LoadConstant")}
    out0 = out | {g.out}
    change = True
    while change:
        change = False
        for e in g.edges:
            if e[0] in nodes and e[0] not in out and e[2] in out0 | out:
                out.add(e[0])
                change = True
    return out


def judge(cx, model, lb, g, v):
    d = describe(g, whole(g)[0])
    nodes = [k for k, x in g.nodes.items() if x.parent == g.entry and k not in (g.inn, g.out)]
    seq = [nid(c.a[2][1]) for c in v.a[0]]
    want = demanded(g, nodes)
    cx.check("every operation exactly once", lb, len(seq) == len(set(seq)) and want <= set(seq) <= set(nodes), f"listed {seq}, operations {sorted(want)} in {d}"[:900])
    pos = {n: i for i, n in enumerate(seq)}
    bad = [(e[0], e[2]) for e in g.edges if e[0] in pos and e[2] in pos and not pos[e[0]] < pos[e[2]]]
    cx.check("after everything it depends on", lb, not bad, f"{bad} in the order {seq} in {d}"[:900])
    # the units, by definition
    unit, nxt = {}, 0
    for p, t in enumerate(g.nodes[g.inn].outs):
        if lin(t):
            unit[g.inn, p] = nxt
            nxt += 1
    for c in v.a[0]:
        n = nid(c.a[2][1])
        x = g.nodes[n]
        iu = [u.a[2][0].a[1] for u in c.a[2][2].a[0]]
        ou = [u.a[2][0].a[1] for u in c.a[2][3].a[0]]
        lin_in = [p for p, t in enumerate(x.ins) if lin(t)]
        lin_out = [p for p, t in enumerate(x.outs) if lin(t)]
        arr = [unit.pop(g.src(n, p)[0], None) for p in lin_in]
        cx.check("the unit that arrives", f"{lb} {n}", iu == arr, f"operation {n}:{x.op.a[1]} is given the units {iu}, the wires carry {arr}, in {d}"[:900])
        k = min(len(arr), len(lin_out))
        live = set(unit.values()) | set(arr[:k])
        ok = ou[:k] == arr[:k] and len(ou) == len(lin_out) and len(set(ou)) == len(ou) and not set(ou[k:]) & live
        cx.check("a unit goes on through the operation, a new one is new", f"{lb} {n}", ok,
                 f"operation {n}:{x.op.a[1]} takes {arr} and gives {ou} while {sorted(unit.values())} are in use, in {d}"[:900])
        for p, u in zip(lin_out, ou):
            unit[n, p] = u
        access(cx, model, lb, g, d, c, n, x, lin_in, iu, lin_out, ou)


def access(cx, model, lb, g, d, c, n, x, lin_in, iu, lin_out, ou):
    wire = lambda m, p: Adt("hugr_core::core::Wire", "Wire", (node(m), outp(p)))
    static = {"LoadConstant": ([region.BIT], []), "Const": ([], [region.BIT])}.get(x.op.a[1], ([], []))

    def unit(p, t, lp, us, w):
        if lin(t):
            k = lp.index(p)
            return Adt(CU, "Linear", (I(us[k]),)) if k < len(us) else T("missing")
        return Adt(CU, "Wire", (w,))
    ins = [(unit(p, t, lin_in, iu, wire(*g.src(n, p)[0])), inp(p), t) for p, t in enumerate(list(x.ins) + static[0])]
    outs = [(unit(p, t, lin_out, ou, wire(n, p)), outp(p), t) for p, t in enumerate(list(x.outs) + static[1])]
    tup = lambda l: Seq(Tup(*y) for y in l)
    lun = lambda l, q=None: Seq(Tup(Adt(LU, "LinearUnit", (u.a[2][0],)), p, t) for u, p, t in l if lin(t) and (q is None or t == q))
    for name, want in (("inputs", tup(ins)), ("outputs", tup(outs)), ("linear_inputs", lun(ins)), ("linear_outputs", lun(outs)),
                       ("input_qubits", lun(ins, region.Q)), ("output_qubits", lun(outs, region.Q)),
                       ("input_wires", tup((u, wire(*g.src(n, p.a[2][0].a[1])[0])) for u, p, t in ins)), ("output_wires", tup((u, wire(n, p.a[2][0].a[1])) for u, p, t in outs))):
        got, why = ask(cx, model, g, model.acc[name], [c], True)
        cx.check("accessors name the unit at the port", f"{name}: {lb} {n}", got is not None and got == want,
                 f"{name} of {n}:{x.op.a[1]} is {show(got) if got is not None else why}, expected {show(want)} in {d}"[:900])
    for dirn, lp, us, port in (("Incoming", lin_in, iu, inp), ("Outgoing", lin_out, ou, outp)):
        ids = sorted(set(iu + ou))
        for u in ids:
            got, why = ask(cx, model, g, model.acc["linear_unit_port"], [c, Adt(LU, "LinearUnit", (I(u),)), Adt(hg.DIR, dirn, ())])
            want = {lp[i] for i, w in enumerate(us) if w == u}
            ok = got is not None and (got == NONE if not want else is_some_port(got, dirn, want))
            cx.check("accessors name the unit at the port", f"linear_unit_port: {lb} {n} {dirn} {u}", ok,
                     f"the port of unit {u} ({dirn}) of {n}:{x.op.a[1]} is {show(got) if got is not None else why}, expected {sorted(want)} in {d}"[:900])


def is_some_port(v, dirn, want):
    if v.a[1] != "Some":
        return False
    t = show(v)
    return dirn in t and any(f"({w})" in t or f", {w})" in t for w in want)


def boundary(cx, model, lb, g):
    """the units of the circuit's inputs"""
    d = describe(g, whole(g)[0])
    rows = [(p, t) for p, t in enumerate(g.nodes[g.inn].outs)]
    l = [(p, t) for p, t in rows if lin(t)]
    num = {p: i for i, (p, t) in enumerate(l)}
    lun = lambda xs: Seq(Tup(Adt(LU, "LinearUnit", (I(num[p]),)), outp(p), t) for p, t in xs)
    wire = lambda p: Adt(CU, "Wire", (Adt("hugr_core::core::Wire", "Wire", (node(g.inn), outp(p))),))
    for name, want in (("units", Seq(Tup(Adt(CU, "Linear", (I(num[p]),)) if lin(t) else wire(p), outp(p), t) for p, t in rows)),
                       ("linear_units", lun(l)), ("qubits", lun([x for x in l if x[1] == region.Q]))):
        got, why = ask(cx, model, g, cx.key(r"^tket::circuit::Circuit::<T>::%s$" % name), [circ()], True)
        cx.check("units of the inputs", f"{name}: {lb}", got is not None and got == want, f"{name} is {show(got) if got is not None else why}, expected {show(want)} in {d}"[:900])


def run(cx):
    model = Cmds(cx)
    model.acc = {n: cx.key(CMD % n) for n in ("inputs", "outputs", "linear_inputs", "linear_outputs", "input_qubits", "output_qubits", "input_wires", "output_wires", "linear_unit_port")}
    key = cx.key(r"^tket::circuit::Circuit::<T>::commands$")
    rng = random.Random(41)
    n = 0
    for i in range(300 if cx.thorough else 60):
        if i % 2:
            g = exprs.circuit(rng, order=rng.choice([0, 0.6]))
        else:
            g = region.circuit(rng, [rng.choice([region.Q, region.Q, region.BIT, region.A, region.ANGLE]) for _ in range(rng.randint(0, 4))], rng.randint(1, 7),
                               order=rng.choice([0, 0.5]), const=rng.choice([0, 0, 1, 2]))
        cx.guard("coverage", f"inputs {i}", boundary, cx, model, f"circuit {i}", g)
        for pick in ("first", "last", "any"):
            r2 = random.Random(i)
            model.pick = {"first": lambda l: l[0], "last": lambda l: l[-1], "any": lambda l: r2.choice(l)}[pick]
            lb = f"circuit {i} ({pick})"
            n += 1
            cx.guard("coverage", lb, one, cx, model, key, lb, g)
    cx.floor("coverage", "circuits", n, 100)


def one(cx, model, key, lb, g):
    v, why = ask(cx, model, g, key, [circ()], True)
    if v is None:
        return cx.fail("coverage", lb, f"the commands of the circuit are not a single list: {why} in {describe(g, whole(g)[0])}"[:900])
    judge(cx, model, lb, g, v)
