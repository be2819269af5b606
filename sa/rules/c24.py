"""C24: the greedy commutation pass is executed abstractly on families of concrete circuits (gates with and without commuting ports,
measurements feeding later gates, allocation and release, foreign operations); the circuit it leaves is compared with the one it was
given: same operations, same wires apart from the order along qubits, and order changed only between gates that commute."""
import random
from interp import V, mk, I, B, S, T, Adt, Tup, Seq, Some, NONE, Ok, Err, UNIT, DEFAULT, is_c, is_t, show, Ret, Call, mk_fn_key
import hg, region, models
from hg import node, N
from region import Q, BIT, A, ANGLE, opv
from cmds import Cmds, circ
from rules.c28 import describe, whole

TK = "tket::ops::TketOp"
# gate: inputs, outputs, basis in which it is diagonal per qubit port (by definition of the gate)
GATES = {"H": ([Q], [Q], {}), "T": ([Q], [Q], {0: "Z"}), "X": ([Q], [Q], {0: "X"}), "Z": ([Q], [Q], {0: "Z"}), "Y": ([Q], [Q], {0: "Y"}),
         "S": ([Q], [Q], {0: "Z"}), "V": ([Q], [Q], {0: "X"}), "CX": ([Q, Q], [Q, Q], {0: "Z", 1: "X"}), "CZ": ([Q, Q], [Q, Q], {0: "Z", 1: "Z"}),
         "CY": ([Q, Q], [Q, Q], {0: "Z", 1: "Y"}), "Rz": ([Q, ANGLE], [Q], {0: "Z"}), "Rx": ([Q, ANGLE], [Q], {0: "X"}), "Ry": ([Q, ANGLE], [Q], {0: "Y"}),
         "CRz": ([Q, Q, ANGLE], [Q, Q], {0: "Z", 1: "Z"}), "Toffoli": ([Q] * 3, [Q] * 3, {0: "Z", 1: "Z", 2: "X"}),
         "Measure": ([Q], [Q, BIT], {0: "Z"}), "MeasureFree": ([Q], [BIT], {}), "QAlloc": ([], [Q], {}), "QFree": ([Q], [], {}), "Reset": ([Q], [Q], {})}
FOREIGN = {"Mix": ([Q, A], [Q, A]), "G1": ([Q], [Q]), "G2": ([Q, Q], [Q, Q]), "Swap2": ([Q, Q], [Q, Q]), "Not": ([BIT], [BIT]), "Rot": ([BIT], [ANGLE]), "Shift": ([BIT, Q], [Q, BIT]),
           "Pack": ([Q, Q], [A]), "Unpack": ([A], [Q, Q])}


def circuit(rng):
    names, few = None, False
    if rng.random() < 0.5:
        names, few = rng.sample(["CX", "CZ", "X", "T", "Z"], 4) + rng.choice([[], [], ["H"], ["G1"]]), True
    pool = sorted(GATES) if rng.random() < 0.4 else ["CRz", "CX", "CY", "CZ", "H", "Measure", "Rx", "Rz", "T", "Toffoli", "V", "Z"]
    names = names or rng.sample(pool, rng.randint(3, 6)) + rng.choice([[], [], ["T", "CX", "CZ"], ["Measure", "Rot", "Rz"], ["Measure", "Rot", "Rz", "CZ", "CX"]])
    names += [] if few else rng.choice([[], [], [], ["G1", "G2"], ["Mix", "Shift"], ["Pack", "Unpack", "G1"]])
    saved = list(region.OPS)
    try:
        region.OPS[:] = [(n,) + tuple((GATES.get(n) or FOREIGN[n])[:2]) for n in names]
        ins = [Q] * rng.randint(2, 4) if few else [Q] * rng.randint(1, 4) + rng.sample([A, BIT, ANGLE, ANGLE], rng.randint(0, 3))
        if rng.random() < 0.5:
            rng.shuffle(ins)
        g = region.circuit(rng, ins, rng.randint(4, 11), order=rng.choice([0, 0, 0.15, 0.4]), allowed=names, const=0)
    finally:
        region.OPS[:] = saved
    for n, x in list(g.nodes.items()):
        if x.op.a[1] in GATES:
            g.nodes[n] = N(Adt(TK, x.op.a[1], ()), x.ins, x.outs, x.parent)
    return g


class Comm(Cmds):
    def __init__(self, cx):
        super().__init__(cx)
        self.patch = cx.key(r"^<tket::passes::commutation::PullForward as .*Patch<H>>::apply$")

    def __call__(self, I_, st, ci, a):
        nm = ci.def_.rsplit("::", 1)[-1]
        if nm == "apply_patch" and len(a) == 2:
            return Call(mk_fn_key(I_, self.patch, self.patch), [a[1], a[0]], lambda I2, s, r: Ret(r))
        if nm in ("hugr_mut", "hugr") and "Circuit" in ci.def_:
            return T("hugr")
        if nm == "new" and "PortOffset" in ci.def_ and len(a) == 2:
            return (hg.inp if I_.reify(st, a[0]).a[1] == "Incoming" else hg.outp)(self.p(I_, st, a[1]))
        if nm == "qubit_count":
            return I(sum(1 for t in self.gr(st).nodes[self.gr(st).inn].outs if t == Q))
        return super().__call__(I_, st, ci, a)


    def g_node_inputs(self, I_, st, ci, a):
        x = self.gr(st).nodes[self.n(I_, st, a[1])]
        return mk("iter", "seq", tuple(hg.inp(i) for i in range(len(x.ins) + (x.op.a[1] != "Input"))))

    def g_node_outputs(self, I_, st, ci, a):
        x = self.gr(st).nodes[self.n(I_, st, a[1])]
        return mk("iter", "seq", tuple(hg.outp(i) for i in range(len(x.outs) + (x.op.a[1] != "Output"))))


def lin(t):
    return not t.a[2][0].a[1]


def lines(g):
    """the operations along each qubit, as (node, port in, port out); one line per qubit that starts somewhere"""
    out = {}
    for n, x in g.nodes.items():
        if x.parent != g.entry:
            continue
        for p, t in enumerate(x.outs):
            if t == Q and not (is_gate(x) and p in follow(x)):
                l, w = [], (n, p)
                while True:
                    d = g.dst(*w)
                    if len(d) != 1:
                        return None
                    m, q = d[0]
                    if (m, q) in l:
                        return None
                    l.append((m, q))
                    if not (is_gate(g.nodes[m]) and q in follow(g.nodes[m])):
                        break
                    w = (m, q)
                out[n, p] = l
    return out


def is_gate(x):
    return x.op.a[0] == TK


def follow(x):
    """ports of a gate where the qubit goes on under the same number"""
    return [p for p in range(min(len(x.ins), len(x.outs))) if x.ins[p] == Q and x.outs[p] == Q]


def judge(cx, lb, g, h):
    d = describe(g, whole(g)[0]) + " ==> " + " ".join(f"{a}.{p}>{b}.{q}" for a, p, b, q in h.edges)
    same = {k: (x.op, x.ins, x.outs, x.parent) for k, x in g.nodes.items()} == {k: (x.op, x.ins, x.outs, x.parent) for k, x in h.nodes.items()}
    cx.check("the operations stay", lb, same, d[:900])
    qed = lambda gr: {e for e in gr.edges if e[1] < len(gr.nodes[e[0]].outs) and gr.nodes[e[0]].outs[e[1]] == Q}
    cx.check("other wires stay", lb, same and set(g.edges) - qed(g) == set(h.edges) - qed(h) and len(g.edges) == len(h.edges), d[:900])
    a, b = lines(g), lines(h)
    acyclic = not any(n in region.reach(h, n) for n in h.nodes)
    cx.check("no operation depends on itself", lb, acyclic, d[:900])
    ok = a is not None and b is not None and set(a) == set(b) and all(sorted(a[k]) == sorted(b[k]) and a[k][-1] == b[k][-1] for k in a)
    cx.check("every qubit passes the same ports", lb, ok, d[:900])
    if not ok:
        return 0
    bad, n = [], 0
    for k in a:
        pos = {x: i for i, x in enumerate(b[k])}
        n += a[k] != b[k]
        for i, x in enumerate(a[k]):
            for y in a[k][i + 1:]:
                if pos[x] > pos[y]:
                    bx, by = basis(g, x), basis(g, y)
                    if bx is None or bx != by:
                        bad.append((x, y))
    cx.check("order changes only between gates that commute", lb, not bad, f"{[(x, g.nodes[x[0]].op.a[1], y, g.nodes[y[0]].op.a[1]) for x, y in bad[:3]]} in {d}"[:900])
    return n


def basis(g, x):
    return GATES[g.nodes[x[0]].op.a[1]][2].get(x[1]) if is_gate(g.nodes[x[0]]) else None


def run(cx):
    key = cx.key(r"^tket::passes::commutation::apply_greedy_commutation$")
    model = Comm(cx)
    rng = random.Random(24)
    jobs = []
    for i in range(12000 if cx.thorough else 1800):
        g = circuit(rng)
        jobs += [(i, g, pick) for pick in ("first", "any")[:1 + (i % 3 == 0)]]

    def job(j):
        i, g, pick = j
        r2 = random.Random(i)
        model.pick = {"first": lambda l: l[0], "any": lambda l: r2.choice(l)}[pick]
        st = {"moved": 0, "n": 0}
        cx.guard("coverage", f"circuit {i} ({pick})", one, cx, model, key, f"circuit {i} ({pick})", g, st)
        return st
    st = cx.spread(jobs, job)
    cx.floor("coverage", "circuits", sum(x["n"] for x in st), 1200)
    cx.floor("coverage", "circuits with gates moved", sum(x["moved"] > 0 for x in st), 50)


def one(cx, model, key, lb, g, st):
    it, res = cx.run(key, [circ()], setup=lambda it, s: s.side.__setitem__("hg", g), on_call=model, user_iter=model.user_iter, recursion=30, loop_decisions=300,
                     max_visits=40000, max_steps=2000000)
    if not res or any(o.kind != "ret" for o in res):
        return cx.fail("the pass ends without panic", lb, f"{[(o.kind, str(o.value)[:200], str(o.st.cutreason)[:200]) for o in res if o.kind != 'ret'][:2]} in {describe(g, whole(g)[0])}"[:900])
    for o in res:
        v = it.reify(o.st, o.value)
        cx.check("the pass succeeds", lb, v.k == "adt" and v.a[1] == "Ok", f"{show(v)[:200]} in {describe(g, whole(g)[0])}"[:900])
        h = o.st.side["hg"]
        st["n"] += 1
        st["moved"] += judge(cx, lb, g, h)
