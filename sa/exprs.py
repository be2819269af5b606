"""Copyable expressions (tket::subcircuit::CopyableExpr) and reachability on concrete regions: shared by C23 and C39."""
import random
from interp import V, mk, I, B, S, T, Adt, Tup, Seq, Some, NONE, is_c, is_t, show, Ret, DEFAULT, UNIT, Ok, Err
import hg, region, models
from hg import node, inp, outp
from region import BIT, ANGLE, Q, Region, reach
from rules import c28
from rules.c28 import Scope, whole, describe

CE = "tket::subcircuit::expression::CopyableExpr"
EOPS = ["G1", "G3", "MeasQB", "Meas", "Not", "And", "Rot", "Split", "Split2", "Mk", "CallB", "Cond", "AngB", "Alloc", "Free"]
region.OPS += [("Split", [BIT], [BIT, BIT]), ("Split2", [BIT, BIT], [BIT, ANGLE]), ("Mk", [], [BIT]), ("CallB", [BIT], [BIT]), ("AngB", [ANGLE, ANGLE], [ANGLE])]


class Exprs(Scope):
    tie = "first"

    def __call__(self, I_, st, ci, a):
        d, nm = ci.def_, ci.def_.rsplit("::", 1)[-1]
        if "SiblingSubgraph" in d and nm == "new_unchecked":
            v = [I_.reify(st, x) for x in a]
            return Adt(region.SUB, "Sub", (v[3], v[0], v[1], v[2]))
        if "PriorityQueue" in ci.full or "priority_queue" in d:
            return self.queue(I_, st, ci, nm, a)
        if nm in ("static_input", "static_input_port"):
            i = self.op(I_, st, a[0])
            if i is not None:
                x = self.gr(st).nodes[i]
                if x.op.a[1] == "CallB":
                    return Some(Adt(hg.EK, "Function", (T("poly"),))) if nm == "static_input" else Some(inp(len(x.ins)))
                if x.op.a[1] == "LoadConstant":
                    return Some(Adt(hg.EK, "Const", (BIT,))) if nm == "static_input" else Some(inp(0))
                return NONE
        if nm == "value_types" and len(a) == 3:
            k = I_.reify(st, a[2]).a[1]
            x = self.gr(st).nodes[self.n(I_, st, a[1])]
            return mk("iter", "seq", tuple(Tup(inp(i) if k == "Incoming" else outp(i), t) for i, t in enumerate(x.ins if k == "Incoming" else x.outs)))
        if nm in ("is_function", "is_value", "is_static") and a:
            v = I_.reify(st, a[0])
            if v.k == "adt" and v.a[0] == hg.EK:
                return B(v.a[1] == {"is_function": "Function", "is_value": "Value"}.get(nm) or nm == "is_static" and v.a[1] in ("Function", "Const"))
        return super().__call__(I_, st, ci, a)

    def g_node_outputs(self, I_, st, ci, a):
        """all ports that can carry an edge: values, then order"""
        return mk("iter", "seq", tuple(outp(i) for i in range(len(self.gr(st).nodes[self.n(I_, st, a[1])].outs) + 1)))

    def queue(self, I_, st, ci, nm, a):
        if nm in ("new", "default", "with_capacity"):
            return T("vp.pq", Seq(()))
        c, p, v = models.seq_target(I_, st, a[0])
        if not is_t(v, "vp.pq"):
            return DEFAULT
        items = list(v.a[1].a[0])
        put = lambda: I_.storev(st, c, p, T("vp.pq", Seq(items)))
        if nm == "push":
            k, pr = I_.reify(st, a[1]), I_.reify(st, a[2])
            for i, x in enumerate(items):
                if x.a[0][0] == k:
                    items[i] = Tup(k, pr)
                    put()
                    return Some(x.a[0][1])
            items.append(Tup(k, pr))
            put()
            return NONE
        if nm == "pop":
            if not items:
                return NONE
            ks = [models.order_key(x.a[0][1]) for x in items]
            best = [i for i, k in enumerate(ks) if k == max(ks)]
            x = items.pop(best[0] if self.tie == "first" else best[-1])
            put()
            return Some(x)
        if nm in ("is_empty", "len"):
            return B(not items) if nm == "is_empty" else I(len(items))
        return DEFAULT


def value_edge(g, e):
    return e[1] < len(g.nodes[e[0]].outs) and e[3] < len(g.nodes[e[2]].ins)


def reaches(g, scope, starts, ends):
    """some node of ends is reachable, inside the scope, from a consumer of one of the starts"""
    todo = [m for n, p in starts for m, _ in g.dst(n, p)]
    seen = set()
    while todo:
        n = todo.pop()
        if n in seen or n not in scope:
            continue
        seen.add(n)
        todo += [e[2] for e in g.edges if e[0] == n]
    return bool(seen & set(ends))


class Case:
    """one request for an expression, with the answer by definition"""

    def __init__(self, g, nodes, output, allowed, exclude):
        self.g, self.scope, self.output, self.allowed, self.exclude = g, set(nodes), output, allowed, exclude
        cop = lambda n: all(t.a[2][0].a[1] for t in g.nodes[n].ins + g.nodes[n].outs)
        self.adm = lambda n: n in self.scope and n not in exclude and cop(n)
        self.trivial = not self.adm(output[0])
        self.nodes, self.inputs = set(), set()
        todo = [] if self.trivial else [output[0]]
        while todo:
            n = todo.pop()
            if n in self.nodes:
                continue
            self.nodes.add(n)
            for p in range(len(g.nodes[n].ins)):
                s = g.src(n, p)[0]
                if (n, p) in allowed or not self.adm(s[0]):
                    self.inputs.add((n, p))
                else:
                    todo.append(s[0])
        self.outputs = {(n, p) for n in self.nodes for p in range(len(g.nodes[n].outs))
                        if any((m, q) in self.inputs or m not in self.nodes for m, q in g.dst(n, p))}
        self.convex = True
        for e in g.edges:
            if e[0] in self.nodes:
                if e[2] in self.nodes:
                    if (e[2], e[3]) in self.inputs:
                        self.convex = False
                elif (reach(g, e[2]) | {e[2]}) & self.nodes:
                    self.convex = False

    def __str__(self):
        return f"output {self.output}, allowed {self.allowed}, excluded {self.exclude} in {describe(self.g, sorted(self.scope))}"


def circuit(rng, order):
    """a circuit with at least one operation, calls going to one of several functions"""
    while True:
        g = region.circuit(rng, [rng.choice([Q, BIT, BIT, ANGLE]) for _ in range(rng.randint(1, 3))], rng.randint(2, 6), order=order,
                           allowed=EOPS, const=rng.choice([0, 0, 1]))
        for k, x in list(g.nodes.items()):
            if x.op.a[1] == "CallB":
                f = next((i for i, y in g.nodes.items() if y.op.a[1] == "FuncDecl"), None)
                if f is None or rng.random() < 0.5:
                    f = g.add(region.opv("FuncDecl"), [], [], 0)
                g.edges = tuple(e if (e[2], e[3]) != (k, 1) else e[:3] + (2,) for e in g.edges) + ((f, 0, k, 1),)
        if whole(g)[0]:
            return g


def scope_of(cx, model, g, nodes, ins, outs):
    it, res = cx.run(cx.key(r"^tket::resource::scope::ResourceScope::<H>::new$"), [T("hugr"), region.sub(nodes, ins, outs)],
                     setup=lambda it, st: st.side.__setitem__("hg", g), on_call=model, loop_decisions=200, max_visits=20000)
    if len(res) != 1 or res[0].kind != "ret":
        return None
    return it.reify(res[0].st, res[0].value)


def iset(xs):
    return mk("map", "indexmap::set::IndexSet", tuple((x, UNIT) for x in xs))


def build(cx, model, g, scope, w, allowed, excl):
    key = cx.key(r"^tket::subcircuit::expression::CopyableExpr::<N>::try_new::<.*>$")
    it, res = cx.run(key, [Tup(node(w[0]), outp(w[1])), iset([Tup(node(n), inp(p)) for n, p in allowed]), iset([node(n) for n in excl]), scope],
                     setup=lambda it, st: st.side.__setitem__("hg", g), on_call=model, loop_decisions=200, max_visits=20000)
    return it, [(o, it.reify(o.st, o.value) if o.kind == "ret" else None) for o in res]


def parts(v):
    """(nodes, inputs, outputs) of a composite expression value"""
    sub = v.a[2][0]
    nd = lambda x: x.a[2][0].a[1]
    np = lambda x: (nd(x.a[0][0]), nd(x.a[0][1]))
    return [nd(x) for x in sub.a[2][0].a[0]], [[np(y) for y in x.a[0]] for x in sub.a[2][1].a[0]], [np(x) for x in sub.a[2][2].a[0]]
