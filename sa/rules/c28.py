"""C28: the construction of the resource view is executed abstractly on families of concrete regions (mixed linear and copyable
types, operations that keep their linear rows and operations that do not, constants, order edges, whole regions and convex
parts).  The table it builds is compared port by port with the definition."""
import random
from interp import V, mk, I, B, S, T, Adt, Tup, Seq, Some, NONE, is_c, is_t, show, Ret, Call, DEFAULT
import hg, region, models
from interp import mk_fn_key
from hg import node, inp, outp, N, Gr
from region import Region, circuit, boundary, convex, sub

CU = "tket::resource::types::CircuitUnit"


class Scope(Region):
    def __init__(self, cx):
        super().__init__()
        self.flow = cx.key(r"^<tket::resource::flow::DefaultResourceFlow as tket::resource::flow::ResourceFlow<H>>::map_resources$")

    def __call__(self, I_, st, ci, a):
        if ci.def_.endswith("::map_resources") and "DefaultResourceFlow" not in ci.full:
            f = I_.reify(st, a[0])
            if f.k == "adt" and f.a[1] == "DefaultResourceFlow":
                return Call(self.fn(I_), [f] + list(a[1:]), lambda I2, s, r: Ret(r))
        return super().__call__(I_, st, ci, a)

    def fn(self, I_):
        return mk_fn_key(I_, self.flow, self.flow)


def whole(g):
    nodes = [k for k, x in g.nodes.items() if x.parent == g.entry and k not in (g.inn, g.out)]
    ins = [[(n, p) for n, p in g.dst(g.inn, i) if n != g.out] for i in range(len(g.nodes[g.inn].outs))]
    return nodes, [x for x in ins if x], [w for p in range(len(g.nodes[g.out].ins)) for w in g.src(g.out, p) if w[0] != g.inn]


def lin(t):
    return not t.a[2][0].a[1]


def preserving(n):
    for i in range(max(len(n.ins), len(n.outs))):
        a = n.ins[i] if i < len(n.ins) else None
        b = n.outs[i] if i < len(n.outs) else None
        if (a is not None and lin(a) or b is not None and lin(b)) and a != b:
            return False
    return True


def expected(g, nodes):
    """(direction, node, port) -> ('r', class) or ('w', source); classes are canonical"""
    s = set(nodes)
    parent = {}

    def find(x):
        while parent.get(x, x) != x:
            x = parent[x]
        return x
    exp = {}
    for n in nodes:
        x = g.nodes[n]
        if x.op.a[1] == "Const":
            continue
        for p, t in enumerate(x.ins):
            w = g.src(n, p)[0]
            exp["in", n, p] = ("r", ("in", n, p)) if lin(t) else ("w", w)
        for p, t in enumerate(x.outs):
            exp["out", n, p] = ("r", ("out", n, p)) if lin(t) else ("w", (n, p))
        if preserving(x):
            for p, t in enumerate(x.ins):
                if lin(t):
                    parent[find(("out", n, p))] = find(("in", n, p))
    for a, p, b, q in g.edges:
        if a in s and b in s and p < len(g.nodes[a].outs) and q < len(g.nodes[b].ins) and lin(g.nodes[a].outs[p]):
            parent[find(("in", b, q))] = find(("out", a, p))
    return {k: (("r", find(v[1])) if v[0] == "r" else v) for k, v in exp.items()}


def table(I_, st, v):
    """the computed table and the positions"""
    v = I_.reify(st, v)
    units = I_.reify(st, v.a[2][2])
    got, pos, lens = {}, {}, {}
    for k, u in units.a[1]:
        n = k.a[2][0].a[1]
        u = I_.reify(st, u)
        pm, po = u.a[2]
        pos[n] = po.a[2][0].a[1]
        vec, ni = pm.a[2][0].a[0], pm.a[2][1].a[1]
        lens[n] = (ni, len(vec) - ni)
        for i, c in enumerate(vec):
            w = c.a[2][0]
            r = ("r", w.a[2][0].a[1]) if c.a[1] == "Resource" else ("w", (w.a[2][0].a[2][0].a[1], w.a[2][1].a[2][0].a[1]))
            got[("in", n, i) if i < ni else ("out", n, i - ni)] = r
    return got, pos, lens


def describe(g, nodes):
    return " ".join(f"{n}:{g.nodes[n].op.a[1]}" for n in nodes) + " | " + " ".join(f"{a}.{p}>{b}.{q}" for a, p, b, q in g.edges)


def judge(cx, lb, g, nodes, got, pos, lens):
    exp = expected(g, nodes)
    d = describe(g, nodes)
    cx.check("every port has a unit", lb, set(got) == set(exp), f"ports missing {sorted(set(exp) - set(got))[:4]} or extra {sorted(set(got) - set(exp))[:4]} in {d}"[:900])
    bad = [(k, got[k], exp[k]) for k in sorted(set(got) & set(exp)) if got[k][0] != exp[k][0] or got[k][0] == "w" and got[k] != exp[k]]
    cx.check("resource exactly if linear", lb, not bad, f"{bad[:3]} in {d}"[:900])
    m, r, bad = {}, {}, []
    for k in sorted(set(got) & set(exp)):
        if got[k][0] == "r" and exp[k][0] == "r":
            if m.setdefault(exp[k][1], got[k][1]) != got[k][1]:
                bad.append(("split", k))
            if r.setdefault(got[k][1], exp[k][1]) != exp[k][1]:
                bad.append(("merged", k))
    cx.check("same resource exactly along wires and through operations that pass it on", lb, not bad, f"{bad[:4]} in {d}"[:900])
    s = set(nodes)
    bad = [(a, b) for a, p, b, q in g.edges if a in s and b in s and p < len(g.nodes[a].outs) and q < len(g.nodes[b].ins)
           and a in pos and b in pos and not pos[a] < pos[b]]
    bad += [(a, b) for a, p, b, q in g.edges if a in s and b in s and (a, p) == (a, len(g.nodes[a].outs)) and g.nodes[a].op.a[1] not in ("Const", "FuncDecl")
            and a in pos and b in pos and not pos[a] < pos[b]]
    cx.check("positions increase along wires", lb, not bad, f"edges {bad[:4]} in {d}"[:900])


def regions(rng, g):
    yield "whole", whole(g)
    nodes = whole(g)[0]
    for i in range(6):
        k = rng.randint(1, max(1, len(nodes) - 1))
        part = sorted(rng.sample(nodes, k), key=lambda _: rng.random())
        if convex(g, part) and all(g.nodes[n].op.a[1] != "Const" for n in part):
            ins, outs = boundary(g, part)
            yield f"part {i}", (part, ins, outs)


def run(cx):
    new = cx.key(r"^tket::resource::scope::ResourceScope::<H>::new$")
    model = Scope(cx)
    rng = random.Random(28)
    n = 0
    sizes = [1, 1, 2, 2, 3, 3, 4, 5, 6, 7] * (60 if cx.thorough else 8)
    for i, size in enumerate(sizes):
        g = circuit(rng, [rng.choice([region.Q, region.Q, region.BIT, region.A, region.ANGLE]) for _ in range(rng.randint(0, 4))], size,
                    order=rng.choice([0, 0.5]), const=rng.choice([0, 0, 1, 2]))
        if not whole(g)[0]:
            continue
        for what, (nodes, ins, outs) in regions(rng, g):
            n += 1
            lb = f"region {i} ({what})"
            cx.guard("every port has a unit", lb, one, cx, new, model, lb, g, nodes, ins, outs)
    cx.floor("coverage", "regions", n, 100)


def one(cx, new, model, lb, g, nodes, ins, outs):
    it, res = cx.run(new, [T("hugr"), sub(nodes, ins, outs)], setup=lambda it, st: st.side.__setitem__("hg", g), on_call=model,
                     loop_decisions=200, max_visits=20000, max_steps=400000)
    cx.check("coverage", "outcomes: " + lb, len(res) == 1 and res[0].kind == "ret",
             f"{len(res)} outcomes, {[ (o.kind, getattr(o.st, 'cutreason', None)) for o in res]} in {describe(g, nodes)}"[:900])
    for o in res:
        if o.kind == "ret":
            t = table(it, o.st, o.value)
            judge(cx, lb, g, nodes, *t)
            if len(nodes) <= 5 and t[0]:
                views(cx, model, lb, g, nodes, it.reify(o.st, o.value), t[0])
    return it, res


RID = "tket::resource::types::ResourceId"
FN = r"^tket::resource::scope::ResourceScope::<H>::%s(::<.*>)?$"


def ask(cx, model, g, name, args):
    """the single value a query returns; iterators are drained"""
    box = []

    def post(I_, st, v):
        v = I_.reify(st, v)
        if v.k != "iter":
            return Ret(v)
        return models.drain_all(I_, st, v, lambda s, l: Ret(Seq([I_.reify(s, x) for x in l])))
    it, res = cx.run(cx.key(FN % name), args, setup=lambda it, st: st.side.__setitem__("hg", g), on_call=model, post=post,
                     loop_decisions=100, max_visits=5000)
    if len(res) != 1 or res[0].kind != "ret":
        return None
    return it.reify(res[0].st, res[0].value)


def views(cx, model, lb, g, nodes, scope, got):
    """the queries answer what the table says"""
    d = describe(g, nodes)
    DI = {"in": Adt(hg.DIR, "Incoming", ()), "out": Adt(hg.DIR, "Outgoing", ())}
    rid = lambda i: Adt(RID, "ResourceId", (I(i),))
    ids = sorted({v[1] for v in got.values() if v[0] == "r"})
    port = lambda k, n, i: next((p for (kk, nn, p), v in sorted(got.items()) if (kk, nn) == (k, n) and v == ("r", i)), None)

    def same(what, got_, want):
        cx.check("queries agree with the table", f"{what}: {lb}", got_ is not None and got_ == want,
                 f"{what} returns {show(got_) if got_ is not None else 'no single value'}, expected {show(want)} in {d}"[:900])
    for n in nodes:
        if g.nodes[n].op.a[1] == "Const":
            continue
        mine = sorted({v[1] for (k, m, p), v in got.items() if m == n and v[0] == "r"})
        same("get_all_resources", ask(cx, model, g, "get_all_resources", [scope, node(n)]), Seq(rid(i) for i in mine))
        for k in ("in", "out"):
            row = [v for (kk, m, p), v in sorted(got.items()) if (kk, m) == (k, n)]
            same("get_resources", ask(cx, model, g, "get_resources", [scope, node(n), DI[k]]), Seq(rid(v[1]) for v in row if v[0] == "r"))
            same("get_copyable_wires", ask(cx, model, g, "get_copyable_wires", [scope, node(n), DI[k]]),
                 Seq(Adt(hg.WIRE, "Wire", (node(v[1][0]), outp(v[1][1]))) for v in row if v[0] == "w"))
            for i in ids:
                p = port(k, n, i)
                want = NONE if p is None else Some(inp(p) if k == "in" else outp(p))
                same("get_port", ask(cx, model, g, "get_port", [scope, node(n), rid(i), DI[k]]), want)
        for i in ids:
            same("is_resource_start", ask(cx, model, g, "is_resource_start", [scope, node(n), rid(i)]),
                 B(port("out", n, i) is not None and port("in", n, i) is None))
        for i in mine:
            for k in ("in", "out"):
                path = [n]
                while port(k, path[-1], i) is not None:
                    p = port(k, path[-1], i)
                    l = g.dst(path[-1], p) if k == "out" else g.src(path[-1], p)
                    if l[0][0] not in nodes:
                        break
                    path.append(l[0][0])
                same("resource_path_iter", ask(cx, model, g, "resource_path_iter", [scope, rid(i), node(n), DI[k]]), Seq(node(m) for m in path))
    same("resources_iter", ask(cx, model, g, "resources_iter", [scope]), Seq(rid(i) for i in ids))
