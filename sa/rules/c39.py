"""C39: the construction of copyable expressions is executed abstractly on concrete circuits, for every kind of request (any
copyable output, any allowed boundary inputs, any excluded nodes, on whole circuits and on parts of them, with and without
state order edges), and compared with the definition: which operations belong to the expression, which ports are its inputs and
in which order, that its first output is the requested value, and that it is refused exactly when the region is not convex."""
import random
from interp import V, show, is_c
import exprs, region
from exprs import Exprs, Case, scope_of, build, parts
from rules.c28 import regions

RULES = ("trivial exactly where documented", "refused exactly if not convex", "operations of the expression", "inputs of the expression",
         "order of the inputs", "the value is the first output", "outputs of the expression", "calls are grouped by function")



def judge(cx, lb, c, o, v):
    d = str(c)[:700]
    if o.kind != "ret" or v.k != "adt" or v.a[1] not in ("Ok", "Err"):
        cx.fail("coverage", "result: " + lb, f"{o.kind} {getattr(o.st, 'cutreason', None)} {show(v)[:100] if v is not None else ''} for {d}")
        return
    if v.a[1] == "Err":
        cx.check(RULES[0], lb, not c.trivial, f"an error instead of the wire for {d}")
        e = show(v.a[2][0])
        cx.check(RULES[1], lb, e.endswith("NotConvex") and not c.convex, f"{e} although the region {sorted(c.nodes)} is convex, for {d}")
        return
    x = v.a[2][0]
    cx.check(RULES[0], lb, (x.a[1] == "Wire") == c.trivial, f"{show(x)[:200]} for {d}")
    if c.trivial:
        if x.a[1] == "Wire":
            w = x.a[2][0]
            got = (w.a[2][0].a[2][0].a[1], w.a[2][1].a[2][0].a[1])
            cx.check(RULES[5], lb, got == c.output, f"the wire {got} instead of {c.output}")
        return
    if x.a[1] != "Composite":
        return
    cx.check(RULES[1], lb, c.convex, f"the region {sorted(c.nodes)} is not convex but accepted, for {d}")
    nodes, ins, outs = parts(x)
    cx.check(RULES[2], lb, set(nodes) == c.nodes and len(nodes) == len(set(nodes)), f"operations {nodes} instead of {sorted(c.nodes)} for {d}")
    flat = [p for g in ins for p in g]
    cx.check(RULES[3], lb, set(flat) == c.inputs and len(flat) == len(set(flat)), f"inputs {flat} instead of {sorted(c.inputs)} for {d}")

    def cat(p):
        if p in c.allowed:
            return (0, c.allowed.index(p))
        s = c.g.src(*p)[0][0]
        return (1, c.exclude.index(s)) if s in c.exclude else (2, 0)
    ks = [cat(p) for p in flat]
    cx.check(RULES[4], lb, ks == sorted(ks), f"inputs in the order {flat}, which the documentation orders {[p for _, p in sorted(zip(ks, flat))]}, for {d}")
    cx.check(RULES[5], lb, bool(outs) and outs[0] == c.output, f"first output {outs[0] if outs else 'missing'}, the value is {c.output}, for {d}")
    must = c.outputs | {c.output}
    loose = {(n, p) for n in c.nodes for p in range(len(c.g.nodes[n].outs)) if not c.g.dst(n, p)}
    cx.check(RULES[6], lb, must <= set(outs) <= must | loose and len(outs) == len(set(outs)), f"outputs {outs} instead of {sorted(must)} for {d}")
    calls = {}
    for n in c.nodes:
        if c.g.nodes[n].op.a[1] == "CallB":
            p = len(c.g.nodes[n].ins)
            calls.setdefault(c.g.src(n, p)[0], set()).add((n, p))
    np = lambda t: (t.a[0][0].a[2][0].a[1], t.a[0][1].a[2][0].a[1])
    got = [sorted(np(t) for t in g.a[0]) for g in x.a[2][0].a[2][3].a[0]]
    cx.check(RULES[7], lb, sorted(got) == sorted(sorted(s) for s in calls.values()), f"function calls {got} for {d}")


def requests(rng, g, n):
    """requests on the whole circuit and on convex parts of it"""
    for what, (nodes, ins, outs) in regions(rng, g):
        ports = [(m, p) for m in nodes + [g.inn] for p, t in enumerate(g.nodes[m].outs) if t.a[2][0].a[1]]
        rng.shuffle(ports)
        for w in ports[:n]:
            inports = [(m, p) for m in nodes for p in range(len(g.nodes[m].ins)) if g.nodes[m].ins[p].a[2][0].a[1]]
            allowed = rng.sample(inports, min(len(inports), rng.choice([0, 0, 1, 2])))
            excl = rng.sample(nodes, min(len(nodes), rng.choice([0, 0, 1, 2])))
            yield what, nodes, ins, outs, w, allowed, excl


def run(cx):
    rng = random.Random(39)
    model = Exprs(cx)
    n = 0
    for i in range(360 if cx.thorough else 70):
        g = exprs.circuit(rng, order=rng.choice([0, 0.6]))
        for j, (what, nodes, ins, outs, w, allowed, excl) in enumerate(requests(rng, g, 3)):
            n += 1
            model.tie = rng.choice(["first", "last"])
            lb = f"{i}.{j} ({what})"
            cx.guard("coverage", lb, one, cx, model, lb, g, nodes, ins, outs, w, allowed, excl)
    cx.floor("coverage", "expressions", n, 200)


def one(cx, model, lb, g, nodes, ins, outs, w, allowed, excl):
    c = Case(g, nodes, w, allowed, excl)
    sc = scope_of(cx, model, g, nodes, ins, outs)
    if sc is None:
        return cx.fail("coverage", "view: " + lb, "the resource view of the region is not a single value")
    it, res = build(cx, model, g, sc, w, allowed, excl)
    cx.check("coverage", "outcomes: " + lb, len(res) == 1, f"{len(res)} outcomes for {c}"[:900])
    for o, v in res:
        judge(cx, lb, c, o, v)
