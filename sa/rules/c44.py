"""C44: the pack/unpack elimination is executed abstractly on families of concrete regions (several unpacks, other uses of the tuple,
outputs that are not used, order edges, unpacks in nested regions); the circuit every rewrite puts in place is evaluated and compared,
wire by wire, with the values at the boundary of the part it replaces."""
import random
from interp import V, mk, I, B, S, T, Adt, Tup, Seq, Some, NONE, Ok, Err, is_c, is_t, show, Ret, DEFAULT, UNIT, Incomplete
import hg, region, circ as C, models
from hg import Gr, N, node, inp, outp
from region import Q, BIT, ANGLE, opv, sub, convex
from cmds import Cmds, circ
from rules.c28 import describe, whole
from rules.c41 import ask

TOD = "hugr_core::extension::prelude::TupleOpDef"
NAMES = {"MakeTuple": "prelude.MakeTuple", "UnpackTuple": "prelude.UnpackTuple"}


def tuple_ty(ts):
    return Adt("vp::Ty", "tuple", (B(all(t.a[2][0].a[1] for t in ts)), Seq(ts)))


class Fold(Cmds):
    """additionally: the part of a region made of some nodes, the builder of the replacement, and the making of the rewrite"""

    def __init__(self, cx):
        super().__init__(cx)
        self.b = C.Builder(n_inputs=lambda b: len(b.a[1].a[0]) if is_t(b, "dfg") else None)

    def __call__(self, I_, st, ci, a):
        d, nm = ci.def_, ci.def_.rsplit("::", 1)[-1]
        if nm == "to_string" and a:
            i = self.op(I_, st, a[0])
            if i is not None:
                k = self.kind(st, i)
                return S(NAMES.get(k, "tket.quantum." + k))
        if nm == "op_id" and a:
            v = I_.reify(st, a[0])
            if v.k == "adt" and v.a[0] == TOD:
                return S(v.a[1])
        if nm in ("cast", "from_optype", "from_extension_op") and a and ("TupleOpDef" in ci.full or "MakeTuple" in ci.full or "UnpackTuple" in ci.full):
            raise Incomplete("operation recognised in a way not modelled")
        if nm == "new_tuple" and "Type" in d:
            ts = I_.reify(st, a[0])
            return tuple_ty(ts.a[0])
        if nm in ("try_from_nodes", "try_from_nodes_with_checker") and "SiblingSubgraph" in d:
            ns = I_.reify(st, a[0])
            if ns.k != "seq":
                raise Incomplete(f"nodes of the part {show(ns)[:100]}")
            return self.part(st, [x.a[2][0].a[1] for x in ns.a[0]])
        if nm == "signature" and "SiblingSubgraph" in d:
            return region.Region.__call__(self, I_, st, ci, a)
        if nm == "new" and "DFGBuilder" in ci.full:
            r = self.sigt(I_, st, a[0])
            if r is None:
                raise Incomplete("signature of the replacement")
            return Ok(T("dfg", Seq(r[0]), Seq(r[1])))
        if nm == "new" and "MakeTuple" in ci.full:
            return T("maketuple", I_.reify(st, a[0]))
        if nm in ("create_simple_replacement", "try_new") and ("SiblingSubgraph" in d or "SimpleReplacement" in ci.full):
            s, r = I_.reify(st, a[0]), I_.reify(st, a[2])
            if nm == "try_new":
                raise Incomplete("rewrite made in a way not modelled")
            ok = is_t(r, "hugr") and len(r.a[2].a[0]) == len(s.a[2][2].a[0]) == len(r.a[1].a[2].a[0])
            return Ok(T("rw", s, r)) if ok else Err(T("signature of the replacement differs"))
        r = self.b(I_, st, ci, a) if "builder" in d and nm in ("input_wires", "input_wires_arr", "add_dataflow_op", "outputs_arr", "outputs", "out_wire",
                                                               "finish_hugr_with_outputs", "set_outputs") else DEFAULT
        if r is not DEFAULT:
            return r
        return super().__call__(I_, st, ci, a)

    def part(self, st, ns):
        g = self.gr(st)
        ns = list(dict.fromkeys(ns))
        if not ns:
            return Err(T("empty"))
        if len({g.nodes[n].parent for n in ns}) > 1:
            return Err(T("parents differ"))
        ins = [(n, p) for n in ns for p in range(len(g.nodes[n].ins) + 1) if any(w[0] not in ns for w in g.src(n, p))]
        outs = [(n, p) for n in ns for p in range(len(g.nodes[n].outs) + 1) if any(m not in ns for m, _ in g.dst(n, p))]
        if any(p >= len(g.nodes[n].ins) for n, p in ins) or any(p >= len(g.nodes[n].outs) for n, p in outs):
            return Err(T("order edge at the boundary"))
        if not convex(g, ns):
            return Err(T("not convex"))
        return Ok(sub(ns, [[x] for x in ins], outs))


def make(rng):
    """a region with packs and unpacks"""
    g = Gr()
    root = g.add(opv("Module"), [], [])
    fn = g.add(opv("FuncDefn"), [], [], root)
    g.entry = fn
    ins = [rng.choice([Q, BIT, ANGLE]) for _ in range(rng.randint(1, 4))]
    g.inn, g.out = g.add(opv("Input"), [], ins, fn), g.add(opv("Output"), [], [], fn)
    lin = [(g.inn, i) for i, t in enumerate(ins) if t == Q]
    cop = [(g.inn, i) for i, t in enumerate(ins) if t != Q]
    ty = lambda w: g.nodes[w[0]].outs[w[1]]
    nodes = []
    done = lambda n: [(cop if t.a[2][0].a[1] else lin).append((n, p)) for p, t in enumerate(g.nodes[n].outs)]

    def add(op, args, outs, parent=fn):
        n = g.add(opv(op), [ty(w) for w in args], outs, parent)
        for p, w in enumerate(args):
            g.link(*w, n, p)
            if w in lin:
                lin.remove(w)
        return n

    def order(m, n):
        g.link(m, len(g.nodes[m].outs), n, len(g.nodes[n].ins))
    for _ in range(rng.randint(1, 2)):
        args, pool = [], list(lin)
        for _ in range(rng.choice([0, 1, 2, 2, 2, 3])):
            w = rng.choice(pool + cop) if pool + cop else None
            if w:
                args.append(w)
                if w in pool:
                    pool.remove(w)
        ts = [ty(w) for w in args]
        t = tuple_ty(ts)
        p = add("MakeTuple", args, [t])
        w = (p, 0)
        if not t.a[2][0].a[1]:
            uses = [rng.choice(["unpack", "unpack", "unpack", "use", "out"])]
        else:
            uses = [rng.choice(["unpack", "unpack", "use", "out", "nested"]) for _ in range(rng.randint(0, 4))]
        kept = False
        made = []
        for u in uses:
            if u == "unpack":
                made.append(add("UnpackTuple", [w], ts))
                done(made[-1])
            elif u == "use":
                made.append(add("Use", [w], [BIT]))
                done(made[-1])
            elif u == "nested":
                box = g.add(opv("DFG"), [], [BIT], fn)
                i, o = g.add(opv("Input"), [], [], box), g.add(opv("Output"), [BIT], [], box)
                n = g.add(opv("UnpackTuple"), [t], ts, box)
                g.link(p, 0, n, 0)
                b = next((q for q, x in enumerate(ts) if x == BIT), None)
                if b is not None:
                    g.link(n, b, o, 0)
                order(p, box)
                made.append(box)
                done(box)
            else:
                kept = True
        if t.a[2][0].a[1]:
            if kept:
                cop.append(w)
        elif kept:
            lin.append(w)
        if made and rng.random() < 0.15:
            order(p, rng.choice(made)) if rng.random() < 0.5 else order(g.inn, p)
        nodes.append((p, ts, w))
        if rng.random() < 0.5 and cop:
            n = add("Not", [rng.choice([c for c in cop if ty(c) == BIT])], [BIT]) if any(ty(c) == BIT for c in cop) else None
            if n is not None:
                done(n)
                if rng.random() < 0.2:
                    order(made[-1] if made else p, n)
    outs = list(lin) + [w for w in cop if rng.random() < 0.6]
    rng.shuffle(outs)
    if rng.random() < 0.4 and [w for w in cop if ty(w).a[1] == "tuple"]:
        outs.append(rng.choice([w for w in cop if ty(w).a[1] == "tuple"]))
    g.nodes[g.out] = N(opv("Output"), [ty(w) for w in outs], [], fn)
    for p, w in enumerate(outs):
        g.link(*w, g.out, p)
    g.packs = nodes
    return g


def val(v, sources):
    """the value of a wire of the replacement"""
    if is_t(v, "inw"):
        return ("src", sources[v.a[1].a[1]])
    if is_t(v, "wire") and is_t(v.a[1], "node") and is_t(v.a[1].a[1], "maketuple") and v.a[2] == I(0):
        return ("tuple",) + tuple(val(x, sources) for x in v.a[1].a[2].a[0])
    raise Incomplete(f"wire {show(v)[:200]}")


def run(cx):
    model = Fold(cx)
    key = cx.key(r"^tket::passes::tuple_unpack::find_tuple_unpack_rewrites::<.*>$")
    rng = random.Random(44)
    st = {"regions": 0, "rewrites": 0, "wires": 0, "declined": 0}
    for i in range(2500 if cx.thorough else 500):
        g = make(rng)
        cx.guard("every value goes where it went", f"region {i}", one, cx, model, key, f"region {i}", g, st)
    cx.floor("every value goes where it went", "regions", st["regions"], 400)
    cx.floor("every value goes where it went", "rewrites", st["rewrites"], 150)
    cx.floor("every value goes where it went", "wires", st["wires"], 300)
    cx.floor("every pair without obstacles is offered", "regions without a pair", st["declined"], 50)


def one(cx, model, key, lb, g, st):
    d = describe(g, whole(g)[0])
    v, why = ask(cx, model, g, key, [circ()], drain=True)
    if v is None:
        return cx.fail("every value goes where it went", lb, f"the elimination does not end with a list of rewrites: {why} in {d}"[:1200])
    st["regions"] += 1
    offered = {}
    for r in v.a[0]:
        while r.k == "adt" and len(r.a[2]) == 1:
            r = r.a[2][0]
        if not is_t(r, "rw"):
            return cx.fail("every value goes where it went", lb, f"rewrite {show(r)[:200]}")
        s, h = r.a[1], r.a[2]
        ns = [x.a[2][0].a[1] for x in s.a[2][0].a[0]]
        packs = [n for n in ns if g.nodes[n].op.a[1] == "MakeTuple"]
        ups = [n for n in ns if g.nodes[n].op.a[1] == "UnpackTuple"]
        st["rewrites"] += 1
        ok = len(packs) == 1 and ups and len(ns) == len(ups) + 1 and all(g.src(u, 0) == [(packs[0], 0)] for u in ups)
        if not cx.check("the part replaced is one pack and unpacks of it", lb, bool(ok), f"nodes {ns} in {d}"[:900]):
            continue
        pk = packs[0]
        offered[pk] = set(ups)
        row = T("maketuple", Seq(g.nodes[pk].ins))
        elem = [("src", g.src(pk, p)[0]) for p in range(len(g.nodes[pk].ins))]
        sources = [g.src(x.a[0][0].a[0][0].a[2][0].a[1], x.a[0][0].a[0][1].a[2][0].a[1])[0] for x in s.a[2][1].a[0]]
        outs = [(x.a[0][0].a[2][0].a[1], x.a[0][1].a[2][0].a[1]) for x in s.a[2][2].a[0]]
        for (n, p), w in zip(outs, h.a[2].a[0]):
            want = ("tuple",) + tuple(elem) if n == pk else elem[p]
            got = val(w, sources)
            st["wires"] += 1
            cx.check("a tuple that stays has its type", f"{lb} {n}.{p}", not is_t(w, "wire") or w.a[1].a[1] == row, f"pack {pk} is put back as {show(w)[:300]} in {d}"[:1200])
            cx.check("every value goes where it went", f"{lb} {n}.{p}", got == want, f"output {p} of node {n} is replaced by {got}, it was {want}, in {d}"[:1200])
    for pk, ts, w in g.packs:
        ups = {m for m, _ in g.dst(pk, 0) if g.nodes[m].op.a[1] == "UnpackTuple" and g.nodes[m].parent == g.entry}
        o = lambda n: any(e[0] == n and e[1] >= len(g.nodes[n].outs) or e[2] == n and e[3] >= len(g.nodes[n].ins) for e in g.edges)
        st["declined"] += not ups
        if ups and not any(o(n) for n in ups | {pk}):
            cx.check("every pair without obstacles is offered", f"{lb} {pk}", offered.get(pk) == ups,
                     f"pack {pk} with unpacks {sorted(ups)}: offered {sorted(offered.get(pk, ()))} in {d}"[:900])
