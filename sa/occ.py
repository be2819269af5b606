"""Pattern matching on circuits: the pattern library (patterns, edge order, the map of a single pattern) and the region grown from a
boundary, behind the interfaces tket::portmatching uses; and occurrences, by definition."""
import itertools
import random
from interp import V, mk, I, B, S, T, Adt, Tup, Seq, Some, NONE, is_c, is_t, show, Ret, Call, DEFAULT, UNIT, Ok, Err, Incomplete
import hg, region, models
from hg import node, inp, outp
from region import convex
from cmds import Cmds, circ

PAT, SPM = "vp::Pattern", "vp::SinglePattern"
ISG = "hugr_core::hugr::views::sibling_subgraph::InvalidSubgraph"
ISB = "hugr_core::hugr::views::sibling_subgraph::InvalidSubgraphBoundary"
STATIC = ("Const", "LoadConstant", "Module", "FuncDefn", "FuncDecl", "Input", "Output")


class Occ(Cmds):
    def __init__(self, cx):
        super().__init__(cx)
        self.mop = cx.key(r"^<tket::portmatching::matcher::MatchOp as .*From<hugr_core::ops::OpType>>::from$")
        self.rev = cx.key(r"^<tket::portmatching::PEdge as portmatching::EdgeProperty>::reverse$")
        self.rng = random.Random(40)

    def __call__(self, I_, st, ci, a):
        d, nm = ci.def_, ci.def_.rsplit("::", 1)[-1]
        k = ci.callee.get("key")
        if k == self.mop or nm in ("from", "into") and len(a) == 1 and "MatchOp" in str(ci.args[:2]) and self.op(I_, st, a[0]) is not None:
            return Adt("vp::MatchOp", "MatchOp", (self.gr(st).nodes[self.op(I_, st, a[0])].op,))
        if nm in ("num_operations", "count_operations"):
            return I(sum(1 for x in self.gr(st).nodes.values() if x.op.a[1] not in STATIC))
        if "portmatching" in d and "tket" not in d:
            r = self.pattern(I_, st, ci, nm, a)
            if r is not DEFAULT:
                return r
        if "SiblingSubgraph" in d and nm == "try_new_with_checker":
            return self.grow(I_, st, I_.reify(st, a[0]), I_.reify(st, a[1]))
        if "TopoConvexChecker" in d and nm == "new":
            return T("checker")
        return super().__call__(I_, st, ci, a)

    # ------------------------------------------------ the pattern library
    def reversed(self, I_, st, props, k):
        """k(state, {property: its reverse or None})"""
        props = list(dict.fromkeys(props))

        def step(s, i, m):
            if i == len(props):
                return k(s, m)

            def got(I2, s2, r):
                r = I2.reify(s2, r)
                return step(s2, i + 1, {**m, props[i]: None if r == NONE else r.a[2][0]})
            return Call(mk_fn(I_, self.rev), [props[i]], got)
        return step(st, 0, {})

    def pattern(self, I_, st, ci, nm, a):
        d = ci.def_
        if nm in ("new", "default") and not a:
            return Adt(PAT, "Pattern", (Seq(()), Seq(()), NONE))
        if not a:
            return DEFAULT
        if nm in ("from_pattern", "new"):
            return Adt(SPM, "SinglePattern", (I_.reify(st, a[0]),))
        c, p, v = models.seq_target(I_, st, a[0])
        if v.k == "adt" and v.a[0] == SPM and nm == "get_match_map":
            return self.match_map(I_, st, v.a[2][0], I_.reify(st, a[1]), a[2], a[3])
        if not (v.k == "adt" and v.a[0] == PAT):
            return DEFAULT
        nodes, edges, root = v.a[2][0].a[0], v.a[2][1].a[0], v.a[2][2]

        def put(ns, es, s=st, r=root):
            I_.storev(s, c, p, Adt(PAT, "Pattern", (Seq(ns), Seq(es), r)))
        if nm == "require":
            u, w = I_.reify(st, a[1]), I_.reify(st, a[2])
            put([x for x in nodes if x.a[0][0] != u] + [Tup(u, w)], edges)
            return UNIT
        if nm == "add_edge":
            u, w, pr = (I_.reify(st, x) for x in a[1:])
            put(nodes, [x for x in edges if (x.a[0][0], x.a[0][1]) != (u, pr)] + [Tup(u, pr, w)])
            return UNIT
        if nm == "set_any_root":
            def k(s, m):
                us = list(dict.fromkeys([x.a[0][0] for x in nodes] + [y for x in edges for y in (x.a[0][0], x.a[0][2])]))
                ok = [u for u in us if order(edges, m, u) is not None]
                if not ok:
                    return Ret(Err(T("NoRootFound")))
                u = self.rng.choice(ok)
                put(nodes, edges, s, Some(u))
                return Ret(Ok(u))
            return self.reversed(I_, st, [x.a[0][1] for x in edges], k)
        if nm == "is_valid":
            def k(s, m):
                if root == NONE or order(edges, m, root.a[2][0]) is None:
                    return Ret(B(False))
                known = {y for x in edges for y in (x.a[0][0], x.a[0][2])}
                return Ret(B(len(nodes) < 2 or all(x.a[0][0] in known for x in nodes)))
            return self.reversed(I_, st, [x.a[0][1] for x in edges], k)
        return DEFAULT

    def match_map(self, I_, st, pat, root, vnode, vedge):
        nodes, edges, r = {x.a[0][0]: x.a[0][1] for x in pat.a[2][0].a[0]}, pat.a[2][1].a[0], pat.a[2][2].a[2][0]

        def none():
            return Ret(NONE)

        def check(s, n, prop, k):
            if prop is None:
                return k(s)
            return Call(vnode, [n, prop], lambda I2, s2, b: k(s2) if truth(I2, s2, b) else none())

        def k(s, m):
            es = order(edges, m, r)
            if es is None:
                raise Incomplete("disconnected pattern")

            def step(s, i, mp):
                if i == len(es):
                    return Ret(Some(mk("map", "std::collections::hash::map::HashMap", tuple(mp.items()))))
                u, pr, w = es[i]
                if u not in mp:
                    return none()

                def got(I2, s2, t):
                    t = I2.reify(s2, t)
                    if t == NONE:
                        return none()
                    t = t.a[2][0]

                    def ok(s3):
                        if mp.get(w) != t:
                            if w in mp or t in mp.values():
                                return none()
                            return step(s3, i + 1, {**mp, w: t})
                        return step(s3, i + 1, mp)
                    return check(s2, t, nodes.get(w), ok)
                return Call(vedge, [mp[u], pr], got)
            return check(s, root, nodes.get(r), lambda s2: step(s2, 0, {r: root}))
        return self.reversed(I_, st, [x.a[0][1] for x in edges], k)

    # ------------------------------------------------ a region from its boundary
    def grow(self, I_, st, ins, outs):
        """the nodes reached from the boundary without crossing it"""
        g = self.gr(st)
        pi = [[(self.n(I_, st, x.a[0][0]), self.p(I_, st, x.a[0][1])) for x in grp.a[0]] for grp in ins.a[0]]
        po = [(self.n(I_, st, x.a[0][0]), self.p(I_, st, x.a[0][1])) for x in outs.a[0]]
        flat = [x for grp in pi for x in grp]
        kids = {n for n, x in g.nodes.items() if x.parent == g.entry}
        err = lambda name: Ret(Err(Adt(ISG, name, ())))
        bad = lambda name: Ret(Err(Adt(ISG, "InvalidBoundary", (Adt(ISB, name, ()),))))
        todo, s = [n for n, _ in flat + po], set()
        if not todo:
            s = set(kids)
        while todo:
            n = todo.pop()
            if n in s:
                continue
            s.add(n)
            todo += [e[0] for e in g.edges if e[2] == n and (n, e[3]) not in flat and e[0] in kids]
            todo += [e[2] for e in g.edges if e[0] == n and (n, e[1]) not in po and e[2] in kids]
        if not s:
            return err("EmptySubgraph")
        for n, p in flat:
            if all(e[0] in s for e in g.edges if (e[2], e[3]) == (n, p)):
                return bad("DisconnectedBoundaryPort")
        for n, p in po:
            if all(e[2] in s for e in g.edges if (e[0], e[1]) == (n, p)):
                return bad("DisconnectedBoundaryPort")
        for n, p in flat + po:
            x = g.nodes[n]
            if p >= len(x.ins if (n, p) in flat else x.outs):
                return err("UnsupportedEdgeKind")
        for e in g.edges:
            if e[2] in s and e[0] not in s and (e[2], e[3]) not in flat or e[0] in s and e[2] not in s and (e[0], e[1]) not in po:
                return err("NotConvex")
        if len(set(flat)) != len(flat):
            return bad("NonUniqueInput")
        for grp in pi:
            if not grp:
                return bad("EmptyPartition")
            if len({w for n, p in grp for w in g.src(n, p)}) != 1:
                return bad("MismatchedOutputPort")
        if len(s) > 1 and not convex(g, s):
            return err("NotConvex")
        return Ret(Ok(region.sub(sorted(s), pi, po)))


def mk_fn(I_, k):
    from interp import mk_fn_key
    return mk_fn_key(I_, k, k)


def truth(I_, st, b):
    b = I_.reify(st, b)
    if not is_c(b):
        raise Incomplete(f"a node is neither accepted nor refused: {show(b)[:100]}")
    return b.a[1]


def order(edges, rev, root):
    """edges (source, property, target), each reachable from the ones before it"""
    left, known, out = [tuple(x.a[0]) for x in edges], {root}, []
    while left:
        e = next((e for e in left if e[0] in known), None)
        if e is not None:
            out.append(e)
        else:
            e = next((e for e in left if rev[e[1]] is not None and e[2] in known), None)
            if e is None:
                return None
            out.append((e[2], rev[e[1]], e[0]))
        left.remove(e)
        known |= {e[0], e[2]}
    return out


# ---------------------------------------------------------------- occurrences
def isomorphism(pg, nodes, g, ins, outs, got):
    """(None, map) or (what is wrong, None): region (got, ins, outs) of g against the pattern circuit pg"""
    if len(nodes) != len(got):
        return f"{len(got)} operations for the {len(nodes)} of the pattern", None
    val = lambda gr, e: e[1] < len(gr.nodes[e[0]].outs) + (gr.nodes[e[0]].op.a[1] == "Const")
    pe = sorted(e for e in pg.edges if e[0] in nodes and e[2] in nodes and val(pg, e))
    ge = {e for e in g.edges if e[0] in got and e[2] in got and val(g, e)}
    why = "no assignment of the operations"
    for perm in itertools.permutations(got):
        f = dict(zip(nodes, perm))
        if any(pg.nodes[n].op != g.nodes[f[n]].op for n in nodes):
            continue
        why = "the operations are not wired as in the pattern"
        if {(f[a], p, f[b], q) for a, p, b, q in pe} != ge:
            continue
        why = "the inputs or outputs do not correspond"
        pin = [[(f[n], p) for n, p in pg.dst(pg.inn, i)] for i in range(len(pg.nodes[pg.inn].outs))]
        pout = [(f[n], p) for i in range(len(pg.nodes[pg.out].ins)) for n, p in pg.src(pg.out, i)]
        if [sorted(x) for x in ins] != [sorted(x) for x in pin] or outs != pout:
            continue
        return None, f
    return why, None


def extract(rng, g, part, keep=lambda w: False):
    """the region as a circuit of its own, inputs and outputs in some order"""
    from hg import Gr, N
    from region import opv
    p = Gr()
    root = p.add(opv("Module"), [], [])
    p.entry = p.add(opv("FuncDefn"), [], [], root)
    s = set(part)
    srcs = list(dict.fromkeys(w for n in part for q in range(len(g.nodes[n].ins)) for w in g.src(n, q) if w[0] not in s))
    outs = [(n, q) for n in part for q in range(len(g.nodes[n].outs)) if any(m not in s for m, _ in g.dst(n, q)) or keep((n, q))]
    rng.shuffle(srcs)
    rng.shuffle(outs)
    p.inn = p.add(opv("Input"), [], [g.nodes[w[0]].outs[w[1]] for w in srcs], p.entry)
    p.out = p.add(opv("Output"), [g.nodes[w[0]].outs[w[1]] for w in outs], [], p.entry)
    m = {}
    todo = list(part)
    rng.shuffle(todo)
    for n in todo:
        m[n] = p.add(g.nodes[n].op, g.nodes[n].ins, g.nodes[n].outs, p.entry)
    for n in part:
        for q in range(len(g.nodes[n].ins) + (g.nodes[n].op.a[1] == "LoadConstant")):
            for w in g.src(n, q):
                if w[0] in s:
                    p.link(m[w[0]], w[1], m[n], q)
                elif w in srcs:
                    p.link(p.inn, srcs.index(w), m[n], q)
                else:
                    return None
    for i, (n, q) in enumerate(outs):
        p.link(m[n], q, p.out, i)
    return p
