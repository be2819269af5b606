"""Regions of a concrete dataflow graph (hg.Gr) behind the interfaces the circuit views use: the part of a region selected for
rewriting, signatures of operations, and the topological order of the port graph library."""
from interp import (V, mk, I, B, S, T, Adt, Tup, Seq, Some, NONE, Ok, Err, is_c, is_t, UNIT, Ret, Call, DEFAULT, Incomplete, show)
import hg, models
from hg import Gr, N, Model, node, inp, outp, ty, WIRE, INP, OUTP, NODE

SUB = "vp::Sub"
Q, BIT, A, ANGLE = ty("qubit"), ty("bool", True), ty("array"), ty("angle", True)


def sub(nodes, ins, outs):
    """nodes: list of ints; ins: list of lists of (node, port); outs: list of (node, port)"""
    return Adt(SUB, "Sub", (Seq(node(n) for n in nodes), Seq(Seq(Tup(node(n), inp(p)) for n, p in g) for g in ins),
                            Seq(Tup(node(n), outp(p)) for n, p in outs)))


def opv(name, *a):
    return Adt("vp::Op", name, a)


class Region(Model):
    """additionally: SiblingSubgraph, Signature, portgraph traversal"""

    def __call__(self, I_, st, ci, a):
        if self.more is not None:
            r = self.more(I_, st, ci, a)
            if r is not DEFAULT:
                return r
        d, nm = ci.def_, ci.def_.rsplit("::", 1)[-1]
        if "SiblingSubgraph" in d:
            v = I_.reify(st, a[0]) if a else None
            if v is not None and v.k == "adt" and v.a[0] == SUB:
                if nm in ("nodes", "incoming_ports", "outgoing_ports"):
                    return v.a[2][("nodes", "incoming_ports", "outgoing_ports").index(nm)]
                if nm == "get_parent":
                    return node(self.gr(st).entry)
                if nm == "node_count":
                    return I(len(v.a[2][0].a[0]))
                if nm == "clone":
                    return v
                if nm == "signature":
                    g = self.gr(st)
                    return Adt("vp::SigT", "SigT", (
                        Seq(g.nodes[grp.a[0][0].a[0][0].a[2][0].a[1]].ins[grp.a[0][0].a[0][1].a[2][0].a[1]] for grp in v.a[2][1].a[0]),
                        Seq(g.nodes[x.a[0][0].a[2][0].a[1]].outs[x.a[0][1].a[2][0].a[1]] for x in v.a[2][2].a[0])))
        if nm in ("other_output_port", "other_input_port"):
            i = self.op(I_, st, a[0])
            if i is not None:
                x = self.gr(st).nodes[i]
                if x.op.a[1] in ("Const", "FuncDecl", "FuncDefn", "Module"):
                    return NONE
                return Some(outp(len(x.outs))) if "output" in nm else Some(inp(len(x.ins) + (x.op.a[1] in ("CallB", "LoadConstant"))))
        if nm in ("type_bound", "least_upper_bound") and a:
            v = I_.reify(st, a[0])
            if v.k == "adt" and v.a[0] == "vp::Ty":
                return Adt("hugr_core::types::TypeBound", "Copyable" if v.a[2][0].a[1] else "Linear", ())
        if nm == "contains" and "TypeBound" in ci.full:
            x, y = I_.reify(st, a[0]), I_.reify(st, a[1])
            return B(x.a[1] == "Linear" or y.a[1] == "Copyable")
        if "num_rational" in ci.full or "Ratio<" in ci.full:
            if nm == "default" or nm == "zero":
                return I(0)
            if nm == "from_integer":
                return I_.reify(st, a[0])
        if nm == "new" and "FilteredGraph" in d:
            return T("vp.filtered", I_.reify(st, a[1]), I_.reify(st, a[3]))
        if nm == "toposort" and "portgraph" in d:
            return self.toposort(I_, st, a)
        return super().__call__(I_, st, ci, a)

    def toposort(self, I_, st, a):
        pg, dirv = I_.reify(st, a[0]), I_.reify(st, a[2])
        if dirv.a[1] != "Outgoing":
            raise Incomplete("topological order in the other direction")
        g = self.gr(st)
        kids = [k for k, x in sorted(g.nodes.items()) if x.parent == g.entry]
        filt = pg.a[1:] if is_t(pg, "vp.filtered") else None

        def srcs(s, keep):
            return models.drain_all(I_, s, models.as_iter(I_, s, I_.reify(s, a[1])), lambda s2, l: order(s2, keep, [self.n(I_, s2, x) for x in l]))

        def order(s, keep, start):
            out, todo, seen = [], list(dict.fromkeys(start)), set()
            left = {n: sum(1 for e in g.edges if e[2] == n and e[0] in keep) for n in keep}
            while todo:
                n = todo.pop(0)
                if n in seen or n not in keep:
                    continue
                seen.add(n)
                out.append(n)
                for e in sorted(e for e in g.edges if e[0] == n):
                    if e[2] in keep:
                        left[e[2]] -= 1
                        if left[e[2]] == 0:
                            todo.append(e[2])
            return Ret(mk("iter", "seq", tuple(node(n) for n in out)))
        if filt is None:
            return srcs(st, set(kids))
        f, ctx = filt

        def step(s, i, keep):
            if i == len(kids):
                return srcs(s, keep)
            def k(I2, s2, r):
                r = I2.reify(s2, r)
                if not is_c(r):
                    raise Incomplete("node filter is not decided")
                return step(s2, i + 1, keep | ({kids[i]} if r.a[1] else set()))
            return Call(f, [node(kids[i]), ctx], k)
        return step(st, 0, set())

    def g_region_portgraph(self, I_, st, ci, a):
        return Tup(T("vp.pg"), T("vp.pgmap"))

    def g_to_portgraph(self, I_, st, ci, a):
        return node(self.n(I_, st, a[1]))

    g_from_portgraph = g_to_portgraph

    def sigt(self, I_, st, v):
        n = self.sig(I_, st, v)
        if n is not None:
            return n.ins, n.outs
        v = I_.reify(st, v)
        if v.k == "adt" and v.a[0] == "vp::SigT":
            return v.a[2][0].a[0], v.a[2][1].a[0]
        return None

    def g_dataflow_signature(self, I_, st, ci, a):
        i = self.op(I_, st, a[0])
        if i is None:
            return DEFAULT
        return NONE if self.kind(st, i) in ("Const", "FuncDefn", "FuncDecl", "Module") else Some(Adt("vp::Sig", "Sig", (I(i),)))

    def g_input_ports(self, I_, st, ci, a):
        s = self.sigt(I_, st, a[0])
        return DEFAULT if s is None else mk("iter", "seq", tuple(inp(i) for i in range(len(s[0]))))

    def g_output_ports(self, I_, st, ci, a):
        s = self.sigt(I_, st, a[0])
        return DEFAULT if s is None else mk("iter", "seq", tuple(outp(i) for i in range(len(s[1]))))

    def g_input_types(self, I_, st, ci, a):
        s = self.sigt(I_, st, a[0])
        return DEFAULT if s is None else Seq(s[0])

    g_input = g_input_types

    def g_output_types(self, I_, st, ci, a):
        s = self.sigt(I_, st, a[0])
        return DEFAULT if s is None else Seq(s[1])

    g_output = g_output_types

    def g_input_count(self, I_, st, ci, a):
        s = self.sigt(I_, st, a[0])
        return super().g_input_count(I_, st, ci, a) if s is None else I(len(s[0]))

    def g_output_count(self, I_, st, ci, a):
        s = self.sigt(I_, st, a[0])
        return DEFAULT if s is None else I(len(s[1]))

    def g_port_type(self, I_, st, ci, a):
        s = self.sigt(I_, st, a[0])
        if s is None:
            return DEFAULT
        k, i = self.dirp(I_, st, a[1])
        l = s[0] if k == "in" else s[1]
        return Some(l[i]) if i < len(l) else NONE

    def g_in_port_type(self, I_, st, ci, a):
        s = self.sigt(I_, st, a[0])
        if s is None:
            return DEFAULT
        l, i = s[0 if ci.def_.endswith("::in_port_type") else 1], self.p(I_, st, a[1])
        return Some(l[i]) if i < len(l) else NONE

    g_out_port_type = g_in_port_type

    def g_from_connected_port(self, I_, st, ci, a):
        n = self.n(I_, st, a[0])
        k, i = self.dirp(I_, st, a[1])
        if k == "in":
            l = self.gr(st).src(n, i)
            if len(l) != 1:
                raise Incomplete("wire of an input port without a single source")
            n, i = l[0]
        return Adt(WIRE, "Wire", (node(n), outp(i)))

    def g_all_linked_outputs(self, I_, st, ci, a):
        i = self.n(I_, st, a[1])
        return mk("iter", "seq", tuple(Tup(node(e[0]), outp(e[1])) for e in sorted(self.gr(st).edges, key=lambda e: e[3]) if e[2] == i))

    def g_all_linked_inputs(self, I_, st, ci, a):
        i = self.n(I_, st, a[1])
        return mk("iter", "seq", tuple(Tup(node(e[2]), inp(e[3])) for e in sorted(self.gr(st).edges, key=lambda e: e[1]) if e[0] == i))


# ---------------------------------------------------------------- graphs
OPS = [  # name, inputs, outputs
    ("G1", [Q], [Q]), ("G2", [Q, Q], [Q, Q]), ("G3", [Q, ANGLE], [Q]), ("Gf", [ANGLE, Q], [Q]), ("MeasQB", [Q], [Q, BIT]), ("MeasBQ", [Q], [BIT, Q]),
    ("Alloc", [], [Q]), ("Free", [Q], []), ("Meas", [Q], [BIT]), ("Pack", [Q, Q], [A]), ("Unpack", [A], [Q, Q]),
    ("Mix", [Q, A], [Q, A]), ("Swap", [Q, A], [A, Q]), ("Conv", [A, Q], [A]), ("Not", [BIT], [BIT]), ("And", [BIT, BIT], [BIT]), ("Rot", [BIT], [ANGLE]),
    ("MixB", [Q, BIT, A], [Q, BIT, A]), ("Cond", [BIT, Q], [BIT, Q]), ("Eff", [], []), ("PackB", [Q, BIT], [A, BIT]), ("Shift", [BIT, Q], [Q, BIT])]


def load(g, root, dfg, inside):
    c = g.add(opv("Const"), [], [], dfg if inside else root)
    l = g.add(opv("LoadConstant"), [], [BIT], dfg)
    g.link(c, 0, l, 0)
    return c, l


def circuit(rng, inputs, n_ops, order=0.0, allowed=None, const=0):
    """a region with Input (first child) and Output (second child)"""
    g = Gr()
    root = g.add(opv("Module"), [], [])
    fn = g.add(opv("FuncDefn"), [], [], root)
    g.entry = fn
    g.inn = g.add(opv("Input"), [], inputs, fn)
    g.out = g.add(opv("Output"), [], [], fn)
    lin = [(g.inn, i) for i, t in enumerate(inputs) if not t.a[2][0].a[1]]
    cop = [(g.inn, i) for i, t in enumerate(inputs) if t.a[2][0].a[1]]
    ty_ = lambda w: g.nodes[w[0]].outs[w[1]]
    ops = []
    for k in range(const):
        c, l = load(g, root, fn, rng.random() < 0.5)
        cop.append((l, 0))
        if g.nodes[c].parent == fn:
            ops.append(c)
        ops.append(l)
    table = [o for o in OPS if allowed is None or o[0] in allowed]
    tries = 0
    made = 0
    while made < n_ops and tries < 200:
        tries += 1
        if allowed is None and rng.random() < 0.25:
            row = lambda: [rng.choice([Q, Q, BIT, A, ANGLE]) for _ in range(rng.randint(0, 3))]
            ins = row()
            name, outs = "Any", [t if rng.random() < 0.7 else rng.choice([Q, BIT, A]) for t in ins] if rng.random() < 0.7 else row()
        else:
            name, ins, outs = rng.choice(table)
        free = list(lin)
        args = []
        for t in ins:
            pool = [w for w in (cop if t.a[2][0].a[1] else free) if ty_(w) == t]
            if not pool:
                args = None
                break
            w = rng.choice(pool)
            args.append(w)
            if w in free:
                free.remove(w)
        if args is None:
            continue
        n = g.add(opv(name), ins, outs, fn)
        made += 1
        for p, w in enumerate(args):
            g.link(*w, n, p)
        lin = free
        for p, t in enumerate(outs):
            (cop if t.a[2][0].a[1] else lin).append((n, p))
        if ops and rng.random() < order:
            m = rng.choice(ops)
            if g.nodes[m].op.a[1] != "Const":
                g.link(m, len(g.nodes[m].outs), n, len(ins))
        ops.append(n)
    outs = list(lin)
    rng.shuffle(outs)
    outs += [w for w in cop if rng.random() < 0.4]
    g.nodes[g.out] = N(opv("Output"), [ty_(w) for w in outs], [], fn)
    for p, w in enumerate(outs):
        g.link(*w, g.out, p)
    g.ops = ops
    return g


def reach(g, a):
    """nodes reachable from node a (excluding a unless on a cycle)"""
    out, todo = set(), [a]
    while todo:
        n = todo.pop()
        for e in g.edges:
            if e[0] == n and e[2] not in out:
                out.add(e[2])
                todo.append(e[2])
    return out


def convex(g, nodes):
    s = set(nodes)
    for n in s:
        for m in {e[2] for e in g.edges if e[0] == n} - s:
            if (reach(g, m) | {m}) & s:
                return False
    return True


def boundary(g, nodes):
    """value ports at the boundary: inputs grouped by source, outputs with a use outside"""
    s = set(nodes)
    groups = {}
    outs = []
    for n in nodes:
        for p in range(len(g.nodes[n].ins)):
            for w in g.src(n, p):
                if w[0] not in s:
                    groups.setdefault(w, []).append((n, p))
        for p in range(len(g.nodes[n].outs)):
            if any(m not in s for m, _ in g.dst(n, p)):
                outs.append((n, p))
    return list(groups.values()), outs
