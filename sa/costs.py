"""Uninterpreted circuits and rewrites for the abstract execution of cost functions and rewriting strategies.
A circuit is a named list of nodes (kind, parent, operation name); a rewrite is a set of nodes and the name of its
replacement.  Applying a rewrite only records that it was applied to this copy of the circuit."""
from interp import V, mk, I, B, S, T, F, Adt, Tup, Seq, Some, NONE, Ok, Err, is_c, is_t, UNIT, Ret, Call, DEFAULT, Incomplete, show
from hg import NODE, node

OPT = "hugr_core::ops::OpType"
CIRC = "tket::circuit::Circuit"
CMD = "tket::circuit::command::Command"
RW = "tket::rewrite::CircuitRewrite"


def hugr(name, applied=()):
    return Adt("vp::Hugr", name, (Seq(tuple(applied)),))


def circ(name, applied=()):
    return Adt(CIRC, "Circuit", (hugr(name, applied),))


def rewrite(i):
    return Adt(RW, "CircuitRewrite", (Adt("vp::SR", "SR", (I(i),)),))


def place(I_, st, r):
    """the place a (chain of) reference(s) ends at"""
    while r.k == "ref":
        v = I_.load(st, r.a[0], r.a[1])
        if v.k != "ref":
            return r.a[0], r.a[1]
        r = v
    raise Incomplete(f"no place: {show(r)[:100]}")


def lit(v):
    return v.a[1] if is_c(v) else None


class World:
    """graphs: name -> [(kind, parent, opname)], node 0 is the module root; entry: name -> node.
    rewrites: id -> (nodes of 'host', replacement name)."""

    def __init__(self, P, graphs, entry, rewrites=None, cost=None, allowed=None):
        self.P, self.graphs, self.entry, self.rw = P, graphs, entry, rewrites or {}
        self.cost, self.allowed = cost, allowed
        self.asked = []

    def content(self, name):
        e = self.entry[name]
        return [k for k, x in enumerate(self.graphs[name]) if x[1] == e and x[0] not in ("Input", "Output")]

    def total(self, name, nodes=None):
        """(sum over the circuit or the nodes given) of the cost of an operation"""
        return sum(self.cost(self.graphs[name][k][2] or self.graphs[name][k][0]) for k in (self.content(name) if nodes is None else nodes))

    def optype(self, name, k):
        kind, _, o = self.graphs[name][k]
        return Adt(OPT, kind, (Adt("vp::Op", "Op", (S(o or kind),)),)) if kind not in ("Module",) else Adt(OPT, kind, (Adt("vp::Op", "Op", (S(kind),)),))

    def opname(self, I_, st, v):
        v = I_.reify(st, v)
        if v.k == "adt" and v.a[0] == OPT and v.a[2] and v.a[2][0].k == "adt" and v.a[2][0].a[0] == "vp::Op":
            return v.a[2][0].a[2][0].a[1]
        return None

    def h(self, I_, st, v):
        v = I_.reify(st, v)
        while v.k == "adt" and v.a[0] == CIRC:
            v = I_.reify(st, v.a[2][0])
        return v if v.k == "adt" and v.a[0] == "vp::Hugr" else None

    def n(self, I_, st, v):
        v = I_.reify(st, v)
        if v.k == "adt" and v.a[0] == NODE:
            return v.a[2][0].a[1]
        raise Incomplete(f"node {show(v)[:150]}")

    def __call__(self, I_, st, ci, a):
        d = ci.def_
        nm = d.rsplit("::", 1)[-1]
        if "tracing" in ci.full and "rewrite_tracing" not in ci.full:
            # logging is off: it does not take part in the result
            return B(False) if str(ci.desty) == "bool" else T("tracing")
        if not a:
            return DEFAULT
        if nm == "to_owned" and "Circuit" in d and self.h(I_, st, a[0]) is not None:
            return Adt(CIRC, "Circuit", (self.h(I_, st, a[0]),))
        m = getattr(self, "w_" + nm, None)
        if m is not None:
            r = m(I_, st, ci, a)
            if r is not None:
                return r
        return DEFAULT

    # ------------- hugr queries
    def w_get_optype(self, I_, st, ci, a):
        h = self.h(I_, st, a[0])
        return None if h is None else self.optype(h.a[1], self.n(I_, st, a[1]))

    def w_module_root(self, I_, st, ci, a):
        return None if self.h(I_, st, a[0]) is None else node(0)

    def w_entrypoint(self, I_, st, ci, a):
        h = self.h(I_, st, a[0])
        return None if h is None else node(self.entry[h.a[1]])

    def w_entrypoint_optype(self, I_, st, ci, a):
        h = self.h(I_, st, a[0])
        return None if h is None else self.optype(h.a[1], self.entry[h.a[1]])

    def w_parent(self, I_, st, ci, a):
        return self.w_entrypoint(I_, st, ci, a)

    def kids(self, name, k):
        return [j for j, x in enumerate(self.graphs[name]) if x[1] == k]

    def w_children(self, I_, st, ci, a):
        h = self.h(I_, st, a[0])
        return None if h is None else mk("iter", "seq", tuple(node(j) for j in self.kids(h.a[1], self.n(I_, st, a[1]))))

    def w_first_child(self, I_, st, ci, a):
        h = self.h(I_, st, a[0])
        if h is None:
            return None
        k = self.kids(h.a[1], self.n(I_, st, a[1]))
        return Some(node(k[0])) if k else NONE

    def w_get_parent(self, I_, st, ci, a):
        h = self.h(I_, st, a[0])
        if h is None:
            return None
        p = self.graphs[h.a[1]][self.n(I_, st, a[1])][1]
        return NONE if p is None else Some(node(p))

    def desc(self, name, k):
        out = [k]
        for j in self.kids(name, k):
            out += self.desc(name, j)
        return out

    def w_descendants(self, I_, st, ci, a):
        h = self.h(I_, st, a[0])
        return None if h is None else mk("iter", "seq", tuple(node(j) for j in self.desc(h.a[1], self.n(I_, st, a[1]))))

    def w_entry_descendants(self, I_, st, ci, a):
        h = self.h(I_, st, a[0])
        return None if h is None else mk("iter", "seq", tuple(node(j) for j in self.desc(h.a[1], self.entry[h.a[1]])))

    def w_nodes(self, I_, st, ci, a):
        h = self.h(I_, st, a[0])
        if h is not None:
            return mk("iter", "seq", tuple(node(j) for j in range(len(self.graphs[h.a[1]]))))
        v = I_.reify(st, a[0])
        if v.k == "adt" and v.a[0] == "vp::SG":
            return Seq(tuple(node(k) for k in self.rw[v.a[2][0].a[1]][0]))
        return None

    def w_num_nodes(self, I_, st, ci, a):
        h = self.h(I_, st, a[0])
        return None if h is None else I(len(self.graphs[h.a[1]]))

    def w_as_array_mut(self, I_, st, ci, a):
        return NONE if "serde_json" in ci.def_ else None  # no rewrite trace was asked for

    # ------------- commands
    def w_commands(self, I_, st, ci, a):
        h = self.h(I_, st, a[0])
        if h is None:
            return None
        c = I_.new_cell(st, Adt(CIRC, "Circuit", (h,)))
        fs = self.P.adts[CMD]["variants"][0]["fields"]
        out = []
        for k in self.content(h.a[1]):
            vals = {"circ": c, "node": node(k)}
            out.append(Adt(CMD, "Command", tuple(vals.get(f, Seq(())) for f in fs)))
        return mk("iter", "seq", tuple(out))

    # ------------- operations
    def w_into(self, I_, st, ci, a):
        v = I_.reify(st, a[0])
        if v.k == "adt" and v.a[0] == "tket::ops::TketOp" and not v.a[2] and any(OPT in t or t.endswith("OpType") for t in ci.args[1:]):
            return Adt(OPT, "ExtensionOp", (Adt("vp::Op", "Op", (S("tket.quantum." + v.a[1]),)),))
        return None

    def w_from(self, I_, st, ci, a):
        v = I_.reify(st, a[0])
        if v.k == "adt" and v.a[0] == "tket::ops::TketOp" and not v.a[2] and any("OpType" in t for t in ci.args[:1]):
            return Adt(OPT, "ExtensionOp", (Adt("vp::Op", "Op", (S("tket.quantum." + v.a[1]),)),))
        return None

    def w_get(self, I_, st, ci, a):
        if "lazy_static" in ci.def_ and len(a) == 2:
            return Call(a[1], [], lambda I2, s2, r: Ret(I2.new_cell(s2, I2.reify(s2, r))))
        return None

    def w_opdef_id(self, I_, st, ci, a):
        v = I_.reify(st, a[0])
        if v.k == "adt" and not v.a[2] and v.a[1][0].isupper():
            return S({"NoopDef": "Noop"}.get(v.a[1], v.a[1]))
        return None

    def w_is_extension_op(self, I_, st, ci, a):
        v = I_.reify(st, a[0])
        return B(v.a[1] == "ExtensionOp") if self.opname(I_, st, v) is not None else None

    def w_to_smolstr(self, I_, st, ci, a):
        o = self.opname(I_, st, a[0])
        if o is None:
            v = I_.reify(st, a[0])
            # the names the operations print as are those they are published under (C11)
            return S(v.a[1]) if v.k == "adt" and v.a[0] == "tket::ops::TketOp" and not v.a[2] else None
        return S(o)

    w_to_string = w_to_smolstr

    def w_cast(self, I_, st, ci, a):
        o = self.opname(I_, st, a[0])
        if o is None:
            return None
        if any("TketOp" in t for t in ci.args):
            x = o.rsplit(".", 1)
            return Some(Adt("tket::ops::TketOp", x[1], ())) if x[0] == "tket.quantum" else NONE
        raise Incomplete(f"cast of an operation to {ci.args}")

    def w_op_cost(self, I_, st, ci, a):
        if len(a) == 2 and self.cost is not None:
            s = I_.reify(st, a[0])
            if is_t(s, "strat") or is_t(s, "self"):
                return I(self.cost(self.opname(I_, st, a[1])))
        return None

    def w_under_threshold(self, I_, st, ci, a):
        s = I_.reify(st, a[0])
        if is_t(s, "strat") and self.allowed is not None:
            p, t = I_.reify(st, a[1]), I_.reify(st, a[2])
            if not (is_c(p) and is_c(t)):
                raise Incomplete("threshold of costs that are not known")
            return B(self.allowed(p.a[1], t.a[1]))
        return None

    # ------------- costs as integers (their own arithmetic is decided by C20)
    def ints(self, I_, st, a, n):
        v = [I_.reify(st, x) for x in a[:n]]
        v = [I(0) if is_t(x, "default") else x for x in v]
        return [x.a[1] for x in v] if all(is_c(x) and isinstance(x.a[1], int) for x in v) else None

    def w_sub_cost(self, I_, st, ci, a):
        v = self.ints(I_, st, a, 2)
        return None if v is None else I(v[0] - v[1])

    def w_add_delta(self, I_, st, ci, a):
        v = self.ints(I_, st, a, 2)
        return None if v is None else I(max(0, v[0] + v[1]))

    def w_as_isize(self, I_, st, ci, a):
        v = self.ints(I_, st, a, 1)
        return None if v is None else I(v[0])

    w_as_usize = w_as_isize

    def w_default(self, I_, st, ci, a):
        return None

    def w_sum(self, I_, st, ci, a):
        if "Cost" in ci.full or ci.desty and "Cost" in str(ci.desty) or True:
            import models

            def k(s, items):
                v = [I_.reify(s, x) for x in items]
                if all(is_c(x) and isinstance(x.a[1], int) for x in v):
                    return Ret(I(sum(x.a[1] for x in v)))
                raise Incomplete(f"sum of {[show(x)[:60] for x in v][:3]}")
            return models.drain_all(I_, st, I_.content(st, a[0]) if a[0].k == "ref" else a[0], k)

    def w_add_assign(self, I_, st, ci, a):
        v = I_.reify(st, a[0])
        w = self.ints(I_, st, a, 2)
        if w is None or a[0].k != "ref":
            return None
        I_.storev(st, *place(I_, st, a[0]), I(w[0] + w[1]))
        return UNIT

    # ------------- rewrites
    def sr(self, I_, st, v):
        v = I_.reify(st, v)
        return v.a[2][0].a[1] if v.k == "adt" and v.a[0] == "vp::SR" else None

    def w_subgraph(self, I_, st, ci, a):
        i = self.sr(I_, st, a[0])
        return None if i is None else Adt("vp::SG", "SG", (I(i),))

    def w_node_count(self, I_, st, ci, a):
        v = I_.reify(st, a[0])
        return I(len(self.rw[v.a[2][0].a[1]][0])) if v.k == "adt" and v.a[0] == "vp::SG" else None

    def w_replacement(self, I_, st, ci, a):
        i = self.sr(I_, st, a[0])
        return None if i is None else hugr(self.rw[i][1])

    def w_invalidation_set(self, I_, st, ci, a):
        i = self.sr(I_, st, a[0])
        return None if i is None else mk("iter", "seq", tuple(node(k) for k in self.rw[i][0]))

    def w_invalidated_nodes(self, I_, st, ci, a):
        return self.w_invalidation_set(I_, st, ci, a)

    def w_apply(self, I_, st, ci, a):
        i = self.sr(I_, st, a[0])
        if i is None:
            return None
        h = self.h(I_, st, a[1])
        if h is None or a[1].k != "ref":
            raise Incomplete(f"rewrite applied to {show(I_.reify(st, a[1]))[:120]}")
        I_.storev(st, *place(I_, st, a[1]), Adt("vp::Hugr", h.a[1], (Seq(h.a[2][0].a[0] + (I(i),)),)))
        return Ok(T("outcome", I(i)))

    def w_get_metadata_mut(self, I_, st, ci, a):
        return I_.new_cell(st, Adt("serde_json::Value", "Null", ())) if self.h(I_, st, a[0]) is not None else None
