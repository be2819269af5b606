"""A concrete dataflow graph behind the HugrView/HugrMut interface, for abstract execution of graph rewriting code.
The graph (nodes with an operation each, typed value ports, edges) is data of the analysis; the code under analysis only sees
it through the interface methods below.  Every method that is not modelled makes the analysis incomplete, never silent."""
import re
from interp import (V, mk, I, B, S, F, T, Adt, Tup, Seq, Some, NONE, Ok, Err, is_c, is_t, UNIT,
                    Ret, Call, Fork, Dead, DEFAULT, Incomplete, show)

NODE = "hugr_core::core::Node"
INP = "hugr_core::core::IncomingPort"
OUTP = "hugr_core::core::OutgoingPort"
PORT = "hugr_core::core::Port"
WIRE = "hugr_core::core::Wire"
EK = "hugr_core::types::EdgeKind"
EITHER = "either::Either"
DIR = "portgraph::Direction"


def node(i):
    return Adt(NODE, "Node", (I(i),))


def inp(i):
    return Adt(INP, "IncomingPort", (I(i),))


def outp(i):
    return Adt(OUTP, "OutgoingPort", (I(i),))


def ty(name, copyable=False):
    return Adt("vp::Ty", name, (B(copyable),))


class N:
    __slots__ = ("op", "ins", "outs", "parent")

    def __init__(self, op, ins, outs, parent=None):
        self.op, self.ins, self.outs, self.parent = op, tuple(ins), tuple(outs), parent


class Gr:
    """immutable by convention: every change makes a copy"""

    def __init__(self, nodes=None, edges=(), entry=None, log=()):
        self.nodes, self.edges, self.entry, self.log = dict(nodes or {}), tuple(edges), entry, log

    def copy(self):
        return Gr(self.nodes, self.edges, self.entry, self.log)

    def add(self, op, ins, outs, parent=None):
        i = (max(self.nodes) if self.nodes else -1) + 1
        while any(i == e[1] for e in self.log if e[0] == "rm"):
            i += 1
        self.nodes[i] = N(op, ins, outs, parent)
        return i

    def link(self, s, sp, d, dp):
        assert s in self.nodes and d in self.nodes, (s, d)
        self.edges = self.edges + ((s, sp, d, dp),)

    def connect(self, s, sp, d, dp):
        """ports are multi-ports: a new edge does not replace the ones already there"""
        self.edges = self.edges + ((s, sp, d, dp),)

    def remove(self, n):
        self.log = self.log + (("rm", n),)
        del self.nodes[n]
        self.edges = tuple(e for e in self.edges if n not in (e[0], e[2]))

    def src(self, d, dp):
        return [(e[0], e[1]) for e in self.edges if (e[2], e[3]) == (d, dp)]

    def dst(self, s, sp):
        return [(e[2], e[3]) for e in self.edges if (e[0], e[1]) == (s, sp)]


class Model:
    """on_call hook. The graph lives in st.side['hg'].  ops: (V of the operation) per node; see `cast`"""

    def __init__(self, more=None):
        self.more = more

    def __call__(self, I_, st, ci, a):
        if self.more is not None:
            r = self.more(I_, st, ci, a)
            if r is not DEFAULT:
                return r
        d = ci.def_
        nm = d.rsplit("::", 1)[-1]
        h = getattr(self, "g_" + nm, None)
        if h is not None and (d.startswith(("hugr", "portgraph", "<dyn hugr", "<(dyn hugr")) or "hugr_core" in d):
            return h(I_, st, ci, a)
        if nm in ("eq", "ne") and len(a) == 2:
            x, y = I_.reify(st, a[0]), I_.reify(st, a[1])
            for u, w in ((x, y), (y, x)):
                if is_t(u, "tyname"):
                    b = self.name_is(u.a[1].a[1], w)
                    return B(b == (nm == "eq"))
        if nm in ("from", "into") and ci.args and ("From" in d or "Into" in d):
            tgt = ci.args[0] if nm == "from" else ci.args[-1]
            v = I_.reify(st, a[0])
            if tgt.startswith(INP) and is_c(v):
                return inp(v.a[1])
            if tgt.startswith(OUTP) and is_c(v):
                return outp(v.a[1])
            if tgt.startswith(PORT) and v.k == "adt" and v.a[0] in (INP, OUTP):
                return v
        return DEFAULT

    @staticmethod
    def name_is(name, w):
        if is_c(w, "str"):
            return w.a[1] == name
        s = show(w)
        m = re.search(r"([A-Z][A-Z_]+)(TYPENAME|TYPE_NAME)", s)
        if not m:
            raise Incomplete(f"type name {s[:200]}")
        return m.group(1).strip("_").lower() == name

    # ---------------- values
    def gr(self, st):
        return st.side["hg"]

    def new(self, st):
        g = self.gr(st).copy()
        st.side["hg"] = g
        return g

    def n(self, I_, st, v):
        v = I_.reify(st, v)
        if v.k == "adt" and v.a[0] == NODE:
            return v.a[2][0].a[1]
        raise Incomplete(f"node {show(v)[:150]} {show(v)[-150:]}")

    def p(self, I_, st, v, kind=None):
        v = I_.reify(st, v)
        if is_c(v):
            return v.a[1]
        if v.k == "adt" and v.a[0] in (INP, OUTP):
            if kind and v.a[0] != kind:
                raise Incomplete("port of the wrong direction")
            return v.a[2][0].a[1]
        raise Incomplete(f"port {show(v)[:150]}")

    def dirp(self, I_, st, v):
        v = I_.reify(st, v)
        if v.k == "adt" and v.a[0] in (INP, OUTP):
            return ("in" if v.a[0] == INP else "out"), v.a[2][0].a[1]
        raise Incomplete(f"port {show(v)[:150]}")

    def op(self, I_, st, v):
        v = I_.reify(st, v)
        if v.k == "adt" and v.a[0] in ("vp::OpType", "vp::ExtOp"):
            return v.a[2][0].a[1]
        return None

    # ---------------- wires and ports
    def g_new(self, I_, st, ci, a):
        if "Wire" in ci.def_:
            return Adt(WIRE, "Wire", (I_.reify(st, a[0]), outp(self.p(I_, st, a[1]))))
        if ci.def_.endswith("Port::new"):
            d = I_.reify(st, a[0])
            return (inp if d.a[1] == "Incoming" else outp)(self.p(I_, st, a[1]))
        return DEFAULT

    def g_node(self, I_, st, ci, a):
        w = I_.reify(st, a[0])
        return w.a[2][0] if w.k == "adt" and w.a[0] == WIRE else DEFAULT

    def g_source(self, I_, st, ci, a):
        w = I_.reify(st, a[0])
        return w.a[2][1] if w.k == "adt" and w.a[0] == WIRE else DEFAULT

    def g_index(self, I_, st, ci, a):
        w = I_.reify(st, a[0])
        return w.a[2][0] if w.k == "adt" and w.a[0] in (INP, OUTP, NODE) else DEFAULT

    def g_direction(self, I_, st, ci, a):
        k, _ = self.dirp(I_, st, a[0])
        return Adt(DIR, "Incoming" if k == "in" else "Outgoing", ())

    def g_as_directed(self, I_, st, ci, a):
        v = I_.reify(st, a[0])
        k, _ = self.dirp(I_, st, v)
        return Adt(EITHER, "Left" if k == "in" else "Right", (v,))

    def g_as_outgoing(self, I_, st, ci, a):
        v = I_.reify(st, a[0])
        return Ok(v) if self.dirp(I_, st, v)[0] == "out" else Err(T("wrongdir"))

    def g_as_incoming(self, I_, st, ci, a):
        v = I_.reify(st, a[0])
        return Ok(v) if self.dirp(I_, st, v)[0] == "in" else Err(T("wrongdir"))

    # ---------------- queries
    def g_get_optype(self, I_, st, ci, a):
        i = self.n(I_, st, a[1])
        if i not in self.gr(st).nodes:
            raise Incomplete("operation of a removed node")
        return Adt("vp::OpType", "OpType", (I(i),))

    def g_get_parent(self, I_, st, ci, a):
        p = self.gr(st).nodes[self.n(I_, st, a[1])].parent
        return NONE if p is None else Some(node(p))

    def g_children(self, I_, st, ci, a):
        i = self.n(I_, st, a[1])
        return mk("iter", "seq", tuple(node(k) for k, x in sorted(self.gr(st).nodes.items()) if x.parent == i))

    def g_nodes(self, I_, st, ci, a):
        return mk("iter", "seq", tuple(node(k) for k in sorted(self.gr(st).nodes)))

    def g_entrypoint(self, I_, st, ci, a):
        return node(self.gr(st).entry)

    def g_module_root(self, I_, st, ci, a):
        return node(0)

    def g_descendants(self, I_, st, ci, a, root=None):
        g = self.gr(st)
        i = root if root is not None else self.n(I_, st, a[1])
        out, todo = [], [i]
        while todo:
            k = todo.pop(0)
            out.append(k)
            todo += [j for j, x in sorted(g.nodes.items()) if x.parent == k]
        return mk("iter", "seq", tuple(node(k) for k in out))

    def g_entry_descendants(self, I_, st, ci, a):
        return self.g_descendants(I_, st, ci, a, self.gr(st).entry)

    def g_get_io(self, I_, st, ci, a):
        i = self.n(I_, st, a[1])
        ks = [k for k, x in sorted(self.gr(st).nodes.items()) if x.parent == i]
        return Some(Seq((node(ks[0]), node(ks[1]))))

    def one(self, l, what):
        if len(l) > 1:
            return NONE
        return Some(l[0]) if l else NONE

    def g_single_linked_output(self, I_, st, ci, a):
        l = self.gr(st).src(self.n(I_, st, a[1]), self.p(I_, st, a[2], INP))
        return self.one([Tup(node(n), outp(p)) for n, p in l], "output")

    def g_single_linked_input(self, I_, st, ci, a):
        l = self.gr(st).dst(self.n(I_, st, a[1]), self.p(I_, st, a[2], OUTP))
        return self.one([Tup(node(n), inp(p)) for n, p in l], "input")

    def g_linked_inputs(self, I_, st, ci, a):
        l = self.gr(st).dst(self.n(I_, st, a[1]), self.p(I_, st, a[2], OUTP))
        return mk("iter", "seq", tuple(Tup(node(n), inp(p)) for n, p in l))

    def g_linked_outputs(self, I_, st, ci, a):
        l = self.gr(st).src(self.n(I_, st, a[1]), self.p(I_, st, a[2], INP))
        return mk("iter", "seq", tuple(Tup(node(n), outp(p)) for n, p in l))

    def g_linked_ports(self, I_, st, ci, a):
        k, i = self.dirp(I_, st, a[2])
        return (self.g_linked_outputs if k == "in" else self.g_linked_inputs)(I_, st, ci, a)

    def g_single_linked_port(self, I_, st, ci, a):
        k, i = self.dirp(I_, st, a[2])
        return (self.g_single_linked_output if k == "in" else self.g_single_linked_input)(I_, st, ci, a)

    def g_is_linked(self, I_, st, ci, a):
        n = self.n(I_, st, a[1])
        k, i = self.dirp(I_, st, a[2])
        return B(bool(self.gr(st).src(n, i) if k == "in" else self.gr(st).dst(n, i)))

    def nbrs(self, I_, st, a, dirs):
        i = self.n(I_, st, a[1])
        g = self.gr(st)
        out = []
        if "in" in dirs:
            out += [e[0] for e in sorted(g.edges, key=lambda e: e[3]) if e[2] == i]
        if "out" in dirs:
            out += [e[2] for e in sorted(g.edges, key=lambda e: e[1]) if e[0] == i]
        return mk("iter", "seq", tuple(node(k) for k in out))

    def g_input_neighbours(self, I_, st, ci, a):
        return self.nbrs(I_, st, a, ("in",))

    def g_output_neighbours(self, I_, st, ci, a):
        return self.nbrs(I_, st, a, ("out",))

    def g_all_neighbours(self, I_, st, ci, a):
        return self.nbrs(I_, st, a, ("in", "out"))

    def g_num_inputs(self, I_, st, ci, a):
        return I(len(self.gr(st).nodes[self.n(I_, st, a[1])].ins)) if len(a) == 2 else DEFAULT

    def g_num_outputs(self, I_, st, ci, a):
        return I(len(self.gr(st).nodes[self.n(I_, st, a[1])].outs)) if len(a) == 2 else DEFAULT

    def g_node_inputs(self, I_, st, ci, a):
        return mk("iter", "seq", tuple(inp(i) for i in range(len(self.gr(st).nodes[self.n(I_, st, a[1])].ins))))

    def g_node_outputs(self, I_, st, ci, a):
        return mk("iter", "seq", tuple(outp(i) for i in range(len(self.gr(st).nodes[self.n(I_, st, a[1])].outs))))

    def g_in_value_types(self, I_, st, ci, a):
        return mk("iter", "seq", tuple(Tup(inp(i), t) for i, t in enumerate(self.gr(st).nodes[self.n(I_, st, a[1])].ins)))

    def g_out_value_types(self, I_, st, ci, a):
        return mk("iter", "seq", tuple(Tup(outp(i), t) for i, t in enumerate(self.gr(st).nodes[self.n(I_, st, a[1])].outs)))

    # ---------------- operations
    def g_as_extension_op(self, I_, st, ci, a):
        i = self.op(I_, st, a[0])
        if i is None:
            return DEFAULT
        return Some(Adt("vp::ExtOp", "ExtOp", (I(i),))) if self.gr(st).nodes[i].op.k == "adt" and not self.gr(st).nodes[i].op.a[0].startswith("vp::") else NONE

    def casts(self, I_, st, ci, a, tgt):
        i = self.op(I_, st, a[0])
        if i is None:
            return None
        o = self.gr(st).nodes[i].op
        return Some(o) if o.k == "adt" and any(isinstance(t, str) and o.a[0] in t for t in tgt) else NONE

    def g_cast(self, I_, st, ci, a):
        r = self.casts(I_, st, ci, a, list(ci.args))
        return DEFAULT if r is None else r

    def g_from_extension_op(self, I_, st, ci, a):
        r = self.casts(I_, st, ci, a, list(ci.args) + [ci.full])
        if r is None:
            return DEFAULT
        return Ok(r.a[2][0]) if r.a[1] == "Some" else Err(T("notthis"))

    def g_is_load_constant(self, I_, st, ci, a):
        i = self.op(I_, st, a[0])
        return DEFAULT if i is None else B(self.kind(st, i) == "LoadConstant")

    def g_is_const(self, I_, st, ci, a):
        i = self.op(I_, st, a[0])
        return DEFAULT if i is None else B(self.kind(st, i) == "Const")

    def kind(self, st, i):
        o = self.gr(st).nodes[i].op
        return o.a[1] if o.k == "adt" and o.a[0].startswith("vp::") else None

    def g_as_const(self, I_, st, ci, a):
        i = self.op(I_, st, a[0])
        if i is None:
            return DEFAULT
        if self.kind(st, i) != "Const":
            return NONE
        v = self.gr(st).nodes[i].op.a[2][0]
        return Some(Adt("hugr_core::ops::constant::Const", "Const", (Adt("hugr_core::ops::constant::Value", "Extension", (v,)),)))

    def g_value(self, I_, st, ci, a):
        v = I_.reify(st, a[0])
        if v.k == "adt" and v.a[0].startswith("vp::Const"):
            return v if "OpaqueValue" in ci.def_ else v.a[2][0]
        return DEFAULT

    g_value_u = g_value
    g_value_s = g_value

    def g_downcast_ref(self, I_, st, ci, a):
        v = I_.reify(st, a[0])
        if v.k == "adt" and v.a[0].startswith("vp::Const"):
            return Some(v) if any(t.endswith("::" + v.a[1]) for t in ci.args) else NONE
        return DEFAULT

    def g_dataflow_signature(self, I_, st, ci, a):
        i = self.op(I_, st, a[0])
        return DEFAULT if i is None else Some(Adt("vp::Sig", "Sig", (I(i),)))

    def g_signature(self, I_, st, ci, a):
        if len(a) == 2:
            return Some(Adt("vp::Sig", "Sig", (I(self.n(I_, st, a[1])),)))
        i = self.op(I_, st, a[0])
        return DEFAULT if i is None else Adt("vp::Sig", "Sig", (I(i),))

    def sig(self, I_, st, v):
        v = I_.reify(st, v)
        return self.gr(st).nodes[v.a[2][0].a[1]] if v.k == "adt" and v.a[0] == "vp::Sig" else None

    def g_input_count(self, I_, st, ci, a):
        s = self.sig(I_, st, a[0])
        if s is None:
            i = self.op(I_, st, a[0])
            return DEFAULT if i is None else I(len(self.gr(st).nodes[i].ins))
        return I(len(s.ins))

    def g_output_count(self, I_, st, ci, a):
        s = self.sig(I_, st, a[0])
        return DEFAULT if s is None else I(len(s.outs))

    def g_value_input_count(self, I_, st, ci, a):
        return self.g_input_count(I_, st, ci, a)

    def g_port_kind(self, I_, st, ci, a):
        i = self.op(I_, st, a[0])
        if i is None:
            return DEFAULT
        k, p = self.dirp(I_, st, a[1])
        n = self.gr(st).nodes[i]
        l = n.ins if k == "in" else n.outs
        return Some(Adt(EK, "Value", (l[p],))) if p < len(l) else Some(Adt(EK, "StateOrder", ()))

    # ---------------- types
    def g_as_extension(self, I_, st, ci, a):
        v = I_.reify(st, a[0])
        if v.k == "adt" and v.a[0] == "vp::Ty":
            return Some(Adt("vp::CustomTy", v.a[1], ()))
        return DEFAULT

    def g_name(self, I_, st, ci, a):
        v = I_.reify(st, a[0])
        if v.k == "adt" and v.a[0] == "vp::CustomTy":
            return T("tyname", S(re.sub(r"<.*", "", v.a[1])))
        return DEFAULT

    def g_copyable(self, I_, st, ci, a):
        v = I_.reify(st, a[0])
        if v.k == "adt" and v.a[0] == "vp::Ty":
            return v.a[2][0]
        return DEFAULT

    # ---------------- changes
    def g_connect(self, I_, st, ci, a):
        g = self.new(st)
        g.connect(self.n(I_, st, a[1]), self.p(I_, st, a[2], OUTP), self.n(I_, st, a[3]), self.p(I_, st, a[4], INP))
        return UNIT

    def g_disconnect(self, I_, st, ci, a):
        g = self.new(st)
        n = self.n(I_, st, a[1])
        k, p = self.dirp(I_, st, a[2])
        g.edges = tuple(e for e in g.edges if not ((e[2], e[3]) == (n, p) if k == "in" else (e[0], e[1]) == (n, p)))
        return UNIT

    def g_remove_node(self, I_, st, ci, a):
        g = self.new(st)
        n = self.n(I_, st, a[1])
        if n not in g.nodes:
            raise Incomplete("removal of a node that is not there")
        o = g.nodes[n].op
        g.remove(n)
        return o
