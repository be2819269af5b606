"""Value-flow model of hugr graph mutation (add_child_node / connect / add_dataflow_op) on one graph under construction.
Side state: 'gops' tuple of operation terms by node id, 'gedges' dict-as-tuple of ((dst, in port) -> (src, out port))."""
from interp import (V, mk, I, B, S, F, T, Adt, Tup, Seq, Some, NONE, Ok, Err, ref, is_c, is_t, UNIT, UNDEF,
                    Ret, Call, Fork, Dead, DEFAULT, Incomplete, show)
import models, qsem, circ

EITHER = "either::Either"
G = T("thegraph")


def gnode(n):
    return T("gn", I(n))


def find_op(v):
    """the operation inside conversions"""
    while is_t(v) and v.a[0].startswith("into:"):
        v = v.a[1]
    return v


def arity(op):
    """(inputs, outputs) of an operation"""
    op = find_op(op)
    if op.k == "adt":
        p, n = op.a[0], op.a[1]
        if p.endswith("TketOp"):
            if n in qsem.CORE:
                nq, npar, _ = qsem.CORE[n]
                return nq + npar, nq
            return {"Measure": (1, 2), "MeasureFree": (1, 1), "QAlloc": (0, 1), "TryQAlloc": (0, 1),
                    "QFree": (1, 0), "Reset": (1, 1)}[n]
        if p.endswith("RotationOp"):
            return (2, 1) if n == "radd" else (1, 1)
        if p.endswith("GlobalPhase"):
            return 1, 0
        if p.endswith("FloatOps"):
            return (1, 1) if n in ("fneg", "fabs") else (2, 1)
    if is_t(op, "barrier"):
        return op.a[1].a[1], op.a[1].a[1]
    raise Incomplete(f"arity of operation {show(op)[:120]}")


class Graph:
    def __init__(self):
        self.builder = circ.Builder()

    def __call__(self, I_, st, ci, a):
        d = ci.def_
        nm = d.rsplit("::", 1)[-1]
        h = getattr(self, "g_" + nm, None)
        if h is not None and (d.startswith("hugr") or d.startswith("portgraph") or "hugr_core" in d):
            r = h(I_, st, ci, a)
            if r is not DEFAULT:
                return r
        if (nm == "from" or nm == "into") and ci.args:
            tgt, src = (ci.args[0], ci.args[1] if len(ci.args) > 1 else "")
            if nm == "into" and "Into" in ci.def_:
                src, tgt = tgt, src
            v = I_.reify(st, a[0])
            if tgt.startswith("hugr_core::core::IncomingPort") or tgt.startswith("hugr_core::core::OutgoingPort"):
                if v.k == "c":
                    return T("inp" if "Incoming" in tgt else "outp", v)
                return v
            if tgt.startswith("hugr_core::core::Port"):
                return v
        return DEFAULT

    # ports, wires
    def g_as_directed(self, I_, st, ci, a):
        p = I_.reify(st, a[0])
        if is_t(p, "inp"):
            return Adt(EITHER, "Left", (p,))
        if is_t(p, "outp"):
            return Adt(EITHER, "Right", (p,))
        return DEFAULT

    def g_index(self, I_, st, ci, a):
        p = I_.reify(st, a[0])
        if is_t(p, "inp") or is_t(p, "outp"):
            return p.a[1]
        return DEFAULT

    def g_direction(self, I_, st, ci, a):
        p = I_.reify(st, a[0])
        if is_t(p, "inp") or is_t(p, "outp"):
            return Adt("portgraph::portgraph::Direction", "Incoming" if is_t(p, "inp") else "Outgoing", ())
        return DEFAULT

    def g_as_outgoing(self, I_, st, ci, a):
        p = I_.reify(st, a[0])
        if is_t(p, "outp"):
            return Ok(p)
        if is_t(p, "inp"):
            return Err(T("wrongdir"))
        return DEFAULT

    def g_as_incoming(self, I_, st, ci, a):
        p = I_.reify(st, a[0])
        if is_t(p, "inp"):
            return Ok(p)
        if is_t(p, "outp"):
            return Err(T("wrongdir"))
        return DEFAULT

    def port(self, v, kind):
        if v.k == "c":
            return T(kind, v)
        return v

    def g_new(self, I_, st, ci, a):
        if "::Wire" in ci.def_:
            return T("w", I_.reify(st, a[0]), self.port(I_.reify(st, a[1]), "outp"))
        if ci.def_.endswith("core::Port::new"):
            dr = I_.reify(st, a[0])
            return T("inp" if dr.a[1] == "Incoming" else "outp", I_.reify(st, a[1]))
        return DEFAULT

    def g_node(self, I_, st, ci, a):
        w = I_.reify(st, a[0])
        if is_t(w, "w"):
            return w.a[1]
        if is_t(w, "gh"):
            return w.a[1]
        return DEFAULT

    def g_source(self, I_, st, ci, a):
        w = I_.reify(st, a[0])
        return w.a[2] if is_t(w, "w") else DEFAULT

    # graph
    def g_hugr(self, I_, st, ci, a):
        return I_.new_cell(st, G, "g") if "builder" in ci.def_ or "Container" in ci.def_ else DEFAULT

    g_hugr_mut = g_hugr

    def newnode(self, I_, st, op):
        ops = st.side.get("gops", ())
        n = len(ops)
        st.side["gops"] = ops + (find_op(op),)
        return gnode(n)

    def g_add_child_node(self, I_, st, ci, a):
        return self.newnode(I_, st, I_.reify(st, a[1]))

    def edge(self, st, src, sp, dst, dp):
        if not (is_t(sp, "outp") and is_t(dp, "inp") and is_c(sp.a[1]) and is_c(dp.a[1])):
            raise Incomplete(f"edge {show(src)} {show(sp)} {show(dst)} {show(dp)}")
        e = st.side.get("gedges", ())
        st.side["gedges"] = e + ((src, sp.a[1].a[1], dst, dp.a[1].a[1]),)

    def g_connect(self, I_, st, ci, a):
        if "HugrMut" not in ci.def_ and "hugrmut" not in ci.def_:
            return DEFAULT
        src, sp, dst, dp = [I_.reify(st, x) for x in a[1:5]]
        self.edge(st, src, self.port(sp, "outp"), dst, self.port(dp, "inp"))
        return UNIT

    def g_add_dataflow_op(self, I_, st, ci, a):
        op = I_.reify(st, a[1])

        def k(s, ins):
            n = self.newnode(I_, s, op)
            for i, w in enumerate(ins.a[0]):
                if not is_t(w, "w"):
                    raise Incomplete("wire " + show(w))
                self.edge(s, w.a[1], w.a[2], n, T("inp", I(i)))
            return Ret(Ok(T("gh", n)))
        return circ.with_inputs(I_, st, a[2], k)

    def g_out_wire(self, I_, st, ci, a):
        h = I_.reify(st, a[0])
        if is_t(h, "gh"):
            return T("w", h.a[1], T("outp", I_.reify(st, a[1])))
        return DEFAULT

    def g_add_load_value(self, I_, st, ci, a):
        n = self.newnode(I_, st, T("cst", I_.reify(st, a[1])))
        return T("w", n, T("outp", I(0)))

    g_add_load_const = g_add_load_value

    def nd(self, I_, st, v):
        v = I_.reify(st, v)
        if is_t(v, "gn"):
            return st.side["gops"][v.a[1].a[1]]
        return None

    def g_num_inputs(self, I_, st, ci, a):
        op = self.nd(I_, st, a[1]) if len(a) > 1 else None
        return I(arity(op)[0]) if op is not None else DEFAULT

    def g_num_outputs(self, I_, st, ci, a):
        op = self.nd(I_, st, a[1]) if len(a) > 1 else None
        return I(arity(op)[1]) if op is not None else DEFAULT


def wires_of(side, boundary_in):
    """conversion to circ-style wire terms. boundary_in: {(node, port) dst -> wire term}; returns f(src node, port) -> wire"""
    ops = side.get("gops", ())
    src = {}
    for s, sp, d, dp in side.get("gedges", ()):
        if (d, dp) in src:
            raise qsem.Shape(f"input port {dp} of node {show(d)} ({show(ops[d.a[1].a[1]])}) is connected twice")
        src[(d, dp)] = (s, sp)
    memo = {}
    busy = set()

    def node(n):
        if n in memo:
            return memo[n]
        if n in busy:
            raise qsem.Shape("cycle in the constructed circuit")
        busy.add(n)
        op = ops[n.a[1].a[1]]
        if is_t(op, "cst"):
            r = op
        else:
            ins = []
            for p in range(arity(op)[0]):
                if (n, p) in boundary_in:
                    ins.append(boundary_in[(n, p)])
                elif (n, p) in src:
                    ins.append(wire(*src[(n, p)]))
                else:
                    raise qsem.Shape(f"input port {p} of a new {show(op)} node is not connected")
            r = T("node", op, Seq(ins), n.a[1])
        busy.discard(n)
        memo[n] = r
        return r

    def wire(n, p):
        if is_t(n, "ext"):
            return T("inw", n.a[1])
        r = node(n)
        if is_t(r, "cst"):
            return r
        return T("wire", r, I(p))
    return wire, node
