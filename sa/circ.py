"""Value-flow models of the hugr builder API: a builder call becomes a node term whose inputs are wire terms,
so the value returned by a construction function is the circuit it builds."""
import re
from interp import (V, mk, I, B, S, F, T, Adt, Tup, Seq, Some, NONE, Ok, Err, ref, is_c, is_t, UNIT, UNDEF,
                    Ret, Call, Fork, Dead, DEFAULT, Incomplete)
import models

BT = "hugr_core::builder::build_traits::"


def with_inputs(I_, st, v, k):
    it = models.as_iter(I_, st, v)
    if models.is_symbolic(it):
        return models.sym_seq(I_, st, it, lambda s, x: k(s, I_.reify(s, x)))
    return models.drain_all(I_, st, it, lambda s, xs: k(s, Seq([I_.reify(s, x) for x in xs])))


def nxt(st, what="circn"):
    n = st.side.get(what, 0) + 1
    st.side[what] = n
    return n


def const_arg(a):
    m = re.match(r"^(\d+)(_?usize|_?u64)?$", str(a))
    return int(m.group(1)) if m else None


class Builder:
    """on_call hook. n_inputs(builder term) -> arity of the root builder's input_wires;
    out_arity(op term, inputs) -> number of output wires or None."""

    def __init__(self, n_inputs=None, out_arity=None, op_view=None):
        self.n_inputs = n_inputs
        self.out_arity = out_arity
        self.op_view = op_view or (lambda I_, st, op: op)

    def __call__(self, I_, st, ci, a):
        d = ci.def_
        if not d.startswith("hugr_core::"):
            return DEFAULT
        nm = d.rsplit("::", 1)[1]
        h = getattr(self, "c_" + nm, None)
        if h is None or not ("::builder::" in d or "build_traits" in d or "op_builder" in d or "unwrap_builder" in d
                             or "NodeHandle" in d or "handle" in d):
            return DEFAULT
        return h(I_, st, ci, a)

    # ------------------------------------------------------------ nodes
    def mknode(self, I_, st, ci, op, ins, kind="node", b=None):
        n = nxt(st)
        t = T(kind, op, ins, I(n))
        I_.log(st, "circ::" + kind, [op, ins] + ([b] if b is not None else []), t, ci, ci.where, [op, ins])
        return t

    def c_add_dataflow_op(self, I_, st, ci, a):
        op = self.op_view(I_, st, I_.reify(st, a[1]))
        b = I_.reify(st, a[0])
        return with_inputs(I_, st, a[2], lambda s, ins: Ret(Ok(self.mknode(I_, s, ci, op, ins, b=b))))

    def c_call(self, I_, st, ci, a):
        if "Dataflow" not in ci.def_:
            return DEFAULT
        f = I_.reify(st, a[1])
        targs = I_.reify(st, a[2])
        return with_inputs(I_, st, a[3], lambda s, ins: Ret(Ok(self.mknode(I_, s, ci, T("call", f, targs), ins))))

    def c_add_load_const(self, I_, st, ci, a):
        return T("cst", I_.reify(st, a[1]))

    c_add_load_value = c_add_load_const

    def c_add_barrier(self, I_, st, ci, a):
        return with_inputs(I_, st, a[1], lambda s, ins: Ret(Ok(self.mknode(I_, s, ci, T("barrier"), ins))))

    def c_make_tuple(self, I_, st, ci, a):
        return with_inputs(I_, st, a[1], lambda s, ins: Ret(Ok(T("wire", self.mknode(I_, s, ci, T("make_tuple"), ins), I(0)))))

    def c_make_sum(self, I_, st, ci, a):
        tag, tys = I_.reify(st, a[1]), I_.reify(st, a[2])
        return with_inputs(I_, st, a[3], lambda s, ins: Ret(Ok(T("wire", self.mknode(
            I_, s, ci, T("make_sum", tag, tys), ins), I(0)))))

    def c_add_new_generic_array(self, I_, st, ci, a):
        ty = I_.reify(st, a[1])
        ak = ci.args[1] if len(ci.args) > 1 else ""
        return with_inputs(I_, st, a[2], lambda s, ins: Ret(Ok(T("wire", self.mknode(
            I_, s, ci, T("new_array", S(arr_kind(ci)), ty), ins), I(0)))))

    def c_add_generic_array_unpack(self, I_, st, ci, a):
        ty, n, w = [I_.reify(st, x) for x in a[1:4]]
        node = self.mknode(I_, st, ci, T("unpack_array", S(arr_kind(ci)), ty, n), Seq([w]))
        if is_c(n, "int"):
            return Ok(Seq([T("wire", node, I(i)) for i in range(n.a[1])]))
        return Ok(T("outputs", node))

    def c_build_expect_sum(self, I_, st, ci, a):
        tag, w = I_.reify(st, a[1]), I_.reify(st, a[3])
        ns = [const_arg(x) for x in ci.args]
        ns = [x for x in ns if x is not None]
        node = self.mknode(I_, st, ci, T("expect_sum", tag, I_.reify(st, a[2])), Seq([w]))
        return Ok(Seq([T("wire", node, I(i)) for i in range(ns[-1] if ns else 1)]))

    c_build_unwrap_sum = c_build_expect_sum

    # ------------------------------------------------------------ handles
    def c_out_wire(self, I_, st, ci, a):
        h = I_.reify(st, a[0])
        if not (is_t(h, "node") or is_t(h, "condnode") or is_t(h, "subdfg")):
            return T("wire", h, I_.reify(st, a[1]))
        return T("wire", h, I_.reify(st, a[1]))

    def c_outputs_arr(self, I_, st, ci, a):
        h = I_.reify(st, a[0])
        ns = [const_arg(x) for x in ci.args]
        ns = [x for x in ns if x is not None]
        if not ns:
            raise Incomplete("outputs_arr arity")
        return Seq([T("wire", h, I(i)) for i in range(ns[-1])])

    def c_outputs(self, I_, st, ci, a):
        if "BuildHandle" not in ci.def_:
            return DEFAULT
        h = I_.reify(st, a[0])
        n = self.out_arity(h) if self.out_arity else None
        if n is not None:
            return Seq([T("wire", h, I(i)) for i in range(n)])
        return T("outputs", h)

    def c_node(self, I_, st, ci, a):
        if "NodeHandle" not in ci.def_:
            return DEFAULT
        return T("nodeof", I_.reify(st, a[0]))

    # ------------------------------------------------------------ containers
    def inputs_of(self, I_, st, b):
        b = I_.reify(st, b)
        if is_t(b, "case"):
            n = st.side.get(("casein", b))
            if n is None:
                return b, None
            return b, n
        if is_t(b, "after"):
            pass
        return b, (self.n_inputs(b) if self.n_inputs else None)

    def c_input_wires(self, I_, st, ci, a):
        b, n = self.inputs_of(I_, st, a[0])
        if n is None:
            return T("inputs", b)
        return Seq([self.inw(b, i) for i in range(n)])

    def inw(self, b, i):
        return T("cin", b, I(i)) if is_t(b, "case") else T("inw", I(i))

    def c_input_wires_arr(self, I_, st, ci, a):
        ns = [const_arg(x) for x in ci.args]
        ns = [x for x in ns if x is not None]
        if not ns:
            raise Incomplete("input_wires_arr arity")
        b, n = self.inputs_of(I_, st, a[0])
        if n is not None and n != ns[-1]:
            return Dead("panic", "input_wires_arr arity mismatch")
        return Seq([self.inw(b, i) for i in range(ns[-1])])

    def c_conditional_builder(self, I_, st, ci, a):
        sw = a[1]
        pair = I_.reify(st, sw)
        if pair.k != "tup":
            raise Incomplete("conditional_builder shape")
        rows, w = pair.a[0]

        def go(s0, rows):
            def k(s, others):
                n = nxt(s)
                t = T("cond", I(n), w, others, rows)
                return Ret(Ok(t))
            return with_inputs(I_, s0, a[2], k)
        if rows.k not in ("seq", "tup") and I_.items(rows) is None:
            it = models.as_iter(I_, st, I_.content(st, sw).a[0][0] if I_.content(st, sw).k == "tup" else rows)
            if not models.is_symbolic(it):
                return models.drain_all(I_, st, it, lambda s, xs: go(s, Seq([I_.reify(s, x) for x in xs])))
        return go(st, rows)

    def c_case_builder(self, I_, st, ci, a):
        c = I_.reify(st, a[0])
        while is_t(c, "after"):
            c = c.a[2]
        i = I_.reify(st, a[1])
        b = T("case", c, i)
        if is_t(c, "cond") and is_c(i, "int"):
            rows, others = c.a[4], c.a[3]
            if rows.k == "seq" and others.k == "seq" and i.a[1] < len(rows.a[0]):
                r = rows.a[0][i.a[1]]
                m = row_len(r)
                if m is not None:
                    st.side[("casein", b)] = m + len(others.a[0])
        return Ok(b)

    def c_finish_with_outputs(self, I_, st, ci, a):
        b = I_.reify(st, a[0])

        def k(s, outs):
            s.side[("caseout", b)] = outs
            I_.log(s, "circ::finish", [b, outs], b, ci, ci.where, [b, outs])
            return Ret(Ok(T("done", b, outs)))
        return with_inputs(I_, st, a[1], k)

    def c_finish_sub_container(self, I_, st, ci, a):
        c = I_.reify(st, a[0])
        while is_t(c, "after"):
            c = c.a[2]
        if not is_t(c, "cond"):
            return DEFAULT
        outs = []
        i = 0
        while ("caseout", T("case", c, I(i))) in st.side:
            outs.append(st.side[("caseout", T("case", c, I(i)))])
            i += 1
        return Ok(T("condnode", c, *outs))

    def c_finish_hugr_with_outputs(self, I_, st, ci, a):
        b = I_.reify(st, a[0])

        def k(s, outs):
            I_.log(s, "circ::finish", [b, outs], b, ci, ci.where, [b, outs])
            return Ret(Ok(T("hugr", b, outs)))
        return with_inputs(I_, st, a[1], k)

    def c_set_outputs(self, I_, st, ci, a):
        b = I_.reify(st, a[0])

        def k(s, outs):
            I_.log(s, "circ::set_outputs", [b, outs], b, ci, ci.where, [b, outs])
            return Ret(Ok(UNIT))
        return with_inputs(I_, st, a[1], k)


def arr_kind(ci):
    for x in ci.args:
        m = re.search(r"::(Array|VArray|BArray|BorrowArray|ValueArray)$", str(x))
        if m:
            return m.group(1)
    return ",".join(str(x).rsplit("::", 1)[-1] for x in ci.args[1:2])


def row_len(r):
    """number of types in a TypeRow term"""
    if r.k == "seq":
        return len(r.a[0])
    if r.k == "tup":
        return len(r.a[0])
    if is_t(r):
        nm = r.a[0]
        if nm.endswith("::new") and ("TypeRowBase" in nm or "TypeRow" in nm) and len(r.a) == 1:
            return 0
        if nm.startswith("into:") and "TypeRow" in nm:
            x = r.a[1]
            if x.k == "seq":
                return len(x.a[0])
            return 1
        if "type_row" in nm and len(r.a) == 2:
            return row_len(r.a[1])
        # a single type used as a row
        if "bool_t" in nm or "qb_t" in nm or "Type" in nm:
            return 1
    if r.k == "adt":
        return 1
    return None
