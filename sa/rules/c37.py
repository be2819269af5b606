"""C37: the modification of a whole function (resolver of the control and dagger modifiers) is executed abstractly on families of
functions with nested regions, classical operations and calls; the function it adds is evaluated symbolically, with control wires
passed through and, for an inverse, against the direction of the qubit wires, and compared with the original function.  The
modification of single gates is a stand-in here (its contract is C03)."""
import random
from interp import V, mk, I, B, S, T, Adt, Tup, Seq, Some, NONE, Ok, Err, is_c, is_t, show, Ret, DEFAULT, UNIT, Incomplete
import hg, circ as C, models
from hg import N, Gr, node, inp, outp, ty, WIRE, NODE, INP, OUTP
from rules.c03 import adt, field, MR, CM

Q, BIT = ty("qubit"), ty("bool", True)
OT = "hugr_core::ops::OpType"
DF, CFL = "hugr_core::ops::dataflow::", "hugr_core::ops::controlflow::"
FTB = "hugr_core::types::signature::FuncTypeBase"
HG, BU = "vp::Hg", "vp::B"


class Wrong(Exception):
    pass


def arr(n):
    return Adt("vp::Ty", "array", (B(False), I(n)))


def fnty(s):
    return Adt("vp::Ty", "fn", (B(True), s))


def sumty(rows):
    return Adt("vp::Ty", "sum", (B(all(t.a[2][0].a[1] for r in rows for t in r)), Seq(Seq(r) for r in rows)))


def sig(i, o):
    return Adt(FTB, "FuncTypeBase", (Seq(i), Seq(o)))


def rows(s):
    return list(s.a[2][0].a[0]), list(s.a[2][1].a[0])


def quantum(t):
    return t == Q or t.a[1] == "array" or t.a[1] == "sum" and any(quantum(x) for r in t.a[2][1].a[0] for x in r.a[0])


def strip(v):
    while v.k == "adt" and v.a[0] == OT or is_t(v) and str(v.a[0]).startswith("into:"):
        v = v.a[2][0] if v.k == "adt" else v.a[1]
    return v


def val(op):
    """operations with a row of inputs and outputs: (inputs, outputs)"""
    p, k, f = op.a[0], op.a[1], op.a[2]
    r = lambda x: list(x.a[0])
    if p in ("vp::Cls", "vp::Gate", "vp::Ctl", "vp::Tag"):
        return r(f[-2]), r(f[-1])
    if p == "vp::Pack":
        return [Q] * f[0].a[1], [arr(f[0].a[1])]
    if p == "vp::Unpack":
        return [arr(f[0].a[1])], [Q] * f[0].a[1]
    if k in ("DFG", "CFG", "Case"):
        return rows(f[0])
    if k == "Call":
        return rows(f[2])
    if k == "CallIndirect":
        i, o = rows(f[0])
        return [fnty(f[0])] + i, o
    if k == "LoadFunction":
        return [], [fnty(f[2])]
    if k == "LoadConstant":
        return [], [BIT]
    if k == "Input":
        return [], r(f[0])
    if k == "Output":
        return r(f[0]), []
    if k == "TailLoop":
        return r(f[0]) + r(f[2]), r(f[1]) + r(f[2])
    if k == "Conditional":
        return [sumty([list(x.a[0]) for x in f[0].a[0]])] + r(f[1]), r(f[2])
    if k == "DataflowBlock":
        return r(f[0]), []
    return [], []


STATIC_IN, STATIC_OUT, NO_ORDER = ("Call", "LoadFunction", "LoadConstant"), ("Const", "FuncDefn"), ("Const", "FuncDefn", "Module", "DataflowBlock", "ExitBlock", "Case")


def ports(op):
    """kinds of the ports"""
    k = op.a[1]
    i, o = ([], []) if k in ("Case", "DataflowBlock") else val(op)
    i, o = [("v", t) for t in i] + [("s",)] * (k in STATIC_IN), [("v", t) for t in o] + [("s",)] * (k in STATIC_OUT)
    if k not in NO_ORDER:
        if k != "Input":
            i.append(("o",))
        if k != "Output":
            o.append(("o",))
    return i, o


OPK = {"TailLoop": CFL + "TailLoop", "Conditional": CFL + "Conditional", "Case": CFL + "Case", "CFG": CFL + "CFG", "DataflowBlock": CFL + "DataflowBlock",
       "ExitBlock": CFL + "ExitBlock", "DFG": DF + "DFG", "Call": DF + "Call", "CallIndirect": DF + "CallIndirect", "LoadFunction": DF + "LoadFunction",
       "LoadConstant": DF + "LoadConstant", "Input": DF + "Input", "Output": DF + "Output", "FuncDefn": "vp::FuncDefn", "Const": "vp::Const", "Module": "vp::Module"}


def mkop(k, *f):
    return Adt(OPK[k], k, f)


def optype(op):
    k = op.a[1] if op.a[0] in OPK.values() else "Tag" if op.a[0] == "vp::Tag" else "ExtensionOp"
    return Adt(OT, k, (op,))


class Gm(Gr):
    def put(self, op, parent=None):
        i, o = val(op)
        return self.add(op, i, o, parent)

    def kids(self, n):
        return [k for k, x in sorted(self.nodes.items()) if x.parent == n]

    def copy(self):
        return Gm(self.nodes, self.edges, self.entry, self.log)


class Mod(hg.Model):
    """several graphs: the one being changed (0) and the ones of the builders"""

    def __init__(self, cx, pick):
        super().__init__()
        self.pick = pick

    def gr(self, st):
        return st.side["gs"][st.side.get("cur", 0)]

    def new(self, st):
        g = self.gr(st).copy()
        self.put(st, st.side.get("cur", 0), g)
        return g

    def put(self, st, i, g):
        d = dict(st.side["gs"])
        d[i] = g
        st.side["gs"] = d

    def builder(self, st, op, inner=True):
        """a new graph made of one container"""
        g = Gm()
        r = g.put(op)
        g.entry = r
        i = max(st.side["gs"]) + 1
        if inner:
            self.io(g, r)
        self.put(st, i, g)
        return Adt(BU, "B", (I(i), I(r)))

    def io(self, g, r, ins=None, outs=None):
        op = g.nodes[r].op
        if ins is None:
            k, f = op.a[1], op.a[2]
            if k == "FuncDefn":
                ins, outs = rows(f[1])
            elif k == "TailLoop":
                a, b, c = [list(x.a[0]) for x in f]
                ins, outs = a + c, [sumty([a, b])] + c
            elif k == "DataflowBlock":
                ins, outs = list(f[0].a[0]), [sumty([list(x.a[0]) for x in f[2].a[0]])] + list(f[1].a[0])
            else:
                ins, outs = rows(f[0])
        a = g.put(mkop("Input", Seq(ins)), r)
        return a, g.put(mkop("Output", Seq(outs)), r)

    def payload(self, I_, st, v):
        v = strip(I_.reify(st, v))
        return v if v.k == "adt" and (v.a[0] in OPK.values() or v.a[0].startswith("vp::")) else None

    def __call__(self, I_, st, ci, a):
        d, nm = ci.def_, ci.def_.rsplit("::", 1)[-1]
        r0 = None
        if a and d.startswith(("hugr", "<", "portgraph")):
            r0 = I_.reify(st, a[0])
            if r0.k == "adt" and r0.a[0] in (HG, BU):
                st.side["cur"] = r0.a[2][0].a[1]
                h = getattr(self, "b_" + nm, None) if r0.a[0] == BU else None
                h = h or getattr(self, "h_" + nm, None)
                if h:
                    return h(I_, st, ci, a, r0)
                if r0.a[0] == BU:
                    raise Incomplete(f"builder method {d}")
                h = getattr(self, "g_" + nm, None)
                if h:
                    return h(I_, st, ci, a)
                if nm not in ("clone", "borrow", "deref", "as_ref", "borrow_mut", "deref_mut"):
                    raise Incomplete(f"graph method {d}")
        if nm == "modify_tket_op":
            return self.gate(I_, st, a)
        if nm in ("from_optype", "from_extension_op", "try_from_extension_op"):
            op = self.payload(I_, st, a[0])
            if op is not None:
                if "TketOp" in ci.full and op.a[0] == "vp::Gate":
                    return Some(op) if nm == "from_optype" else Ok(op)
                if any(x in ci.full for x in ("TketOp", "GlobalPhase", "Modifier", "ArrayOp", "Array")):
                    return NONE if nm == "from_optype" else Err(T("other"))
        if nm == "as_extension_op":
            op = self.payload(I_, st, a[0])
            if op is not None:
                return Some(op) if op.a[0] in ("vp::Cls", "vp::Gate") else NONE
        if nm == "as_func_defn":
            op = self.payload(I_, st, a[0])
            if op is not None:
                return Some(op) if op.a[1] == "FuncDefn" else NONE
        if nm == "is_dataflow_block":
            op = self.payload(I_, st, a[0])
            if op is not None:
                return B(op.a[1] == "DataflowBlock")
        if nm == "port_kind" and len(a) == 2:
            op = self.payload(I_, st, a[0])
            if op is not None:
                k, i = self.dirp(I_, st, a[1])
                l = ports(op)[0 if k == "in" else 1]
                if i >= len(l):
                    return NONE
                return Some(Adt(hg.EK, {"v": "Value", "s": "Const", "o": "StateOrder"}[l[i][0]], (l[i][1],) if l[i][0] == "v" else (T("static"),) if l[i][0] == "s" else ()))
        if nm == "contains_element_type":
            t = I_.reify(st, a[1])
            if t.k != "adt" or t.a[0] != "vp::Ty":
                raise Incomplete(f"type {show(t)[:80]}")
            return B(quantum(t))
        if nm == "from_metadata" and "ModifierFlags" in d:
            n = self.n(I_, st, a[1])
            m = st.side["meta"].get(n)
            fs = ("control", "dagger", "power")
            return NONE if m is None else Some(adt(self.cx, "tket::modifier::ModifierFlags", {f: B(f in m) for f in fs}))
        if nm == "set_metadata" and "ModifierFlags" in d:
            v, n = I_.reify(st, a[0]), self.n(I_, st, a[2])
            m = dict(st.side["meta"])
            m[n] = tuple(f for f in ("control", "dagger", "power") if field(self.cx, "tket::modifier::ModifierFlags", v, f) == B(True))
            st.side["meta"] = m
            return UNIT
        if "type_row" in d and nm in ("len", "is_empty", "iter", "as_slice") and a:
            v = I_.reify(st, a[0])
            if v.k == "seq":
                return I(len(v.a[0])) if nm == "len" else B(not v.a[0]) if nm == "is_empty" else mk("iter", "seq", v.a[0]) if nm == "iter" else a[0]
        if nm == "new" and "type_row" in d and not a:
            return Seq([])
        if nm == "qb_t":
            return Q
        if nm == "array_type":
            return arr(I_.reify(st, a[0]).a[1])
        if nm == "func_name":
            return S("f")
        if nm in ("body", "body_mut") and a:
            return a[0]
        if nm == "signature" and len(a) == 1:
            op = self.payload(I_, st, a[0])
            if op is not None:
                if op.a[1] == "FuncDefn":
                    return op.a[2][1]
                return sig(*val(op))
        if nm == "called_function_port":
            op = self.payload(I_, st, a[0])
            return inp(len(val(op)[0]))
        if nm == "instantiate" and len(a) == 2:
            v = I_.reify(st, a[0])
            if v.k == "adt" and v.a[0] == FTB:
                return Ok(v)
        if nm == "try_new" and ("::Call" in ci.full or "LoadFunction" in ci.full):
            s = I_.reify(st, a[0])
            return Ok(mkop("LoadFunction" if "LoadFunction" in ci.full else "Call", s, I_.reify(st, a[1]), s))
        if nm == "to_mut" and a:
            return a[0]
        if nm == "extend" and "TypeRow" in ci.full and len(a) == 2:
            row = I_.reify(st, a[0])
            if row.k == "seq":
                return C.with_inputs(I_, st, a[1], lambda s, xs: Ret(Seq(list(row.a[0]) + list(xs.a[0]))))
        if nm in ("new", "new_endo") and "builder" in d:
            return self.make(I_, st, ci, a)
        if nm == "from_portgraph":
            return I_.reify(st, a[1])
        if nm == "new" and "Topo" in ci.full:
            g = I_.reify(st, a[0])
            if is_t(g, "rg"):
                return T("topo", g.a[1])
        if nm == "iter" and a:
            v = I_.reify(st, a[0])
            if is_t(v, "topo"):
                st.side["cur"] = 0
                return mk("iter", "seq", tuple(node(k) for k in self.topo(self.gr(st), v.a[1].a[1])))
        if d.startswith("hugr") and nm in ("node", "source", "index", "direction", "as_directed", "as_outgoing", "as_incoming", "new"):
            h = getattr(self, "g_" + nm)
            return h(I_, st, ci, a)
        if nm in ("from", "into"):
            if a and I_.reify(st, a[0]).k == "adt" and (I_.reify(st, a[0]).a[0].startswith("vp::") or I_.reify(st, a[0]).a[0] in OPK.values()) and "OpType" in str(ci.args):
                return optype(self.payload(I_, st, a[0]))
            return super().__call__(I_, st, ci, a)
        return DEFAULT

    def topo(self, g, r):
        keep = set(g.kids(r))
        left = {n: {e[0] for e in g.edges if e[2] == n and e[0] in keep} for n in keep}
        out = []
        while left:
            ready = sorted(n for n in left if not left[n])
            n = ready[self.pick % len(ready)]
            out.append(n)
            del left[n]
            for x in left.values():
                x.discard(n)
        return out

    # ---------------- builders
    def make(self, I_, st, ci, a):
        x = [I_.reify(st, v) for v in a]
        f = ci.full
        for v in x:
            if v.k not in ("seq", "adt", "c", "t"):
                raise Incomplete(f"builder of {show(v)[:80]}")
        if "FunctionBuilder" in f or "FuncID" in f:
            return Ok(self.builder(st, mkop("FuncDefn", x[0], x[1])))
        if "TailLoopBuilder" in f or "TailLoopID" in f:
            return Ok(self.builder(st, mkop("TailLoop", x[0], x[2], x[1])))
        if "ConditionalBuilder" in f:
            return Ok(self.builder(st, mkop("Conditional", self.rowseq(x[0]), x[1], x[2]), inner=False))
        if "CFGBuilder" in f:
            b = self.builder(st, mkop("CFG", x[0]), inner=False)
            return Ok(b)
        if "DFGBuilder" in f:
            return Ok(self.builder(st, mkop("DFG", x[0])))
        raise Incomplete(f"builder {f[:200]}")

    def rowseq(self, v):
        if v.k != "seq" or any(x.k != "seq" for x in v.a[0]):
            raise Incomplete(f"rows {show(v)[:100]}")
        return v

    def b_hugr(self, I_, st, ci, a, b):
        return I_.new_cell(st, Adt(HG, "Hg", (b.a[2][0],)))

    b_hugr_mut = b_hugr

    def h_hugr(self, I_, st, ci, a, b):
        return a[0]

    h_hugr_mut = h_hugr

    def b_container_node(self, I_, st, ci, a, b):
        return node(b.a[2][1].a[1])

    def ends(self, st, b):
        k = self.gr(st).kids(b.a[2][1].a[1])
        return k[0], k[1]

    def b_io(self, I_, st, ci, a, b):
        return Seq(node(k) for k in self.ends(st, b))

    def b_input(self, I_, st, ci, a, b):
        raise Incomplete("input handle")

    def wire(self, n, p):
        return Adt(WIRE, "Wire", (node(n), outp(p)))

    def b_input_wires(self, I_, st, ci, a, b):
        i = self.ends(st, b)[0]
        return mk("iter", "seq", tuple(self.wire(i, p) for p in range(len(self.gr(st).nodes[i].outs))))

    def addop(self, st, b, op):
        return self.new(st).put(op, b.a[2][1].a[1])

    def b_add_child_node(self, I_, st, ci, a, b):
        op = self.payload(I_, st, a[1])
        if op is None:
            raise Incomplete(f"operation {show(I_.reify(st, a[1]))[:150]}")
        return node(self.addop(st, b, op))

    def feed(self, I_, st, n, ws):
        g = self.new(st)
        for p, w in enumerate(ws):
            if w.k != "adt" or w.a[0] != WIRE:
                raise Incomplete(f"wire {show(w)[:100]}")
            g.connect(w.a[2][0].a[2][0].a[1], w.a[2][1].a[2][0].a[1], n, p)

    def b_add_array_unpack(self, I_, st, ci, a, b):
        k = I_.reify(st, a[2]).a[1]
        n = self.addop(st, b, Adt("vp::Unpack", "Unpack", (I(k),)))
        self.feed(I_, st, n, [I_.reify(st, a[3])])
        return Ok(Seq(self.wire(n, p) for p in range(k)))

    def b_add_new_array(self, I_, st, ci, a, b):
        def k(s, ws):
            s.side["cur"] = b.a[2][0].a[1]
            n = self.addop(s, b, Adt("vp::Pack", "Pack", (I(len(ws.a[0])),)))
            self.feed(I_, s, n, list(ws.a[0]))
            return Ret(Ok(self.wire(n, 0)))
        return C.with_inputs(I_, st, a[2], k)

    def b_case_builder(self, I_, st, ci, a, b):
        i = I_.reify(st, a[1]).a[1]
        g = self.new(st)
        r = b.a[2][1].a[1]
        f = g.nodes[r].op.a[2]
        if i != len(g.kids(r)):
            raise Incomplete("cases out of order")
        c = g.put(mkop("Case", sig(list(f[0].a[0][i].a[0]) + list(f[1].a[0]), f[2].a[0])), r)
        self.io(g, c)
        return Ok(Adt(BU, "B", (b.a[2][0], I(c))))

    def b_entry_builder(self, I_, st, ci, a, b):
        rs, oth = self.rowseq(I_.reify(st, a[1])), I_.reify(st, a[2])
        g = self.new(st)
        r = b.a[2][1].a[1]
        ins, outs = rows(g.nodes[r].op.a[2][0])
        c = g.put(mkop("DataflowBlock", Seq(ins), oth, rs), r)
        self.io(g, c)
        g.put(mkop("ExitBlock", Seq(outs)), r)
        return Ok(Adt(BU, "B", (b.a[2][0], I(c))))

    def b_exit_block(self, I_, st, ci, a, b):
        g = self.gr(st)
        x = [k for k in g.kids(b.a[2][1].a[1]) if g.nodes[k].op.a[1] == "ExitBlock"]
        return node(x[0])

    def b_branch(self, I_, st, ci, a, b):
        g = self.new(st)
        g.connect(I_.reify(st, a[1]).a[2][0].a[1], I_.reify(st, a[2]).a[1], I_.reify(st, a[3]).a[2][0].a[1], 0)
        return Ok(UNIT)

    def b_finish_sub_container(self, I_, st, ci, a, b):
        return Ok(node(b.a[2][1].a[1]))

    def inserted(self, I_, st, src, parent):
        s = st.side["gs"][src.a[2][0].a[1]]
        g = self.new(st)
        m = {}
        todo = [s.entry]
        while todo:
            k = todo.pop(0)
            m[k] = g.put(s.nodes[k].op, parent if k == s.entry else m[s.nodes[k].parent])
            todo += s.kids(k)
        g.edges = g.edges + tuple((m[e[0]], e[1], m[e[2]], e[3]) for e in s.edges)
        return Adt("hugr_core::hugr::hugrmut::InsertionResult", "InsertionResult", (node(m[s.entry]),
                   mk("map", "std::collections::hash::map::HashMap", tuple((node(x), node(y)) for x, y in m.items()))))

    def b_add_hugr_view(self, I_, st, ci, a, b):
        return self.inserted(I_, st, I_.reify(st, a[1]), b.a[2][1].a[1])

    def h_insert_from_view(self, I_, st, ci, a, h):
        return self.inserted(I_, st, I_.reify(st, a[2]), self.n(I_, st, a[1]))

    # ---------------- queries
    def h_get_optype(self, I_, st, ci, a, h):
        return I_.new_cell(st, optype(self.gr(st).nodes[self.n(I_, st, a[1])].op))

    def h_signature(self, I_, st, ci, a, h):
        return Some(sig(*val(self.gr(st).nodes[self.n(I_, st, a[1])].op)))

    def pk(self, I_, st, a):
        return ports(self.gr(st).nodes[self.n(I_, st, a[1])].op)

    def h_node_inputs(self, I_, st, ci, a, h):
        return mk("iter", "seq", tuple(inp(i) for i in range(len(self.pk(I_, st, a)[0]))))

    def h_node_outputs(self, I_, st, ci, a, h):
        return mk("iter", "seq", tuple(outp(i) for i in range(len(self.pk(I_, st, a)[1]))))

    def h_num_inputs(self, I_, st, ci, a, h):
        return I(len(self.pk(I_, st, a)[0]))

    def h_num_outputs(self, I_, st, ci, a, h):
        return I(len(self.pk(I_, st, a)[1]))

    def h_all_node_ports(self, I_, st, ci, a, h):
        i, o = self.pk(I_, st, a)
        return mk("iter", "seq", tuple(inp(k) for k in range(len(i))) + tuple(outp(k) for k in range(len(o))))

    def h_get_io(self, I_, st, ci, a, h):
        k = self.gr(st).kids(self.n(I_, st, a[1]))
        return Some(Seq((node(k[0]), node(k[1]))))

    def h_region_portgraph(self, I_, st, ci, a, h):
        return Tup(T("rg", I(self.n(I_, st, a[1]))), T("nm"))

    # ---------------- the stand-in for one gate
    def gate(self, I_, st, a):
        self_, op, b = I_.reify(st, a[0]), self.payload(I_, st, a[2]), I_.reify(st, a[3])
        st.side["cur"] = b.a[2][0].a[1]
        mods = field(self.cx, MR, self_, "modifiers")
        nc, dag = field(self.cx, CM, mods, "control").a[1], field(self.cx, CM, mods, "dagger").a[1]
        ctr = field(self.cx, MR, self_, "controls").a[0]
        if len(ctr) != nc:
            raise Wrong(f"{len(ctr)} control wires in force instead of {nc}")
        i, o = val(op)
        n = self.addop(st, b, Adt("vp::Ctl", "Ctl", (op.a[2][0], I(nc), B(dag), Seq([Q] * nc + i), Seq([Q] * nc + o))))
        self.feed(I_, st, n, list(ctr))
        r = a[0]
        while True:
            v = I_.load(st, r.a[0], r.a[1])
            if v.k != "ref":
                break
            r = v
        fs = self.cx.P.adts[MR]["variants"][0]["fields"]
        v = I_.reify(st, v)
        v = Adt(v.a[0], v.a[1], [Seq(self.wire(n, p) for p in range(nc)) if f == "controls" else x for f, x in zip(fs, v.a[2])])
        I_.storev(st, r.a[0], r.a[1], v)
        DW = "tket::modifier::modifier_resolver::DirWire"
        dw = lambda p, x: Adt(DW, "DirWire", (node(n), (inp if x else outp)(p)))
        inc = [dw(nc + p, not (dag and t == Q)) for p, t in enumerate(i)]
        out = [dw(nc + p, dag) for p, t in enumerate(o)]
        return Ok(adt(self.cx, "tket::modifier::modifier_resolver::PortVector", {"incoming": Seq(inc), "outgoing": Seq(out)}))


# ---------------- families
class Gen:
    def __init__(self, rng, dag, thorough=False):
        self.rng, self.dag = rng, dag
        self.g = Gm()
        self.root = self.g.put(mkop("Module"))
        self.g.entry = self.root
        self.meta = {}
        self.fns = []
        self.budget = 9 if thorough else 7

    def row(self, nq, nb):
        r = [Q] * nq + [BIT] * nb
        self.rng.shuffle(r)
        return r

    def function(self, ins, outs, depth, flags):
        f = self.g.put(mkop("FuncDefn", S(f"f{len(self.fns)}"), sig(ins, outs)), self.root)
        if flags is not None:
            self.meta[f] = flags
        self.region(f, ins, outs, depth)
        self.fns.append((f, ins, outs, flags))
        return f

    def region(self, parent, ins, outs, depth, first=None):
        """a region with given rows; first: type of an additional first output (the branch of a block or loop)"""
        g, rng = self.g, self.rng
        a = g.put(mkop("Input", Seq(ins)), parent)
        z = g.put(mkop("Output", Seq(([first] if first else []) + list(outs))), parent)
        qs, bs = [(a, p) for p, t in enumerate(ins) if t == Q], [(a, p) for p, t in enumerate(ins) if t == BIT]

        def add(op, args):
            n = g.put(op, parent)
            for p, w in enumerate(args):
                g.link(*w, n, p)
                if w in qs:
                    qs.remove(w)
            for p, t in enumerate(g.nodes[n].outs):
                (qs if t == Q else bs if t == BIT else [None]).append((n, p))
            return n

        def const():
            k = g.put(mkop("Const", I(len(g.nodes))), parent)
            n = g.put(mkop("LoadConstant"), parent)
            g.link(k, 0, n, 0)
            bs.append((n, 0))

        def args(row):
            pool = list(qs)
            rng.shuffle(pool)
            return [pool.pop() if t == Q else rng.choice(bs) for t in row]

        def cls(i, o):
            return Adt("vp::Cls", f"c{len(g.nodes)}", (Seq(i), Seq(o)))
        if not bs or rng.random() < 0.3:
            const()
        for _ in range(rng.randint(1, 3 if depth else 4)):
            self.budget -= 1
            k = rng.choice(["gate", "gate", "cls", "dfg", "cond", "loop", "cfg", "call", "call", "ind"] if depth > 0 and self.budget > 0 else ["gate", "gate", "cls", "call"])
            if k == "loop" and self.dag:
                k = "dfg"
            if k == "gate" and qs:
                n, np = rng.randint(1, min(2, len(qs))), rng.choice([0, 0, 1])
                add(Adt("vp::Gate", "G", (S(f"g{len(g.nodes)}"), Seq([Q] * n + [BIT] * np), Seq([Q] * n))), args([Q] * n + [BIT] * np))
            elif k == "cls":
                i, o = [BIT] * rng.randint(0, 2), [BIT] * rng.randint(1, 2)
                add(cls(i, o), args(i))
            elif k in ("dfg", "cfg"):
                i = self.row(rng.randint(0, len(qs)), rng.randint(0, 2))
                o = i if self.dag else self.row(i.count(Q), rng.randint(0, 2))
                x = args(i)
                n = add(mkop("DFG" if k == "dfg" else "CFG", sig(i, o)), x)
                if k == "dfg":
                    self.region(n, i, o, depth - 1)
                else:
                    b = g.put(mkop("DataflowBlock", Seq(i), Seq(o), Seq([Seq([])])), n)
                    e = g.put(mkop("ExitBlock", Seq(o)), n)
                    g.link(b, 0, e, 0)
                    self.region(b, i, o, depth - 1, first=sumty([[]]))
            elif k == "cond":
                vs = [[BIT] * rng.randint(0, 2) for _ in range(rng.randint(1, 2))]
                i = self.row(rng.randint(0, len(qs)), rng.randint(0, 1))
                o = i if self.dag else self.row(i.count(Q), rng.randint(0, 1))
                op = cls([BIT], [sumty(vs)]) if rng.random() < 0.5 else Adt("vp::Tag", f"t{len(g.nodes)}", (Seq(vs[0]), Seq([sumty(vs)])))
                t = add(op, args(val(op)[0]))
                n = add(mkop("Conditional", Seq(Seq(v) for v in vs), Seq(i), Seq(o)), [(t, 0)] + args(i))
                for v in vs:
                    c = g.put(mkop("Case", sig(v + i, o)), n)
                    self.region(c, v + i, o, depth - 1)
            elif k == "loop":
                ji, jo = [BIT] * rng.randint(0, 1), [BIT] * rng.randint(0, 1)
                rest = self.row(rng.randint(0, len(qs)), rng.randint(0, 2))
                n = add(mkop("TailLoop", Seq(ji), Seq(jo), Seq(rest)), args(ji + rest))
                self.region(n, ji + rest, rest, depth - 1, first=sumty([ji, jo]))
            elif k in ("call", "ind"):
                fs = [f for f in self.fns if f[1].count(Q) <= len(qs) and (k == "call" or f[3] is not None)]
                if not fs:
                    continue
                f, i, o, fl = rng.choice(fs)
                s = sig(i, o)
                if k == "call":
                    n = add(mkop("Call", s, Seq([]), s), args(i))
                    g.link(f, 0, n, len(i))
                else:
                    l = g.put(mkop("LoadFunction", s, Seq([]), s), parent)
                    g.link(f, 0, l, 0)
                    add(mkop("CallIndirect", s), [(l, 0)] + args(i))
        if first:
            op = Adt("vp::Tag", f"t{len(g.nodes)}", (Seq([]), Seq([first]))) if first == sumty([[]]) else cls([BIT] if bs else [], [first])
            t = add(op, args(val(op)[0]))
            g.link(t, 0, z, 0)
        for p, w in enumerate(args(outs)):
            g.link(*w, z, p + (1 if first else 0))


# ---------------- evaluation
class Ev:
    """the values at the boundary of a function; back: qubit wires are followed from the outputs to the inputs"""

    def __init__(self, g, back, nc):
        self.g, self.back, self.nc = g, back, nc
        self.gates = 0
        self.calls = 0
        self.depth = 0

    def src(self, n, p):
        l = self.g.src(n, p)
        if len(l) != 1:
            raise Wrong(f"input port {p} of {self.name(n)} has {len(l)} connections")
        return l[0]

    def name(self, n):
        op = self.g.nodes[n].op
        return f"node {n} ({op.a[1]} {op.a[2][0].a[1] if op.a[0] in ('vp::Ctl', 'vp::Gate') else ''})"

    def inner(self, region, known):
        """known(kind, port): kind 'f' values at the Input node's ports, 'b' values at the Output node's qubit ports;
        -> (value at Output port, value at Input port) functions"""
        g = self.g
        kids = g.kids(region)
        a, z = kids[0], kids[1]
        if g.nodes[a].op.a[1] != "Input" or g.nodes[z].op.a[1] != "Output":
            raise Wrong("region without input and output")
        memo, busy = {}, set()

        def cached(key, f):
            if key not in memo:
                if key in busy:
                    raise Wrong("cycle")
                busy.add(key)
                memo[key] = f()
                busy.discard(key)
            return memo[key]

        def fw(n, p):
            """value leaving output port p of n"""
            return cached(("f", n, p), lambda: self.out(n, p, fin, fw, bout, known, a))

        def fin(n, p):
            return fw(*self.src(n, p))

        def bout(n, p):
            """value arriving, against the flow, at output port p of n"""
            l = g.dst(n, p)
            if len(l) != 1:
                raise Wrong(f"qubit output {p} of {self.name(n)} has {len(l)} uses")
            return bw(*l[0])

        def bw(n, p):
            """value leaving, against the flow, input port p of n"""
            return cached(("b", n, p), lambda: known("b", p) if n == z else self.into(n, p, fin, bout))
        return (lambda p: fin(z, p)), (lambda p: bout(a, p)), kids

    def lin(self, n, p, out):
        t = (self.g.nodes[n].outs if out else self.g.nodes[n].ins)[p]
        return self.back and quantum(t)

    def ctl(self, vals):
        if list(vals) != [("c", i) for i in range(self.nc)]:
            raise Wrong(f"a gate is controlled by {list(vals)} instead of the {self.nc} controls")

    def out(self, n, p, fin, fw, bout, known, a):
        g, x = self.g, self.g.nodes[n]
        op = x.op
        k, path = op.a[1], op.a[0]
        if n == a:
            return known("f", p)
        if p < len(x.outs) and self.lin(n, p, True):
            raise Wrong("a qubit is taken where a classical value is used")
        ins = lambda: tuple(fin(n, i) for i in range(len(x.ins)))
        if path == "vp::Gate":
            return ("g", op.a[2][0].a[1], ins(), p)
        if path == "vp::Ctl":
            nc = op.a[2][1].a[1]
            v = ins()
            self.ctl(v[:nc])
            if nc != self.nc or op.a[2][2] != B(False):
                raise Wrong("gate with the wrong modifiers")
            self.gates += 1
            return v[p] if p < nc else ("g", op.a[2][0].a[1], v[nc:], p - nc)
        if path == "vp::Pack":
            return ("arr", ins())
        if path == "vp::Unpack":
            v = fin(n, 0)
            if v[0] != "arr" or len(v[1]) != op.a[2][0].a[1]:
                raise Wrong(f"{v} is unpacked")
            return v[1][p]
        if path in ("vp::Cls", "vp::Tag"):
            return ("cls", k, ins(), p)
        if k == "LoadConstant":
            c, _ = self.src(n, 0)
            if g.nodes[c].op.a[1] != "Const" or g.nodes[c].parent != x.parent:
                raise Wrong("constant of another region")
            return ("const", g.nodes[c].op.a[2][0].a[1])
        if k == "LoadFunction":
            return ("fn", self.callee(n, 0, op))
        o, _, _ = self.container(n, fin, bout)
        return o(p)

    def callee(self, n, p, op):
        f, q = self.src(n, p)
        if g_op(self.g, f) != "FuncDefn":
            raise Wrong(f"{self.name(n)} calls {self.name(f)}")
        if self.g.nodes[f].op.a[2][1] != op.a[2][2]:
            raise Wrong(f"{self.name(n)} has another signature than the function it calls")
        return f

    def container(self, n, fin, bout):
        """(value at output port, value against the flow at input port, -)"""
        g, x = self.g, self.g.nodes[n]
        op, k = x.op, x.op.a[1]
        self.depth += 1
        if self.depth > 20000:
            raise Wrong("too deep")
        if k in ("DFG", "CFG", "Call", "CallIndirect"):
            off, skip = 0, 0
            region = n
            if k == "CFG":
                bl = g.kids(n)
                if [g_op(g, b) for b in bl] != ["DataflowBlock", "ExitBlock"] or g.dst(bl[0], 0) != [(bl[1], 0)]:
                    raise Wrong("control flow of the nested graph")
                region, off = bl[0], 1
                if len(g.nodes[region].op.a[2][2].a[0]) != 1 or g.nodes[region].op.a[2][2].a[0][0].a[0]:
                    raise Wrong("branches of the block")
            if k == "Call":
                region = self.callee(n, len(x.ins), op)
                self.calls += 1
            if k == "CallIndirect":
                f = fin(n, 0)
                if f[0] != "fn" or g.nodes[f[1]].op.a[2][1] != op.a[2][0]:
                    raise Wrong(f"indirect call of {f}")
                region, skip = f[1], 1
                self.calls += 1
            o, i, _ = self.inner(region, lambda d, p: fin(n, p + skip) if d == "f" else bout(n, p - off))
            self.rowcheck(region, x, off, skip)
            return (lambda p: o(p + off)), (lambda p: i(p - skip)), None
        if k == "Conditional":
            tag = fin(n, 0)
            cases = g.kids(n)
            vs = [len(v.a[0]) for v in op.a[2][0].a[0]]
            if len(cases) != len(vs):
                raise Wrong("number of cases")
            rs = []
            for c, v in zip(cases, vs):
                rs.append((v, self.inner(c, lambda d, p, c=c, v=v: ((("tagval", tag, cases.index(c), p) if p < v else fin(n, p - v + 1)) if d == "f" else bout(n, p)))))

            def pick(l):
                # the same on every branch: a control
                return l[0] if all(y == l[0] and y[0] == "c" for y in l) else ("cond", tag, tuple(l))
            return (lambda p: pick([r[0](p) for v, r in rs])), (lambda p: pick([r[1](p - 1 + v) for v, r in rs])), None
        if k == "TailLoop":
            if self.back:
                raise Wrong("inverse of a loop")
            ji, jo, rest = [list(y.a[0]) for y in op.a[2]]
            cur = [fin(n, p) for p in range(len(ji), len(x.ins))]
            isc = [v[0] == "c" for v in cur]
            idx = {}
            for p, c in enumerate([False] * len(ji) + isc):
                if not c:
                    idx[p] = len(idx)
            self.fresh = getattr(self, "fresh", 0)
            depth = self.depth
            o, _, _ = self.inner(n, lambda d, p: cur[p - len(ji)] if p >= len(ji) and isc[p - len(ji)] else ("loopvar", self.level, idx[p]))
            self.level = getattr(self, "level", 0) + 1
            try:
                body = [o(p) for p in range(1 + len(rest))]
            finally:
                self.level -= 1
            for c, v, w in zip(isc, cur, body[1:]):
                if (c or w[0] == "c") and v != w:
                    raise Wrong("a control changes over the iterations of a loop")
            key = ("loop", tuple(fin(n, p) for p in range(len(x.ins)) if p in idx), tuple([body[0]] + [w for c, w in zip(isc, body[1:]) if not c]))

            def outv(p):
                if p >= len(jo) and isc[p - len(jo)]:
                    return cur[p - len(jo)]
                return ("loopout",) + key + (p - sum(isc[:max(0, p - len(jo))]),)
            return outv, None, None
        raise Wrong(f"operation {show(op)[:100]}")
    level = 0

    def rowcheck(self, region, x, off, skip):
        pass

    def into(self, n, p, fin, bout):
        """against the flow: the value at qubit input p of n"""
        g, x = self.g, self.g.nodes[n]
        op = x.op
        if not self.lin(n, p, False):
            raise Wrong(f"a qubit wire ends in a classical port of {self.name(n)}")
        if op.a[0] == "vp::Ctl":
            nc = op.a[2][1].a[1]
            outs = tuple(bout(n, i) for i in range(len(x.outs)))
            self.ctl(outs[:nc])
            if nc != self.nc or op.a[2][2] != B(True):
                raise Wrong("gate with the wrong modifiers")
            self.gates += 1
            return outs[p] if p < nc else ("g", op.a[2][0].a[1], outs[nc:] + tuple(fin(n, i) for i in range(len(x.outs), len(x.ins))), p - nc)
        if op.a[0] == "vp::Pack":
            v = bout(n, 0)
            if v[0] != "arr" or len(v[1]) != len(x.ins):
                raise Wrong("array of another size")
            return v[1][p]
        if op.a[0] == "vp::Unpack":
            return ("arr", tuple(bout(n, i) for i in range(len(x.outs))))
        _, i, _ = self.container(n, fin, bout)
        return i(p)


def g_op(g, n):
    return g.nodes[n].op.a[1]


def wellformed(g, root):
    """every value port of the new function is connected as its type says"""
    todo = [root]
    while todo:
        r = todo.pop()
        for n in g.kids(r):
            todo.append(n)
            i, o = ports(g.nodes[n].op)
            for p, k in enumerate(i):
                l = g.src(n, p)
                if k[0] in "vs" and len(l) != 1:
                    raise Wrong(f"input {p} of node {n} {show(g.nodes[n].op)[:80]} has {len(l)} connections")
                for m, q in l:
                    if k[0] == "v" and (g.nodes[m].parent != r or q >= len(g.nodes[m].outs) or g.nodes[m].outs[q] != k[1]):
                        raise Wrong(f"input {p} of node {n} {show(g.nodes[n].op)[:80]} is fed by output {q} of node {m} {show(g.nodes[m].op)[:80]}")
            for p, k in enumerate(o):
                if k[0] == "v" and quantum(k[1]) and len(g.dst(n, p)) != 1:
                    raise Wrong(f"qubit output {p} of node {n} {show(g.nodes[n].op)[:80]} has {len(g.dst(n, p))} uses")
            op = g.nodes[n].op
            ks = g.kids(n)
            if op.a[1] in ("DFG", "Case") and (g.nodes[ks[0]].outs, g.nodes[ks[1]].ins) != tuple(map(tuple, val(op))):
                raise Wrong("rows of a nested region")
            if op.a[1] == "TailLoop":
                ji, jo, rest = [tuple(y.a[0]) for y in op.a[2]]
                if g.nodes[ks[0]].outs != ji + rest or g.nodes[ks[1]].ins != (sumty([ji, jo]),) + rest:
                    raise Wrong("rows of a loop")
            if op.a[1] == "Conditional":
                for c, v in zip(ks, op.a[2][0].a[0]):
                    if val(g.nodes[c].op) != (list(v.a[0]) + list(op.a[2][1].a[0]), list(op.a[2][2].a[0])):
                        raise Wrong("rows of a case")
            if op.a[1] == "CFG":
                b = g.nodes[ks[0]].op
                if (list(b.a[2][0].a[0]), list(b.a[2][1].a[0])) != rows(op.a[2][0]):
                    raise Wrong("rows of a block")
                if g.nodes[g.kids(ks[0])[1]].ins[0] != sumty([[]]):
                    raise Wrong("branch of a block")


def make(seed):
    rng = random.Random(seed)
    dag = rng.random() < 0.45
    acc = rng.choice([[], [1], [1], [2], [1, 1], [1, 2], [2, 1], [1, 1, 1], [2, 1, 2]])
    if not acc:
        dag = True
    ge = Gen(rng, dag)
    for _ in range(rng.randint(0, 3)):
        i = ge.row(rng.choice([0, 1, 1, 2]), rng.randint(0, 2))
        o = i if dag else ge.row(i.count(Q), rng.randint(0, 2))
        allf = ("control", "dagger", "power")
        fl = allf if Q in i or rng.random() < 0.5 else None
        if fl is None and i != o:
            o = i
        ge.function(i, o, 1, fl)
    i = ge.row(rng.randint(1, 3), rng.randint(0, 2))
    o = i if dag else ge.row(i.count(Q), rng.randint(0, 2))
    ge.budget = 7
    f = ge.function(i, o, 2, rng.choice([None, ("control", "dagger"), ("power",), ("control",), ("dagger",), ("control", "power")]))
    return ge, f, i, o, dag, acc, rng.randint(0, 2)


def run(cx):
    key = cx.key(r"ModifierResolver>::modify_fn::<H>$")
    ds = cx.spread(range(10000 if cx.thorough else 1800), lambda i: one(cx, key, i))
    R = "the modified function is the function, modified"
    for j, what, lo in ((0, "functions", 1200), (1, "gates", 1500), (2, "calls", 450), (3, "inverted", 450), (4, "nested regions", 900)):
        cx.floor(R, what, sum(d[j] for d in ds), lo)


R = "the modified function is the function, modified"


def one(cx, key, i):
    st = [0, 0, 0, 0, 0]
    cx.guard(R, f"function {i}", case, cx, key, i, st)
    return st


def case(cx, key, i, st):
    lb = f"function {i}"
    ge, f, ri, ro, dag, acc, pick = make(i)
    nc = sum(acc)
    m = Mod(cx, pick)
    m.cx = cx
    emp = mk("map", "std::collections::hash::map::HashMap", ())
    slf = adt(cx, MR, {"modifiers": adt(cx, CM, {"control": I(nc), "dagger": B(dag), "accum_ctrl": Seq([I(k) for k in acc]), "power": B(False)}),
                       "controls": Seq([]), "corresp_map": emp, "call_map": emp, "worklist": Seq([]), "qubit_finder": T("finder")})

    def setup(s):
        s.side["gs"] = {0: ge.g}
        s.side["cur"] = 0
        s.side["meta"] = dict(ge.meta)
    d = f"{acc} controls{' inverse' if dag else ''}: " + describe(ge.g)
    try:
        it, outs = cx.run(key, {"self": slf, "h": Adt(HG, "Hg", (I(0),)), "func": node(f)}, setup=lambda it, s: setup(s), on_call=m, recursion=80, max_depth=900, max_steps=20_000_000)
    except Wrong as e:
        return cx.fail(R, lb, f"{e}; {d}"[:1500])
    if len(outs) != 1 or outs[0].kind != "ret":
        return cx.fail(R, lb, f"the modification does not end: {[(o.kind, str(o.st.cutreason or o.value)[:1300]) for o in outs[:2]]}; {d}"[:4800])
    o = outs[0]
    r = it.reify(o.st, o.value)
    if r.a[1] != "Ok":
        return cx.fail(R, lb, f"refused: {show(r)[:300]}; {d}"[:4800])
    new = r.a[2][0].a[2][0].a[1]
    g = o.side["gs"][0]
    try:
        new_sig = [arr(k) for k in acc]
        if rows(g.nodes[new].op.a[2][1]) != (new_sig + ri, new_sig + ro):
            raise Wrong("the signature of the new function")
        old = set(ge.g.nodes)
        for n in [new] + [k for k in g.kids(ge.root) if k not in old]:
            wellformed(g, n)
        ref = Ev(ge.g, False, 0)
        want, _, _ = ref.inner(f, lambda d_, p: ("in", p))
        ctr, k0 = [], 0
        for k in acc:
            ctr.append(("arr", tuple(("c", k0 + x) for x in range(k))))
            k0 += k
        na = len(acc)
        ev = Ev(g, dag, nc)
        outv, inv, _ = ev.inner(new, lambda d_, p: ctr[p] if p < na else ("in", p - na))
        for p in range(na + len(ro)):
            t = (new_sig + ro)[p]
            q = dag and quantum(t)
            got = inv(p) if q else outv(p)
            exp = ctr[p] if p < na else want(p - na)
            cx.check(R, f"{lb} {p}", got == exp, f"{'input' if q else 'output'} {p} is {got}, expected {exp}; {d}"[:4800])
        want_flags = set(ge.meta.get(f, ())) | ({"control"} if nc else set()) | ({"dagger"} if dag else set())
        cx.check("the modified function declares what it supports", lb, set(o.side["meta"].get(new, ())) == want_flags, f"flags {o.side['meta'].get(new)}, expected {sorted(want_flags)}")
        v = it.reify(o.st, it.argvals[0])
        cx.check("the resolver is left as it was", lb, field(cx, MR, v, "call_map") == emp and field(cx, MR, v, "controls") == Seq([]) and field(cx, MR, v, "modifiers") == field(cx, MR, slf, "modifiers"),
                 f"afterwards {show(v)[:400]}")
        st[:] = [1, ev.gates, ev.calls, int(dag), sum(1 for x in ge.g.nodes.values() if x.op.a[1] in ("DFG", "Conditional", "TailLoop", "CFG"))]
    except Wrong as e:
        cx.fail(R, lb, f"{e}; {d}"[:4800])


def describe(g):
    def r(n, ind=0):
        x = g.nodes[n]
        s = f"{n}:{x.op.a[1]}{'' if x.op.a[0] != 'vp::Gate' else ' ' + x.op.a[2][0].a[1]}({','.join('.'.join(map(str, w)) for p in range(len(ports(x.op)[0])) for w in g.src(n, p))})"
        k = g.kids(n)
        return s + ("{" + " ".join(r(c) for c in k) + "}" if k else "")
    return r(0)
