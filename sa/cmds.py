"""The command traversal of a circuit (tket::circuit::command) on concrete regions: the interfaces it uses, and its definition."""
from interp import V, mk, I, B, S, T, Adt, Tup, Seq, Some, NONE, is_c, is_t, show, Ret, DEFAULT, UNIT, Ok, Err, Incomplete
from interp import mk_fn_key, Call
import hg, region, models, exprs
from hg import node, inp, outp
from region import BIT, ANGLE, Q
from exprs import Exprs

CIRC = "tket::circuit::Circuit"
TAG = "hugr_core::ops::tag::OpTag"
TAGS = {"Const": "Const", "LoadConstant": "LoadConst", "Input": "Input", "Output": "Output", "FuncDefn": "FuncDefn", "FuncDecl": "Function",
        "Module": "ModuleRoot", "CallB": "FnCall", "DFG": "Dfg"}


def circ(h=T("hugr")):
    return Adt(CIRC, "Circuit", (h,))


UNITS = "tket::circuit::units::Units"
NEXT = r"^<tket::circuit::units::Units<hugr_core::core::%sPort, N, UL> as .*Iterator>::next$"


class Cmds(Exprs):
    def __init__(self, cx):
        super().__init__(cx)
        self.nexts = {d: cx.key(NEXT % d) for d in ("Incoming", "Outgoing")}
        loc = set(cx.P.local_keys())
        self.labellers = [k for k in cx.P.find(r"as tket::circuit::units::UnitLabeller<.*>>::assign_(linear|wire)$") if k in loc and "impl HugrView" not in k]
        self.cmdnext = cx.key(r"^<tket::circuit::command::CommandIterator<'_, T> as .*Iterator>::next$")

    def user_iter(self, I_, st, v):
        if v.a[0] == UNITS:
            return self.nexts[v.a[2][-1].a[1]]
        if v.a[0] == "tket::circuit::command::CommandIterator":
            return self.cmdnext

    def __call__(self, I_, st, ci, a):
        d, nm = ci.def_, ci.def_.rsplit("::", 1)[-1]
        if nm == "into_iter" and len(a) == 1:
            v = I_.reify(st, a[0])
            if v.k == "adt" and self.user_iter(I_, st, v):
                return v
        if nm == "new_with_dir" and not st.side.get("inctor"):
            # the port type of the iterator is the direction it was made for: kept in its marker field
            st.side["inctor"] = True
            dirv = I_.reify(st, a[2])

            def made(I2, s, r):
                s.side["inctor"] = False
                r = I2.reify(s, r)
                return Ret(Adt(r.a[0], r.a[1], tuple(r.a[2][:-1]) + (Adt("vp::Marker", dirv.a[1], ()),)))
            return Call(mk_fn_key(I_, ci.callee["key"], ci.callee["key"]), list(a), made)
        if nm == "get" and "type_row" in d and len(a) == 2:
            r, i = I_.reify(st, a[0]), I_.reify(st, a[1])
            if r.k != "seq":
                raise Incomplete(f"row {show(r)[:200]}")
            return Some(r.a[0][i.a[1]]) if i.a[1] < len(r.a[0]) else NONE
        if nm in ("assign_linear", "assign_wire") and ci.callee.get("key") not in I_.p:
            l = I_.reify(st, a[0])
            via = [k for k in self.labellers if (l.a[1] + "<" in k.split(" as ")[0] or l.a[1] == k.split(" as ")[0].rsplit("::", 1)[-1]) and k.endswith("::" + nm)]
            if len(via) == 1:
                return Call(mk_fn_key(I_, via[0], via[0]), [a[0] if l.a[1] != "Command" else I_.new_cell(st, a[0])] + list(a[1:]) if l.a[1] == "Command" else list(a), lambda I2, s, r: Ret(r))
            raise Incomplete(f"unit labels of {show(l)[:60]}: {via}")
        if nm == "qb_t":
            return region.Q
        if nm == "to_mut" and "type_row" in d:
            return a[0]
        if nm == "into_owned" and "type_row" in d:
            return I_.reify(st, a[0])
        if nm in ("default", "unwrap_or_default") and "FuncTypeBase" in ci.full + str(ci.desty):
            v = I_.reify(st, a[0]) if a else NONE
            if v == NONE:
                return SIG((), ())
            if v.k == "adt" and v.a[1] == "Some":
                return v.a[2][0]
        if nm == "tag" and a:
            i = self.op(I_, st, a[0])
            if i is not None:
                return Adt(TAG, TAGS.get(self.kind(st, i), "Leaf"), ())
        if nm in ("static_port_kind", "other_port_kind") and len(a) == 2:
            i = self.op(I_, st, a[0])
            if i is not None:
                k, w = self.kind(st, i), I_.reify(st, a[1]).a[1]
                if nm == "other_port_kind":
                    return NONE if k in ("Const", "FuncDefn", "FuncDecl", "Module") else Some(Adt(hg.EK, "StateOrder", ()))
                if (k, w) in (("Const", "Outgoing"), ("LoadConstant", "Incoming")):
                    return Some(Adt(hg.EK, "Const", (BIT,)))
                if (k, w) == ("CallB", "Incoming"):
                    return Some(Adt(hg.EK, "Function", (T("poly"),)))
                return NONE
        if nm == "node_count" and ("portgraph" in d or "FlatRegion" in ci.full):
            g = self.gr(st)
            return I(sum(1 for x in g.nodes.values() if x.parent == g.entry))
        if "Topo" in ci.full and "petgraph" in ci.full or "pv::Topo" in ci.full:
            if nm == "new":
                g = self.gr(st)
                return Adt("vp::Topo", "Topo", (Seq(node(n) for n in topo(g, self.pick)),))
            if nm == "next":
                c, p, v = models.seq_target(I_, st, a[0])
                if v.k == "adt" and v.a[0] == "vp::Topo":
                    l = v.a[2][0].a[0]
                    if not l:
                        return NONE
                    I_.storev(st, c, p, Adt("vp::Topo", "Topo", (Seq(l[1:]),)))
                    return Some(l[0])
        if nm == "signature" and len(a) == 2:
            i = self.n(I_, st, a[1])
            x = self.gr(st).nodes[i]
            if x.op.a[1] in ("Const", "Module", "FuncDecl", "FuncDefn"):
                return NONE
            return Some(SIG(x.ins, x.outs))
        return super().__call__(I_, st, ci, a)

    def g_port_kind(self, I_, st, ci, a):
        i = self.op(I_, st, a[0])
        if i is not None:
            k, w = self.kind(st, i), self.dirp(I_, st, a[1])
            if (k, w) in (("Const", ("out", 0)), ("LoadConstant", ("in", 0))):
                return Some(Adt(hg.EK, "Const", (BIT,)))
            if (k, w) == ("CallB", ("in", len(self.gr(st).nodes[i].ins))):
                return Some(Adt(hg.EK, "Function", (T("poly"),)))
        return super().g_port_kind(I_, st, ci, a)

    def sigt(self, I_, st, v):
        w = I_.reify(st, v)
        if w.k == "adt" and w.a[1] == "FuncTypeBase":
            return w.a[2][0].a[0], w.a[2][1].a[0]
        return super().sigt(I_, st, v)
    pick = staticmethod(lambda l: l[-1])


def SIG(ins, outs):
    return Adt("hugr_core::types::Signature", "FuncTypeBase", (Seq(ins), Seq(outs)))


def topo(g, pick):
    """the children of the region node, every node after its predecessors"""
    keep = {k for k, x in g.nodes.items() if x.parent == g.entry}
    left = {n: {e[0] for e in g.edges if e[2] == n and e[0] in keep} for n in keep}
    ready, out = sorted(n for n in keep if not left[n]), []
    while ready:
        n = pick(ready)
        ready.remove(n)
        out.append(n)
        for m in sorted({e[2] for e in g.edges if e[0] == n and e[2] in keep}):
            left[m].discard(n)
            if not left[m] and m not in out and m not in ready:
                ready.append(m)
    return out
