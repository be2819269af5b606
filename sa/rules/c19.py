"""C19: the unpacking and repacking of every container type up to a bounded nesting is executed abstractly, including the bodies of
the functions it registers; the circuits it builds are evaluated on a value of that type. Unpacking has to yield the elements in order
(and the number of wires and types the type analysis announces), and repacking them has to rebuild the value. The barrier insertion
that uses it is analysed the same way: every qubit passes through the runtime barrier once and returns to its place."""
import itertools, re
from interp import (V, mk, I, B, S, F, T, Adt, Tup, Seq, Some, NONE, Ok, Err, is_c, is_t, UNIT, Ret, Call, Dead, DEFAULT, Incomplete, show)
import circ, exts, sig as sigm

MOD = "tket::passes::unpack_container::"
UCB = MOD + "UnpackContainerBuilder"
TU = MOD + "type_unpack::TypeUnpacker"
OFM = MOD + "op_function_map::OpFunctionMap"
TERM = "hugr_core::types::type_param::Term"
KINDS = {"Array": "array", "ValueArray": "varray", "VArray": "varray", "BorrowArray": "barray", "BArray": "barray"}


# ------------------------------------------------------------------ types of the analysed programs
def ty(k, *a):
    return Adt("vp::T", k, a)


Q, BO = ty("qubit"), ty("bool")


def opt(t): return ty("opt", t)
def tup(*ts): return ty("tup", *ts)
def arr(n, t, k="array"): return ty(k, I(n), t)


def name(t):
    k, a = t.a[1], t.a[2]
    if not a and k != "tup":
        return k
    if k == "tup":
        return "(" + ", ".join(map(name, a)) + ")"
    if k == "opt":
        return f"Option<{name(a[0])}>"
    return f"{k}<{a[0].a[1]}, {name(a[1])}>"


def value(t, path=""):
    """(type, components) with distinct leaves"""
    k, a = t.a[1], t.a[2]
    if k == "tup":
        return (t, tuple(value(x, f"{path}.{i}") for i, x in enumerate(a)))
    if k == "opt":
        return (t, (value(a[0], path + ".some"),))
    if k in ("array", "varray", "barray"):
        return (t, tuple(value(a[1], f"{path}[{i}]") for i in range(a[0].a[1])))
    return (t, "v" + path)


def contains(t, el):
    k, a = t.a[1], t.a[2]
    if t == el:
        return True
    if k == "tup":
        return any(contains(x, el) for x in a)
    if k in ("array", "varray", "barray"):
        return a[1] == opt(el) or contains(a[1], el)
    return False


def flatten(v, el):
    t, c = v
    if t == el or not contains(t, el):
        return [v]
    k, a = t.a[1], t.a[2]
    if k == "tup":
        return [y for x in c for y in flatten(x, el)]
    if a[1] == opt(el):
        return [x[1][0] for x in c]
    return [y for x in c for y in flatten(x, el)]


class Bad(Exception):
    pass


def isty(v):
    return v.k == "adt" and v.a[0] == "vp::T"


def isx(v):
    return v.k == "adt" and v.a[0] == "vp::Xop"


def xname(v):
    return v.a[2][0].a[1]


def arg_of(v):
    """a type or number as a type argument"""
    if isty(v):
        return Adt(TERM, "Runtime", (v,))
    if is_c(v, "int"):
        return Adt(TERM, "BoundedNat", (v,))
    return v


class Types(circ.Builder):
    """the type interface on concrete types, and the builder on builders with known inputs"""

    def __init__(self, sg):
        super().__init__(n_inputs=self.nin, out_arity=self.nout)
        self.sg = sg

    def nin(self, b):
        return len(b.a[2].a[0]) if is_t(b, "fb") else None

    def inw(self, b, i):
        return T("inw", b, I(i))

    def nout(self, h):
        if is_t(h, "io"):
            return len(h.a[1].a[2].a[0])
        if not is_t(h, "node"):
            return None
        op = h.a[1]
        if is_t(op, "unpacktuple"):
            return len(op.a[1].a[0])
        if isx(op):
            return len(opsig(op)[1])
        return None

    def c_add_new_array(self, I_, st, ci, a):
        t = I_.reify(st, a[1])
        return circ.with_inputs(I_, st, a[2], lambda s, ins: Ret(Ok(T("wire", self.mknode(I_, s, ci, T("new_array", S("Array"), t), ins), I(0)))))

    def c_add_array_unpack(self, I_, st, ci, a):
        t, n, w = [I_.reify(st, x) for x in a[1:4]]
        if not is_c(n, "int"):
            raise Incomplete("array size")
        node = self.mknode(I_, st, ci, T("unpack_array", S("Array"), t, n), Seq([w]))
        return Ok(Seq([T("wire", node, I(i)) for i in range(n.a[1])]))

    def c_input(self, I_, st, ci, a):
        return T("io", I_.reify(st, a[0]))

    def c_out_wire(self, I_, st, ci, a):
        h = I_.reify(st, a[0])
        if is_t(h, "io"):
            return T("inw", h.a[1], I_.reify(st, a[1]))
        return super().c_out_wire(I_, st, ci, a)

    def c_outputs(self, I_, st, ci, a):
        h = I_.reify(st, a[0])
        if is_t(h, "io"):
            return mk("iter", "seq", tuple(T("inw", h.a[1], I(i)) for i in range(self.nout(h))))
        r = super().c_outputs(I_, st, ci, a)
        return mk("iter", "seq", tuple(r.a[0])) if r is not DEFAULT and r.k == "seq" else r

    def __call__(self, I_, st, ci, a):
        d, nm = ci.def_, ci.def_.rsplit("::", 1)[-1]
        x = I_.reify(st, a[0]) if a else T("noarg")
        if nm in ("eq", "ne") and len(a) == 2 and isty(x):
            y = I_.reify(st, a[1])
            if not isty(y):
                raise Incomplete(f"comparison with {show(y)[:100]}")
            return B((x == y) == (nm == "eq"))
        if nm in ("into", "from", "try_into", "try_from"):
            conv = lambda v: Ok(v) if nm.startswith("try") else v
            full = " ".join(map(str, ci.args)) + d
            if isty(x) or is_c(x, "int"):
                if "Term" in full:
                    return conv(arg_of(x))
                if "TypeRow" in full or "Vec" in full:
                    return conv(Seq((x,)))
                if isty(x):
                    return conv(x)
            if x is not None and x.k == "seq" and any(s in full for s in ("TypeRow", "Vec", "Cow")):
                return conv(x)
            if x is not None and x.k == "seq" and "Term" in full:
                return conv(Adt(TERM, "List", (x,)))
        if not d.startswith("hugr") and "hugr_core" not in d:
            return DEFAULT
        r = self.types(I_, st, ci, nm, d, x, a)
        if r is not DEFAULT:
            return r
        return super().__call__(I_, st, ci, a)

    def types(self, I_, st, ci, nm, d, x, a):
        if x is not None and isty(x):
            k, c = x.a[1], x.a[2]
            if nm == "as_sum":
                return Some(Adt("vp::Sum", "Sum", (x,))) if k in ("opt", "tup") or k == "bool" else NONE
            if nm == "as_extension":
                return Some(Adt("vp::Custom", "Custom", (x,))) if k in KINDS.values() or k == "qubit" else NONE
            if nm == "try_into_type":
                return Ok(x)
            if nm in ("clone", "deref", "borrow", "as_ref"):
                return x
            if nm in ("into_", "to_owned"):
                return x
        if x is not None and x.k == "adt" and x.a[0] == "vp::Sum":
            t = x.a[2][0]
            if nm == "as_unary_option":
                return Some(t.a[2][0]) if t.a[1] == "opt" else NONE
            if nm in ("as_tuple",):
                return Some(Seq(t.a[2])) if t.a[1] == "tup" else NONE
            if nm == "as_option":
                return Some(Seq(t.a[2])) if t.a[1] == "opt" else NONE
        if x is not None and x.k == "adt" and x.a[0] == "vp::Custom":
            t = x.a[2][0]
            if nm == "args":
                return Seq(tuple(arg_of(y) for y in t.a[2]))
        if nm == "type_def" and "rray" in d + "".join(map(str, ci.args)):
            return T("arraydef", S(self.kind(ci)))
        if nm == "check_custom" and is_t(x, "arraydef"):
            y = I_.reify(st, a[1])
            t = y.a[2][0]
            return Ok(UNIT) if t.a[1] == x.a[1].a[1] else Err(T("othertype"))
        if nm == "ty" and "Kind" in d:
            n, t = I_.reify(st, a[0]), I_.reify(st, a[1])
            if is_c(n, "int") and isty(t):
                return ty(self.kind(ci), n, t)
        if nm in ("array_type", "borrow_array_type", "value_array_type") and len(a) == 2:
            n, t = I_.reify(st, a[0]), I_.reify(st, a[1])
            return ty({"array_type": "array", "borrow_array_type": "barray", "value_array_type": "varray"}[nm], n, t)
        if nm == "new_tuple":
            return ty("tup", *self.items(I_, st, a[0]))
        if nm == "add_op":
            I_.log(st, "vp::add_op", [I_.reify(st, a[1]), I_.reify(st, a[3])], UNIT, ci, ci.where, a)
            return Ok(UNIT)
        if nm in ("new_var_use", "new_row_var_use") and is_c(x, "int"):
            return ty("var" if nm == "new_var_use" else "rowvar", x)
        if nm == "ty_parametric":
            return Ok(ty(self.kind(ci), x, I_.reify(st, a[1])))
        if nm == "new" and "PolyFuncType" in d:
            return Adt("vp::Poly", "Poly", (Seq(self.items(I_, st, a[0])), I_.reify(st, a[1])))
        if nm == "new" and "FuncTypeBase" in d:
            return Adt("vp::FT", "FT", (Seq(self.items(I_, st, a[0])), Seq(self.items(I_, st, a[1]))))
        if x is not None and x.k == "adt" and x.a[0] == "vp::Poly":
            return x.a[2][0] if nm == "params" else x.a[2][1] if nm == "body" else x if nm == "clone" else DEFAULT
        if x is not None and x.k == "adt" and x.a[0] == "vp::FT":
            return x.a[2][0] if nm == "input" else x.a[2][1] if nm == "output" else x if nm == "clone" else DEFAULT
        if nm == "option_type":
            return opt(*self.items(I_, st, a[0]))
        if nm == "qb_t":
            return Q
        if nm == "bool_t":
            return BO
        if nm == "get_op":
            n = I_.reify(st, a[1])
            return Some(T("opdef", S(self.sg.string(n))))
        if nm == "new" and "ExtensionOp" in d and is_t(x, "opdef"):
            return Ok(Adt("vp::Xop", "Xop", (x.a[1], Seq(self.items(I_, st, a[1])))))
        if nm == "signature" and isx(x):
            return T("xsig", x)
        if is_t(x, "xsig") and nm in ("deref", "clone", "into_owned"):
            return x
        if nm == "new" and len(a) == 2 and is_t(I_.reify(st, a[1]), "xsig"):
            op = I_.reify(st, a[1]).a[1]
            return Ok(T("fb", I(circ.nxt(st)), Seq(opsig(op)[0]), op))
        if nm == "new" and "UnpackTuple" in d:
            return T("unpacktuple", Seq(self.items(I_, st, a[0])))
        if nm == "new_endo" and "Poly" not in d and any(t.a[1] == "rowvar" for t in self.items(I_, st, a[0])):
            return Adt("vp::FT", "FT", (Seq(self.items(I_, st, a[0])),) * 2)
        if nm == "new_endo" and "FuncTypeBase" in d and not any(t.a[1] == "rowvar" for t in self.items(I_, st, a[0])):
            return Adt("vp::FSig", "FSig", (Seq(self.items(I_, st, a[0])),))
        if nm == "new" and "DFGBuilder" in d and x.k == "adt" and x.a[0] == "vp::FSig":
            return Ok(T("fb", I(circ.nxt(st)), x.a[2][0]))
        if nm in ("add_new_array", "add_array_unpack"):
            return getattr(self, "c_" + nm)(I_, st, ci, a)
        if nm == "single_linked_input":
            p = I_.reify(st, a[2])
            while p.k in ("adt", "t") and not is_c(p, "int"):
                p = p.a[2][0] if p.k == "adt" else p.a[1]
            return Some(T("target", I_.reify(st, a[1]), p))
        if nm == "get_parent":
            return Some(T("parent", I_.reify(st, a[1])))
        if nm == "new" and "InsertCut" in d:
            ts = Seq(self.items(I_, st, a[1]))
            I_.log(st, "vp::cut", [x, ts, I_.reify(st, a[2])], UNIT, ci, ci.where, a)
            return T("insertcut")
        if nm == "apply_hugr_mut":
            return Ok(UNIT)
        if nm == "hugr" and is_t(x, "fb"):
            return T("hugrof", x)
        if nm == "get_optype":
            return T("optype", I_.reify(st, a[1]))
        if nm == "dataflow_signature" and is_t(x, "optype"):
            return Some(T("nodesig", x.a[1]))
        if nm == "port_type" and is_t(x, "nodesig"):
            return self.port_type(I_, st, x.a[1], I_.reify(st, a[1]))
        if "core::Wire" in d and nm == "node":
            return T("wnode", x)
        if "core::Wire" in d and nm == "source":
            return T("wport", x)
        return DEFAULT

    def port_type(self, I_, st, n, p):
        while is_t(p) and not is_t(p, "wport") and len(p.a) == 2:
            p = p.a[1]
        w = p.a[1] if is_t(p, "wport") else None
        if w is None or not is_t(n, "wnode") or n.a[1] != w:
            raise Incomplete(f"type of a port {show(n)[:100]} {show(p)[:100]}")
        if is_t(w, "inw"):
            return Some(w.a[1].a[2].a[0][w.a[2].a[1]])
        op = w.a[1].a[1] if is_t(w, "wire") and is_t(w.a[1], "node") else None
        if op is None or not isx(op):
            raise Incomplete(f"type of {show(w)[:100]}")
        return Some(opsig(op)[1][w.a[2].a[1]])

    def kind(self, ci):
        for s in list(map(str, ci.args)) + [ci.def_, ci.full]:
            m = re.search(r"(?<![A-Za-z])(ValueArray|VArray|BorrowArray|BArray|Array)(?![A-Za-z])", s)
            if m:
                return KINDS[m.group(1)]
        raise Incomplete(f"array kind of {ci.full[:200]} {ci.args}")

    def items(self, I_, st, v):
        v = I_.reify(st, v)
        if isty(v):
            return (v,)
        if v.k == "adt" and v.a[0] == TERM:
            return (v,)
        if v.k == "seq":
            return v.a[0]
        if v.k == "iter":
            import models
            xs = I_.items(v)
            if xs is not None:
                return tuple(xs)
        raise Incomplete(f"sequence {show(v)[:200]}")


DECL = {}


def declared(cx, model, sg):
    """signatures of the temporary operations, from the builder closures of their extensions: name -> (param kinds, inputs, outputs)"""
    out = {}
    for k in cx.P.find(r"::TEMP_(UNPACK|BARRIER)_EXT::\{closure#0\}::\{closure#0\}$") or [k + "::{closure#0}" for k in cx.P.find(r"::TEMP_(UNPACK|BARRIER)_EXT::\{closure#0\}$")]:
        it, outs = cx.run(k, None, on_call=model)
        rs = [o for o in outs if o.kind == "ret"]
        if len(rs) != 1:
            raise Incomplete(f"{len(rs)} outcomes of {k}")
        for e in rs[0].events:
            if e.fn == "vp::add_op":
                n, p = sg.string(e.args[0]), e.args[1]
                if p.k != "adt" or p.a[0] != "vp::Poly":
                    raise Incomplete(f"signature of {n}: {show(p)[:200]}")
                kinds = [pkind(x) for x in p.a[2][0].a[0]]
                body = p.a[2][1]
                if n in out:
                    raise Bad(f"{n} is declared twice")
                out[n] = (kinds, tuple(body.a[2][0].a[0]), tuple(body.a[2][1].a[0]))
    return out


def pkind(x):
    s = show(x)
    for pat, k in (("list", "List"), ("List", "List"), ("nat", "BoundedNat"), ("Nat", "BoundedNat"), ("RuntimeType", "Runtime")):
        if pat in s:
            return k
    raise Incomplete(f"parameter {s[:200]}")


def opsig(op):
    """inputs and outputs of an operation: its declared signature at its arguments"""
    nm, args = xname(op), list(op.a[2][1].a[0])
    if nm not in DECL:
        raise Bad(f"operation {nm} is not declared")
    kinds, ins, outs = DECL[nm]
    if [a.a[1] if a.k == "adt" else "?" for a in args] != kinds:
        raise Bad(f"{nm} takes arguments {kinds}, is given {[show(a)[:40] for a in args]}")

    def sub(t):
        k, c = t.a[1], t.a[2]
        if k == "var":
            return args[c[0].a[1]].a[2][0]
        if k == "rowvar":
            raise Bad("row variable outside a row")
        if k == "tup":
            return ty("tup", *row(c))
        return ty(k, *[sub(x) if isty(x) else x for x in c])

    def row(ts):
        out = []
        for t in ts:
            if t.a[1] == "rowvar":
                out += [x.a[2][0] for x in args[t.a[2][0].a[1]].a[2][0].a[0]]
            else:
                out.append(sub(t))
        return tuple(out)
    return row(ins), row(outs)


class Ev:
    def __init__(self, o):
        """functions of the operations: what is stored in the operation-to-function maps in the end"""
        self.defs = {}
        for e in o.events:
            if e.fn.endswith("IndexMap::<K, V, S>::insert") and e.args[1].k == "adt" and e.args[1].a[1] == "OpHashWrapper":
                op, h = e.args[1].a[2][0], e.args[2]
                self.defs[op] = None
                if h.k == "adt" and h.a[1] == "Some" and is_t(h.a[2][0], "hugr"):
                    b, outs = h.a[2][0].a[1:3]
                    if not is_t(b, "fb") or b.a[3] != op:
                        raise Bad(f"a function with another signature is stored for {xname(op)}")
                    self.defs[op] = (b, outs)
        self.nodes = {}

    def wire(self, w, ins, b):
        if is_t(w, "inw"):
            if w.a[1] != b:
                raise Bad("a wire of another builder")
            return ins[w.a[2].a[1]]
        if is_t(w, "wire"):
            outs = self.node(w.a[1], ins, b)
            i = w.a[2].a[1]
            if i >= len(outs):
                raise Bad("an output that does not exist")
            return outs[i]
        raise Incomplete(f"wire {show(w)[:200]}")

    def node(self, n, ins, b):
        key = (n, tuple(ins))
        if key in self.nodes:
            return self.nodes[key]
        op, vs = n.a[1], [self.wire(w, ins, b) for w in n.a[2].a[0]]
        r = self.apply(op, vs)
        self.nodes[key] = r
        return r

    def need(self, v, t, what):
        if v[0] != t:
            raise Bad(f"{what} is given a {name(v[0])} instead of a {name(t)}")

    def apply(self, op, vs):
        if isx(op) and xname(op) != "RuntimeBarrier":
            if self.defs.get(op) is None:
                raise Bad(f"{xname(op)} has no function")
            b, outs = self.defs[op]
            want, res = opsig(op)
            if len(vs) != len(want):
                raise Bad(f"{xname(op)} takes {len(want)} inputs, is given {len(vs)}")
            for v, t in zip(vs, want):
                self.need(v, t, xname(op))
            if outs.k != "seq":
                raise Incomplete(f"outputs of the function of {xname(op)}: {show(outs)[:300]}")
            rs = [self.wire(w, vs, b) for w in outs.a[0]]
            if [r[0] for r in rs] != list(res):
                raise Bad(f"{xname(op)} announces {[name(t) for t in res]} but its function returns {[name(r[0]) for r in rs]}")
            return rs
        if is_t(op, "unpacktuple"):
            self.need(vs[0], tup(*op.a[1].a[0]), "unpack tuple")
            return list(vs[0][1])
        if is_t(op, "make_tuple"):
            return [(tup(*[v[0] for v in vs]), tuple(vs))]
        if is_t(op, "unpack_array"):
            t = ty(KINDS[op.a[1].a[1]], op.a[3], op.a[2])
            self.need(vs[0], t, "array unpacking")
            return list(vs[0][1])
        if is_t(op, "new_array"):
            for v in vs:
                self.need(v, op.a[2], "array construction")
            return [(ty(KINDS[op.a[1].a[1]], I(len(vs)), op.a[2]), tuple(vs))]
        if is_t(op, "expect_sum"):
            t = op.a[2]
            self.need(vs[0], t, "option unwrap")
            if t.a[1] != "opt" or op.a[1] != I(1):
                raise Bad("expects another variant")
            return list(vs[0][1])
        if is_t(op, "make_sum"):
            rows = [self.row(r) for r in op.a[2].a[0]]
            tag = op.a[1].a[1]
            if [v[0] for v in vs] != list(rows[tag]):
                raise Bad("sum fields have another type")
            if len(rows) == 2 and rows[0] == () and len(rows[1]) == 1 and tag == 1:
                return [(opt(rows[1][0]), tuple(vs))]
            raise Bad(f"builds variant {tag} of a sum with rows {[len(r) for r in rows]}")
        if isx(op) and xname(op) == "RuntimeBarrier":
            n = op.a[2][1].a[0]
            if len(n) != 1 or n[0].a[1] != "BoundedNat":
                raise Bad("arguments of the runtime barrier")
            self.need(vs[0], arr(n[0].a[2][0].a[1], Q), "the runtime barrier")
            return [(vs[0][0], tuple((c[0], ("barrier", c, vs[0][1])) for c in vs[0][1]))]
        raise Incomplete(f"operation {show(op)[:200]}")


    def row(self, r):
        if r.k == "seq":
            return tuple(r.a[0])
        if isty(r):
            return (r,)
        if circ.row_len(r) == 0:
            return ()
        raise Incomplete(f"row {show(r)[:200]}")


def universe(el, other, thorough):
    leaf = [el, other, opt(el), opt(other)]
    d1 = [tup()] + [tup(a) for a in leaf] + [tup(a, b) for a in leaf for b in leaf[:3]] + [tup(other, el, el), tup(el, opt(el), other)]
    d1 += [arr(n, a, k) for k in ("array", "varray", "barray") for a in leaf for n in (0, 1, 2)] + [arr(3, el), arr(3, opt(el), "barray")]
    pick = [tup(), tup(el, other), tup(other, el, el), tup(other), tup(el, opt(el)), arr(0, el), arr(2, el), arr(2, el, "barray"), arr(2, other, "varray"), arr(2, opt(el)),
            arr(1, opt(el), "barray"), opt(arr(2, el)), opt(tup(el)), opt(opt(el))]
    d2 = [arr(n, a, k) for k in ("array", "varray", "barray") for a in pick for n in (0, 2)]
    d2 += [tup(a, b) for a in pick for b in leaf[:3] + pick[:4]] + [tup(b, a) for a in pick for b in leaf[:3]]
    d3 = [arr(2, tup(arr(2, tup(other, el), k), el, arr(1, other)), k2) for k in ("array", "barray", "varray") for k2 in ("array", "barray")]
    d3 += [tup(tup(arr(2, arr(2, el, "barray")), other), tup(other, opt(el)), el), arr(2, arr(2, arr(2, opt(el), "barray"), "array"), "barray")]
    if thorough:
        d3 += [arr(2, a, k) for a in d2 for k in ("array", "barray")] + [tup(a, el, b) for a in pick for b in d2[::3]]
    out = []
    for t in leaf + d1 + d2 + d3:
        if t not in out:
            out.append(t)
    return out


def analyzer(el):
    return Adt(TU, "TypeUnpacker", (el, T("emptymap")))


def run(cx):
    cx.assume("A value of type Option inside an array holds an element (documented; otherwise there is a run-time error).")
    sg = sigm.Sig(cx)
    model = Types(sg)
    new = cx.key(r"^" + UCB.replace("::", "::") + r"::new$")
    tun = cx.key(r"^" + TU + r"::new$")
    fns = {f: cx.key(r"^" + UCB + "::" + f + "(::<.*>)?$") for f in ("unpack_container", "repack_container", "unpack_row", "repack_row", "unpack_tuple", "repack_tuple")}
    tys = {f: cx.key(r"^" + TU + "::" + f + "$") for f in ("unpack_type", "num_unpacked_wires", "contains_element_type")}

    def single(key, args, setup=None):
        it, outs = cx.run(key, args, setup=setup, on_call=model, max_visits=5000, max_steps=4000000, loop_decisions=400, max_depth=200, recursion=60)
        if len(outs) != 1:
            raise Incomplete(f"{len(outs)} outcomes on concrete types")
        o = outs[0]
        if o.kind == "panic":
            raise Bad("panics")
        if o.kind != "ret":
            raise Incomplete(f"{o.kind} {o.st.cutreason}")
        return it, o

    def okv(it, o, v=None):
        v = it.reify(o.st, o.value) if v is None else v
        if v.k == "adt" and v.a[1] == "Err":
            raise Bad("fails")
        return it.reify(o.st, it.content(o.st, v.a[2][0])) if v.k == "adt" and v.a[1] in ("Ok",) else v
    DECL.clear()
    DECL.update(declared(cx, model, sg))
    n = wires = 0
    for el, other in ((Q, BO), (BO, ty("int"))):
        it, o = single(tun, [el])
        an = it.reify(o.st, o.value)
        it, o = single(new, [an])
        factory = it.reify(o.st, o.value)
        us = universe(el, other, cx.thorough and el is Q)
        if el is not Q:
            us = us[::4]
        for t in us:
            lb = name(t) + ("" if el is Q else f" for {name(el)}")
            n += 1

            def go():
                v = value(t)
                want = flatten(v, el)
                try:
                    it, o = single(tys["unpack_type"], [an, t])
                    r = it.reify(o.st, o.value)
                    row = None if r.a[1] == "None" else [it.reify(o.st, y) for y in it.reify(o.st, r.a[2][0]).a[0]]
                    exp = [w[0] for w in want] if contains(t, el) else None
                    cx.check("type analysis", lb, row == exp, f"unpacking {lb}: the analysis announces {row and [name(x) for x in row]}, the elements are {exp and [name(x) for x in exp]}")
                    for f, w in (("num_unpacked_wires", I(len(want))), ("contains_element_type", B(contains(t, el)))):
                        it, o = single(tys[f], [an, t])
                        cx.check("type analysis", f"{f}({lb})", it.reify(o.st, o.value) == w, f"{f}({lb}) is {show(it.reify(o.st, o.value))}, expected {show(w)}")
                    fb = T("fb", I(0), Seq((t,)))
                    it, o = single(fns["unpack_container"], [factory, fb, t, T("inw", fb, I(0))])
                    ws = okv(it, o)
                    ev = Ev(o)
                    got = [ev.wire(it.reify(o.st, w), [v], fb) for w in it.items(ws)]
                    cx.check("unpacking", lb, got == want, f"unpacking a value of type {lb} yields {[str(g[1])[:60] + ':' + name(g[0]) for g in got][:8]}, expected {[str(g[1])[:60] + ':' + name(g[0]) for g in want][:8]}")
                    fb = T("fb", I(1), Seq(tuple(w[0] for w in want)))
                    it, o = single(fns["repack_container"], [factory, fb, t, Seq(tuple(T("inw", fb, I(i)) for i in range(len(want))))])
                    got = Ev(o).wire(okv(it, o), want, fb)
                    cx.check("repacking", lb, got == v, f"repacking the elements of a value of type {lb} does not rebuild the value")
                except Bad as e:
                    cx.fail("unpacking", lb, f"type {lb}: {e}")
            cx.guard("unpacking", lb, go)
    cx.floor("coverage", "container types", n, 200)
    # whole rows: several wires, the same operation used several times, kinds side by side
    it, o = single(tun, [Q])
    an = it.reify(o.st, o.value)
    it, o = single(new, [an])
    factory = it.reify(o.st, o.value)
    rows = ROWS + ([[a, b, a] for a in universe(Q, BO, False)[::7] for b in universe(Q, BO, False)[::11]] if cx.thorough else [])
    for r in rows:
        lb = "[" + ", ".join(map(name, r)) + "]"

        def go():
            vs = [value(t, f"{i}") for i, t in enumerate(r)]
            want = [y for v in vs for y in flatten(v, Q)]
            wt = tuple(w[0] for w in want)
            rt = tup(*r)
            try:
                fb = T("fb", I(0), Seq(tuple(r)), T("top"))
                it, o = single(fns["unpack_row"], [factory, fb, Seq(tuple(r)), Seq(tuple(T("inw", fb, I(i)) for i in range(len(r))))])
                ws = okv(it, o)
                ev = Ev(o)
                got = [ev.wire(it.reify(o.st, w), vs, fb) for w in it.items(ws)]
                cx.check("unpacking rows", lb, got == want, f"unpacking the row {lb} yields {[name(g[0]) for g in got]} in another order or number than {[name(g[0]) for g in want]}")
                fb = T("fb", I(0), Seq(wt), T("top"))
                it, o = single(fns["repack_row"], [factory, fb, Seq(tuple(r)), Seq(tuple(T("inw", fb, I(i)) for i in range(len(want))))])
                ev = Ev(o)
                got = [ev.wire(it.reify(o.st, w), want, fb) for w in it.items(okv(it, o))]
                cx.check("repacking rows", lb, got == vs, f"repacking the elements of the row {lb} does not rebuild it")
                # as a tuple
                v = (rt, tuple(vs))
                fb = T("fb", I(0), Seq((rt,)), T("top"))
                it, o = single(fns["unpack_tuple"], [factory, fb, T("inw", fb, I(0)), Seq(tuple(r))])
                ev = Ev(o)
                got = [ev.wire(it.reify(o.st, w), [v], fb) for w in it.items(okv(it, o))]
                cx.check("unpacking tuples", lb, got == flatten(v, Q), f"unpacking a tuple {lb} yields other elements")
                fv = flatten(v, Q)
                fb = T("fb", I(0), Seq(tuple(w[0] for w in fv)), T("top"))
                it, o = single(fns["repack_tuple"], [factory, fb, Seq(tuple(T("inw", fb, I(i)) for i in range(len(fv)))), Seq(tuple(r))])
                cx.check("repacking tuples", lb, Ev(o).wire(okv(it, o), fv, fb) == v, f"repacking the elements of a tuple {lb} does not rebuild it")
            except Bad as e:
                cx.fail("unpacking rows", lb, f"row {lb}: {e}")
        cx.guard("unpacking rows", lb, go)
    registration(cx, model, single, okv)
    barrier(cx, model, single, okv, rows)


ROWS = [[Q], [BO], [Q, BO, Q], [tup(Q, BO), Q], [arr(2, Q), Q, arr(2, Q)], [arr(2, Q), arr(2, Q, "barray")], [arr(2, opt(Q)), Q, opt(Q)], [arr(0, Q), Q], [tup(Q, opt(Q)), arr(1, opt(Q))],
        [arr(2, tup(BO, Q)), BO, tup(arr(2, Q, "barray"), Q)], [arr(3, Q), arr(2, Q), arr(3, Q)], [tup(Q, Q), tup(Q, Q, Q), tup(Q, Q)], [opt(Q)], [tup(opt(Q))],
        [arr(2, arr(2, Q)), arr(2, Q), tup(arr(2, Q))], [arr(2, BO), Q, arr(2, BO, "barray")], [arr(2, Q, "varray"), arr(2, Q, "barray"), arr(2, Q)], [tup(), Q, tup(BO)],
        [arr(2, arr(0, Q)), Q], [tup(BO, Q, opt(Q), arr(1, Q)), Q], [arr(1, Q)], [arr(2, Q)], [arr(4, Q)], [arr(2, Q, "barray")], [arr(2, opt(Q))], [BO, BO], []]


def registration(cx, model, single, okv):
    """every operation with a function is replaced by a call of that very function"""
    rule = "registration"
    mk_ = cx.key(r"^" + OFM + "::new$")
    ins = cx.key(r"^" + OFM + r"::insert_with::<O, F>$")
    reg = cx.key(r"^" + OFM + r"::register_operation_replacements::<impl HugrMut<Node = Node>>$")

    def go():
        it, o = single(mk_, [])
        m0 = it.reify(o.st, o.value)
        ops = [Adt("vp::Xop", "Xop", (S("array_unpack"), Seq(tuple(arg_of(x) for x in (I(k), t)) + (Adt(TERM, "List", (Seq(tuple(arg_of(t) for _ in range(k))),)),)))) for k, t in ((1, Q), (2, Q), (2, BO))]
        store = m0.a[2][0].a[2][0]
        W = "tket::passes::unpack_container::op_function_map::OpHashWrapper"
        hugrs = [T("fn", I(i)) for i in range(len(ops))]
        full = Adt(m0.a[0], m0.a[1], (Adt("cell", "cell", (mk("map", store.a[0], tuple((Adt(W, "OpHashWrapper", (p,)), Some(h)) for p, h in zip(ops, hugrs))),)),))
        it, o = single(reg, [full, T("hugr"), T("lowerer")])
        inserted = {e.res: e.args[2] for e in o.events if e.fn.endswith("::insert_hugr")}
        got = {}
        for e in o.events:
            if e.fn.endswith("::replace_op"):
                t = e.args[2]
                src = t.a[2][0] if t.k == "adt" and t.a[1] == "Call" else T("none")
                h = [inserted[x] for x in inserted if show(src) == show(x) + ".inserted_entrypoint"]
                got[e.args[1]] = h[0] if h else None
        cx.check(rule, "every operation is replaced by its function", got == dict(zip(ops, hugrs)), f"replacements: {[(show(k)[:80], show(v) if v else None) for k, v in got.items()]}")
        for e in o.events:
            if e.fn.endswith("::insert_hugr"):
                cx.check(rule, f"function inserted into the module: {show(e.args[2])}", "module_root" in show(e.args[1]), f"inserted under {show(e.args[1])[:100]}")
        # one function per operation, for operations that differ in their arguments only
        for i, p in enumerate(ops):
            others = mk("map", store.a[0], tuple((Adt(W, "OpHashWrapper", (q,)), Some(T("fn", I(j)))) for j, q in enumerate(ops) if j != i))
            it, o = single(ins, [Adt(m0.a[0], m0.a[1], (Adt("cell", "cell", (others,)),)), p, T("margs"), T("body")])
            last = [e for e in o.events if e.fn.endswith("IndexMap::<K, V, S>::insert")][-1:]
            ok = bool(last) and last[0].args[1].a[2][0] == p and is_t(last[0].args[2].a[2][0] if last[0].args[2].a[2] else T("x"), "hugr") and last[0].args[2].a[2][0].a[1].a[3] == p
            cx.check(rule, f"new function for {show(p)[:80]}", ok, "no function with the operation's signature is stored for the operation")
    cx.guard(rule, "registration", go)


def barrier(cx, model, single, okv, rows):
    """the circuit put after a barrier returns every value to its wire, with each qubit through the runtime barrier once, all in one"""
    BI = r"tket_qsystem::extension::qsystem::barrier::barrier_inserter::BarrierInserter"
    new = cx.key(r"^" + BI + "::new$")
    pack = cx.key(r"^" + BI + "::build_packing_hugr$")
    ins = cx.key(r"^" + BI + r"::insert_runtime_barrier::<impl HugrMut<Node = Node>>$")
    rule = "runtime barrier"

    def through(v, q, bar):
        t, c = v
        if t == q:
            return bar[v]
        if not contains(t, q):
            return v
        if t.a[1] != "tup" and t.a[2][1] == opt(q):
            return (t, tuple((x[0], (bar[x[1][0]],)) for x in c))
        return (t, tuple(through(x, q, bar) for x in c))

    def result(it, o, h, vs):
        """values a circuit given to the cut computes from the values on the wires"""
        h = it.reify(o.st, h)
        if h.k == "adt" and h.a[1] == "Ok":
            h = h.a[2][0]
        if not is_t(h, "hugr"):
            raise Incomplete(f"circuit {show(h)[:200]}")
        ev = Ev(o)
        ins_ = [t for t in h.a[1].a[2].a[0]]
        if ins_ != [v[0] for v in vs]:
            raise Bad("the circuit has other inputs")
        return [ev.wire(w, vs, h.a[1]) for w in h.a[2].a[0]]
    for r in rows:
        lb = "[" + ", ".join(map(name, r)) + "]"

        def go():
            try:
                it, o = single(new, [])
                bi = it.reify(o.st, o.value)
                bar_op = Adt("hugr_core::extension::prelude::Barrier", "Barrier", (Seq(tuple(r)),))
                it, o = single(ins, [bi, T("hugr"), T("barnode"), bar_op])
                okv(it, o)
                cuts = [e for e in o.events if e.fn == "vp::cut"]
                vs = [value(t, f"{i}") for i, t in enumerate(r)]
                idx = [i for i, t in enumerate(r) if contains(t, Q)]
                if not idx:
                    cx.check(rule, lb, not cuts, "a runtime barrier is inserted without qubits")
                    return
                cx.check(rule, f"one barrier {lb}", len(cuts) == 1, f"{len(cuts)} circuits inserted")
                if len(cuts) != 1:
                    return
                par, tgts, h = cuts[0].args
                want = [T("target", T("barnode"), I(i)) for i in idx]
                cx.check(rule, f"wires {lb}", list(it.items(tgts)) == want, f"the circuit is put on the wires {[show(t) for t in it.items(tgts)]}, the containers with qubits are on {[show(t) for t in want]}")
                vin = [vs[i] for i in idx]
                qs = [y for v in vin for y in flatten(v, Q) if y[0] == Q]
                bar = {q: (Q, ("barrier", q, tuple(qs))) for q in qs}
                got = result(it, o, h, vin)
                cx.check(rule, f"values {lb}", got == [through(v, Q, bar) for v in vin],
                         f"barrier over {lb}: a qubit misses the runtime barrier, passes it twice, is not with the others or comes back in another place: {str(got)[:600]}")
            except Bad as e:
                cx.fail(rule, lb, f"row {lb}: {e}")
        cx.guard(rule, lb, go)
