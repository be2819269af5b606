"""Model of type-replacement passes: which replacements are registered, in which object, before it is run; and evaluation of replacement
circuits built with the hugr builder on values (booleans, futures with an outcome, arrays)."""
from interp import mk, I, B, S, T, Some, NONE, Adt, Seq, Ok, is_t, is_c, UNIT, Ret, Call, DEFAULT, Incomplete, show
import circ

REG = {"replace_op": "op", "replace_op_with": "op", "replace_parametrized_op": "pop", "replace_parametrized_op_with": "pop", "replace_type": "type",
       "replace_parametrized_type": "ptype", "replace_consts": "const", "replace_consts_parametrized": "pconst", "set_replace_type": "type",
       "set_replace_op": "op"}


def port(x):
    while is_t(x) and len(x.a) == 2 and not is_c(x, "int"):
        x = x.a[1]
    return x


class RT:
    """on_call hook in front of another one"""

    def __init__(self, inner=None, calls=None):
        self.inner = inner or circ.Builder()
        self.calls = calls      # (kind, registered args) -> [(label, closure, args)]

    def __call__(self, I_, st, ci, a):
        d = ci.def_
        nm = d.rsplit("::", 1)[1]
        if d == "core::mem::take":
            v = I_.reify(st, a[0])
            if is_t(v, "hugrmut"):
                return T("taken", v.a[1], I(circ.nxt(st)))
        if d.startswith("hugr_core::"):
            if nm == "hugr_mut" and "::builder::" in d:
                return T("hugrmut", I_.reify(st, a[0]))
            if nm == "new" and "dataflow::DFGBuilder" in d:
                return Ok(T("dfg", I_.reify(st, a[0]), I(circ.nxt(st))))
            if nm == "get_io":
                h = I_.reify(st, I_.content(st, a[0]))
                if is_t(h, "taken"):
                    return Some(Seq([T("io", h, I(0)), T("io", h, I(1))]))
            if nm == "connect":
                h = I_.reify(st, I_.content(st, a[0]))
                if is_t(h, "taken"):
                    xs = [h] + [port(I_.reify(st, x)) for x in a[1:]]
                    I_.log(st, "circ::connect", xs, UNIT, ci, ci.where, xs)
                    return UNIT
            if nm == "add_hugr_with_wires":
                h, b = I_.reify(st, a[1]), I_.reify(st, a[0])

                def k(s, ins):
                    t = T("node", T("subhugr", h), ins, I(circ.nxt(s)))
                    I_.log(s, "circ::node", [t.a[1], ins, b], t, ci, ci.where, [])
                    return Ret(Ok(t))
                return circ.with_inputs(I_, st, a[2], k)
            if nm in ("as_nat", "as_runtime") and "type_param" in d:
                x = I_.content(st, a[0])
                if x.k == "adt" and x.a[0].endswith("Term"):
                    ok = x.a[1] == {"as_nat": "BoundedNat", "as_runtime": "Runtime"}[nm]
                    return Some(x.a[2][0]) if ok else NONE
            if nm == "copyable":
                x = I_.reify(st, I_.content(st, a[0]))
                if is_t(x, "lintype") or is_t(x, "copytype"):
                    return B(is_t(x, "copytype"))
        full = d + " " + " ".join(map(str, ci.args))
        if "ReplaceTypes" in d or "ReplaceTypes" in full and nm in ("default", "run", "clone") or "Linearizer" in d:
            if nm == "default" and ("ReplaceTypes as" in d or "ReplaceTypes" in full):
                t = T("rt", I(circ.nxt(st)))
                I_.log(st, "rt::new", [t], t, ci, ci.where, [t])
                return t
            x = I_.content(st, a[0]) if a else None
            x = I_.reify(st, x) if x is not None else None
            if is_t(x, "rt") or is_t(x, "linof"):
                if nm == "clone":
                    t = T("rt", I(circ.nxt(st)))
                    I_.log(st, "rt::clone", [x, t], t, ci, ci.where, [x, t])
                    return t
                if nm == "linearizer":
                    return T("linof", x)
                if nm in REG:
                    args = [I_.reify(st, v) for v in a[1:]]
                    I_.log(st, "rt::" + REG[nm], [x] + args, UNIT, ci, ci.where, a)
                    todo = self.calls(REG[nm], args) if self.calls else []
                    return self.chain(x, args[0], ci, list(todo), UNIT)
                if nm == "register_simple":
                    I_.log(st, "rt::lin", [x.a[1]] + [I_.reify(st, v) for v in a[1:]], UNIT, ci, ci.where, a)
                    return Ok(UNIT)
                if nm == "register_callback":
                    I_.log(st, "rt::lincb", [x.a[1]] + [I_.reify(st, v) for v in a[1:]], UNIT, ci, ci.where, a)
                    return UNIT
                if nm == "run":
                    h = I_.reify(st, a[1])
                    I_.log(st, "rt::run", [x, h], UNIT, ci, ci.where, [x, h])
                    return self.inner(I_, st, ci, a)
                if nm == "regions" or nm == "get_linearizer":
                    return DEFAULT
        return self.inner(I_, st, ci, a)

    def chain(self, x, what, ci, todo, res):
        if not todo:
            return Ret(res)
        label, f, args = todo[0]

        def k(I2, s2, v):
            v = I2.reify(s2, v)
            I2.log(s2, "rt::res", [x, what, S(label), v], v, ci, ci.where, [])
            return self.chain(x, what, ci, todo[1:], res)
        return Call(f, args, k)


class Reg:
    """what is registered in each ReplaceTypes object on one path"""

    def __init__(self, o):
        self.of = {}
        self.runs = []
        self.res = []
        for e in o.events:
            if not e.fn.startswith("rt::"):
                continue
            k = e.fn[4:]
            if k == "new":
                self.of[e.args[0]] = []
            elif k == "clone":
                self.of[e.args[1]] = list(self.of.get(e.args[0], []))
            elif k == "res":
                self.res.append(e.args)
            elif k == "run":
                self.runs.append((e.args[0], e.args[1], list(self.of.get(e.args[0], []))))
            else:
                self.of.setdefault(e.args[0], []).append((k, e.args[1:]))


# ------------------------------------------------------------ evaluation of replacement circuits
class Wrong(Exception):
    """the circuit does not do what is required on some input"""


def hugr_of(t):
    """the circuit of a node template"""
    while t.k == "adt" and t.a[1] in ("CompoundOp", "Box", "Some") and t.a[2]:
        t = t.a[2][0]
    if is_t(t, "new") and len(t.a) == 2:
        t = t.a[1]
    return t


class Eval:
    """values: booleans ("sum", b, ()), lowered opaque booleans ("sum", 0, (boolean,)) or ("sum", 1, (future,)), futures ("fut", name),
    qubits ("q", name), integers, options ("sum", 0|1, ..), arrays ("arr", (elements))"""

    def __init__(self, o, outcome, ops=None):
        self.o, self.outcome, self.ops = o, outcome, ops
        self.trace = []
        self.used = {}
        self.made = 0
        self.nodes = [e for e in o.events if e.fn.startswith("circ::node") and len(e.args) > 2]

    def use(self, tok):
        if self.used.get(tok):
            raise Wrong(f"{tok[1]} is used twice")
        self.used[tok] = 1

    def new(self, tok):
        self.used[tok] = 0
        return tok

    def run(self, h, inputs):
        fr = {"in": list(inputs), "cases": {}, "memo": {}, "exec": set()}
        if is_t(h, "hugr"):
            b, outs = h.a[1], h.a[2]
            fr["exec"].add(b)
            r = self.row(fr, outs)
        elif is_t(h, "taken"):
            b = h.a[1]
            fr["exec"].add(b)
            so = [e for e in self.o.events if e.fn == "circ::set_outputs" and e.args[0] == b]
            cn = [e for e in self.o.events if e.fn == "circ::connect" and e.args[0] == h]
            if so:
                r = self.row(fr, so[-1].args[1])
            elif cn:
                ports = {}
                for e in cn:
                    _, s, sp, d, dp = e.args
                    if not (is_t(s, "io") and s.a[2].a[1] == 0 and is_t(d, "io") and d.a[2].a[1] == 1):
                        raise Incomplete("connection between unknown nodes")
                    ports[dp.a[1]] = fr["in"][sp.a[1]]
                if sorted(ports) != list(range(len(ports))):
                    raise Wrong(f"output ports {sorted(ports)} are connected")
                r = [ports[i] for i in range(len(ports))]
            else:
                raise Wrong("outputs of a circuit are not connected")
        else:
            raise Incomplete(f"replacement is not a circuit: {show(h)[:200]}")
        while True:
            n = len(fr["memo"])
            for e in self.nodes:
                b = e.args[2]
                while is_t(b, "after"):
                    b = b.a[2]
                if b in fr["exec"]:
                    self.node(fr, e.res)
            if n == len(fr["memo"]):
                return r

    def row(self, fr, outs):
        if outs.k == "seq":
            return [x for w in outs.a[0] for x in self.wires(fr, w)]
        return self.wires(fr, outs)

    def wires(self, fr, w):
        if is_t(w, "outputs"):
            return list(self.node(fr, w.a[1]))
        if is_t(w, "inputs"):
            b = w.a[1]
            return list(fr["cases"][b]) if is_t(b, "case") else list(fr["in"])
        return [self.wire(fr, w)]

    def wire(self, fr, w):
        if w.k == "tup" and len(w.a[0]) == 2:
            return self.wire(fr, w.a[0][1])      # (type, wire)
        if is_t(w, "inw"):
            i = w.a[1].a[1]
            if i >= len(fr["in"]):
                raise Wrong(f"input {i} does not exist")
            return fr["in"][i]
        if is_t(w, "cin"):
            if w.a[1] not in fr["cases"]:
                raise Wrong("a value of one case is used in another")
            v = fr["cases"][w.a[1]]
            if w.a[2].a[1] >= len(v):
                raise Wrong("a case has fewer inputs")
            return v[w.a[2].a[1]]
        if is_t(w, "wire"):
            vs = self.node(fr, w.a[1])
            i = w.a[2].a[1]
            if i >= len(vs):
                raise Wrong(f"output {i} of {show(w.a[1])[:100]} does not exist")
            return vs[i]
        if is_t(w, "cst"):
            return self.const(w.a[1])
        raise Incomplete(f"wire {show(w)[:200]}")

    def const(self, c):
        c = unwrapped(c)
        s = show(c)
        if is_t(c) and len(c.a) > 1 and "new_u" in c.a[0]:
            n = [x for x in c.a if not isinstance(x, str) and is_c(x, "int")]
            return n[-1].a[1]
        raise Incomplete(f"constant {s[:200]}")

    def node(self, fr, h):
        if h in fr["memo"]:
            v = fr["memo"][h]
            if v is None:
                raise Wrong("cyclic circuit")
            return v
        fr["memo"][h] = None
        v = self.node1(fr, h)
        fr["memo"][h] = v
        return v

    def node1(self, fr, h):
        if is_t(h, "condnode"):
            c = h.a[1]
            v = self.wire(fr, c.a[2])
            if not (isinstance(v, tuple) and v[0] == "sum"):
                raise Wrong(f"branch on {v}")
            oth = self.row(fr, c.a[3])
            if v[1] >= len(h.a) - 2:
                raise Wrong(f"no case for tag {v[1]}")
            b = T("case", c, I(v[1]))
            fr["cases"][b] = list(v[2]) + oth
            fr["exec"].add(b)
            return self.row(fr, h.a[2 + v[1]])
        if not is_t(h, "node"):
            raise Incomplete(f"node {show(h)[:200]}")
        vs = self.row(fr, h.a[2])
        return self.apply(h.a[1], vs)

    def apply(self, op, vs):
        if self.ops:
            r = self.ops(self, op, vs)
            if r is not None:
                return r
        op = unwrapped(op, "to_extension_op")
        if op.k == "adt":
            ty, var = op.a[0].rsplit("::", 1)[1], op.a[1]
            if ty == "LogicOp":
                b = [self.bool(v) for v in vs]
                f = {"And": lambda: b[0] & b[1], "Or": lambda: b[0] | b[1], "Xor": lambda: b[0] ^ b[1], "Eq": lambda: int(b[0] == b[1]), "Not": lambda: 1 - b[0]}
                if var not in f or len(b) != (1 if var == "Not" else 2):
                    raise Wrong(f"{var} of {len(b)} values")
                return [("sum", f[var](), ())]
            if ty == "FutureOp":
                var = op.a[2][0].a[1]
                if len(vs) != 1 or vs[0][0] != "fut":
                    raise Wrong(f"{var} of {vs}")
                self.use(vs[0])
                self.trace.append((var, vs[0][1]))
                if var == "Read":
                    return [self.outcome[vs[0][1]]]
                if var == "Free":
                    return []
                if var == "Dup":
                    n = vs[0][1]
                    self.outcome[n + "'"] = self.outcome[n + "''"] = self.outcome[n]
                    return [self.new(("fut", n + "'")), self.new(("fut", n + "''"))]
            if ty == "QSystemOp" and var.startswith("LazyMeasure"):
                if len(vs) != 1 or vs[0][0] != "q":
                    raise Wrong(f"{var} of {vs}")
                self.use(vs[0])
                f = self.new(("fut", "m" + str(self.made)))
                self.made += 1
                self.trace.append((var, vs[0][1], f[1]))
                return [f] if var != "LazyMeasureReset" else [self.new(("q", vs[0][1] + "'")), f]
            if ty == "Tag":
                return [("sum", op.a[2][0].a[1], tuple(vs))]
        if is_t(op) and op.a[0].endswith("Tag::new"):
            if not is_c(op.a[1], "int"):
                raise Incomplete(f"tag {show(op)[:100]}")
            return [("sum", op.a[1].a[1], tuple(vs))]
        if is_t(op, "subhugr"):
            return self.run(op.a[1], vs)
        raise Incomplete(f"operation {op!r:.300} in a replacement")

    def bool(self, v):
        if isinstance(v, tuple) and v[0] == "sum" and v[2] == () and v[1] in (0, 1):
            return v[1]
        raise Wrong(f"{v} is used as a boolean")


def op_in(t):
    """the operation inside to_extension_op(..).unwrap()"""
    while is_t(t):
        xs = [x for x in t.a[1:] if not isinstance(x, str)]
        if not xs:
            return None
        t = xs[0]
    return t if t.k == "adt" else None


def unwrapped(t, *more):
    while is_t(t) and len(t.a) > 1 and (t.a[0] in ("ok", "some", "payload", "unwrap", "field") or t.a[0].endswith("::unwrap") or t.a[0].startswith("into:")
                                        or any(t.a[0].endswith(m) for m in more)):
        t = [x for x in t.a[1:] if not isinstance(x, str)][0]
    return t
