"""C42: importing a pytket circuit is executed abstractly, as one run (set up, every command, outputs), on families of concrete circuits and
signatures.  The graph it builds is evaluated: every operation has to act on the values its registers hold at that point, and every output has to
be the value of the register it belongs to."""
import random
from interp import ref, V, mk, I, B, S, F, T, Adt, Tup, Seq, Some, NONE, Ok, Err, is_c, is_t, show, Ret, Call, DEFAULT, UNIT, Incomplete, mk_fn_key
import hg, models
from hg import Gr, N, node, inp, outp, ty, WIRE
from region import opv
from cmds import Cmds, SIG

CTX = "tket::serialize::pytket::decoder::PytketDecoderContext::<'_>::"
CFG = "tket::serialize::pytket::config::decoder_config::PytketDecoderConfig"
Q, BIT, TBIT, FL, ROT = ty("qubit"), ty("bool", True), ty("tketbool", True), ty("float", True), ty("rotation", True)
QQ, BB, QB, JUNK = ty("qq"), ty("bb", True), ty("qb"), ty("junk", True)
COUNTS = {Q: (1, 0, 0), BIT: (0, 1, 0), TBIT: (0, 1, 0), FL: (0, 0, 1), ROT: (0, 0, 1), QQ: (2, 0, 0), BB: (0, 2, 0), QB: (1, 1, 0)}
RC = "tket::serialize::pytket::extension::RegisterCount"
PP = "tket::serialize::pytket::decoder::param::parser::PytketParam"
PT = "tket::serialize::pytket::decoder::param::ParameterType"
TJ = "tket_json_rs::"
# operations of the commands: name -> input types, output types, pytket arguments (bits read, bits written)
OPS = {"g1": ([Q], [Q]), "g2": ([Q, Q], [Q, Q]), "r1": ([Q, ROT], [Q]), "f1": ([Q, FL], [Q]), "r2": ([Q, Q, ROT, FL], [Q, Q]), "measure": ([Q], [Q, BIT]), "tmeasure": ([Q], [Q, TBIT]),
       "not": ([BIT], [BIT]), "tand": ([TBIT, TBIT], [TBIT]), "and": ([BIT, BIT], [BIT]), "set": ([], [TBIT]), "cond": ([BIT, Q], [Q]), "mixed": ([Q, TBIT, ROT], [Q, BIT]),
       "pair": ([QQ], [QQ]), "split": ([QQ], [Q, Q]), "join": ([Q, Q], [QQ]), "bsplit": ([BB], [BIT, BIT]), "bjoin": ([BIT, TBIT], [BB]), "both": ([QB], [QB]), "bothjoin": ([Q, BIT], [QB])}
BITS = {"measure": (0, 1), "tmeasure": (0, 1), "not": (1, 1), "tand": (2, 1), "and": (2, 1), "set": (0, 1), "cond": (1, 0), "mixed": (1, 1), "bsplit": (2, 2), "bjoin": (2, 2), "both": (1, 1), "bothjoin": (1, 1)}


def reg(name):
    return Adt(TJ + "register::ElementId", "ElementId", (S(name[0]), Seq([I(int(name[1:]))])))


def unit(kind, name):
    return Adt(TJ + "register::" + kind, kind, (reg(name),))


def wires_of(I_, st, v, k):
    it = models.as_iter(I_, st, v)
    return models.drain_all(I_, st, it, lambda s, xs: k(s, [I_.reify(s, x) for x in xs]))


class Import(Cmds):
    def __init__(self, cx, g, spec):
        super().__init__(cx)
        self.g, self.spec = g, spec

    def sig_of(self, op):
        if op.k == "adt" and op.a[0] == "vp::Op":
            return OPS[op.a[1]] if op.a[1] in OPS else None
        s = show(op)
        if is_t(op, "opq"):
            return [Q] * op.a[2].a[1] + [BIT] * op.a[3].a[1] + [ROT] * op.a[4].a[1], [Q] * op.a[2].a[1] + [BIT] * op.a[3].a[1]
        for x, r in (("QAlloc", ([], [Q])), ("QFree", ([Q], [])), ("to_halfturns", ([ROT], [FL])), ("from_halfturns_unchecked", ([FL], [ROT])), ("fmul", ([FL, FL], [FL])),
                     ("fdiv", ([FL, FL], [FL])), ("fadd", ([FL, FL], [FL])), ("symbolic_constant_op", ([], [ROT]))):
            if x in s:
                return r
        return None

    def unop(self, op):
        while op.k == "adt" and op.a[1] in ("ExtensionOp", "OpType") and len(op.a[2]) == 1:
            op = op.a[2][0]
        return op

    def new(self, st):
        old = self.gr(st)
        g = super().new(st)
        g.inn, g.out = old.inn, old.out
        return g

    def addn(self, st, op, ins, outs):
        g = self.new(st)
        return g, g.add(op, ins, outs, g.entry)

    def __call__(self, I_, st, ci, a):
        d, nm = ci.def_, ci.def_.rsplit("::", 1)[-1]
        first = I_.reify(st, a[0]) if a else None
        if d.startswith(CFG) or CFG in d:
            if nm == "type_to_pytket":
                t = I_.reify(st, a[1])
                return Some(Adt(RC, "RegisterCount", [I(x) for x in COUNTS[t]])) if t in COUNTS else NONE
            if nm == "types_are_isomorphic":
                x, y = I_.reify(st, a[1]), I_.reify(st, a[2])
                return B(x == y or {x, y} == {BIT, TBIT})
            if nm == "transform_typed_value":
                w, x, y = [I_.reify(st, z) for z in a[1:4]]
                if x == y:
                    return Ok(w)
                if {x, y} != {BIT, TBIT}:
                    return Err(T("not convertible"))
                g, n = self.addn(st, opv("conv"), [x], [y])
                g.link(w.a[2][0].a[2][0].a[1], w.a[2][1].a[2][0].a[1], n, 0)
                return Ok(Adt(WIRE, "Wire", (node(n), outp(0))))
            if nm == "op_to_hugr":
                return self.decode(I_, st, ci, a)
        if nm in ("qb_t", "bool_t", "float64_type", "rotation_type") or d.endswith("extension::bool::bool_type"):
            return {"qb_t": Q, "bool_t": BIT, "float64_type": FL, "rotation_type": ROT, "bool_type": TBIT}[nm]
        if nm == "to_type" and "ParameterType" in d:
            return ROT if first.a[1] == "Rotation" else FL
        if nm == "ty" and d.endswith(("TrackedQubit::ty", "TrackedBit::ty")):
            return Q if "TrackedQubit" in d else BIT
        if nm == "default_decoder_config":
            return T("config")
        if nm == "parse_pytket_param":
            return self.parse(I_.reify(st, a[0]))
        if nm == "symbolic_constant_op":
            return T("symbolic_constant_op", I_.reify(st, a[0]))
        if nm == "to_string" and a and is_c(first, "str"):
            return first
        if nm == "hash" and len(a) == 2 and ("ElementId" in ci.full or "register" in ci.full):
            c, p = I_.deref(a[1])
            x = first
            while x.k == "adt" and x.a[1] in ("Qubit", "Bit"):
                x = x.a[2][0]
            old = I_.load(st, c, p)
            I_.storev(st, c, p, Adt("vp::Hash", "Hash", ((old.a[2] if old.k == "adt" and old.a[0] == "vp::Hash" else ()) + (x,))))
            return UNIT
        if nm == "finish" and "asher" in ci.full:
            return first
        if nm == "new" and "DefaultHasher" in ci.full or nm == "default" and "DefaultHasher" in str(ci.desty):
            return Adt("vp::Hash", "Hash", ())
        if nm == "new_from_op" and "OpaqueTk1Op" in d:
            o = I_.reify(st, a[0])
            return T("opq", self.field(o, "data"), I_.reify(st, a[1]), I_.reify(st, a[2]), I(len(self.strings(self.field(o, "params")))))
        if nm in ("as_extension_op",) and is_t(first, "opq"):
            return first
        if nm in ("into", "from") and a and (is_t(first, "opq") or is_t(first, "symbolic_constant_op")):
            return first
        if nm == "dataflow_signature" and first is not None and (is_t(first, "opq") or first.k == "adt" and first.a[0] == "vp::Op" and first.a[1] in OPS):
            return Some(SIG(*self.sig_of(first)))
        if nm == "node" and len(a) == 1 and first.k == "adt" and first.a[0] == hg.NODE:
            return first
        r = self.builder(I_, st, ci, a, d, nm, first)
        if r is not DEFAULT:
            return r
        if nm in ("input_types", "output_types", "input_ports", "output_ports", "input", "output") and first is not None and first.k == "adt" and first.a[1] == "FuncTypeBase":
            l = first.a[2][0 if "in" in nm[:2] else 1].a[0]
            return Seq([(inp if nm[0] == "i" else outp)(k) for k in range(len(l))]) if nm.endswith("ports") else Seq(l)
        return super().__call__(I_, st, ci, a)

    def strings(self, v):
        return list(v.a[2][0].a[0]) if v.k == "adt" and v.a[1] == "Some" else []

    def field(self, o, name):
        for k, x in o.a[1]:
            if k == name:
                return x
        raise Incomplete(f"field {name} of the operation")

    def parse(self, s):
        t = s.a[1]
        if t.startswith("?"):
            return Adt(PP, "Sympy", (s,))
        if t[0].isalpha():
            if "+" in t:
                x, y = t.split("+")
                return Adt(PP, "Operation", (T("fadd"), Seq([self.parse(S(x)), self.parse(S(y))]), Adt(PT, "FloatHalfTurns", ())))
            return Adt(PP, "InputVariable", (s,))
        return Adt(PP, "Constant", (F(float(t)),))

    def decode(self, I_, st, ci, a):
        op, qs, bs, ps, ctx = I_.reify(st, a[1]), a[2], a[3], a[4], a[6]
        name = self.field(op, "data").a[2][0].a[1]
        if name.startswith("opaque"):
            return Ok(Adt("tket::serialize::pytket::decoder::DecodeStatus", "Unsupported", ()))
        key = self.spec["keys"]["node"]
        rd, wr = BITS.get(name, (0, 0))
        b = I_.reify(st, bs)
        ins, outs = (b.a[0][:rd], b.a[0][-wr:] if wr else ()) if len(b.a[0]) >= max(rd, wr) else (b.a[0], b.a[0])
        args = [a[6], opv(name), qs, qs, Seq(list(ins)), Seq(list(outs)), ps]

        def done(I2, s2, r):
            r = I2.reify(s2, r)
            return Ret(Ok(Adt("tket::serialize::pytket::decoder::DecodeStatus", "Success", ())) if r.k == "adt" and r.a[1] == "Ok" else r)
        return Call(mk_fn_key(I_, key, key), args, done)

    # ------------------------------------------------------------ the builder: one region
    def builder(self, I_, st, ci, a, d, nm, first):
        if nm == "new" and ("FuncTypeBase" in ci.full or "FuncTypeBase" in d) and len(a) == 2:
            x, y = I_.reify(st, a[0]), I_.reify(st, a[1])
            return SIG(*(z.a[0] if z.k == "seq" else [z] for z in (x, y)))
        if nm == "with_hugr" or nm == "create_with_io":
            s = I_.reify(st, a[2])
            if s.k != "adt" or s.a[1] != "FuncTypeBase":
                raise Incomplete(f"signature of the region {show(s)[:200]}")
            st.side["region"] = (nm, I_.reify(st, a[1]))
            g = self.new(st)
            g.nodes[g.inn] = N(opv("Input"), [], s.a[2][0].a[0], g.entry)
            g.nodes[g.out] = N(opv("Output"), s.a[2][1].a[0], [], g.entry)
            return Ok(Adt("vp::DFB", "DFB", ()))
        if nm == "add_node_with_parent":
            o = I_.reify(st, a[2])
            st.side["parent"] = I_.reify(st, a[1])
            return node(self.gr(st).entry)
        dfb = first is not None and first.k == "adt" and first.a[0] == "vp::DFB"
        if dfb:
            if nm in ("into_dfg_builder", "hugr", "hugr_mut"):
                return a[0]
            if nm == "input_wires":
                return Seq([Adt(WIRE, "Wire", (node(self.gr(st).inn), outp(k))) for k in range(len(self.gr(st).nodes[self.gr(st).inn].outs))])
            if nm == "add_input":
                g = self.new(st)
                t = I_.reify(st, a[1])
                x = g.nodes[g.inn]
                g.nodes[g.inn] = N(x.op, x.ins, x.outs + (t,), x.parent)
                return Ok(Adt(WIRE, "Wire", (node(g.inn), outp(len(x.outs)))))
            if nm == "io":
                return Seq([node(self.gr(st).inn), node(self.gr(st).out)])
            if nm == "input":
                return node(self.gr(st).inn)
            if nm == "output":
                return node(self.gr(st).out)
            if nm == "container_node":
                return node(self.gr(st).entry)
            if nm == "set_metadata":
                st.side["meta"] = st.side.get("meta", ()) + ((show(I_.reify(st, a[1])), I_.content(st, a[2])),)
                return UNIT
            if nm in ("add_load_const", "add_load_value"):
                v = I_.reify(st, a[1])
                s = show(v)
                t = ROT if "ConstRotation" in s else FL if "F64" in s else BIT
                g, n = self.addn(st, Adt("vp::Op", "const", (v,)), [], [t])
                return Adt(WIRE, "Wire", (node(n), outp(0)))
            if nm == "add_child_node":
                op = self.unop(I_.reify(st, a[1]))
                s = self.sig_of(op)
                if s is None:
                    raise Incomplete(f"operation added {show(op)[:200]}")
                g, n = self.addn(st, op, *s)
                return node(n)
            if nm == "add_dataflow_op":
                op = self.unop(I_.reify(st, a[1]))
                s = self.sig_of(op)
                if s is None:
                    raise Incomplete(f"operation added {show(op)[:200]}")

                def k(s2, ws):
                    if len(ws) != len(s[0]):
                        return Ret(Err(T("wrong number of inputs")))
                    g, n = self.addn(s2, op, *s)
                    for p, w in enumerate(ws):
                        g.link(w.a[2][0].a[2][0].a[1], w.a[2][1].a[2][0].a[1], n, p)
                    return Ret(Ok(Adt("vp::Handle", "Handle", (node(n), I(len(s[1]))))))
                return wires_of(I_, st, a[2], k)
            if nm == "finish_sub_container":
                return Ok(Adt("vp::Handle", "Handle", (node(self.gr(st).entry), I(0))))
            if nm == "get_optype":
                n = self.n(I_, st, a[1])
                g = self.gr(st)
                return Adt("vp::Entry", "Entry", (SIG(g.nodes[g.inn].outs, g.nodes[g.out].ins),)) if n == g.entry else g.nodes[n].op if g.nodes[n].op.k == "adt" else T("op")
        if first is not None and first.k == "adt" and first.a[0] == "vp::Entry" and nm in ("inner_function_type", "dataflow_signature"):
            return Some(first.a[2][0])
        if first is not None and first.k == "adt" and first.a[0] == "vp::Handle":
            n, k = first.a[2]
            if nm == "node":
                return n
            if nm == "out_wire":
                return Adt(WIRE, "Wire", (n, outp(I_.reify(st, a[1]).a[1])))
            if nm in ("outputs", "outputs_arr"):
                return Seq([Adt(WIRE, "Wire", (n, outp(i))) for i in range(k.a[1])])
            if nm == "num_value_outputs":
                return k
        if nm in ("into", "from") and first is not None and first.k == "tup" and "BuildHandle" in ci.full + str(ci.desty):
            return Adt("vp::Handle", "Handle", tuple(first.a[0]))
        if nm == "to_value" and a:
            return Ok(I_.content(st, a[0]))
        return DEFAULT


def empty():
    g = Gr()
    root = g.add(opv("Module"), [], [])
    g.entry = g.add(opv("DFG"), [], [], root)
    g.inn, g.out = g.add(opv("Input"), [], [], g.entry), g.add(opv("Output"), [], [], g.entry)
    return g


# ------------------------------------------------------------ a circuit to import
def make(rng):
    nq, nb = rng.randint(0, 4), rng.randint(0, 4)
    qs, bs = [f"q{i}" for i in range(nq)], [f"c{i}" for i in range(nb)]
    perm = list(range(nq))
    if rng.random() < 0.5:
        rng.shuffle(perm)
    s = dict(q=qs, b=bs, perm=perm, sig=None, names=[], outp=[], outb=[], target=rng.random() < 0.5)
    mixed = rng.random() < 0.4
    if rng.random() < 0.7:
        ins, k, l = [], 0, 0
        while k < nq or l < nb or rng.random() < 0.2:
            t = rng.choice([Q, Q, Q, QQ, BIT, TBIT, BB, QB, ROT, FL, JUNK] if mixed else [Q, Q, Q, BIT, TBIT, ROT, FL, JUNK])
            c = COUNTS.get(t, (0, 0, 0))
            if (k + c[0] > nq or l + c[1] > nb) and rng.random() < 0.95:
                if rng.random() < 0.25:
                    break
                continue
            k, l = k + c[0], l + c[1]
            ins.append(t)
        outs = [rng.choice([Q, BIT, TBIT, ROT, FL]) for _ in range(rng.randint(0, 2))] if rng.random() < 0.2 else \
            [rng.choice([Q]) for _ in range(max(0, nq - rng.choice([0, 0, 0, 1])))] + [rng.choice([BIT, BIT, TBIT]) for _ in range(max(0, nb - rng.choice([0, 0, 1])))]
        rng.shuffle(outs)
        s["sig"] = (ins, outs)
        npar = sum(t in (ROT, FL) for t in ins)
        s["names"] = rng.sample(["a", "b", "e"], rng.randint(0, min(3, npar + (rng.random() < 0.3))))
        s["outp"] = [param(rng) for t in outs if t in (ROT, FL)]
    if rng.random() < 0.4:
        s["outb"] = rng.sample(bs, rng.randint(0, nb))
    cmds, groups = [], {}
    for t, regs in held(s):
        groups.setdefault(t, []).append(regs)
    for _ in range(rng.randint(0, 7)):
        name = rng.choice(["opaque"] + list(OPS) if mixed and rng.random() < 0.6 else ["opaque", "opaque", "g1", "g2", "r1", "measure", "and", "not", "tmeasure", "mixed", "r2", "f1", "cond", "set", "tand"])
        if name == "opaque":
            k, l, p = rng.randint(0, min(2, nq)), rng.randint(0, min(2, nb)), rng.randint(0, 2)
        else:
            ins, outs = OPS[name]
            k = sum(COUNTS[t][0] for t in ins)
            p = sum(COUNTS[t][2] for t in ins)
            l = max(BITS.get(name, (0, 0)))
        if k > nq or l > nb:
            continue
        args = rng.sample(qs, k) + rng.sample(bs, l)
        need = tuple(t for t in OPS.get(name, ((), ()))[0] if sum(COUNTS[t]) > 1)
        if need and groups.get(need[0]) and rng.random() < 0.8:
            # the registers of a value that exists, or all but one of them
            args = list(rng.choice(groups[need[0]]))
            if rng.random() < 0.3:
                i = rng.randrange(len(args))
                other = [r for r in (qs if args[i][0] == "q" else bs) if r not in args]
                if other:
                    args[i] = rng.choice(other)
        for t in OPS.get(name, ((), ()))[1]:
            if sum(COUNTS[t]) > 1:
                groups.setdefault(t, []).append(args)
        if rng.random() < 0.5:
            # qubits and bits may be listed in any order
            order = list(range(len(args)))
            rng.shuffle(order)
            args = [args[i] for i in order]
        cmds.append((name, args, [param(rng) for _ in range(p)], f"{name}{len(cmds)}"))
    s["cmds"] = cmds
    return s


def held(s):
    """values of several registers among the inputs"""
    k = l = 0
    for t in s["sig"][0] if s["sig"] else ():
        c = COUNTS.get(t, (0, 0, 0))
        if c[0] + c[1] > 1 and k + c[0] <= len(s["q"]) and l + c[1] <= len(s["b"]):
            yield t, s["q"][k:k + c[0]] + s["b"][l:l + c[1]]
        k, l = k + c[0], l + c[1]


def param(rng):
    return rng.choice(["0.5", "0.25", "1.5", "a", "b", "e", "x", "y", "a+x", "?sin", "?cos"])


def value(s):
    """what is expected of a circuit: None if it has to be refused, else (operations, outputs, freed)"""
    hold = {}          # register -> ("wire value", index in the wire, registers of the wire)
    var, vals = {}, []
    ins = s["sig"][0] if s["sig"] else [Q] * len(s["q"]) + [BIT] * len(s["b"])
    k = l = 0
    frees = []
    for p, t in enumerate(ins):
        c = COUNTS.get(t, (0, 0, 0))
        if t in (ROT, FL):
            frees.append((p, t))
            continue
        if c == (0, 0, 0):
            continue
        if k + c[0] > len(s["q"]):
            return None
        if l + c[1] > len(s["b"]):
            c = (c[0], len(s["b"]) - l)
        regs = s["q"][k:k + c[0]] + s["b"][l:l + c[1]]
        k, l = k + c[0], l + c[1]
        for r in regs:
            hold[r] = (("in", p), t, regs)
    names = list(s["names"])
    bound = names[:len(frees)]
    for n, (p, t) in zip(bound, frees):
        var[n] = p
    extra = len(ins)
    for n in names[len(frees):]:
        var[n] = extra
        extra += 1
    frees = frees[len(names):]
    order = list(names)
    alloc = [0]

    def lookup(n):
        nonlocal extra
        if n not in var:
            order.append(n)
            if frees:
                var[n] = frees.pop(0)[0]
            else:
                var[n] = extra
                extra += 1
        return ("in", var[n])

    def par(x):
        if x.startswith("?"):
            return ("sym", x)
        if x[0].isalpha():
            if "+" in x:
                y, z = x.split("+")
                return ("fadd", lookup(y), lookup(z))
            return lookup(x)
        return ("const", float(x))

    def take(t, qs, bs, ps, used):
        c = COUNTS[t]
        if t in (ROT, FL):
            return ps.pop(0)
        if len(qs) < c[0] or len(bs) < c[1]:
            return None
        regs = [qs.pop(0) for _ in range(c[0])] + [bs.pop(0) for _ in range(c[1])]
        r = regs[0]
        if r not in hold:
            if any(x in hold for x in regs):
                return None
            if t == Q:
                alloc[0] += 1
                hold[r] = (("alloc", r), Q, [r])
            elif t in (BIT, TBIT):
                hold[r] = (("false",), BIT, [r])
            else:
                return None
        v, u, rs = hold[r]
        if rs != regs or any(hold.get(x, (0, 0, 0))[0] != v for x in regs) or u != t and {u, t} != {BIT, TBIT}:
            return None
        return v
    ops = []
    for name, args, params, tag in s["cmds"]:
        qs, bs = [a for a in args if a[0] == "q"], [a for a in args if a[0] == "c"]
        ps = [par(x) for x in params]
        if name == "opaque":
            it, ot = [Q] * len(qs) + [BIT] * len(bs) + [ROT] * len(ps), [Q] * len(qs) + [BIT] * len(bs)
            rin, rout = bs, bs
        else:
            it, ot = OPS[name]
            rd, wr = BITS.get(name, (0, 0))
            rin, rout = bs[:rd], bs[len(bs) - wr:] if wr else []
        a, b, c = list(qs), list(rin), list(ps)
        got = []
        for t in it:
            v = take(t, a, b, c, None)
            if v is None:
                return None
            got.append(v)
        a, b = list(qs), list(rout)
        for p, t in enumerate(ot):
            n = COUNTS[t]
            regs = [a.pop(0) for _ in range(n[0])] + [b.pop(0) for _ in range(n[1])]
            for r in regs:
                hold[r] = ((tag, p, tuple(got)), t, regs)
        ops.append((tag, tuple(got)))
    out = s["sig"][1] if s["sig"] else [Q] * len(s["q"]) + [BIT] * len(s["b"])
    if s["outp"]:
        ps = [par(x) for x in s["outp"]]
    else:
        ps = []
    qs = [None] * len(s["q"])
    for i, o in enumerate(s["perm"]):
        qs[o] = s["q"][i]
    bs = list(s["outb"]) + [b for b in s["b"] if b not in s["outb"]]
    res = []
    for t in out:
        v = take(t, qs, bs, ps, None)
        if v is None:
            return None
        res.append(v)
    freed = [hold[q] for q in qs if q in hold]
    if any(len(f[2]) > 1 for f in freed):
        return "skip"
    return ops, res, [f[0] for f in freed], order, {n: var[n] for n in order}


def evaluate(g, tags):
    memo = {}

    def val(w):
        if w[0] == g.inn:
            return ("in", w[1])
        if w not in memo:
            memo[w] = None
            x = g.nodes[w[0]]
            args = []
            for p in range(len(x.ins)):
                l = g.src(w[0], p)
                args.append(val(l[0]) if len(l) == 1 else ("bad", len(l)))
            memo[w] = apply(x, args, w[1], w[0])
        return memo[w]

    def apply(x, args, p, n):
        s = show(x.op)
        if x.op.k == "adt" and x.op.a[1] == "conv":
            return args[0]
        if x.op.k == "adt" and x.op.a[1] == "const":
            fs = floats(x.op)
            return ("const", fs[0]) if len(fs) == 1 else ("false",) if "alse" in s or "false" in s else ("const?", s)
        if "to_halfturns" in s or "from_halfturns" in s:
            return args[0]
        if "fadd" in s:
            return ("fadd",) + tuple(args)
        if "symbolic_constant_op" in s:
            return ("sym", x.op.a[1].a[1])
        if "QAlloc" in s:
            return ("alloc", n)
        return (("op", n), p, tuple(args))
    return val


def floats(v):
    out = []

    def go(x):
        if not isinstance(x, V):
            if isinstance(x, tuple):
                for y in x:
                    go(y)
            return
        if is_c(x, "flt"):
            out.append(x.a[1])
            return
        for y in x.a:
            go(y)
    go(v)
    return out


def run(cx):
    rng = random.Random(42)
    keys = {"decode": cx.key(r"^<tket_json_rs::circuit_json::SerialCircuit as tket::serialize::pytket::TKETDecode>::decode_inplace$"), "new": cx.key("^" + CTX.replace("(", "\\(") + "new$"), "run": cx.key("^" + CTX + "run_decoder$"), "finish": cx.key("^" + CTX + "finish$"),
            "node": cx.key("^" + CTX + r"add_node_with_wires::<hugr_core::ops::OpType>$")}
    jobs = list(enumerate(make(rng) for _ in range(6000 if cx.thorough else 1200)))

    def job(x):
        i, s = x
        n = {"ok": 0, "refused": 0, "ops": 0, "freed": 0, "alloc": 0, "perm": 0, "named": 0}
        cx.guard("an imported circuit is the circuit", f"circuit {i}", one, cx, keys, f"circuit {i}", s, n)
        return n
    res = cx.spread(jobs, job)
    for k, m in (("ok", 700), ("refused", 100), ("ops", 1500), ("freed", 150), ("alloc", 80), ("perm", 150), ("named", 60)):
        cx.floor("an imported circuit is the circuit", k, sum(r[k] for r in res), m)


def describe(s):
    names = lambda l: [t.a[1] for t in l]
    return f"{[(c[0], c[1], c[2]) for c in s['cmds']]} on {s['q']} {s['b']} permutation {s['perm']} signature {s['sig'] and (names(s['sig'][0]), names(s['sig'][1]))} parameters {s['names']} {s['outp']} bits {s['outb']}"


def one(cx, keys, lb, s, n):
    rule = "an imported circuit is the circuit"
    exp = value(s)
    if exp == "skip":
        return
    d = describe(s)
    g = empty()
    m = Import(cx, g, {"keys": keys})
    perm = Seq([Adt(TJ + "circuit_json::ImplicitPermutation", "ImplicitPermutation", (unit("Qubit", s["q"][i]), unit("Qubit", s["q"][o]))) for i, o in enumerate(s["perm"])])
    circ = mk("with", T("circ"), (("name", NONE), ("phase", S("0")), ("qubits", Seq([unit("Qubit", q) for q in s["q"]])), ("bits", Seq([unit("Bit", b) for b in s["b"]])),
                                  ("implicit_permutation", perm)))
    cmds = Seq([Adt(TJ + "circuit_json::Command", "Command", (mk("with", T("operation"), (("op_type", T("optype", S(c[0]))), ("data", Some(S(c[0] if c[0] != "opaque" else c[3]))), ("params", Some(Seq([S(x) for x in c[2]])) if c[2] else NONE))),
                                                              Seq([reg(a) for a in c[1]]), NONE)) for c in s["cmds"]])
    opts = Adt("tket::serialize::pytket::options::DecodeOptions", "DecodeOptions", (Some(T("config")), Some(SIG(*s["sig"])) if s["sig"] else NONE, Seq([S(x) for x in s["names"]]), NONE))
    tgt = "tket::serialize::pytket::options::DecodeInsertionTarget"
    target = Adt(tgt, "Function", (NONE,)) if s["target"] else Adt(tgt, "Region", (node(0),))

    def setup(it, st):
        st.side["hg"] = g

    def post(I_, st, v):
        w = I_.reify(st, v)
        if w.k != "adt" or w.a[1] != "Ok":
            return w
        c = I_.new_cell(st, v.a[2][0])

        def ran(I2, s2, w):
            w = I2.reify(s2, w)
            if w.k != "adt" or w.a[1] != "Ok":
                return Ret(w)
            return Call(mk_fn_key(I2, keys["finish"], keys["finish"]), [models.seq_target(I2, s2, c)[2], Seq([S(x) for x in s["outp"]]), Seq([unitreg(b) for b in s["outb"]])],
                        lambda I3, s3, x: Ret(I3.reify(s3, x)))
        return Call(mk_fn_key(I_, keys["run"], keys["run"]), [c, cmds, NONE], ran)
    if not s["outp"] and not s["outb"]:
        # the public way in
        circ = mk("with", circ.a[0], circ.a[1] + (("commands", cmds),))
        start, args, post = keys["decode"], [circ, T("hugr"), target, opts], lambda I_, st, v: I_.reify(st, v)
    else:
        start, args = keys["new"], [circ, T("hugr"), target, opts, NONE]
    it, res = cx.run(start, args, setup=setup, on_call=m, post=post, recursion=40, loop_decisions=400, max_visits=40000, max_steps=2000000)
    if len(res) != 1 or res[0].kind != "ret":
        return cx.fail(rule, lb, f"no result: {[(o.kind, str(o.st.cutreason), show(o.value)[:200] if o.value is not None and o.kind == 'ret' else str(o.value)[:300]) for o in res]} for {d}"[:1800])
    st = res[0].st
    v = it.reify(st, res[0].value)
    ok = v.k == "adt" and v.a[1] == "Ok"
    if not cx.check("refused exactly when the registers do not hold what is asked for", lb, ok == (exp is not None), f"{show(v)[:300]}, expected {'a circuit' if exp else 'an error'}: {d}"[:1500]) or not ok:
        n["refused"] += exp is None
        return
    n["ok"] += 1
    ops, outs, freed, order, var = exp
    n["ops"] += len(ops)
    n["freed"] += len(freed)
    n["named"] += len(s["names"]) > 0
    n["perm"] += s["perm"] != sorted(s["perm"])
    r = m.gr(st)
    compare(cx, rule, lb, s, r, ops, outs, freed, d, n)
    meta = [x for k, x in st.side.get("meta", ()) if "INPUT_PARAM" in k.upper()]
    got = [names_in(x) for x in meta]
    cx.check("the names of the parameters are kept", lb, got == ([order] if order else []), f"{got} for {order}: {d}"[:900])


def names_in(v):
    out = []

    def go(x):
        if isinstance(x, V) and is_c(x, "str"):
            out.append(x.a[1])
        elif isinstance(x, V):
            for y in x.a:
                go(y)
        elif isinstance(x, tuple):
            for y in x:
                go(y)
    go(v)
    return out


def unitreg(b):
    return reg(b)


def compare(cx, rule, lb, s, r, ops, outs, freed, d, n):
    """the graph against the expected operations: matched in the order they were added"""
    val = evaluate(r, None)
    mine = [k for k, x in sorted(r.nodes.items()) if x.parent == r.entry and (x.op.k == "adt" and x.op.a[0] == "vp::Op" and x.op.a[1] in OPS or is_t(x.op, "opq"))]
    want = [("opaque" if t.startswith("opaque") else t.rstrip("0123456789")) for t, _ in ops]
    names = [x.op.a[1] if x.op.k == "adt" else "opaque" for x in (r.nodes[k] for k in mine)]
    # names such as g1, r2 end in digits: compared with the commands themselves
    want = [c[0] for c in s["cmds"]]
    if not cx.check("every command gives one operation", lb, names == want, f"{names}, expected {want}: {d}"[:900]):
        return
    ren = {k: t for k, (t, _) in zip(mine, ops)}
    regalloc = {}

    def norm(v):
        if isinstance(v, tuple) and v and isinstance(v[0], tuple) and v[0][0] == "op":
            k = v[0][1]
            return (ren.get(k, ("unknown", k)), v[1], tuple(norm(x) for x in v[2]))
        if isinstance(v, tuple) and v and v[0] == "fadd":
            return ("fadd",) + tuple(norm(x) for x in v[1:])
        return v

    def same(x, y):
        """allocations are named by register on one side, by node on the other"""
        if isinstance(x, tuple) and isinstance(y, tuple) and x and y and x[0] == "alloc" and y[0] == "alloc":
            return regalloc.setdefault(x[1], y[1]) == y[1]
        if isinstance(x, tuple) and isinstance(y, tuple):
            return len(x) == len(y) and all(same(a, b) for a, b in zip(x, y))
        return x == y
    for k, (t, args) in zip(mine, ops):
        x = r.nodes[k]
        got = []
        for p in range(len(x.ins)):
            l = r.src(k, p)
            got.append(norm(val(l[0])) if len(l) == 1 else ("bad", len(l)))
        tys = [r.nodes[w[0]].outs[w[1]] for p in range(len(x.ins)) for w in r.src(k, p)]
        cx.check(rule, f"{lb} {t}", same(tuple(got), args), f"{t} acts on {got}, expected {args}: {d}"[:1500])
        cx.check("wires have the types of their ends", f"{lb} {t}", tys == list(x.ins), f"{[show(y) for y in tys]} into {[show(y) for y in x.ins]} of {t}: {d}"[:900])
    got = []
    tys = []
    for p in range(len(r.nodes[r.out].ins)):
        l = r.src(r.out, p)
        got.append(norm(val(l[0])) if len(l) == 1 else ("bad", len(l)))
        tys += [r.nodes[w[0]].outs[w[1]] for w in l]
    cx.check(rule, f"{lb} outputs", same(tuple(got), tuple(outs)), f"outputs {got}, expected {outs}: {d}"[:1500])
    cx.check("wires have the types of their ends", f"{lb} outputs", tys == list(r.nodes[r.out].ins), f"outputs of {[show(y) for y in tys]}: {d}"[:900])
    fr = [norm(val(r.src(k, 0)[0])) for k, x in sorted(r.nodes.items()) if "QFree" in show(x.op) and len(r.src(k, 0)) == 1]
    cx.check("qubits that are not returned are freed", lb, len(fr) == len(freed) and all(any(same(b, a) for b in fr) for a in freed), f"freed {fr}, expected {freed}: {d}"[:1200])
    allocs = [k for k, x in r.nodes.items() if "QAlloc" in show(x.op)]
    n["alloc"] += len(allocs)
    cx.check("a qubit is allocated once", lb, len(allocs) == len(set(regalloc.values())) and len(set(regalloc.values())) == len(regalloc), f"{len(allocs)} allocated, registers {regalloc}: {d}"[:900])
    for k, x in r.nodes.items():
        if x.parent == r.entry and k != r.out:
            for p, t in enumerate(x.outs):
                if not t.a[2][0].a[1] and not (k == r.inn and t == JUNK):
                    cx.check("a linear value is used once", f"{lb} {k} {p}", len(r.dst(k, p)) == 1, f"output {p} of {show(x.op)[:60]} is used {len(r.dst(k, p))} times: {d}"[:900])
