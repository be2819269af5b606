"""The pytket encoder executed abstractly on concrete regions, and the meaning of the commands it emits (C29)."""
import re
from interp import V, mk, I, B, S, T, Adt, Tup, Seq, Some, NONE, Ok, Err, is_c, is_t, show, Ret, DEFAULT, UNIT, Incomplete, mk_fn_key, Call
import hg, region, models, cmds, pytk
from hg import node, inp, outp, ty
from region import Q, BIT, ANGLE, A
from cmds import Cmds, circ

ENC = "tket::serialize::pytket::encoder::"
OPT = "hugr_core::ops::OpType"
RC = "tket::serialize::pytket::extension::RegisterCount"
ELEM = "tket_json_rs::register::ElementId"
SER = "tket_json_rs::circuit_json::SerialCircuit"
PAIR = ty("pair")
FUT = ty("future", True)
COUNTS = {Q: (1, 0, 0), BIT: (0, 1, 0), ANGLE: (0, 0, 1), PAIR: (2, 1, 0)}

TKOPS = [("H", [Q], [Q]), ("CX", [Q, Q], [Q, Q]), ("Rz", [Q, ANGLE], [Q]), ("Measure", [Q], [Q, BIT]), ("MeasureFree", [Q], [BIT]),
         ("QAlloc", [], [Q]), ("QFree", [Q], []), ("Reset", [Q], [Q])]
BOPS = [("not", [BIT], [BIT]), ("and", [BIT, BIT], [BIT]), ("xor", [BIT, BIT], [BIT]), ("read", [BIT], [BIT])]
UOPS = [("u.pack", [Q, Q], [A]), ("u.unpack", [A], [Q, Q]), ("u.mix", [Q, BIT], [BIT, Q]), ("u.rot", [BIT], [ANGLE]), ("u.ang", [ANGLE, ANGLE], [BIT]),
        ("u.bit", [BIT], [BIT]), ("u.arr", [A], [A]), ("u.make", [], [BIT]), ("u.two", [BIT], [BIT, BIT]), ("u.q", [Q], [Q]), ("u.pair", [Q, Q, BIT], [PAIR]),
        ("u.unpair", [PAIR], [Q, BIT, Q]), ("u.alloc", [], [Q]), ("u.drop", [BIT], []), ("u.swap", [Q, Q], [Q, Q]), ("u.mixa", [Q, ANGLE, BIT], [ANGLE, Q]),
        ("u.dropq", [Q], [])]
POPS = [("u.sum", [ANGLE, ANGLE], [ANGLE]), ("u.new", [], [A]), ("u.len", [A], [ANGLE, A]), ("u.const", [], [ANGLE])]
SIGS = {n: (i, o) for n, i, o in TKOPS + BOPS + UOPS + POPS}
region.OPS += [("e." + n, i, o) for n, i, o in TKOPS + BOPS + UOPS + POPS]
KIND = {"Input": "Input", "Output": "Output", "Module": "Module", "FuncDefn": "FuncDefn", "Const": "Const", "LoadConstant": "LoadConstant"}


def elem(r, i):
    return Adt(ELEM, "ElementId", (S(r), Seq([I(i)])))


def reg(v):
    """readable name of a register"""
    if v.k == "adt" and v.a[1] in ("Qubit", "Bit"):
        v = v.a[2][0]
    if v.k == "adt" and v.a[0] == ELEM and is_c(v.a[2][0], "str"):
        return f"{v.a[2][0].a[1]}{[x.a[1] for x in v.a[2][1].a[0]]}"
    raise Incomplete("register " + show(v)[:100])


class Enc(Cmds):
    """meta: metadata of the region, key fragment -> value"""

    def __init__(self, cx, meta=None):
        super().__init__(cx)
        self.meta = meta or {}
        f = lambda p: cx.key(p)
        self.emit = {"TketOp": f(r"^<tket::serialize::pytket::extension::tket::TketOpEmitter as .*PytketEmitter<H>>::op_to_pytket$"),
                     "BoolOp": f(r"^<tket::serialize::pytket::extension::bool::BoolEmitter as .*PytketEmitter<H>>::op_to_pytket$")}

    def op(self, I_, st, v):
        v = I_.reify(st, v)
        if v.k == "adt" and v.a[0] == OPT:
            return v.a[2][0].a[2][0].a[1]
        return super().op(I_, st, v)

    def fam(self, st, i):
        n = self.gr(st).nodes[i].op.a[1]
        if n.startswith("e."):
            n = n[2:]
            return ("TketOp", n) if n in [x[0] for x in TKOPS] else ("BoolOp", n) if n in [x[0] for x in BOPS] else (None, n)
        return None, n

    def __call__(self, I_, st, ci, a):
        d, nm, f = ci.def_, ci.def_.rsplit("::", 1)[-1], ci.fn
        if nm == "type_to_pytket" and len(a) == 2:
            c = COUNTS.get(I_.reify(st, a[1]))
            return NONE if c is None else Some(Adt(RC, "RegisterCount", tuple(I(x) for x in c)))
        if nm == "op_to_pytket" and "Config" in d and len(a) == 5:
            k, n = self.fam(st, self.n(I_, st, a[1]))
            if k is None:
                return Ok(Adt(ENC + "EncodeStatus", "Unsupported", ()))
            return Call(mk_fn_key(I_, self.emit[k], self.emit[k]), [T("emitter")] + list(a[1:]), lambda I2, s, r: Ret(r))
        if nm == "from_extension_op" and a:
            i = self.op(I_, st, a[0])
            if i is not None:
                k, n = self.fam(st, i)
                if k == "TketOp" and "TketOp" in ci.full:
                    return Ok(Adt(pytk.TK, n, ()))
                if k == "BoolOp" and "BoolOp" in ci.full:
                    return Ok(Adt("tket::extension::bool::BoolOp", n, ()))
                return Err(T("notthis"))
        if nm == "get_metadata":
            k = show(I_.reify(st, a[2]))
            for m, v in self.meta.items():
                if m in k:
                    return Some(v)
            return NONE
        if nm == "from_value" and "serde_json" in d:
            return Ok(I_.reify(st, a[0]))
        if nm == "to_string" and "serde_json" in d:
            return Ok(T("json", I_.reify(st, a[0])))
        if nm == "new" and "FuncTypeBase" in d and len(a) == 2:
            return cmds.SIG([I_.reify(st, x) for x in I_.reify(st, a[0]).a[0]], [I_.reify(st, x) for x in I_.reify(st, a[1]).a[0]])
        if nm == "new" and d.startswith("tket::circuit::Circuit") and len(a) == 1:
            return circ(I_.reify(st, a[0]))
        if nm == "map_into" and "tket_json_rs" in ci.full:
            return models.as_iter(I_, st, I_.reify(st, a[0]))
        if nm == "sum" and "RegisterCount" in str(ci.desty):
            it = models.as_iter(I_, st, I_.reify(st, a[0]))
            return models.drain_all(I_, st, it, lambda s, l: Ret(Adt(RC, "RegisterCount", tuple(I(sum(I_.reify(s, x).a[2][j].a[1] for x in l)) for j in range(3)))))
        if nm == "name" and "Circuit" in d:
            return NONE
        if nm in ("from", "into") and "RegisterHash" in str(ci.desty) + ci.full and a:
            v = I_.reify(st, a[0])
            if v.k == "adt" and v.a[0] == ELEM:
                return Adt("vp::Hash", "Hash", (v,))
        if "UnionFind" in d:
            return self.uf(I_, st, nm, a)
        if "RwLock" in d or "RwLock" in ci.full and nm in ("write", "read"):
            if nm == "new":
                return I_.reify(st, a[0])
            if nm in ("write", "read"):
                return Ok(a[0])
        if nm == "inner_function_type" and a:
            i = self.op(I_, st, a[0])
            if i is not None:
                g = self.gr(st)
                return Some(cmds.SIG(g.nodes[g.inn].outs, g.nodes[g.out].ins))
        if nm in ("ports", "out_port_type", "in_port_type", "port_type") and a:
            s = self.sigt(I_, st, a[0])
            if s is not None:
                if nm == "ports":
                    k = I_.reify(st, a[1]).a[1]
                    l = [inp(i) for i in range(len(s[0]))] if k == "Incoming" else [outp(i) for i in range(len(s[1]))]
                    return mk("iter", "seq", tuple(l))
                k, i = ("out", self.p(I_, st, a[1])) if nm == "out_port_type" else ("in", self.p(I_, st, a[1])) if nm == "in_port_type" else self.dirp(I_, st, a[1])
                l = s[0] if k == "in" else s[1]
                return Some(l[i]) if i < len(l) else NONE
        if nm in ("other_port", "static_port") and len(a) == 2:
            i = self.op(I_, st, a[0])
            if i is not None:
                k = I_.reify(st, a[1]).a[1]
                x = self.gr(st).nodes[i]
                if nm == "other_port":
                    if x.op.a[1] in ("Const", "FuncDecl", "FuncDefn", "Module") or x.op.a[1] == ("Input" if k == "Incoming" else "Output"):
                        return NONE
                    return Some(inp(len(x.ins) + (x.op.a[1] == "LoadConstant")) if k == "Incoming" else outp(len(x.outs)))
                if (x.op.a[1], k) == ("LoadConstant", "Incoming"):
                    return Some(inp(0))
                if (x.op.a[1], k) == ("Const", "Outgoing"):
                    return Some(outp(0))
                return NONE
        if nm in ("value_input_count", "static_output_port", "static_output", "other_output_port", "other_input_port") and a:
            i = self.op(I_, st, a[0])
            if i is not None:
                x = self.gr(st).nodes[i]
                if nm == "value_input_count":
                    return I(len(x.ins))
                if nm in ("other_output_port", "other_input_port"):
                    k = x.op.a[1]
                    if k in ("Const", "FuncDefn", "Module") or k == ("Input" if "input" in nm else "Output"):
                        return NONE
                    return Some(outp(len(x.outs))) if "output" in nm else Some(inp(len(x.ins) + (k == "LoadConstant")))
                if x.op.a[1] == "Const":
                    return Some(outp(0)) if nm == "static_output_port" else Some(Adt(hg.EK, "Const", (BIT,)))
                return NONE
        return super().__call__(I_, st, ci, a)

    def g_first_child(self, I_, st, ci, a):
        i = self.n(I_, st, a[1])
        ks = [k for k, x in sorted(self.gr(st).nodes.items()) if x.parent == i]
        return Some(node(ks[0])) if ks else NONE

    def g_get_optype(self, I_, st, ci, a):
        i = self.n(I_, st, a[1])
        k = KIND.get(self.gr(st).nodes[i].op.a[1], "ExtensionOp")
        return Adt(OPT, k, (Adt("vp::ExtOp", "ExtOp", (I(i),)),))

    def uf(self, I_, st, nm, a):
        if nm in ("new_empty", "default"):
            return T("vp.uf", Seq(()))
        c, p, v = models.seq_target(I_, st, a[0])
        if not is_t(v, "vp.uf"):
            return DEFAULT
        l = [x.a[1] for x in v.a[1].a[0]]

        def find(i):
            while l[i] != i:
                i = l[i]
            return i
        put = lambda: I_.storev(st, c, p, T("vp.uf", Seq([I(x) for x in l])))
        if nm == "new_set":
            l.append(len(l))
            put()
            return I(len(l) - 1)
        k = [I_.reify(st, x).a[1] for x in a[1:]]
        if nm == "union":
            x, y = find(k[0]), find(k[1])
            l[max(x, y)] = min(x, y)
            put()
            return B(x != y)
        if nm in ("find", "find_mut"):
            return I(find(k[0]))
        return DEFAULT


def encode(cx, model, g):
    """(serial circuit, info, subgraphs) of the region of g"""
    new = cx.key(r"PytketEncoderContext::<H>::new::<impl Into<")
    run = cx.key(r"PytketEncoderContext::<H>::run_encoder$")
    fin = cx.key(r"PytketEncoderContext::<H>::finish$")
    c, r = circ(), node(g.entry)

    def made(I_, st, v):
        v = I_.reify(st, v)
        if v.a[1] != "Ok":
            return Ret(v)
        ref = I_.new_cell(st, v.a[2][0])
        cr = I_.new_cell(st, c)

        def ran(I2, s, w):
            w = I2.reify(s, w)
            if w.a[1] != "Ok":
                return Ret(w)
            return Call(mk_fn_key(I2, fin, fin), [I2.reify(s, ref), cr, r], lambda I3, s3, x: Ret(I3.reify(s3, x)))
        return Call(mk_fn_key(I_, run, run), [ref, cr, r], ran)
    subs = Adt("tket::serialize::pytket::opaque::OpaqueSubgraphs", "OpaqueSubgraphs", (I(0), I(0), mk("map", "alloc::collections::btree::map::BTreeMap", ())))
    it, res = cx.run(new, [c, r, subs, T("config")], setup=lambda it, st: st.side.__setitem__("hg", g), on_call=model, post=made, user_iter=model.user_iter,
                     recursion=30, loop_decisions=400, max_visits=40000, max_steps=4000000)
    if len(res) != 1 or res[0].kind != "ret":
        return None, [(o.kind, str(o.st.cutreason)) for o in res]
    return it.reify(res[0].st, res[0].value), None


# ---------------------------------------------------------------- meaning
class Bad(Exception):
    pass


def width(t):
    return sum(COUNTS[t]) if t in COUNTS else 1


def kinds(t):
    """register kinds of the components of a value of this type: qubits, then bits, then parameters"""
    if t not in COUNTS:
        return "x"
    q, b, p = COUNTS[t]
    return "q" * q + "b" * b + "p" * p


ALIAS = {"MeasureFree": "Measure"}


class World:
    """values computed by operations; every application is recorded"""

    def __init__(self):
        self.apps = []

    def apply(self, name, ident, args, outs, quiet=False):
        """components of every output"""
        if name == "read":
            return [list(args)]
        if name in ("and",) and args[0] == args[1]:
            return [[args[0]]]
        nm = ALIAS.get(name, name)
        key = (nm, tuple(args)) if args else (nm, ident)
        self.apps.append(key)
        if name == "MeasureFree":
            return [[("op", key, 1, 0)]]
        return [[("op", key, i, k) for k in range(width(t))] for i, t in enumerate(outs)]


def evaluate(w, g, n, env, params=None):
    """outputs of node n of the graph, from env: (node, port) -> components"""
    x = g.nodes[n]
    args = []
    for p in range(len(x.ins)):
        args += env[g.src(n, p)[0]]
    nm = x.op.a[1][2:] if x.op.a[1].startswith("e.") else x.op.a[1]
    if nm == "QAlloc":
        outs = [[("alloc", n)]]
    elif nm == "QFree":
        outs = []
    else:
        outs = w.apply(nm, n, args, x.outs)
    for p, o in enumerate(outs):
        env[n, p] = o


def graph_meaning(g, input_params):
    """(components of each input port of the output node, applications)"""
    w, env, pn = World(), {}, iter(input_params)
    for p, t in enumerate(g.nodes[g.inn].outs):
        env[g.inn, p] = [("par", next(pn)) if k == "p" else ("in", p, i) for i, k in enumerate(kinds(t))]
    for n in cmds.topo(g, lambda l: l[0]):
        if n not in (g.inn, g.out):
            evaluate(w, g, n, env)
    return [env[g.src(g.out, p)[0]] for p in range(len(g.nodes[g.out].ins))], w.apps, env


def pstr(v):
    if is_c(v, "str"):
        return v.a[1]
    m = re.fullmatch(r".*SubgraphId\((\d+), (\d+)\)\)?, '(_out\d+)'\)*", show(v))
    return f"{m.group(1)}.{m.group(2)}{m.group(3)}" if m else show(v)


class Circ:
    """the commands of an encoded circuit, run on registers"""

    def __init__(self, g, ser, subs, inputs):
        """inputs: the parameter names of the region inputs, in order"""
        self.g, self.w, self.env, self.outw = g, World(), {}, {}
        self.f = lambda n: pytk.field(ser, n)
        self.qubits = [reg(x) for x in self.f("qubits").a[0]]
        self.bits = [reg(x) for x in self.f("bits").a[0]]
        if len(set(self.qubits)) != len(self.qubits) or len(set(self.bits)) != len(self.bits):
            raise Bad(f"a register is declared twice: {self.qubits} {self.bits}")
        self.val = {q: ("fresh", q) for q in self.qubits}
        self.val.update({b: ("zero", b) for b in self.bits})
        nq = nb = 0
        for p, t in enumerate(g.nodes[g.inn].outs):
            for i, k in enumerate(kinds(t)):
                if k in "qb":
                    l, j = (self.qubits, nq) if k == "q" else (self.bits, nb)
                    if j >= len(l):
                        raise Bad("an input has no register")
                    self.val[l[j]] = ("in", p, i)
                    nq, nb = nq + (k == "q"), nb + (k == "b")
                elif k == "x":
                    self.env[g.inn, p] = [("in", p, i)]
        self.par = {x: ("par", x) for x in inputs}
        self.subs = {}
        for k, v in (x for x in subs.a[2][2].a[1]):
            self.subs[show(k)] = v
        self.done = []
        for c in self.f("commands").a[0]:
            self.command(c)

    def param(self, s):
        if s not in self.par:
            raise Bad(f"a command uses the parameter {s}, which nothing defines")
        return self.par[s]

    def command(self, c):
        op, args = c.a[2][0], [reg(x) for x in c.a[2][1].a[0]]
        f = lambda n: pytk.field(op, n)
        for x in args:
            if x not in self.val:
                raise Bad(f"a command uses {x}, which is not declared")
        sg = pytk.strs(pytk.opt(f("signature")))
        if [("Q" if x in self.qubits else "B") for x in args] != sg:
            raise Bad(f"arguments {args} of signature {sg}")
        if len({x for x in args if x in self.qubits}) != sum(x in self.qubits for x in args):
            raise Bad(f"a qubit is used twice by one command: {args}")
        t = f("op_type").a[1]
        ps = pytk.opt(f("params")) if f("params") is not None else None
        ps = [pstr(x) for x in ps.a[0]] if ps is not None else []
        if t == "Barrier" and f("data") is not None and pytk.opt(f("data")) is not None:
            return self.barrier(pytk.opt(f("data")), args, ps)
        if t == "ClExpr":
            e = pytk.opt(f("classical_expr"))
            posn = {x.a[0][0].a[1]: x.a[0][1].a[1] for x in pytk.field(e, "bit_posn").a[0]}
            out = [x.a[1] for x in pytk.field(e, "output_posn").a[2][0].a[0]]
            ex = pytk.field(e, "expr")
            opn = pytk.field(ex, "op").a[1]
            vs = []
            for x in pytk.field(ex, "args").a[0]:
                while x.k == "adt" and x.a[1] in ("Terminal", "Variable"):
                    x = x.a[2][0]
                vs.append(self.val[args[posn[x.a[2][0].a[1]]]])
            nm = {"BitAnd": "and", "BitXor": "xor", "BitNot": "not"}[opn]
            (r,) = self.w.apply(nm, None, vs, [BIT])
            self.val[args[out[0]]] = r[0]
            return
        vs = [self.val[x] for x in args if x in self.qubits] + [self.param(p) for p in ps]
        outs = {"Measure": [Q, BIT]}.get(t, [Q] * sum(x in self.qubits for x in args))
        rs = self.w.apply(t, None, vs, outs)
        for x, r in zip(args, rs):
            self.val[x] = r[0]

    def nodes_of(self, v):
        return [k.a[2][0].a[1] for k, _ in v.a[2][0].a[1]]

    def subgraph(self, sid, v, qs, bs, ps, write):
        nodes = self.nodes_of(v)
        self.done += nodes
        g = self.g
        ins = [(x.a[0][0].a[2][0].a[1], x.a[0][1].a[2][0].a[1]) for x in v.a[2][1].a[0]]
        outs = [(x.a[0][0].a[2][0].a[1], x.a[0][1].a[2][0].a[1]) for x in v.a[2][2].a[0]]
        qi, bi, pi = iter(qs), iter(bs), iter(ps)
        loc = {}
        try:
            for n, p in ins:
                t = g.nodes[n].ins[p]
                comps = []
                for k in kinds(t):
                    comps += [self.val[next(qi)] if k == "q" else self.val[next(bi)] if k == "b" else self.param(next(pi))] if k != "x" else \
                        self.wire(g.src(n, p)[0])
                loc[n, p] = comps
        except StopIteration:
            raise Bad(f"a subgraph has inputs beyond its registers {qs} {bs} {ps}")
        if list(pi):
            raise Bad("a subgraph is given more parameters than it has inputs for")
        env = {}
        for n in cmds.topo(g, lambda l: l[0]):
            if n in nodes:
                sub = {}
                for p in range(len(g.nodes[n].ins)):
                    s = g.src(n, p)[0]
                    sub[s] = loc[n, p] if (n, p) in loc else env[s]
                # a wire read at several boundary ports may arrive in several registers
                x = g.nodes[n]
                a = []
                for p in range(len(x.ins)):
                    a += loc[n, p] if (n, p) in loc else env[g.src(n, p)[0]]
                nm = x.op.a[1][2:] if x.op.a[1].startswith("e.") else x.op.a[1]
                rs = [[("alloc", n)]] if nm == "QAlloc" else [] if nm == "QFree" else self.w.apply(nm, n, a, x.outs)
                for p, o in enumerate(rs):
                    env[n, p] = o
        qi, bi, po = iter(qs), iter(bs), 0
        new = {}
        try:
            for n, p in outs:
                self.outw[n, p] = env[n, p]
                for i, k in enumerate(kinds(g.nodes[n].outs[p])):
                    c = env[n, p][i]
                    if k == "x":
                        self.env[n, p] = [c]
                    elif k == "p":
                        self.par[f"{sid}_out{po}"] = c
                        po += 1
                    else:
                        new[next(qi if k == "q" else bi)] = c
        except StopIteration:
            raise Bad(f"a subgraph has outputs beyond its registers {qs} {bs}")
        if write:
            self.val.update(new)
            for x in qs:
                if x not in new:
                    self.val[x] = ("consumed", x)
            for x in bs:
                if x not in new:
                    self.val[x] = ("stale", x)

    def wire(self, s):
        if s not in self.env:
            raise Bad(f"the unencoded wire {s} is read before it is produced")
        return self.env[s]

    def barrier(self, data, args, ps):
        p = data.a[1]
        sid = p.a[2][0]
        v = self.subs.get(show(sid))
        if v is None:
            raise Bad("a barrier names an unknown subgraph")
        if len(set(args)) != len(args):
            raise Bad(f"a register is used twice by one barrier: {args}")
        self.subgraph(f"{sid.a[2][0].a[1]}.{sid.a[2][1].a[1]}", v, [x for x in args if x in self.qubits], [x for x in args if x in self.bits], ps, True)


def same(a, b, m):
    """equal up to a renaming of fresh qubits"""
    if a[0] == "alloc" and b[0] == "fresh":
        if m.get(a, b) == b and m.get(b, a) == a:
            m[a], m[b] = b, a
            return True
        return False
    if a[0] != b[0]:
        return False
    if a[0] != "op":
        return a == b
    (n1, x), (n2, y) = a[1], b[1]
    if n1 != n2 or a[2:] != b[2:]:
        return False
    if not isinstance(x, tuple):
        return x == y
    return isinstance(y, tuple) and len(x) == len(y) and all(same(p, q, m) for p, q in zip(x, y))


def norm(t, m):
    if t[0] == "fresh":
        return m.get(t, ("new",))
    if t[0] == "alloc":
        return t if t in m else ("new",)
    if t[0] == "op":
        n, x = t[1]
        return ("op", (n, tuple(norm(y, m) for y in x) if isinstance(x, tuple) else x)) + t[2:]
    return t


def normapps(apps, m):
    return sorted(repr((n, tuple(norm(y, m) for y in x) if isinstance(x, tuple) else x)) for n, x in apps)


def show_term(t):
    if t[0] == "op":
        n, x = t[1]
        return f"{n}({', '.join(show_term(y) for y in x) if isinstance(x, tuple) else x}).{t[2]}" + (f"[{t[3]}]" if t[3] else "")
    return "".join(map(str, t))


def compare(g, v):
    """list of disagreements between the region and its encoding (info, subgraphs)"""
    info, subs = v.a[0]
    ser, extra, ip, op, ob = info.a[2]
    ip = [pstr(x) for x in ip.a[0]]
    want, apps, env = graph_meaning(g, ip)
    try:
        c = Circ(g, ser, subs, ip)
        ex = pytk.opt(extra.a[2][0])
        if ex is not None:
            sv = c.subs[show(ex)]
            c.subgraph("extra", sv, [], [], [pstr(x) for x in extra.a[2][1].a[0]], False)
    except Bad as e:
        return [str(e)]
    out = []
    perm = {reg(x.a[2][1]): reg(x.a[2][0]) for x in c.f("implicit_permutation").a[0]}
    if sorted(perm) != sorted(c.qubits) or sorted(perm.values()) != sorted(c.qubits):
        out.append(f"the final permutation {perm} is not a permutation of {c.qubits}")
    straight = {x.a[2][1].a[2][0].a[1]: x.a[2][0].a[2][0].a[1] for x in extra.a[2][2].a[0]}
    ob = [reg(x) for x in ob.a[0]]
    op = [pstr(x) for x in op.a[0]]
    linked = set() if ex is None else {(n.a[2][0].a[1], q.a[2][0].a[1]) for n, q in (x.a[0] for x in sv.a[2][2].a[0])}
    m, nq, nb, npar = {}, 0, 0, 0
    for p, t in enumerate(g.nodes[g.out].ins):
        if g.src(g.out, p)[0] in linked:
            # reassembly keeps the edge from the stored subgraph
            for i, k in enumerate(kinds(t)):
                if not same(want[p][i], c.outw[g.src(g.out, p)[0]][i], m):
                    out.append(f"output {p} is {show_term(want[p][i])} in the region and {show_term(c.outw[g.src(g.out, p)[0]][i])} in the stored subgraph")
            continue
        for i, k in enumerate(kinds(t)):
            w = want[p][i]
            try:
                if k == "q":
                    got = c.val.get(perm.get(c.qubits[nq]), ("none",))
                    nq += 1
                elif k == "b":
                    got = c.val[ob[nb]]
                    nb += 1
                elif k == "p":
                    got = c.param(op[npar])
                    npar += 1
                elif p in straight:
                    got = ("in", straight[p], 0)
                else:
                    got = c.wire(g.src(g.out, p)[0])[0]
            except Bad as e:
                out.append(str(e))
                continue
            except IndexError:
                out.append(f"output {p} has no register")
                continue
            if not same(w, got, m):
                out.append(f"output {p} is {show_term(w)} in the region and {show_term(got)} in the circuit")
    if out:
        return out
    x, y = normapps(apps, m), normapps(c.w.apps, m)
    if x != y:
        a, b = [z for z in x if z not in y], [z for z in y if z not in x]
        out.append(f"different operations are applied: only in the region {a[:2]}, only in the circuit {b[:2]}" if a or b else "an operation is applied a different number of times")
    return out


def commands(v):
    ser = v.a[0][0].a[2][0]
    return "; ".join(pytk.field(c.a[2][0], "op_type").a[1] + " " + " ".join(reg(x) for x in c.a[2][1].a[0]) for c in pytk.field(ser, "commands").a[0])
