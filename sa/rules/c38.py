"""C38: splitting a circuit into chunks and putting them together again is executed abstractly, as one run, on families of concrete
circuits; between the two steps chunks are replaced by other circuits of the same type (direct wires, crossed wires, fewer or more
operations).  The circuit that comes out has to be the composition of the chunks along the wires of the original circuit."""
import random
from interp import ref, V, mk, I, B, S, T, Adt, Tup, Seq, Some, NONE, Ok, Err, is_c, is_t, show, Ret, Call, DEFAULT, UNIT, Incomplete, mk_fn_key
import hg, region, models
from hg import Gr, N, node, inp, outp
from region import opv, sub, convex
from cmds import Cmds, circ, SIG
from rules.c28 import describe, whole
from rules.c43 import Multi, hv, mkop, OT
from rules.c44 import Fold

CC = "tket::passes::chunks::CircuitChunks"


def entry(kind, sig, name):
    return mkop(kind, Adt("hugr_core::ops::" + kind, kind, (sig,) + ((S(name),) if kind == "FuncDefn" else ())))


def frame(kind, name, ins, outs):
    """a program with an empty region"""
    g = Gr()
    root = g.add(opv("Module"), [], [])
    g.entry = g.add(entry(kind, SIG(ins, outs), name), [], [], root)
    g.inn, g.out = g.add(opv("Input"), [], ins, g.entry), g.add(opv("Output"), outs, [], g.entry)
    g.lab, g.ports, g.src_, g.dst_ = None, {}, None, None
    return g


class Chunks(Multi):
    def new(self, st):
        old = self.gr(st)
        g = super().new(st)
        for k in ("src_", "dst_"):
            setattr(g, k, getattr(old, k, None))
        return g

    def num(self, I_, st, v):
        v = I_.reify(st, v)
        if is_c(v):
            return v.a[1]
        if is_t(v, "apply") and is_t(v.a[1], "opcost") and self.op(I_, st, v.a[2]) is not None:
            return self.cost[self.op(I_, st, v.a[2])]
        return None

    def part(self, st, ns):
        return Fold.part(self, st, ns)

    def kids(self, g):
        return [n for n, x in sorted(g.nodes.items()) if x.parent == g.entry and n not in (g.inn, g.out)]

    def __call__(self, I_, st, ci, a):
        d, nm = ci.def_, ci.def_.rsplit("::", 1)[-1]
        self.it = I_
        if nm in ("call", "call_mut", "call_once") and len(a) == 2 and is_t(I_.reify(st, a[0]), "opcost"):
            v = I_.reify(st, a[1]).a[0][0]
            i = self.op(I_, st, v)
            if i is None:
                raise Incomplete("cost of something else")
            return I(self.cost[i])
        if self.generic:
            if nm == "default" and not a and ci.desty is not None and str(ci.desty) in ("C",):
                return I(0)
            if nm in ("add", "sub_cost") and len(a) == 2:
                x, y = self.num(I_, st, a[0]), self.num(I_, st, a[1])
                if x is not None and y is not None:
                    return I(x + y if nm == "add" else x - y)
            if nm == "as_isize":
                return I(self.num(I_, st, a[0]))
        if nm == "take" and "mem" in d and a:
            c, p = I_.deref(a[0])
            x = I_.load(st, c, p)
            if x.k == "adt" and x.a[0] == "vp::Hg":
                I_.storev(st, c, p, T("taken"))
                return x
        h = self.base(I_, st, a[0]) if a else None
        if h is not None and nm in ("connect", "disconnect"):
            c, p, v = models.seq_target(I_, st, a[0])
            if v.k == "adt" and v.a[0] == "vp::Hg":
                st.side["place"] = (c, p, v)
        if nm == "new" and "builder" in d and ("FunctionBuilder" in ci.full or "FuncID" in ci.full):
            r = self.sigt(I_, st, a[1])
            s = I_.reify(st, a[0])
            if r is None or not is_c(s, "str"):
                raise Incomplete(f"function {show(s)[:80]} built")
            return Ok(Adt("vp::FB", "FB", (self.put(frame("FuncDefn", s.a[1], r[0], r[1])),)))
        if nm == "hugr_mut" and a:
            c, p, v = models.seq_target(I_, st, a[0])
            if v.k == "adt" and v.a[0] == "vp::FB":
                return ref(c, p + (("f", 0, "0", None),))
        if nm in ("new", "from_entrypoint") and "ConvexChecker" in ci.full:
            return T("checker")
        if nm == "func_name" and a:
            v = I_.reify(st, a[0])
            if v.k == "adt" and v.a[1] == "FuncDefn":
                return v.a[2][1]
        if nm in ("inner_function_type", "dataflow_signature") and a:
            v = I_.reify(st, a[0])
            while v.k == "adt" and v.a[0] == OT:
                v = v.a[2][0]
            if v.k == "adt" and v.a[1] in ("FuncDefn", "DFG"):
                return Some(v.a[2][0])
        if nm in ("from_ports", "from_wires") and "PortMap" in d:
            raise Incomplete("port map")
        if nm in ("try_from_nodes", "try_from_nodes_with_checker") and "SiblingSubgraph" in d:
            b = self.base(I_, st, a[1])
            st.side["cur"] = b.a[2][0].a[1]
            ns = I_.reify(st, a[0])
            if ns.k != "seq":
                raise Incomplete(f"nodes of the part {show(ns)[:100]}")
            ns = [x.a[2][0].a[1] for x in ns.a[0]]
            st.side["asked"] = st.side.get("asked", ()) + (tuple(ns),)
            return self.part(st, ns)
        if nm == "try_new_dataflow_subgraph" and "SiblingSubgraph" in d:
            g = self.table[h.a[2][0].a[1]]
            return Ok(sub(self.kids(g), [], [])) if self.kids(g) else Err(T("empty"))
        if nm == "extract_subgraph":
            s, b = I_.reify(st, a[0]), self.base(I_, st, a[1])
            g = self.table[b.a[2][0].a[1]]
            return self.put(self.extracted(g, s))
        if nm == "insert_subgraph" and h is not None:
            return self.insert(I_, st, a)
        if nm in ("node_metadata_map", "node_metadata_map_mut") and len(a) == 2 and h is not None:
            g = self.table[h.a[2][0].a[1]]
            n = self.n(I_, st, a[1])
            if n != g.entry:
                raise Incomplete("metadata of a node in the circuit")
            if nm == "node_metadata_map":
                return T("metadata", h)
            c = I_.new_cell(st, T("metadata", T("new")))
            st.side["metacell"] = c
            return c
        if nm == "get_optype" and len(a) == 2 and h is not None:
            g = self.table[h.a[2][0].a[1]]
            st.side["cur"] = h.a[2][0].a[1]
            n = self.n(I_, st, a[1])
            if g.nodes[n].op.a[0] == OT:
                return g.nodes[n].op
        return super().__call__(I_, st, ci, a)

    def extracted(self, g, s):
        ns = [x.a[2][0].a[1] for x in s.a[2][0].a[0]]
        ins = [(x.a[0][0].a[0][0].a[2][0].a[1], x.a[0][0].a[0][1].a[2][0].a[1]) for x in s.a[2][1].a[0]]
        outs = [(x.a[0][0].a[2][0].a[1], x.a[0][1].a[2][0].a[1]) for x in s.a[2][2].a[0]]
        h = frame("FuncDefn", "Chunk", [g.nodes[n].ins[p] for n, p in ins], [g.nodes[n].outs[p] for n, p in outs])
        m = {n: h.add(g.nodes[n].op, g.nodes[n].ins, g.nodes[n].outs, h.entry) for n in ns}
        for e in g.edges:
            if e[0] in m and e[2] in m:
                h.link(m[e[0]], e[1], m[e[2]], e[3])
        for i, (n, p) in enumerate(ins):
            h.link(h.inn, i, m[n], p)
        for i, (n, p) in enumerate(outs):
            h.link(m[n], p, h.out, i)
        h.src_ = [g.src(n, p)[0] for n, p in ins]
        h.dst_ = outs
        return h

    def insert(self, I_, st, a):
        c, p, v = models.seq_target(I_, st, a[0])
        st.side["place"], st.side["cur"] = (c, p, v), v.a[2][0].a[1]
        root = self.n(I_, st, a[1])
        b = self.base(I_, st, a[2])
        h = self.table[b.a[2][0].a[1]]
        s = I_.reify(st, a[3])
        ns = [x.a[2][0].a[1] for x in s.a[2][0].a[0]]
        g = self.new(st)
        if root != g.entry:
            raise Incomplete("inserted elsewhere")
        m = {n: g.add(h.nodes[n].op, h.nodes[n].ins, h.nodes[n].outs, root) for n in ns}
        for e in h.edges:
            if e[0] in m and e[2] in m:
                g.link(m[e[0]], e[1], m[e[2]], e[3])
        r = mk("map", "hashbrown::HashMap", ())
        for n in ns:
            r = models.map_put(I_, st, r, node(n), node(m[n]))
        return r

    # operations of different programs are told apart by their identity, kept in the operation
    def g_is_linked(self, I_, st, ci, a):
        return super().g_is_linked(I_, st, ci, a)


def rows(g):
    return list(g.nodes[g.inn].outs), list(g.nodes[g.out].ins)


def value(g, env, w, memo):
    """the value at a wire of a program; env: values of its inputs"""
    if w[0] == g.inn:
        return env[w[1]]
    if w not in memo:
        memo[w] = None
        x = g.nodes[w[0]]
        args = []
        for p in range(len(x.ins)):
            l = g.src(w[0], p)
            args.append(value(g, env, l[0], memo) if len(l) == 1 else ("bad", len(l)))
        memo[w] = ("v", x.op, tuple(args), w[1])
    if memo[w] is None:
        raise Incomplete("a circuit in the reassembled region")
    return memo[w]


def evaluate(g, env):
    """(outputs, multiset of operations with their inputs) of a program"""
    memo = {}
    outs = []
    for p in range(len(g.nodes[g.out].ins)):
        l = g.src(g.out, p)
        outs.append(value(g, env, l[0], memo) if len(l) == 1 else ("bad", len(l)))
    ops = []
    for n, x in g.nodes.items():
        if x.parent == g.entry and n not in (g.inn, g.out):
            args = tuple(value(g, env, g.src(n, p)[0], memo) if len(g.src(n, p)) == 1 else ("bad", len(g.src(n, p))) for p in range(len(x.ins)))
            ops.append((x.op, args))
    return outs, ops


def other(rng, g, tag):
    """another circuit of the type of a chunk: some wires go straight through (crossed where types agree), some through new operations"""
    ins, outs = rows(g)
    h = frame("FuncDefn", "Chunk", ins, outs)
    h.src_, h.dst_ = g.src_, g.dst_
    lin = lambda t: not t.a[2][0].a[1]
    k = [0]

    def op(args, tys):
        k[0] += 1
        n = h.add(opv("New", I(tag * 100 + k[0])), [ty for _, ty in args], tys, h.entry)
        for p, (w, _) in enumerate(args):
            h.link(*w, n, p)
        return [((n, p), t) for p, t in enumerate(tys)]
    avail = [((h.inn, p), t) for p, t in enumerate(ins)]
    for i, (w, t) in enumerate(list(avail)):
        if rng.random() < 0.25:
            x = op([(w, t)], [t])[0]
            if lin(t):
                avail[avail.index((w, t))] = x
            else:
                avail.append(x)
    want = list(enumerate(outs))
    rng.shuffle(want)
    free = [x for x in avail if lin(x[1])]
    rng.shuffle(free)
    rest = []
    for p, t in want:
        pool = [x for x in (free if lin(t) else avail) if x[1] == t]
        if pool and rng.random() < 0.85:
            w = rng.choice(pool)
            if lin(t):
                free.remove(w)
            h.link(*w[0], h.out, p)
        else:
            rest.append((p, t))
    if rest or free:
        made = op(free, [t for _, t in rest])
        for (w, _), (p, _) in zip(made, rest):
            h.link(*w, h.out, p)
    return h


def source(rng):
    allowed = None
    ins = [rng.choice([region.Q, region.Q, region.Q, region.BIT, region.A, region.ANGLE]) for _ in range(rng.randint(0, 5))]
    g = region.circuit(rng, ins, rng.randint(0, 7), 0.0, allowed, 0)
    kind = rng.choice(["FuncDefn", "FuncDefn", "DFG"])
    outs = g.nodes[g.out].ins
    name = rng.choice(["", "main", "other"])
    g.nodes[g.entry] = N(entry(kind, SIG(ins, outs), name), [], [], 0)
    for n in list(g.nodes):
        x = g.nodes[n]
        if n not in (g.inn, g.out, g.entry) and x.parent == g.entry:
            g.nodes[n] = N(opv(x.op.a[1], I(n)), x.ins, x.outs, x.parent)
    g.lab, g.ports, g.src_, g.dst_ = None, {}, None, None
    g.name = name if kind == "FuncDefn" else ""
    return g


def run(cx):
    rng = random.Random(38)
    keys = {"split": cx.key(r"^tket::passes::chunks::CircuitChunks::split$"),
            "cost": cx.key(r"^tket::passes::chunks::CircuitChunks::split_with_cost::<C, .*>$"),
            "back": cx.key(r"^tket::passes::chunks::CircuitChunks::reassemble$")}
    st = {"chunks": 0, "circuits": 0, "replaced": 0, "through": 0, "shared": 0}
    for i in range(1200 if cx.thorough else 260):
        g = source(rng)
        cost = rng.random() < 0.5
        size = rng.choice([0, 1, 1, 2, 2, 3, 4, 20])
        costs = {n: rng.choice([0, 1, 1, 1, 2, 3]) for n in g.nodes}
        swap = rng.choice([0, 0, 0.5, 1.0])
        cx.guard("the pieces put together are the circuit", f"circuit {i}", one, cx, keys, f"circuit {i}", g, cost, size, costs, swap, random.Random(i), st)
    cx.floor("the pieces put together are the circuit", "circuits", st["circuits"], 200)
    cx.floor("a chunk is within the limit", "chunks", st["chunks"], 250)
    cx.floor("the pieces put together are the circuit", "replaced chunks", st["replaced"], 60)
    cx.floor("the pieces put together are the circuit", "wires straight through a replaced chunk", st["through"], 40)
    cx.floor("the pieces put together are the circuit", "chunks with two inputs of one wire", st["shared"], 4)


def one(cx, keys, lb, g, cost, size, costs, swap, rng, st):
    m = Chunks(cx)
    m.cost, m.generic = costs, cost
    subject = m.put(g)
    d = f"{describe(g, whole(g)[0])}, limit {size}{' of costs ' + str({n: costs[n] for n in m.kids(g)}) if cost else ''}"
    seen = {}

    def post(I_, s, v):
        v = I_.reify(s, v)
        if v.k != "adt" or v.a[0] != CC:
            raise Incomplete(f"result of splitting {show(v)[:200]}")
        parts = []

        def sw(x):
            if x.k == "adt" and x.a[0] == "vp::Hg":
                h = m.table[x.a[2][0].a[1]]
                if h.src_ is None:
                    return x
                parts.append(h)
                if rng.random() < swap:
                    o = other(rng, h, len(parts))
                    seen.setdefault("parts", []).append(o)
                    st["replaced"] += 1
                    st["through"] += sum(1 for e in o.edges if e[0] == o.inn and e[2] == o.out)
                    return m.put(o)
                seen.setdefault("parts", []).append(h)
                return x
            if x.k == "adt":
                return Adt(x.a[0], x.a[1], tuple(sw(y) for y in x.a[2]))
            if x.k == "seq":
                return Seq([sw(y) for y in x.a[0]])
            if x.k == "tup":
                return Tup(*[sw(y) for y in x.a[0]])
            return x
        v = sw(v)
        seen["orig"] = parts
        return Call(mk_fn_key(I_, keys["back"], keys["back"]), [v], lambda I2, s2, w: Ret(I2.reify(s2, w)))
    c = lambda it, s: None
    args = [circ(subject), I(size)] + ([T("opcost")] if cost else [])
    it, res = cx.run(keys["cost" if cost else "split"], args, on_call=m, post=post, user_iter=m.user_iter, recursion=30, loop_decisions=200, max_visits=20000)
    if len(res) != 1 or res[0].kind != "ret":
        return cx.fail("the pieces put together are the circuit", lb, f"no circuit: {[(o.kind, str(o.st.cutreason), show(o.value)[:200] if o.value is not None and o.kind == 'ret' else str(o.value)[:200]) for o in res]} for {d}"[:1500])
    s = res[0].st
    v = it.reify(s, res[0].value)
    st["circuits"] += 1
    orig, parts = seen.get("orig", []), seen.get("parts", [])
    st["chunks"] += len(parts)
    st["shared"] += sum(1 for h in orig if len(set(h.src_)) < len(h.src_))
    # the chunks: every operation in one of them, none over the limit
    ids = lambda h: [x.op for n, x in h.nodes.items() if x.parent == h.entry and n not in (h.inn, h.out)]
    got = [o for h in orig for o in ids(h)]
    want = [g.nodes[n].op for n in m.kids(g)]
    cx.check("every operation in one chunk", lb, sorted(map(show, got)) == sorted(map(show, want)), f"{[[show(o) for o in ids(h)] for h in orig]} for {d}"[:1200])
    for i, h in enumerate(orig):
        k = sum(costs[o.a[2][0].a[1]] for o in ids(h)) if cost else len(ids(h))
        cx.check("a chunk is within the limit", f"{lb} {i}", k <= size or len([o for o in ids(h) if not cost or costs[o.a[2][0].a[1]]]) == 1,
                 f"chunk {[show(o) for o in ids(h)]} has {k}: {d}"[:900])
    # the composition of the chunks
    env = {(g.inn, p): ("in", p) for p in range(len(g.nodes[g.inn].outs))}
    ops = []
    todo = list(parts)
    while todo:
        h = next((h for h in todo if all(w in env for w in h.src_)), None)
        if h is None:
            return cx.fail("the pieces put together are the circuit", lb, f"the chunks depend on each other in a circle: {d}"[:900])
        todo.remove(h)
        o, l = evaluate(h, [env[w] for w in h.src_])
        env.update(zip(h.dst_, o))
        ops += l
    exp = [env.get(g.src(g.out, p)[0]) for p in range(len(g.nodes[g.out].ins))]
    ok = v.k == "adt" and v.a[1] == "Ok"
    r = m.base(it, s, v.a[2][0]) if ok else None
    if r is None:
        return cx.fail("the pieces put together are the circuit", lb, f"{show(v)[:300]} for {d}"[:900])
    r = m.table[r.a[2][0].a[1]]
    o, l = evaluate(r, [("in", p) for p in range(len(r.nodes[r.inn].outs))])
    why = f"{describe(r, whole(r)[0])} from {[describe(h, whole(h)[0]) for h in parts]} of {d}"
    cx.check("the pieces put together are the circuit", lb, rows(r) == rows(g) and o == exp, f"outputs {o}, expected {exp}: {why}"[:2500])
    cx.check("no operation is lost or added", lb, sorted(map(repr, l)) == sorted(map(repr, ops)), f"operations {sorted(map(repr, l))}, expected {sorted(map(repr, ops))}: {why}"[:2500])
    ent = r.nodes[r.entry].op.a[2][0]
    meta = it.reify(s, s.side["metacell"]) if "metacell" in s.side else None
    cx.check("name, signature and metadata are kept", lb, ent.a[2][0] == SIG(*rows(g)) and ent.a[2][1] == S(g.name) and meta == T("metadata", subject),
             f"{show(ent)[:200]} with metadata {meta is not None and show(meta)}: {d}"[:900])
