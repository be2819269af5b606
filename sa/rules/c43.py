"""C43: the rewriter made from classes of equivalent circuits is executed abstractly, construction and use, on families of concrete classes
(untouched and permuted wires, unused inputs, members that are no patterns); the circuits are graphs that the wire removal really
changes.  Every rewrite has to replace a member of a class by a member of the same class on the same wires."""
import itertools, random
from interp import ref, V, mk, I, B, S, T, Adt, Tup, Seq, Some, NONE, Ok, Err, is_c, is_t, show, Ret, Call, DEFAULT, UNIT, Incomplete, mk_fn_key
import hg, region, models
from hg import Gr, N, node, inp, outp
from region import opv
from cmds import Cmds, circ, SIG
from rules.c28 import describe, whole

ECC = "tket::optimiser::badger::eq_circ_class::EqCircClass"
PID = "portmatching::PatternID"
OT = "hugr_core::ops::OpType"


def hv(i):
    return Adt("vp::Hg", "Hg", (I(i),))


class Multi(Cmds):
    """the graph interface on several programs: a program is a value, changed in place through a mutable reference"""

    def __init__(self, cx):
        super().__init__(cx)
        self.table = []

    def put(self, g):
        self.table.append(g)
        return hv(len(self.table) - 1)

    def gr(self, st):
        return self.table[st.side["cur"]]

    def new(self, st):
        g = self.gr(st).copy()
        for k in ("inn", "out", "lab", "ports"):
            setattr(g, k, getattr(self.gr(st), k))
        c, p, v = st.side["place"]
        self.it.storev(st, c, p, self.put(g))
        st.side["cur"] = len(self.table) - 1
        return g

    def base(self, I_, st, v):
        v = I_.reify(st, v)
        while v.k == "adt" and v.a[0] == "tket::circuit::Circuit":
            v = v.a[2][0]
        return v if v.k == "adt" and v.a[0] == "vp::Hg" else None

    def __call__(self, I_, st, ci, a):
        d, nm = ci.def_, ci.def_.rsplit("::", 1)[-1]
        self.it = I_
        h = self.base(I_, st, a[0]) if a else None
        if h is not None:
            st.side["cur"] = h.a[2][0].a[1]
            if nm in ("connect", "disconnect", "set_num_ports", "replace_op", "remove_node", "add_node", "insert_hugr"):
                c, p, v = models.seq_target(I_, st, a[0])
                if v.k != "adt" or v.a[0] != "vp::Hg":
                    raise Incomplete(f"changed program {show(v)[:100]}")
                st.side["place"] = (c, p, v)
            if nm in ("clone", "to_owned") and len(a) == 1 and ("Hugr" in ci.full or "clone::Clone" in d or "ToOwned" in d or "Circuit" in d):
                v = I_.reify(st, a[0])
                return circ(h) if v.a[0] == "tket::circuit::Circuit" else h
        if nm == "new" and "IOTrait" in d:
            w = "Input" if "Input" in ci.full.split(" as ")[0] else "Output"
            return Adt("hugr_core::ops::" + w, w, (I_.reify(st, a[0]),))
        if nm == "check_hugr" and "tket::circuit" in d:
            return Ok(UNIT)  # the circuits of these classes are circuits
        if nm == "extract_hugr" and h is not None:
            if self.n(I_, st, a[1]) != min(self.gr(st).nodes):
                raise Incomplete("part of a program taken")
            return Tup(h, T("vp.same"))
        if nm == "extracted_node" and len(a) == 2:
            return I_.reify(st, a[1])
        if nm == "set_entrypoint" and h is not None:
            if self.n(I_, st, a[1]) != self.gr(st).entry:
                raise Incomplete("entry point moved")
            return UNIT
        r = self.ecc(I_, st, ci, d, nm, a, h)
        if r is not DEFAULT:
            return r
        if nm == "get_optype" and len(a) == 2 and h is not None:
            i = self.n(I_, st, a[1])
            x = self.gr(st).nodes[i]
            if x.op.k == "adt" and x.op.a[0] == OT:
                return x.op
        if nm == "signature" and len(a) == 1:
            v = I_.reify(st, a[0])
            if v.k == "adt" and v.a[1] in ("FuncDefn", "DFG"):
                return v.a[2][0]
        if nm in ("try_into", "try_from", "into", "from") and len(a) == 1:
            v = I_.reify(st, a[0])
            if v.k == "adt" and v.a[1] == "FuncTypeBase":
                return Ok(v) if nm.startswith("try") else v
        if nm == "signature_mut" and len(a) == 1:
            c, p, v = models.seq_target(I_, st, a[0])
            if v.k == "adt" and v.a[1] in ("FuncDefn", "DFG"):
                return ref(c, p + (("f", 0, "0", None),))
        return super().__call__(I_, st, ci, a)

    def ecc(self, I_, st, ci, d, nm, a, h):
        if nm == "try_from_circuit" and "CircuitPattern" in ci.full:
            g = self.gr(st)
            st.side["seen"] = st.side.get("seen", ()) + (h.a[2][0].a[1],)
            return Ok(Adt("vp::Pat", "Pat", (h,))) if pattern_ok(g) else Err(T("notapattern"))
        if nm == "from_patterns" and "PatternMatcher" in ci.full:
            ps = I_.reify(st, a[0])
            if ps.k != "seq":
                it = models.as_iter(I_, st, ps)
                return models.drain_all(I_, st, it, lambda s, l: Ret(T("matcher", Seq([I_.reify(s, x) for x in l]))))
            return T("matcher", ps)
        if nm in ("find_matches", "find_matches_iter") and "PatternMatcher" in ci.full:
            m = I_.reify(st, a[0])
            l = [Adt("vp::Match", "Match", (I(i), I(k))) for i in range(len(m.a[1].a[0])) for k in range(1 + i % 2)]
            st.side["order"] = l
            return Seq(l) if nm == "find_matches" else mk("iter", "seq", tuple(l))
        if nm == "pattern_id" and len(a) == 1:
            m = I_.reify(st, a[0])
            return Adt(PID, "PatternID", (m.a[2][0],))
        if nm == "to_rewrite" and len(a) == 3:
            m, r = I_.reify(st, a[0]), I_.reify(st, a[2])
            b = self.base(I_, st, r)
            if b is None:
                raise Incomplete(f"replacement {show(r)[:600]}")
            return Ok(T("rw", m, b))
        if nm == "num_operations" and len(a) == 1 and h is not None:
            return I(len(self.gr(st).lab[2]))
        return DEFAULT

    # the number of ports of a node is a fact of its own: changing the operation does not change it
    def g_num_outputs(self, I_, st, ci, a):
        return I(ports(self.gr(st), self.n(I_, st, a[1]))[1]) if len(a) == 2 else super().g_num_outputs(I_, st, ci, a)

    def g_num_inputs(self, I_, st, ci, a):
        return I(ports(self.gr(st), self.n(I_, st, a[1]))[0]) if len(a) == 2 else super().g_num_inputs(I_, st, ci, a)

    def g_set_num_ports(self, I_, st, ci, a):
        n, i, o = self.n(I_, st, a[1]), self.p(I_, st, a[2]), self.p(I_, st, a[3])
        g = self.new(st)
        g.ports = {**g.ports, n: (i, o)}
        return UNIT

    def g_replace_op(self, I_, st, ci, a):
        n, o = self.n(I_, st, a[1]), I_.reify(st, a[2])
        g = self.new(st)
        x = g.nodes[n]
        g.ports = {**g.ports, n: ports(g, n)}
        while o.k == "adt" and o.a[0] == OT:
            o = o.a[2][0]
        if o.k != "adt" or o.a[1] not in ("Input", "Output", "DFG", "FuncDefn"):
            raise Incomplete(f"operation {show(o)[:200]}")
        row = lambda v: tuple(I_.reify(st, v).a[0])
        if o.a[1] == "Input":
            g.nodes[n] = N(mkop("Input", o), (), row(o.a[2][0]), x.parent)
        elif o.a[1] == "Output":
            g.nodes[n] = N(mkop("Output", o), row(o.a[2][0]), (), x.parent)
        else:
            g.nodes[n] = N(mkop(o.a[1], o), x.ins, x.outs, x.parent)
        return UNIT


def ports(g, n):
    x = g.nodes[n]
    return g.ports.get(n, (len(x.ins) + (n != g.inn), len(x.outs) + (n != g.out)))


def mkop(name, o):
    return Adt(OT, name, (o,))


def pattern_ok(g):
    """connected and not empty"""
    nodes = [n for n, x in g.nodes.items() if x.parent == g.entry and n not in (g.inn, g.out)]
    if not nodes:
        return False
    comp, todo = {nodes[0]}, [nodes[0]]
    while todo:
        n = todo.pop()
        for e in g.edges:
            for u, w in ((e[0], e[2]), (e[2], e[0])):
                if u == n and w in nodes and w not in comp:
                    comp.add(w)
                    todo.append(w)
    return len(comp) == len(nodes)


def member(rng, cls, kind, idx, sig):
    """a circuit of a class: `sig` = list of wires (input label, output label or None, may be left untouched)"""
    g = Gr()
    root = g.add(opv("Module"), [], [])
    fn = g.add(opv(kind), [], [], root)
    g.entry = fn
    ty = lambda l, c: Adt("vp::Ty", l, (B(c),))
    ins = [ty(f"i{cls}.{k}", o is None) for k, (o, free) in enumerate(sig)]
    outs = sorted((o, k) for k, (o, free) in enumerate(sig) if o is not None)
    outs = [ty(f"o{cls}.{o}", False) for o, k in outs]
    g.inn, g.out = g.add(opv("Input"), [], ins, fn), g.add(opv("Output"), outs, [], fn)
    g.nodes[g.inn] = N(mkop("Input", Adt("hugr_core::ops::Input", "Input", (Seq(ins),))), (), ins, fn)
    g.nodes[g.out] = N(mkop("Output", Adt("hugr_core::ops::Output", "Output", (Seq(outs),))), outs, (), fn)
    s = SIG(ins, outs)
    g.nodes[fn] = N(mkop(kind, Adt("hugr_core::ops::" + kind, kind, (s,))), (), (), root)
    cur = {k: (g.inn, k) for k in range(len(sig))}
    touched = {k for k, (o, free) in enumerate(sig) if not free or rng.random() < 0.5}
    ops = []

    def add(name, ws):
        n = g.add(opv(name), [g.nodes[g.inn].outs[k] for k in ws], [g.nodes[g.inn].outs[k] for k in ws], fn)
        for p, k in enumerate(ws):
            g.link(*cur[k], n, p)
            if sig[k][0] is not None:
                cur[k] = (n, p)
        if ops and rng.random() < 0.1:
            g.link(ops[-1], len(g.nodes[ops[-1]].outs), n, len(g.nodes[n].ins))
        ops.append(n)
    t = sorted(touched)
    rng.shuffle(t)
    while t:
        k = t.pop()
        ws = [k]
        while rng.random() < 0.75 and len(ws) < len(touched):
            ws.append(rng.choice([x for x in touched if x not in ws]))
            if ws[-1] in t:
                t.remove(ws[-1])
        rng.shuffle(ws)
        add(f"G{cls}.{idx}.{len(ops)}", ws)
    for k, (o, free) in enumerate(sig):
        if o is not None:
            pos = [i for i, y in enumerate(g.nodes[g.out].ins) if y.a[1] == f"o{cls}.{o}"][0]
            g.link(*cur[k], g.out, pos)
    g.lab = (cls, idx, tuple(ops))
    g.ports = {}
    return g


def classes(rng):
    out = []
    for c in range(rng.randint(1, 3)):
        n = rng.randint(1, 4)
        perm = list(range(n)) if rng.random() < 0.6 else rng.sample(range(n), n)
        sig = [(o, rng.random() < 0.55) for o in perm]
        for _ in range(rng.choice([0, 0, 1])):
            sig.insert(rng.randrange(len(sig) + 1), (None, rng.random() < 0.7))
        kind = rng.choice(["FuncDefn", "DFG"])
        out.append([member(rng, c, kind, m, sig) for m in range(rng.randint(1, 4))])
    return out


def untouched(g):
    """{input label: output label or None} of the wires no operation touches"""
    out = {}
    for p, t in enumerate(g.nodes[g.inn].outs):
        l = g.dst(g.inn, p)
        if not l:
            out[t.a[1]] = None
        elif len(l) == 1 and l[0][0] == g.out:
            out[t.a[1]] = g.nodes[g.out].ins[l[0][1]].a[1]
    return out


def canon(g, gone_in=(), gone_out=()):
    """the circuit with its boundary named by labels, without the named wires"""
    iv = [t.a[1] for t in g.nodes[g.inn].outs]
    ov = [t.a[1] for t in g.nodes[g.out].ins]
    edges = set()
    for s, sp, d, dp in g.edges:
        a = ("in", iv[sp]) if s == g.inn and sp < len(iv) else ("inorder",) if s == g.inn else (s, sp)
        b = ("out", ov[dp]) if d == g.out and dp < len(ov) else ("outbeyond", dp) if d == g.out else (d, dp)
        if a[1:] and a[0] == "in" and a[1] in gone_in or b[0] == "out" and b[1] in gone_out:
            continue
        edges.add((a, b))
    return ([x for x in iv if x not in gone_in], [x for x in ov if x not in gone_out], frozenset(edges),
            tuple(sorted((n, x.op.a[1]) for n, x in g.nodes.items() if n not in (g.inn, g.out, g.entry))))


def consistent(g):
    """rows of the boundary nodes, of the signature and the declared port numbers agree"""
    s = g.nodes[g.entry].op.a[2][0].a[2][0]
    if is_t(s):
        return f"signature {show(s)[:200]}"
    ok = [t for t in s.a[2][0].a[0]] == list(g.nodes[g.inn].outs) and list(s.a[2][1].a[0]) == list(g.nodes[g.out].ins)
    if not ok:
        return "the signature of the circuit is not that of its boundary nodes"
    if ports(g, g.inn) != (0, len(g.nodes[g.inn].outs) + 1) or ports(g, g.out) != (len(g.nodes[g.out].ins) + 1, 0):
        return f"the boundary nodes have {ports(g, g.inn)} and {ports(g, g.out)} ports"


def run(cx):
    rng = random.Random(43)
    mk_ = cx.key(r"^tket::rewrite::ecc_rewriter::ECCRewriter::from_eccs::<.*>$")
    use = cx.key(r"^<tket::rewrite::ecc_rewriter::ECCRewriter as tket::rewrite::Rewriter>::get_rewrites::<.*>$")
    st = {"families": 0, "rewrites": 0, "removed": 0, "skipped": 0}
    for i in range(1500 if cx.thorough else 220):
        cs = classes(rng)
        cx.guard("rewrites stay within a class", f"classes {i}", one, cx, mk_, use, f"classes {i}", cs, st)
    cx.floor("rewrites stay within a class", "families", st["families"], 200)
    cx.floor("rewrites stay within a class", "rewrites", st["rewrites"], 300)
    cx.floor("rewrites stay within a class", "rewrites with removed wires", st["removed"], 60)
    cx.floor("every member leads to the representative and back", "members without a pattern", st["skipped"], 40)
    reps(cx)


def one(cx, mk_, use, lb, cs, st):
    model = Multi(cx)
    vals = Seq([Adt(ECC, "EqCircClass", (model.put(c[0]), Seq([model.put(m) for m in c[1:]]))) for c in cs])
    n0 = len(model.table)
    d = " ; ".join(describe(m, whole(m)[0]) for c in cs for m in c)
    subject = model.put(cs[0][0])

    def post(I_, s, v):
        c = I_.new_cell(s, I_.reify(s, v))
        r = I_.new_cell(s, circ(subject))
        return Call(mk_fn_key(I_, use, use), [c, r], lambda I2, s2, w: Ret(I2.reify(s2, w)))
    it, res = cx.run(mk_, [vals], on_call=model, post=post, user_iter=model.user_iter, recursion=30, loop_decisions=200, max_visits=20000)
    if len(res) != 1 or res[0].kind != "ret":
        return cx.fail("rewrites stay within a class", lb, f"no list of rewrites: {[(o.kind, str(o.st.cutreason), str(o.value)[:200]) for o in res]} for {d}"[:1500])
    s = res[0].st
    v = it.reify(s, res[0].value)
    st["families"] += 1
    T_ = model.table
    pats = None
    seen = [T_[i] for i in s.side.get("seen", ())]
    # the patterns: every member once, without its untouched wires
    by = {}
    for g in seen:
        by.setdefault(g.lab[:2], []).append(g)
    want_pats = []
    for c in cs:
        for m in c:
            u = untouched(m)
            exp = canon(m, set(u), {x for x in u.values() if x})
            got = by.get(m.lab[:2], [])
            cx.check("a pattern is its circuit without the untouched wires", f"{lb} {m.lab[:2]}", len(got) == 1 and canon(got[0]) == exp and not consistent(got[0]),
                     f"member {m.lab[:2]} becomes {[canon(x) for x in got]} ({[consistent(x) for x in got]}), expected {exp}, in {d}"[:1500])
            if pattern_ok(m):
                want_pats.append(m)
            else:
                st["skipped"] += 1
    pl = [x.a[2][0] for x in s.side["order"]] if "order" in s.side else []
    offered = []
    for r in v.a[0]:
        while r.k == "adt" and len(r.a[2]) == 1:
            r = r.a[2][0]
        if not is_t(r, "rw"):
            return cx.fail("rewrites stay within a class", lb, f"rewrite {show(r)[:200]}")
        st["rewrites"] += 1
        pid, k, rep = r.a[1].a[2][0].a[1], r.a[1].a[2][1].a[1], T_[r.a[2].a[2][0].a[1]]
        p = want_pats[pid] if pid < len(want_pats) else None
        orig = [m for c in cs for m in c if m.lab == rep.lab]
        u = untouched(p)
        st["removed"] += bool(u)
        exp = canon(orig[0], set(u), {x for x in u.values() if x})
        ok = canon(rep) == exp and not consistent(rep)
        cx.check("rewrites stay within a class", f"{lb} {p.lab[:2]} {rep.lab[:2]}", p.lab[0] == rep.lab[0] and p.lab[1] != rep.lab[1],
                 f"an occurrence of {p.lab[:2]} is replaced by {rep.lab[:2]} in {d}"[:1200])
        cx.check("on the same wires", f"{lb} {p.lab[:2]} {rep.lab[:2]}", ok and set(u) <= set(untouched(orig[0])),
                 f"{p.lab[:2]} without {sorted(u)} is replaced by {canon(rep)} ({consistent(rep)}), expected {exp}, in {d}"[:1500])
        offered.append((pid, k, rep.lab[:2]))
    expect = []
    for pid, p in enumerate(want_pats):
        ms = cs[p.lab[0]]
        for k in range(1 + pid % 2):
            for m in (ms[1:] if p.lab[1] == 0 else ms[:1]):
                if set(untouched(p)) <= set(untouched(m)):
                    expect.append((pid, k, m.lab[:2]))
    cx.check("every member leads to the representative and back", lb, sorted(offered) == sorted(expect), f"offered {sorted(offered)}, expected {sorted(expect)} for {d}"[:1500])


def reps(cx):
    """the representative of a class is a smallest circuit, and no circuit is lost"""
    key = cx.key(r"EqCircClass::from_circuits::<.*>$")
    rng = random.Random(3)
    for sizes in [()] + [x for n in (1, 2, 3, 4) for x in itertools.product(range(3), repeat=n)]:
        model = Multi(cx)
        gs = []
        for i, k in enumerate(sizes):
            g = member(rng, 0, "DFG", i, [(0, True)])
            g.lab = (0, i, tuple(range(k)))
            gs.append(circ(model.put(g)))
        it, res = cx.run(key, [Seq(gs)], on_call=model, user_iter=model.user_iter, recursion=30, loop_decisions=200, max_visits=20000)
        if len(res) != 1 or res[0].kind != "ret":
            cx.fail("a smallest member represents the class", str(sizes), f"{[(o.kind, str(o.st.cutreason)) for o in res]}")
            continue
        v = it.reify(res[0].st, res[0].value)
        if not sizes:
            cx.check("a smallest member represents the class", "()", v.a[1] == "Err", f"no circuits: {show(v)[:200]}")
            continue
        ok = v.a[1] == "Ok"
        if ok:
            f = v.a[2][0].a[2]
            rep, others = model.table[f[0].a[2][0].a[1]], [model.table[x.a[2][0].a[1]] for x in f[1].a[0]]
            ok = len(rep.lab[2]) == min(sizes) and sorted([rep.lab[1]] + [x.lab[1] for x in others]) == list(range(len(sizes)))
        cx.check("a smallest member represents the class", str(sizes), ok, f"sizes {sizes}: {show(v)[:300]}")
