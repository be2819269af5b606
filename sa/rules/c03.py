"""C03: the resolver of the control and dagger modifiers is executed abstractly for every core gate, number of controls,
dagger flag and number of borrowed work qubits; the circuit it inserts is read off as a graph of core gates and its unitary is
compared with the controlled or inverse oracle matrix of the gate (up to one global phase of the whole circuit, so relative
phases between control values are exact)."""
import math, cmath, itertools
import graph, qsem
from interp import *
from qsem import Shape, Circ

TK = "tket::ops::TketOp"
MR = "tket::modifier::modifier_resolver::ModifierResolver"
CM = "tket::modifier::CombinedModifier"
W0 = "hugr_core::builder::dataflow::DFGBuilder<hugr_core::hugr::Hugr>>"
# sqrt(X) with its documented phase: under a control the phase is observable
SQX = [[0.5 + 0.5j, 0.5 - 0.5j], [0.5 - 0.5j, 0.5 + 0.5j]]
EXACT = {"V": lambda: SQX, "Vdg": lambda: qsem.dag(SQX)}
NONU = ("Measure", "MeasureFree", "QAlloc", "TryQAlloc", "QFree", "Reset")
ANG = [0.37, 1.13, -2.4, 2.9, 0.81, -0.53, 1.9]


def ext(i):
    return T("w", T("ext", I(i)), T("outp", I(0)))


def adt(cx, path, vals):
    ad = cx.P.adts.get(path)
    if not ad or len(ad["variants"]) != 1:
        raise Incomplete(f"{path} is not a struct of the analysed program")
    v = ad["variants"][0]
    return Adt(path, v["name"], [vals.get(f, T("in", "field:" + f)) for f in v["fields"]])


def field(cx, path, val, name):
    fs = cx.P.adts[path]["variants"][0]["fields"]
    if name not in fs or val.k != "adt":
        raise Incomplete(f"field {name} of {path}")
    return val.a[2][fs.index(name)]


def resolver(cx, nc, dag):
    mods = adt(cx, CM, {"control": I(nc), "dagger": B(dag), "accum_ctrl": Seq([I(nc)]), "power": B(False)})
    return adt(cx, MR, {"modifiers": mods, "controls": Seq([ext(i) for i in range(nc)])})


def sparse(prog, n, b):
    st = {b: 1 + 0j}
    for u, qs in prog:
        k = len(qs)
        pos = [n - 1 - q for q in qs]
        mask = sum(1 << p for p in pos)
        new = {}
        for x, amp in st.items():
            c = 0
            for p in pos:
                c = c << 1 | (x >> p & 1)
            base = x & ~mask
            for r in range(1 << k):
                w = u[r][c]
                if w:
                    y = base
                    for i, p in enumerate(pos):
                        if r >> (k - 1 - i) & 1:
                            y |= 1 << p
                    new[y] = new.get(y, 0) + w * amp
        st = {x: a for x, a in new.items() if abs(a) > 1e-13}
    return st


def expected(u, nc, nq, na, n):
    """column function of controls(nc) x gate(nq) x identity(na)"""
    def col(b):
        cb = b >> (nq + na)
        if cb != (1 << nc) - 1:
            return {b: 1}
        g = b >> na & ((1 << nq) - 1)
        low = b & ((1 << na) - 1)
        return {(cb << (nq + na)) | (r << na) | low: u[r][g] for r in range(1 << nq) if abs(u[r][g]) > 1e-13}
    return col


def compare(progf, colf, n):
    ph = None
    for b in range(1 << n):
        x, y = sparse(progf, n, b), colf(b)
        if ph is None:
            k = max(y, key=lambda i: abs(y[i]))
            if k not in x or abs(abs(x[k]) - abs(y[k])) > 1e-7:
                return f"column {b:0{n}b} differs"
            ph = x[k] / y[k]
        for k in set(x) | set(y):
            if abs(x.get(k, 0) - ph * y.get(k, 0)) > 1e-7:
                return f"acting on basis state |{b:0{n}b}> gives amplitude {x.get(k, 0):.3f} at |{k:0{n}b}>, expected {ph * y.get(k, 0):.3f} (qubits: controls, gate, work)"
    return None


def eval_case(cx, it, o, op, nc, dag, na):
    """None, or the description of what is wrong"""
    nq, npar, mat = qsem.CORE[op]
    mat = EXACT.get(op, mat)
    v = it.reify(o.st, o.value)
    pv = v.a[2][0]
    fs = cx.P.adts[pv.a[0]]["variants"][0]["fields"]
    inc, out = pv.a[2][fs.index("incoming")], pv.a[2][fs.index("outgoing")]
    if inc.k != "seq" or out.k != "seq":
        raise Incomplete("port vector of unknown length")
    inc, out = inc.a[0], out.a[0]
    if len(inc) < nq + npar or len(out) < nq:
        return f"port map has {len(inc)} inputs and {len(out)} outputs, the gate has {nq + npar} and {nq}"
    self_ = it.reify(o.st, it.argvals[0])
    mods = field(cx, MR, self_, "modifiers")
    if field(cx, CM, mods, "control") != I(nc) or field(cx, CM, mods, "dagger") != B(dag):
        return f"the modifiers in force are not restored: {show(mods)}"
    ctr = field(cx, MR, self_, "controls")
    anc = it.reify(o.st, it.argvals[4])
    if ctr.k != "seq" or len(ctr.a[0]) != nc:
        return f"{show(ctr)} control wires left, expected {nc}"
    if anc.k != "seq" or len(anc.a[0]) != na:
        return f"{show(anc)} work wires left, expected {na}"
    # boundary: qubit index = controls 0..nc, gate nc..nc+nq, work ...
    bin_, bout = {}, {}
    def dw(x):
        nd, p = x.a[2]
        return nd, p

    def put(x, q, what):
        nd, p = dw(x)
        i = p.a[1].a[1]
        if is_t(p, "inp"):
            if (nd, i) in bin_:
                raise Shape("two wires are attached to one input port")
            bin_[(nd, i)] = q
        else:
            bout[q] = (nd, i)
    for i in range(nq):
        put(inc[i], nc + i, "in")
        put(out[i], nc + i, "out")
        if {is_t(dw(inc[i])[1], "inp"), is_t(dw(out[i])[1], "inp")} != {True, False}:
            return f"qubit {i} of the gate is not mapped to one input and one output of the new circuit"
        if is_t(dw(inc[i])[1], "inp") == dag:
            return f"the data-flow direction of qubit {i} is {'not ' if dag else ''}reversed"
    params = []
    for j in range(npar):
        nd, p = dw(inc[nq + j])
        if not is_t(p, "inp"):
            return "an angle input is mapped to an output"
        params.append((nd, p.a[1].a[1]))
    return run_graph(o.side, bin_, bout, params, ctr.a[0], anc.a[0], mat, nc, nq, na, dag)


def run_graph(side, bin_, bout, params, ctr, anc, mat, nc, nq, na, dag, extra=()):
    n = nc + nq + na
    npar = len(params)
    # wires: inw i = qubit i for controls/work, gate qubits and angles from boundary ports
    boundary = {}
    for (nd, i), q in bin_.items():
        boundary[(nd, i)] = T("inw", I(q))
    for j, (nd, i) in enumerate(params):
        boundary[(nd, i)] = T("inw", I(n + j))
    for nd, i in extra:
        boundary[(nd, i)] = T("inw", I(n))
    # ext wires: controls 0..nc, then work
    wire, node = graph.wires_of(side, boundary)

    outs = []
    for q in range(n):
        if q < nc:
            w = ctr[q]
            outs.append(wire(w.a[1], w.a[2].a[1].a[1]))
        elif q < nc + nq:
            outs.append(wire(*bout[q]))
        else:
            w = anc[q - nc - nq]
            outs.append(wire(w.a[1], w.a[2].a[1].a[1]))
    angles = [()] if npar == 0 and not extra else [tuple(ANG[(a + 3 * j) % len(ANG)] for j in range(max(npar, 1))) for a in range(len(ANG))]
    for angs in angles:
        env = [("q", i) for i in range(n)] + [a / math.pi for a in angs]
        c = Circ(env)
        res = c.finish([o for o in outs])
        if [r for r in res] != [("q", i) for i in range(n)]:
            return f"the qubits come out in the order {res}"
        for m, opn in enumerate(side.get("gops", ())):
            if opn.k == "adt" and (opn.a[0].endswith("GlobalPhase")):
                nd = node(T("gn", I(m)))
                c.node(nd)
            elif opn.k == "adt" and opn.a[0] == TK:
                nd = node(T("gn", I(m)))
                if nd not in c.memo:
                    return f"the new {opn.a[1]} node is not part of the circuit"
        if any(isinstance(p[0], str) for p in c.prog):
            return "non-unitary operation"
        prog = c.prog
        u = mat(*angs)
        if dag:
            u = qsem.dag(u)
        r = compare(prog, expected(u, nc, nq, na, n), n)
        if r:
            return r + (f" at angle {angs}" if angs else "") + f"; circuit {c.names}"
    return None


def run(cx):
    ks = cx.key(r"modify_tket_op::<" + W0.replace("<", "<") + "$", many=True)
    key = ks[0]
    vs = cx.P.adt_variants(TK)
    if not vs:
        return cx.fail("coverage", "TketOp", "the core gate set was not found")
    total = 8 if cx.thorough else 5
    ncases = 0
    for v in vs:
        op = v["name"]
        nq = qsem.CORE[op][0] if op in qsem.CORE else qsem.ARITY.get(op, 1)
        cx.check("coverage", f"oracle for {op}", op in qsem.CORE or op in NONU, f"core operation {op} has no entry in the oracle table")
        for nc in range(0, 6):
            for na in range(0, 3):
                if nc + nq + na > total:
                    continue
                for dag in (False, True):
                    label = f"{op} with {nc} controls{', inverted' if dag else ''}{f', {na} work qubits' if na else ''}"

                    def go():
                        nonlocal ncases
                        it, outs = cx.run(key, {"self": resolver(cx, nc, dag), "op": Adt(TK, op, ()), "n": T("in", "n"),
                                                "ancilla": Seq([T("w", T("ext", I(nc + nq + i)), T("outp", I(0))) for i in range(na)]),
                                                "new_fn": T("newfn")},
                                          on_call=graph.Graph(), recursion=60, max_depth=600, max_steps=5_000_000)
                        oks = [o for o in outs if o.kind == "ret"]
                        if len(outs) != 1 or not oks:
                            raise Incomplete(f"{len(outs)} paths: " + "; ".join(str(o.st.cutreason or o.value)[:200] for o in outs[:3]))
                        o = oks[0]
                        r = it.reify(o.st, o.value)
                        if op in NONU:
                            if nc or dag:
                                return cx.check("non-unitary operations are refused", label, r.a[1] == "Err",
                                                f"{op} cannot be controlled or inverted but is accepted")
                            return cx.check("unmodified operations are kept", label, r.a[1] == "Ok" and [x for x in o.side.get("gops", ())] == [Adt(TK, op, ())],
                                            "not copied unchanged")
                        if r.a[1] != "Ok":
                            return cx.fail("controlled or inverse unitary", label, f"refused: {show(r)[:300]}")
                        ncases += 1
                        try:
                            bad = eval_case(cx, it, o, op, nc, dag, na)
                        except Shape as e:
                            bad = f"malformed circuit: {e}"
                        cx.check("controlled or inverse unitary", label, bad is None, f"the circuit inserted for {label} is not the {'inverse of the ' if dag else ''}"
                                 f"{'controlled ' if nc else ''}gate: {bad}")
                    cx.guard("controlled or inverse unitary", label, go)
    cx.floor("coverage", "gate/control/dagger cases", ncases, 180)
    phase(cx)
    push(cx)
    inner(cx)


def phase(cx):
    """controlled and inverted global phase"""
    key = cx.key(r"modify_global_phase::<" + W0 + "$", many=True)[0]
    for nc in range(0, 5 if cx.thorough else 4):
        for na in range(0, 2):
            for dag in (False, True):
                label = f"global phase with {nc} controls{', inverted' if dag else ''}{f', {na} work qubits' if na else ''}"

                def go():
                    it, outs = cx.run(key, {"self": resolver(cx, nc, dag), "n": T("in", "n"),
                                            "ancilla": Seq([T("w", T("ext", I(nc + i)), T("outp", I(0))) for i in range(na)]), "new_fn": T("newfn")},
                                      on_call=graph.Graph(), recursion=60, max_depth=600, max_steps=5_000_000)
                    if len(outs) != 1 or outs[0].kind != "ret":
                        raise Incomplete(f"{len(outs)} paths: " + "; ".join(str(o.st.cutreason or o.value)[:200] for o in outs[:3]))
                    o = outs[0]
                    r = it.reify(o.st, o.value)
                    if r.a[1] != "Ok":
                        return cx.fail("controlled or inverse phase", label, f"refused: {show(r)[:300]}")
                    ports = r.a[2][0]
                    if ports.k != "seq":
                        raise Incomplete(f"ports {show(ports)[:200]}")
                    self_ = it.reify(o.st, it.argvals[0])
                    mods = field(cx, MR, self_, "modifiers")
                    if field(cx, CM, mods, "control") != I(nc) or field(cx, CM, mods, "dagger") != B(dag):
                        return cx.fail("controlled or inverse phase", label, f"the modifiers in force are not restored: {show(mods)}")
                    ctr, anc = field(cx, MR, self_, "controls"), it.reify(o.st, it.argvals[3])
                    if ctr.k != "seq" or anc.k != "seq" or len(ctr.a[0]) != nc or len(anc.a[0]) != na:
                        return cx.fail("controlled or inverse phase", label, f"wires left: {show(ctr)[:100]} and {show(anc)[:100]}")
                    extra = [(p.a[0][0], p.a[0][1].a[1].a[1]) for p in ports.a[0]]
                    u1 = lambda t: [[cmath.exp(1j * t)]]
                    try:
                        bad = run_graph(o.side, {}, {}, [], ctr.a[0], anc.a[0], u1, nc, 0, na, dag, extra=extra)
                    except Shape as e:
                        bad = f"malformed circuit: {e}"
                    cx.check("controlled or inverse phase", label, bad is None, f"the circuit inserted for the {label} is wrong: {bad}")
                cx.guard("controlled or inverse phase", label, go)


def push(cx):
    """the modifiers of a chain accumulate: inversion toggles, controls add up and are remembered in order"""
    key = cx.key(r"tket::modifier::CombinedModifier::push$")
    MOD = "tket::extension::modifier::Modifier"
    kinds = [v["name"] for v in cx.P.adt_variants(MOD)]
    cx.check("modifier accumulation", "modifier kinds", sorted(kinds) == ["ControlModifier", "DaggerModifier", "PowerModifier"], f"modifiers {kinds}")
    for k in kinds:
        for d in (False, True):
            label = f"{k} onto {'inverted' if d else 'plain'}"

            def go():
                def on_call(it, st, c, args):
                    if "from_extension_op" in c.fn or "from_extension_op" in c.def_:
                        return Ok(Adt(MOD, k, ()))
                    if c.fn.endswith("as_nat"):
                        return Some(I(3))
                    return DEFAULT
                it, outs = cx.run(key, {"self": adt(cx, CM, {"control": I(2), "dagger": B(d), "accum_ctrl": Seq([I(2)]), "power": B(False)}), "ext_op": T("in", "op")}, on_call=on_call)
                for o in outs:
                    if o.kind != "ret":
                        raise Incomplete(f"path {o.kind}")
                    m = it.reify(o.st, it.argvals[0])
                    got = (field(cx, CM, m, "control"), field(cx, CM, m, "dagger"), field(cx, CM, m, "accum_ctrl"))
                    want = (I(2), B(d), Seq([I(2)]))
                    if k == "ControlModifier":
                        want = (I(5), B(d), Seq([I(2), I(3)]))
                    if k == "DaggerModifier":
                        want = (I(2), B(not d), Seq([I(2)]))
                    cx.check("modifier accumulation", label, tuple(map(show, got)) == tuple(map(show, want)), f"{label}: (control, dagger, arrays) becomes {tuple(map(show, got))}")
            cx.guard("modifier accumulation", label, go)


def inner(cx):
    """nested regions and calls: ports of the original node are classified with the original signature"""
    R = "tket::modifier::modifier_resolver::ModifierResolver"
    for name in ("modify_dfg", "modify_cfg", "modify_call"):
        for key in cx.key(rf"::{name}::<[^{{]*hugr_core::builder::dataflow::DFGBuilder<hugr_core::hugr::Hugr>>$", many=True)[:1]:
            def go():
                def on_call(it, st, c, args):
                    if c.fn.endswith("::modify_signature"):
                        r = c.raw[1]
                        while r.k == "ref":
                            v = it.load(st, r.a[0], r.a[1])
                            if v.k != "ref":
                                break
                            r = v
                        if r.k != "ref":
                            st.store[("H", r)] = T("extended", r)
                            return UNIT
                        it.storev(st, r.a[0], r.a[1], T("extended", it.load(st, r.a[0], r.a[1])))
                        return UNIT
                    return DEFAULT
                opq = [r"::wire_node_inout$", r"::modify_dfg_body$", r"::insert_sub_dfg$", r"::modify_fn_if_needed$", r"::pack_controls$", r"::unpack_controls$"]
                it, outs = cx.run(key, on_call=on_call, opaque=opq, effectful=opq)
                n = 0
                for o in outs:
                    if o.kind != "ret":
                        raise Incomplete(f"path {o.kind} {o.st.cutreason}")
                    for e in o.events:
                        if e.fn.endswith("wire_node_inout"):
                            n += 1
                            txt = show(it.reify(o.st, e.args[3]))
                            cx.check("ports of nested regions", name, "extended" not in txt and "try_new" not in txt and "signature" in txt,
                                     f"the ports of the original node are classified with {txt[:300]}: with controls and an inverse a classical input is taken for a qubit")
                cx.floor("ports of nested regions", f"port mappings in {name}", n, 1)
            cx.guard("ports of nested regions", name, go)
    # control arrays: outermost modifier first, in the order of the modifier chain
    key = cx.key(r"ModifierResolver::<N>::modify_signature$")
    for acc in ([], [1], [2, 1], [1, 2, 3]):
        label = f"control arrays {acc}"

        def go2():
            mods = adt(cx, CM, {"control": I(sum(acc)), "dagger": B(False), "accum_ctrl": Seq([I(a) for a in acc]), "power": B(False)})
            slf = adt(cx, MR, {"modifiers": mods, "controls": Seq([])})
            fs = cx.P.adts["hugr_core::types::signature::FuncTypeBase"]["variants"][0]["fields"]
            sig = Adt("hugr_core::types::signature::FuncTypeBase", "FuncTypeBase", [Seq([T("ty", S("body"))]) for f in fs])
            for flat in (False, True):
                def on_call(it, st, c, args):
                    if c.fn.endswith("to_mut"):
                        return c.raw[0]
                    if c.fn.endswith("array_type"):
                        return T("array", args[0])
                    if c.fn.endswith("qb_t"):
                        return T("qubit")
                    return DEFAULT
                it, outs = cx.run(key, {"self": slf, "signature": sig, "flatten": B(flat)}, on_call=on_call)
                for o in outs:
                    v = it.reify(o.st, it.argvals[1])
                    want = [T("qubit")] * sum(acc) if flat else [T("array", I(a)) for a in acc]
                    want = Seq(want + [T("ty", S("body"))])
                    cx.check("control arrays", label + (" flattened" if flat else ""), o.kind == "ret" and all(x is want for x in v.a[2]), f"{label}: the signature becomes {show(v)[:300]}")
        cx.guard("control arrays", label, go2)
