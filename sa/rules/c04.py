"""C04: the pytket emitter of every core and device operation and the decoder of every pytket gate type are executed abstractly
(value-flow analysis of the hooks, one run per operation with symbolic wires); the pytket command that comes out is compared
with the gate-definition oracle of the operation that went in, in both directions, and the two tables are composed."""
import itertools, math, cmath
import circ, qsem
from interp import V, mk, I, S, T, Adt, Tup, Seq, Some, NONE, Ok, Err, is_c, is_t, show, subterms, DEFAULT, Incomplete
from pytk import *

pi = math.pi
SW = qsem.SWAP
# pytket gates: name -> (qubits, parameters, matrix of half-turns, bits)   [pytket gate-definition manual]
PYT = {
    "X": (1, 0, lambda: qsem.X), "Y": (1, 0, lambda: qsem.Y), "Z": (1, 0, lambda: qsem.Z), "H": (1, 0, lambda: qsem.H),
    "S": (1, 0, lambda: qsem.S), "Sdg": (1, 0, lambda: qsem.SDG), "T": (1, 0, lambda: qsem.TG), "Tdg": (1, 0, lambda: qsem.TDG),
    "V": (1, 0, lambda: qsem.V), "Vdg": (1, 0, lambda: qsem.VDG), "SX": (1, 0, lambda: qsem.SX), "SXdg": (1, 0, lambda: qsem.SXDG),
    "Rx": (1, 1, lambda a: qsem.rx(a * pi)), "Ry": (1, 1, lambda a: qsem.ry(a * pi)), "Rz": (1, 1, lambda a: qsem.rz(a * pi)),
    "U1": (1, 1, lambda a: [[1, 0], [0, qsem.phase(a * pi)]]),
    "U2": (1, 2, lambda a, b: qsem.u3(pi / 2, a * pi, b * pi)), "U3": (1, 3, lambda a, b, c: qsem.u3(a * pi, b * pi, c * pi)),
    "TK1": (1, 3, lambda a, b, c: qsem.tk1(a * pi, b * pi, c * pi)),
    "PhasedX": (1, 2, lambda a, b: qsem.phasedx(a * pi, b * pi)),
    "noop": (1, 0, lambda: qsem.I1),
    "CX": (2, 0, lambda: qsem.ctrl(qsem.X)), "CY": (2, 0, lambda: qsem.ctrl(qsem.Y)), "CZ": (2, 0, lambda: qsem.ctrl(qsem.Z)),
    "CH": (2, 0, lambda: qsem.ctrl(qsem.H)), "CV": (2, 0, lambda: qsem.ctrl(qsem.V)), "CVdg": (2, 0, lambda: qsem.ctrl(qsem.VDG)),
    "CSX": (2, 0, lambda: qsem.ctrl(qsem.SX)), "CSXdg": (2, 0, lambda: qsem.ctrl(qsem.SXDG)),
    "CS": (2, 0, lambda: qsem.ctrl(qsem.S)), "CSdg": (2, 0, lambda: qsem.ctrl(qsem.SDG)),
    "CRz": (2, 1, lambda a: qsem.ctrl(qsem.rz(a * pi))), "CRx": (2, 1, lambda a: qsem.ctrl(qsem.rx(a * pi))),
    "CRy": (2, 1, lambda a: qsem.ctrl(qsem.ry(a * pi))), "CU1": (2, 1, lambda a: qsem.ctrl([[1, 0], [0, qsem.phase(a * pi)]])),
    "CU3": (2, 3, lambda a, b, c: qsem.ctrl(qsem.u3(a * pi, b * pi, c * pi))),
    "CCX": (3, 0, lambda: qsem.ctrl(qsem.X, 2)), "SWAP": (2, 0, lambda: SW), "CSWAP": (3, 0, lambda: qsem.ctrl(SW)),
    "ZZMax": (2, 0, lambda: qsem.zzphase(pi / 2)), "ZZPhase": (2, 1, lambda a: qsem.zzphase(a * pi)),
    "XXPhase": (2, 1, lambda a: qsem.xxphase(a * pi)), "YYPhase": (2, 1, lambda a: qsem.yyphase(a * pi)),
}
# core/device operations: (family, name) -> (qubits, parameters, matrix of the parameter's own unit, unit per half-turn)
FAMS = {"TketOp": (TK, qsem.CORE, "half", qsem.CORE_OTHER),
        "QSystemOp": (QS, qsem.DEVICE, "rad", None)}
# non-unitary operations: permitted exports.  op -> set of pytket types ("" = consumed without a command, "alloc", "-" = refused)
OTHER = {
    ("TketOp", "Measure"): {"Measure", "-"}, ("TketOp", "MeasureFree"): {"Measure", "-"}, ("TketOp", "Reset"): {"Reset", "-"},
    ("TketOp", "QAlloc"): {"alloc", "-"}, ("TketOp", "QFree"): {"", "-"}, ("TketOp", "TryQAlloc"): {"-"},
    ("QSystemOp", "Measure"): {"Measure", "-"}, ("QSystemOp", "LazyMeasure"): {"Measure", "-"}, ("QSystemOp", "Reset"): {"Reset", "-"},
    ("QSystemOp", "QFree"): {"", "-"}, ("QSystemOp", "TryQAlloc"): {"-"}, ("QSystemOp", "MeasureReset"): {"-"},
    ("QSystemOp", "LazyMeasureReset"): {"-"}, ("QSystemOp", "LazyMeasureLeaked"): {"-"},
}
MUST = {("TketOp", o) for o in list(qsem.CORE) + ["Measure", "MeasureFree", "Reset", "QAlloc", "QFree"]} | \
       {("QSystemOp", o) for o in ("Rz", "PhasedX", "ZZPhase", "Measure", "LazyMeasure", "Reset", "QFree")}
ENC = {"TketOp": r"^<tket::serialize::pytket::extension::tket::TketOpEmitter as .*PytketEmitter<.*>>::op_to_pytket$",
       "QSystemOp": r"^<tket_qsystem::pytket::qsystem::QSystemEmitter as .*PytketEmitter<.*>>::op_to_pytket$"}
DEC = {"TketOpEmitter": r"TketOpEmitter as .*PytketDecoder>", "QSystemEmitter": r"QSystemEmitter as .*PytketDecoder>",
       "PreludeEmitter": r"PreludeEmitter as .*PytketDecoder>"}


def meaning(fam, name, unit):
    """(qubits, params, matrix of half-turns) of an operation"""
    nq, npar, f = FAMS[fam][1][name]
    return nq, npar, (lambda *a: f(*[x * pi for x in a]))


def mats_equal(a, b, npar):
    for angs in itertools.product([x / pi for x in qsem.ANGLES], repeat=npar):
        if not qsem.same(a(*angs), b(*angs)):
            return angs
    return None


def encoder(cx, fam, names):
    """name -> pytket type written"""
    rule = "export denotes the same operation"
    path, table, unit, _ = FAMS[fam]
    key = cx.key(ENC[fam])
    res = {}
    for name in names:
        k = f"{fam} {name}"
        if name in table:
            nq, npar = table[name][:2]
        else:
            nq, npar = (0 if "QAlloc" in name else 1), 0
        ob = 1 if "Measure" in name else 0
        scale = 1.0 if unit == "half" else 1 / pi

        def go():
            params = [f"x{i}" for i in range(npar)]
            it, outs = encode(cx, key, fam, Adt(path, name, ()), nq, 0, params, ob)
            got = None
            for o in outs:
                if o.kind == "panic":
                    # only conditions on the graph (a missing output port) may panic
                    if not any(isinstance(f, tuple) and "node_outputs" in str([show(x) if isinstance(x, V) else x for x in f]) for f in o.trail):
                        return cx.fail(rule, k, f"the exporter panics: {o.value}")
                    continue
                if o.kind != "ret":
                    return cx.fail(rule, k, f"not established: {o.kind} {o.st.cutreason}")
                st = status(o)
                if st == "Err":
                    continue
                cmds = events(o, "::emit_command")
                if st == "Unsupported":
                    r = "-" if not cmds else "unsupported after a command"
                elif st != "Success":
                    return cx.fail(rule, k, f"not established: status {show(o.value)[:200]}")
                elif not cmds:
                    r = "alloc" if events(o, "::new_qubit") else ""
                elif len(cmds) == 1:
                    r = command(cx, rule, k, it, o, cmds[0], nq, npar, ob, scale)
                    if r is None:
                        return
                else:
                    r = "several commands"
                if r == "alloc" and not alloc_ok(it, o):
                    return cx.fail(rule, k, "the new qubit is not registered on the output wire of the allocation")
                if got is not None and got != r:
                    return cx.fail(rule, k, f"the exported gate depends on something other than the operation: {got} / {r}")
                got = r
            if got is None:
                return cx.fail(rule, k, "no successful path")
            res[name] = got
            if (fam, name) in MUST:
                cx.check("exported operations stay exported", k, got != "-", "the operation is no longer translated to a pytket command")
            if name in table:
                if got == "-":
                    return cx.check(rule, k, True)
                if got not in PYT:
                    return cx.fail(rule, k, f"written as {got!r}, a pytket gate the oracle does not define as a unitary")
                pq, pp, pm = PYT[got]
                nq2, np2, m = meaning(fam, name, unit)
                bad = (pq, pp) != (nq2, np2)
                if bad:
                    return cx.fail(rule, k, f"written as {got} with {pq} qubits and {pp} parameters; the operation has {nq2} and {np2}")
                angs = mats_equal(m, pm, npar)
                return cx.check(rule, k, angs is None, f"written as pytket {got}, a different unitary" + (f" (half-turns {angs})" if angs else ""))
            want = OTHER.get((fam, name))
            return cx.check(rule, k, want is not None and got in want, f"written as {got!r}; permitted: {sorted(want or [])}")
        cx.guard(rule, k, go)
    return res


def alloc_ok(it, o):
    rw = events(o, "::register_wire")
    if len(rw) != 1:
        return False
    w = it.reify(o.st, rw[0].args[1])
    vals = it.reify(o.st, rw[0].args[2])
    nq = events(o, "::new_qubit")
    return len(nq) == 1 and vals.k == "seq" and len(vals.a[0]) == 1 and vals.a[0][0] == it.reify(o.st, nq[0].res) and \
        any(is_t(s, "port") and s.a[1] == I(0) for s in subterms(w))


def command(cx, rule, k, it, o, e, nq, npar, ob, scale):
    op, qs, bs, og = [it.reify(o.st, x) for x in e.args[1:5]]
    ty = field(op, "op_type")
    if ty is None or ty.k != "adt":
        cx.fail(rule, k, f"gate type not determined: {show(op)[:200]}")
        return None
    if show(qs) != show(Seq([T("q", I(i)) for i in range(nq)])):
        cx.fail(rule, k, f"the command acts on qubits {show(qs)}, not on the operation's qubits in order")
        return None
    if show(bs) != show(Seq([T("nb", I(i)) for i in range(ob)])):
        cx.fail(rule, k, f"the command writes bits {show(bs)} instead of the operation's result bits")
        return None
    p = field(op, "params")
    ps = []
    if p is not None:
        x = opt(p)
        if x is not None:
            ps = strs(x)
            if ps is None:
                cx.fail(rule, k, f"parameters not determined: {show(p)[:200]}")
                return None
    if len(ps) != npar:
        cx.fail(rule, k, f"written with {len(ps)} parameters, the operation has {npar}")
        return None
    for i, s in enumerate(ps):
        try:
            for x in (0.37, -1.9, 5.2):
                env = {f"x{j}": x + 1000 * (j != i) for j in range(npar)}
                if abs(evalexpr(s, env) - x * scale) > 1e-9:
                    cx.fail(rule, k, f"parameter {i} is written as {s!r}, expected {'x / pi' if scale != 1 else 'x'} of the operation's angle number {i}")
                    return None
        except (SyntaxError, KeyError) as ex:
            cx.fail(rule, k, f"parameter {i} is written as {s!r}: not an expression of the operation's parameter ({ex})")
            return None
    reg = events(o, "::register_node_outputs")
    for r in reg:
        vals = [show(it.reify(o.st, x)) for x in r.args]
        if show(Seq([T("q", I(i)) for i in range(nq)])) not in vals:
            cx.fail(rule, k, "the operation's outputs are not registered with its input qubits")
            return None
    return ty.a[1]


# ------------------------------------------------------------------ importer
def variants(cx, dec):
    key = cx.key(DEC[dec] + "::op_types$")
    it, outs = cx.run(key)
    res = None
    for o in rets(outs):
        v = it.reify(o.st, o.value)
        if v.k != "seq" or not all(x.k == "adt" for x in v.a[0]):
            raise Incomplete(f"claimed gate types not determined: {show(v)[:200]}")
        res = [x.a[1] for x in v.a[0]]
    if res is None:
        raise Incomplete("op_types has no return")
    return res


def arity_of(ty):
    if ty in PYT:
        return PYT[ty][0], PYT[ty][1], 0
    if ty == "Measure":
        return 1, 0, 1
    if ty in ("Reset", "Collapse"):
        return 1, 0, 0
    if ty == "Barrier":
        return 3, 0, 2
    return 1, 0, 0


def decoder(cx, dec, alltypes):
    rule = "import denotes the same operation"
    claimed = variants(cx, dec)
    key = cx.key(DEC[dec] + "::op_to_hugr$")
    back = {}
    for ty in alltypes:
        k = f"{dec} {ty}"
        nq, npar, nb = arity_of(ty)

        def go():
            wire = lambda i: T("inw", I(i))
            ps = Seq([Adt(LP, "LoadedParameter", [Adt(PT, "Rotation", ()), wire(i)]) for i in range(npar)])
            op = mk("with", T("operation"), (("op_type", Adt(OPT, ty, ())), ("data", NONE)))

            it, outs = cx.run(key, {"op": op, "qubits": Seq([T("q", I(i)) for i in range(nq)]),
                                    "bits": Seq([T("b", I(i)) for i in range(nb)]), "params": ps},
                              on_call=circ.Builder(), opaque=DEC_OPAQUE, effectful=DEC_OPAQUE + ["::add_dataflow_op$", "::add_load_const$"])
            sts = set()
            for o in outs:
                if o.kind == "panic":
                    if "add_dataflow_op" in str(o.trail) or any("add_dataflow_op" in str(show(x)) for f in o.trail if isinstance(f, tuple) for x in f if isinstance(x, V)):
                        continue
                    return cx.fail(rule, k, f"the importer panics: {o.value}")
                if o.kind != "ret":
                    return cx.fail(rule, k, f"not established: {o.kind} {o.st.cutreason}")
                st = status(o)
                if st == "Err":
                    continue
                sts.add(st)
                adds = events(o, "::add_node_with_wires")
                if st == "Unsupported":
                    if adds:
                        return cx.fail(rule, k, "an operation is added and the gate then reported as not translated")
                    continue
                if st != "Success":
                    return cx.fail(rule, k, f"not established: status {show(o.value)[:200]}")
                if len(adds) != 1:
                    return cx.fail(rule, k, f"{len(adds)} operations added")
                r = added(cx, rule, k, it, o, adds[0], ty, nq, npar, nb)
                if r is None:
                    return
                if back.setdefault(ty, r) != r:
                    return cx.fail(rule, k, f"the imported operation depends on something other than the gate: {back[ty]} / {r}")
            ok = sts == {"Success"} if ty in claimed else sts <= {"Unsupported", "Success"}
            cx.check("claimed gate types are exactly the translated ones", k, (ty in claimed) == ("Success" in sts) and len(sts) == 1,
                     f"{'claimed' if ty in claimed else 'not claimed'}, but translation is {sorted(map(str, sts))}")
            cx.check(rule, k, True)
        cx.guard(rule, k, go)
    return claimed, back


def paramval(it, st, p, npar):
    """(index of the source parameter or None, factor or constant in the unit of the parameter, type)"""
    p = it.reify(st, p)
    if is_t(p) and "load_half_turns" in p.a[0]:
        ty = [s for s in subterms(p) if s.k == "adt" and s.a[0] == PT]
        c = [s for s in p.a[1:] if isinstance(s, V) and is_c(s, "str")]
        if len(c) == 1:
            return None, float(evalexpr(c[0].a[1], {})), (ty[0].a[1] if ty else "any")
        raise Incomplete("constant parameter " + show(p)[:160])
    if p.k != "adt" or p.a[0] != LP:
        raise Incomplete("parameter " + show(p)[:160])
    typ, w = p.a[2]
    vals = []
    for env in ([1.0 if j == i else 0.0 for j in range(npar)] for i in range(npar)):
        vals.append(qsem.Circ(env).num(w))
    env = [0.3 * (j + 1) for j in range(npar)]
    lin = sum(v * e for v, e in zip(vals, env))
    nz = [i for i, v in enumerate(vals) if abs(v) > 1e-12]
    if len(nz) != 1 or abs(qsem.Circ(env).num(w) - lin) > 1e-9:
        raise Incomplete("parameter is not a multiple of one imported parameter: " + show(w)[:200])
    return nz[0], vals[nz[0]], typ.a[1]


def added(cx, rule, k, it, o, e, ty, nq, npar, nb):
    a = [it.reify(o.st, x) for x in e.args]
    op = None
    for s in subterms(a[1]):
        if s.k == "adt" and (s.a[0] in (TK, QS) or s.a[0].endswith("::Noop")):
            op = s
            break
    if op is None:
        names = [str(s.a[0]) for s in subterms(a[1]) if s.k == "t"]
        if ty == "Barrier" and any("Barrier" in n for n in names):
            Q, B = show(Seq([T("q", I(i)) for i in range(nq)])), show(Seq([T("b", I(i)) for i in range(nb)]))
            if [show(x) for x in a[2:6]] != [Q, Q, B, B] or show(a[6]) != "[]":
                cx.fail(rule, k, f"the barrier is wired {' / '.join(show(x)[:80] for x in a[2:6])}")
                return None
            row = [s for s in subterms(a[1]) if s.k == "seq" and s.a[0] and all(is_t(x) for x in s.a[0])]
            kinds = ["qb" if "qb_t" in show(x) else "bool" if "bool" in show(x) else show(x)[:40] for x in row[0].a[0]] if row else None
            if kinds != ["qb"] * nq + ["bool"] * nb:
                cx.fail(rule, k, f"the barrier's row of types is {kinds} for {nq} qubits and {nb} bits: {show(a[1])[:200]}")
                return None
            return ("prelude", "Barrier")
        if ty == "noop" and any("Noop" in n for n in names):
            return ("prelude", "Noop")
        cx.fail(rule, k, f"operation not determined: {show(a[1])[:200]}")
        return None
    qi, qo, bi, bo, ps = a[2:7]
    Q = show(Seq([T("q", I(i)) for i in range(nq)]))
    if show(qi) != Q or show(qo) != Q:
        cx.fail(rule, k, f"qubits are wired {show(qi)} -> {show(qo)} instead of in order")
        return None
    if bi.k != "seq" or bo.k != "seq":
        cx.fail(rule, k, "bits not determined")
        return None
    fam = {TK: "TketOp", QS: "QSystemOp"}.get(op.a[0], "prelude")
    name = op.a[1]
    if fam == "prelude":
        return (fam, name)
    table, unit = FAMS[fam][1], FAMS[fam][2]
    want_in = {"Measure": 0}.get(name, nb if name not in table else 0)
    if len(bi.a[0]) != 0 and name in table:
        pass
    if name in ("Measure",):
        if show(bi) != "[]" or show(bo) != show(Seq([T("b", I(0))])):
            cx.fail(rule, k, f"measurement wired with input bits {show(bi)} and output bits {show(bo)}")
            return None
    elif nb and (bi.a[0] or bo.a[0]):
        cx.fail(rule, k, "bits wired to a gate without bits")
        return None
    pv = []
    for x in ps.a[0]:
        pv.append(paramval(it, o.st, x, npar))
    # unit of the operation's own parameters
    want_t = "Rotation" if unit == "half" else "FloatRadians"
    for i, (src, c, t) in enumerate(pv):
        if t not in (want_t, "any"):
            cx.fail(rule, k, f"parameter {i} is passed as {t}, the operation takes {want_t}")
            return None
        if src is not None and abs(c - (1.0 if unit == "half" else pi)) > 1e-12:
            cx.fail(rule, k, f"parameter {i} is scaled by {c} on import")
            return None
    if ty in PYT and name in table:
        pq, pp, pm = PYT[ty]
        oq, on, om = meaning(fam, name, unit)
        if oq != pq or len(pv) != on:
            cx.fail(rule, k, f"imported as {name} with {oq} qubits and {len(pv)} of {on} parameters; the gate has {pq} qubits")
            return None

        def m(*angs):
            return om(*[angs[s] if s is not None else c for s, c, _ in pv])
        angs = mats_equal(m, pm, pp)
        if angs is not None:
            cx.fail(rule, k, f"imported as {name}, a different unitary" + (f" (half-turns {angs})" if angs else ""))
            return None
        return (fam, name)
    if ty == name and ty in ("Measure", "Reset") and fam == "TketOp" and not pv:
        return (fam, name)
    cx.fail(rule, k, f"imported as {fam} {name}, which does not have the gate's meaning")
    return None


def run(cx):
    fams = {}
    for fam, (path, table, unit, _) in FAMS.items():
        vs = [v["name"] for v in cx.P.adt_variants(path)]
        cx.floor("coverage", f"{fam} operations", len(vs), 24 if fam == "TketOp" else 11)
        for v in vs:
            cx.check("coverage", f"oracle for {fam} {v}", v in table or (fam, v) in OTHER, "operation has no entry in the oracle")
        fams[fam] = encoder(cx, fam, vs)
    types = [v["name"] for v in cx.P.adt_variants(OPT)]
    cx.floor("coverage", "pytket gate types", len(types), 100)
    claimed, back = {}, {}
    for d in DEC:
        r = cx.guard("import denotes the same operation", d, decoder, cx, d, types)
        if r:
            claimed[d], back[d] = r
    # export then import gives the operation back (up to the documented merges)
    MERGE = {("TketOp", "MeasureFree"): ("TketOp", "Measure"), ("QSystemOp", "Measure"): ("TketOp", "Measure"),
             ("QSystemOp", "LazyMeasure"): ("TketOp", "Measure"), ("QSystemOp", "Reset"): ("TketOp", "Reset"),
             ("QSystemOp", "Rz"): ("TketOp", "Rz")}
    for fam, tab in fams.items():
        for op, ty in sorted(tab.items()):
            if ty in ("-", "", "alloc"):
                continue
            imps = {b[ty] for b in back.values() if ty in b}
            want = MERGE.get((fam, op), (fam, op))
            cx.check("import of the export gives the operation back", f"{fam} {op}", imps == {want} or imps == {(fam, op)},
                     f"exported as {ty}, imported as {sorted(imps)}")
    cx.floor("coverage", "natively imported gate types", sum(len(b) for b in back.values()), 24)
    for ty in ("H", "CX", "CY", "CZ", "CRz", "T", "Tdg", "S", "Sdg", "V", "Vdg", "X", "Y", "Z", "Rx", "Ry", "Rz", "CCX", "Reset", "Measure",
               "PhasedX", "ZZPhase", "ZZMax", "noop"):
        cx.check("imported gates stay imported", ty, any(ty in c for c in claimed.values()), "the gate is no longer imported natively")
    cx.assume("register_node_outputs, get_input_values and add_node_with_wires pair registers with ports in order (property C29)")
    registered(cx)


def registered(cx):
    """the emitters and decoders are part of the configurations users get"""
    rule = "configurations contain the translators"
    want = {
        r"^tket::serialize::pytket::config::default_encoder_config(::<.*>)?$": ["PreludeEmitter", "BoolEmitter", "FloatEmitter", "RotationEmitter", "Tk1Emitter", "TketOpEmitter"],
        r"^tket::serialize::pytket::config::default_decoder_config$": ["CoreDecoder", "PreludeEmitter", "BoolEmitter", "TketOpEmitter"],
        r"^tket_qsystem::pytket::qsystem_encoder_config(::<.*>)?$": ["PreludeEmitter", "BoolEmitter", "FloatEmitter", "RotationEmitter", "Tk1Emitter", "TketOpEmitter", "QSystemEmitter", "FutureEmitter"],
        r"^tket_qsystem::pytket::qsystem_decoder_config$": ["CoreDecoder", "PreludeEmitter", "BoolEmitter", "TketOpEmitter", "QSystemEmitter"],
    }
    for pat, names in want.items():
        key = cx.key(pat)

        def go():
            it, outs = cx.run(key, opaque=[r"::add_(emitter|decoder|type_translator)$"], effectful=[r"::add_(emitter|decoder|type_translator)$"])
            for o in rets(outs):
                got = set()
                for e in o.events:
                    if e.fn.endswith(("::add_emitter", "::add_decoder")):
                        got.add(it.reify(o.st, e.args[1]).a[0].rsplit("::", 1)[1] if it.reify(o.st, e.args[1]).k == "adt" else show(e.args[1]))
                for n in names:
                    cx.check(rule, f"{pat.strip('^$').split('(')[0]} {n}", n in got, f"{n} is not registered (found {sorted(got)})")
        cx.guard(rule, pat, go)
