"""C02: the pass that replaces core gates is executed abstractly (value-flow analysis of `lower_tk2_op` with one node per
core operation); the replacement it registers for each operation is read off as a circuit of device gates, whose unitary is
compared with the oracle matrix of the core gate at more angles than twice its trigonometric degree, up to global phase."""
import itertools
import circ, qsem
from interp import (V, mk, I, S, T, Adt, Tup, Seq, Some, NONE, Ok, is_c, is_t, show, subterms, DEFAULT, Incomplete)
from qsem import Circ, Shape

OPPATH = "tket::ops::TketOp"
DEVPATH = "tket_qsystem::extension::qsystem::QSystemOp"
DIRECT = {"TryQAlloc": "TryQAlloc", "QFree": "QFree", "Reset": "Reset", "MeasureFree": "Measure"}


def op_in(t):
    for s in subterms(t):
        if s.k == "adt" and s.a[0] == OPPATH:
            return s.a[1]


def lowering(cx, ops):
    """one abstract run of lower_tk2_op over a program with the given core operations, in this order"""
    key = None
    for k in cx.key(r"^tket_qsystem::extension::qsystem::lower::lower_tk2_op::<hugr_core::hugr::Hugr>$|lower_tk2_op::<H>$", many=True):
        key = k
    bld = circ.Builder(n_inputs=lambda b: qsem.ARITY.get(op_in(b)))

    def hook(I_, st, ci, a):
        r = bld(I_, st, ci, a)
        if r is not DEFAULT:
            return r
        d = ci.def_
        if d.endswith("::nodes") and "HugrView" in d:
            return Seq([T("n", S(o)) for o in ops])
        if d.endswith("::descendants") or d.endswith("::entry_descendants"):
            return Seq([T("n", S(o)) for o in ops])
        if d.endswith("::get_optype"):
            return T("optype", I_.reify(st, a[1]))
        if d.endswith("OpType::cast"):
            x = I_.content(st, a[0])
            if is_t(x, "optype") and is_t(x.a[1], "n"):
                if OPPATH in ci.args:
                    return Some(Adt(OPPATH, x.a[1].a[1].a[1], ()))
                return NONE
        return DEFAULT
    it, outs = cx.run(key, on_call=hook, opaque=[r"BarrierInserter::"])
    return it, outs


def template(v):
    """('op', device variant) | ('circ', builder, outs) | None"""
    if v.k == "adt" and v.a[1] == "SingleOp":
        x = v.a[2][0]
        for s in subterms(x):
            if s.k == "adt" and s.a[0] == DEVPATH:
                return ("op", s.a[1])
        return None
    for s in subterms(v):
        if is_t(s, "hugr"):
            return ("circ", s.a[1], s.a[2])
    return None


def final(prog, n, start):
    """state after a program with resets, starting from basis state `start` (measured qubits collapsed by the caller)"""
    st = [0j] * (1 << n)
    st[start] = 1
    for p in prog:
        if isinstance(p[0], str):
            if p[0] in ("reset", "measure_reset"):
                bit = 1 << (n - 1 - p[1])
                if p[0] == "measure_reset":
                    # the qubit was in the basis state given by the outcome
                    st = [(st[i] + st[i | bit] if not i & bit else 0) for i in range(len(st))]
                else:
                    st = [(st[i] + st[i | bit] if not i & bit else 0) for i in range(len(st))]
            continue
        st = qsem.apply(st, p[0], p[1], n)
    return st


def check_op(cx, op, tmpl, how):
    rule = "replacement denotes the same operation"
    key = f"core operation {op}"
    if tmpl is None:
        return cx.fail(rule, key, f"no replacement by device operations was found ({how})")
    if tmpl[0] == "op":
        want = DIRECT.get(op)
        return cx.check(rule, key, tmpl[1] == want,
                        f"replaced by the single device operation {tmpl[1]}, which does not have the meaning of {op} (expected {want})")
    outs = tmpl[2]
    if outs.k != "seq":
        return cx.fail(rule, key, "outputs of the replacement circuit cannot be enumerated")
    outs = list(outs.a[0])
    try:
        if op in qsem.CORE:
            nq, npar, mat = qsem.CORE[op]
            combos = list(itertools.product(qsem.ANGLES, repeat=npar)) if npar else [()]
            for angs in combos:
                env = [("q", i) for i in range(nq)] + [a / qsem.pi for a in angs]
                c = Circ(env)
                res = c.finish(outs)
                if [isinstance(r, tuple) and r[0] for r in res] != ["q"] * nq:
                    raise Shape(f"{len(res)} outputs instead of {nq} qubits")
                if any(isinstance(p[0], str) for p in c.prog):
                    raise Shape("non-unitary operation in the replacement of a unitary gate")
                u = qsem.permute(qsem.unitary(c.prog, nq), [r[1] for r in res], nq)
                if not qsem.same(u, mat(*angs)):
                    return cx.fail(rule, key, f"device circuit {c.names} with outputs {res} does not implement {op}"
                                   + (f" at angle {angs}" if angs else "") + " up to global phase", show(tmpl[2]))
            return cx.check(rule, key, True)
        if op == "Measure":
            for m in (0, 1):
                c = Circ([("q", 0)], bits={0: m})
                res = c.finish(outs)
                if len(res) != 2 or res[0] != ("q", 0) or res[1][0] != "b":
                    raise Shape(f"outputs {res} are not [qubit, bit]")
                meas = [p for p in c.prog if isinstance(p[0], str) and p[0].startswith("measure")]
                if len(meas) != 1 or c.prog[0] is not meas[0]:
                    raise Shape("the incoming qubit is not measured exactly once, first")
                if int(res[1][1]) != m:
                    return cx.fail(rule, key, f"with outcome {m} the returned bit is {res[1][1]}")
                st = final(c.prog, 1, m)
                if abs(abs(st[m]) - 1) > 1e-9:
                    return cx.fail(rule, key, f"with outcome {m} the returned qubit is not left in state |{m}>")
            return cx.check(rule, key, True)
        if op == "QAlloc":
            o = outs[0]
            ok = (len(outs) == 1 and is_t(o, "wire") and is_c(o.a[2], "int") and o.a[2].a[1] == 0
                  and is_t(o.a[1], "node") and is_t(o.a[1].a[1], "expect_sum") and is_c(o.a[1].a[1].a[1], "int")
                  and o.a[1].a[1].a[1].a[1] == 1)
            src = o.a[1].a[2].a[0][0] if ok else None
            ok = ok and is_t(src, "wire") and is_t(src.a[1], "node") and src.a[1].a[1].k == "adt" and \
                src.a[1].a[1].a[:2] == (DEVPATH, "TryQAlloc") and src.a[2].a[1] == 0
            return cx.check(rule, key, ok, f"allocation is not the unwrapped 'some' case of TryQAlloc: {show(o)[:300]}")
        return cx.fail(rule, key, f"{op} is replaced by a circuit the rule has no oracle for")
    except Shape as e:
        return cx.fail(rule, key, f"malformed replacement: {e}", show(tmpl[2]))


def run(cx):
    vs = cx.P.adt_variants(OPPATH)
    if not vs:
        return cx.fail("coverage", "TketOp", "the core gate set was not found")
    ops = [v["name"] for v in vs]
    cx.floor("coverage", "core operations", len(ops), 24)
    for o in ops:
        cx.check("coverage", f"oracle for {o}", o in qsem.CORE or o in qsem.CORE_OTHER,
                 f"core operation {o} has no entry in the oracle table")
    orders = [ops, list(reversed(ops))]
    if cx.thorough:
        orders += [[o] for o in ops] + [ops[i:] + ops[:i] for i in range(1, len(ops))]
    orders.append([x for o in ops for x in (o, o)])
    for n, order in enumerate(orders):
        def go():
            it, outs = lowering(cx, order)
            rets = [o for o in outs if o.kind == "ret" and it.reify(o.st, o.value).a[1] == "Ok"]
            bad = [o for o in outs if o.kind != "ret"]
            if not rets or bad:
                return cx.fail("coverage", f"lowering run {n}", "the lowering pass does not complete on a program with every core operation: "
                               + "; ".join(str(o.st.cutreason or show(o.value)) for o in bad)[:500])
            for o in rets:
                reg = {}
                last_run = None
                for e in o.events:
                    if e.fn.endswith("ReplaceTypes::replace_op"):
                        nm = op_in(e.args[1])
                        reg.setdefault(nm, []).append(e.args[2])
                    if e.fn.endswith("::run") and "ReplaceTypes" in e.fn:
                        last_run = e
                cx.check("replacements are applied", f"lowering run {n}", last_run is not None and
                         all(e.seq < last_run.seq for e in o.events if e.fn.endswith("ReplaceTypes::replace_op")),
                         "the registered replacements are not applied after registration")
                for op in sorted(set(order)):
                    ts = reg.get(op, [])
                    if not ts:
                        cx.fail("replacement denotes the same operation", f"core operation {op}", "never registered for replacement")
                    for t in set(ts):
                        if n == 0 or n == len(orders) - 1 or t not in cx_seen:
                            cx_seen.add(t)
                            check_op(cx, op, template(t), "replace_op template " + show(t)[:200])
        cx.guard("coverage", f"lowering run {n}", go)


cx_seen = set()
