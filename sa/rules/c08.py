"""C08: the code generator of every device, random-number and utility operation is executed abstractly through its registration; the
instructions it emits are interpreted for every operand and every outcome of the runtime calls, and the ordered runtime calls, their
operands and the outputs are compared with what the operation means. Operation signatures are read from the source."""
import ll, sig
from interp import mk, I, S, T, Adt, Tup, Seq, is_t, is_c, show, Incomplete

QS = "tket_qsystem::extension::qsystem::QSystemOp"
RO = "tket_qsystem::extension::random::RandomOp"
UO = "tket_qsystem::extension::utils::UtilsOp"
MAX = 2**64 - 1
i64, dbl, i1, i32, void, qb = "i64", "double", "i1", "i32", "void", "qubit"
# runtime routine: result, parameters
ABI = {"___rz": (void, [qb, dbl]), "___rzz": (void, [qb, qb, dbl]), "___rxy": (void, [qb, dbl, dbl]), "___qalloc": (qb, []), "___qfree": (void, [qb]),
       "___measure": (i1, [qb]), "___lazy_measure": (i64, [qb]), "___lazy_measure_leaked": (i64, [qb]), "___reset": (void, [qb]),
       "random_int": (i32, []), "random_float": (dbl, []), "random_rng": (i32, [i32]), "random_advance": (void, [i64]), "random_seed": (void, [i64]),
       "get_current_shot": (i64, [])}
ctx0 = ("struct",)


def bool_(b):
    return ("sum", int(b), ())


# operation -> (runtime outcome values to explore, reference(inputs, outcome) -> (calls, outputs))
def rz(x, m): return [("___rz", [x[0], x[1]])], [x[0]]
def rzz(x, m): return [("___rzz", [x[0], x[1], x[2]])], [x[0], x[1]]
def rxy(x, m): return [("___rxy", [x[0], x[1], x[2]])], [x[0]]
def measure(x, m): return [("___measure", [x[0]]), ("___qfree", [x[0]])], [bool_(m)]
def measure_reset(x, m): return [("___measure", [x[0]]), ("___reset", [x[0]])], [x[0], bool_(m)]
def lazy(x, m): return [("___lazy_measure", [x[0]]), ("___qfree", [x[0]])], [m]
def lazy_leaked(x, m): return [("___lazy_measure_leaked", [x[0]]), ("___qfree", [x[0]])], [m]
def lazy_reset(x, m): return [("___lazy_measure", [x[0]]), ("___reset", [x[0]])], [x[0], m]
def reset(x, m): return [("___reset", [x[0]])], [x[0]]
def qfree(x, m): return [("___qfree", [x[0]])], []


def alloc(x, m):
    if m == MAX:
        return [("___qalloc", [])], [("sum", 0, ())]
    return [("___qalloc", []), ("___reset", [m])], [("sum", 1, (m,))]


DEVICE = {"Rz": ([0], rz), "ZZPhase": ([0], rzz), "PhasedX": ([0], rxy), "Measure": ([0, 1], measure), "MeasureReset": ([0, 1], measure_reset),
          "LazyMeasure": (["f"], lazy), "LazyMeasureLeaked": (["f"], lazy_leaked), "LazyMeasureReset": (["f"], lazy_reset), "Reset": ([0], reset),
          "QFree": ([0], qfree), "TryQAlloc": ([0, 1, 17, 2**31, 2**32 - 1, 2**63, MAX - 1, MAX], alloc)}
# the context carries no data: outputs of context type are not compared beyond being a context
RANDOM = {"RandomInt": (["r"], lambda x, m: ([("random_int", [])], [m, "ctx"])), "RandomFloat": (["r"], lambda x, m: ([("random_float", [])], [m, "ctx"])),
          "RandomIntBounded": (["r"], lambda x, m: ([("random_rng", [x[1]])], [m, "ctx"])),
          "RandomAdvance": ([0], lambda x, m: ([("random_advance", [x[1]])], ["ctx"])),
          "NewRNGContext": ([0], lambda x, m: ([("random_seed", [x[0]])], [("some", "ctx")])), "DeleteRNGContext": ([0], lambda x, m: ([], []))}
UTILS = {"GetCurrentShot": (["shot"], lambda x, m: ([("get_current_shot", [])], [m]))}


def same(got, want):
    if want == "ctx":
        return got in ("ctx", ctx0, ("struct", ()))
    if want == ("some", "ctx"):
        return got == 1 or isinstance(got, tuple) and got[0] == "sum" and got[1] == 1 and all(same(g, "ctx") for g in got[2])
    return got == want


def operands(kinds):
    n, xs, ts = {}, [], []
    for k in kinds:
        if k.endswith("context"):
            xs.append("ctx")
            ts.append(None)
            continue
        p = {"qubit": "q", "float64": "a", "int(5)": "n", "int(6)": "n"}.get(k, "v")
        xs.append(f"{p}{n.get(p, 0)}")
        n[p] = n.get(p, 0) + 1
        ts.append({"qubit": qb, "float64": dbl, "int(5)": i32, "int(6)": i64}.get(k))
    return xs, ts


def ty_ok(t, want):
    n = t.a[1].a[1] if is_t(t, "ty") else show(t)
    return n == want or {n, want} <= {i64, qb}


def family(cx, rule, gen, adt, table, named=None):
    g = sig.Sig(cx)
    ops = [v["name"] for v in cx.P.adt_variants(adt) or []]
    if not ops:
        return cx.fail(rule, adt, "not found in the source")
    for op in ops:
        def go():
            if op not in table:
                return cx.fail(rule, op, "no meaning is known for this operation")
            outcomes, ref = table[op]
            s = g.of(adt, Adt(adt, op, ()))["body"]
            kin, kout = [sig.kind(t) for t in s["input"]], [sig.kind(t) for t in s["output"]]
            xs, ts = operands(kin)
            good = 0
            for it, o, p, ret in ll.drive(cx, gen, ("op", Adt(adt, op, ()), ll.args_of(len(xs), ts))):
                if p is None:
                    cx.fail(rule, op, ll.failure(o, ret))
                    continue
                good += 1
                for nm, tys in p.externs.items():
                    if nm not in ABI:
                        return cx.fail(rule, op, f"calls {nm}, which is not a runtime routine")
                    for t in tys:
                        r, ps = ABI[nm]
                        ok = is_t(t, "fnty") and ty_ok(t.a[1], r) and len(t.a[2].a[0]) == len(ps) and all(ty_ok(a, b) for a, b in zip(t.a[2].a[0], ps))
                        cx.check("runtime routine declared with its parameter types", f"{nm} in {op}", ok, f"declared as {show(t)}")
                for m in outcomes:
                    try:
                        r = ll.Run(p, xs, lambda nm, a, n: m if ABI[nm][0] != void else "nothing")
                    except ll.Bad as e:
                        return cx.fail(rule, op, f"outcome {m}: {e}")
                    calls, outs = ref(xs, m)
                    tr = [(n, a) for n, a, _ in r.trace]
                    ok = not r.dead and tr == calls and r.out is not None and len(r.out) == len(outs) == len(kout) and all(same(a, b) for a, b in zip(r.out, outs))
                    if not cx.check(rule, f"{op}, outcome {m}", ok,
                                    f"the code calls {tr} and outputs {r.out}{' and stops' if r.dead else ''}; required calls {calls}, outputs {outs} ({len(kout)} declared)"):
                        return
            cx.check(rule, f"{op} compiled", good > 0, "no successful path of the code generator")
        cx.guard(rule, op, go)
    return ops


def run(cx):
    ops = family(cx, "device operation compiles to its runtime calls", "QSystemCodegenExtension", QS, DEVICE)
    cx.floor("coverage", "device operations", len(ops or []), 11)
    ops = family(cx, "random-number operation compiles to its runtime calls", "RandomCodegenExtension", RO, RANDOM)
    cx.floor("coverage", "random-number operations", len(ops or []), 6)
    ops = family(cx, "utility operation compiles to its runtime calls", "UtilsCodegenExtension", UO, UTILS)
    cx.floor("coverage", "utility operations", len(ops or []), 1)
    rule = "runtime barrier passes its operand through"

    def go():
        n = 0
        for it, o, p, ret in ll.drive(cx, "QSystemCodegenExtension", ("named", ".", ".", ll.args_of(1))):
            if p is None:
                cx.fail(rule, "RuntimeBarrier", ll.failure(o, ret))
                continue
            n += 1
            r = ll.Run(p, ["array"])
            cx.check(rule, "RuntimeBarrier", r.trace == [] and r.out == ["array"], f"calls {r.trace}, outputs {r.out}")
        cx.check(rule, "RuntimeBarrier registered", n > 0, "no code generator for the barrier")
    cx.guard(rule, "RuntimeBarrier", go)

    def reg():
        r = ll.registered(cx, "QSystemCodegenExtension")
        nm = [(sig.Sig(cx).string(a[0]), sig.Sig(cx).string(a[1])) for a in r["named"]]
        cx.check(rule, "registered under the operation's name", nm == [("tket.qsystem", "RuntimeBarrier")], f"registered for {nm}")
    cx.guard(rule, "registration", reg)
    rule = "qubit and index representation"

    def types():
        for fn, want in (("qubit_type", i64), ("usize_type", i64)):
            key = cx.key(r"^<tket_qsystem::llvm::prelude::QISPreludeCodegen as .*PreludeCodegen>::" + fn + "$")
            it, outs = cx.run(key, {}, on_call=ll.LL())
            for o in outs:
                v = it.reify(o.st, o.value)
                cx.check(rule, fn, v == ll.ty(want), f"is {show(v)}, required {want}")
    cx.guard(rule, "types", types)
    cx.assume("the emitted instructions have LLVM semantics; RowPromise::finish stores the given values as the operation's outputs in order")
    cx.assume("runtime routine names, parameter order and the value 2^64-1 for a failed allocation are those of the runtime interface")
