"""C14: the driver `QSystemPass::run` is executed abstractly for every combination of its switches (each set through its
public setter, starting from the default value); on every path the sequence of stage calls is extracted and compared with the
required order and with the switch settings."""
import itertools, re
from stages import *
from interp import is_t, is_c, show, subterms

RUN = r"^tket_qsystem::QSystemPass::run$"
TABLE = [
    ("monomorphise", r"MonomorphizePass.*::run$|::monomorphize(::<|$)"),
    ("dead functions", r"RemoveDeadFuncsPass.*::run$|remove_dead_funcs(::<|$)"),
    ("lower gates", r"LowerTketToQSystemPass.*::run$|lower_tk2_op"),
    ("replace booleans", r"ReplaceBoolPass.*::run$"),
    ("lower drops", r"LowerDropsPass.*::run$"),
    ("linearise arrays", r"LinearizeArrayPass.*::run$"),
    ("inline constant functions", r"inline_constant_functions"),
    ("constant fold", r"ConstantFoldPass.*::run$|fold_constants"),
    ("force order", r"force_order"),
]
# switch -> (public setter, stages it controls)
SWITCHES = {
    "constant_fold": (r"^tket_qsystem::QSystemPass::with_constant_fold$", {"constant fold"}),
    "monomorphize": (r"^tket_qsystem::QSystemPass::with_monormophize$", {"monomorphise", "dead functions"}),
    "force_order": (r"^tket_qsystem::QSystemPass::with_force_order$", {"force order"}),
    "lazify": (r"^tket_qsystem::QSystemPass::with_lazify$", {"replace booleans"}),
}
ALWAYS = {"lower gates", "lower drops", "linearise arrays"}
BEFORE = [
    ("monomorphise", "dead functions"), ("monomorphise", "lower gates"), ("dead functions", "lower gates"),
    ("lower gates", "replace booleans"), ("lower gates", "lower drops"), ("lower gates", "linearise arrays"),
    ("replace booleans", "lower drops"), ("replace booleans", "linearise arrays"),
]


def run(cx):
    runkey = cx.key(RUN)
    default = default_value(cx, cx.key(r"^<tket_qsystem::QSystemPass as core::default::Default>::default$"))
    names = sorted(SWITCHES)
    setters = {n: cx.key(SWITCHES[n][0]) for n in names}
    npaths = 0
    orders = [names] + ([list(p) for p in itertools.permutations(names)][1:] if cx.thorough else [list(reversed(names))])
    for combo in itertools.product([False, True], repeat=len(names)):
        on = dict(zip(names, combo))
        label = ",".join(n for n in names if on[n]) or "none"
        for order in orders:
            val = default
            for n in order:
                val = call_setter(cx, setters[n], val, on[n])

            def go():
                nonlocal npaths
                it, outs = cx.run(runkey, {"self": val}, opaque=OPAQUE, loop_decisions=2)
                oks = 0
                for o in outs:
                    if o.kind != "ret":
                        if o.kind != "panic" and "loop" not in str(o.st.cutreason):
                            cx.fail("stages", f"switches on: {label}", f"path not analysed: {o.st.cutreason}")
                        continue
                    if not is_ok(it.reify(o.st, o.value)):
                        continue
                    oks += 1
                    npaths += 1
                    tr = trace(o, TABLE)
                    seq = [s for s, _ in tr]
                    d = " -> ".join(seq)
                    for st in sorted(ALWAYS):
                        cx.check("stage runs", f"{st} (switches on: {label})", st in seq, f"mandatory stage '{st}' is skipped; stages: {d}")
                    for n in names:
                        for st in sorted(SWITCHES[n][1]):
                            cx.check("stage follows its switch", f"{st} (switches on: {label})", (st in seq) == on[n],
                                     f"switch {n} is {'on' if on[n] else 'off'} but stage '{st}' {'runs' if st in seq else 'does not run'}; stages: {d}")
                    for a, b in BEFORE:
                        if a in seq and b in seq:
                            cx.check("stage order", f"{a} before {b} (switches on: {label})",
                                     max(i for i, s in enumerate(seq) if s == a) < min(i for i, s in enumerate(seq) if s == b),
                                     f"'{a}' must come before '{b}'; stages: {d}")
                    if "force order" in seq:
                        cx.check("stage order", f"force order last (switches on: {label})",
                                 seq.index("force order") == len(seq) - 1, f"operation order is not imposed last; stages: {d}")
                    # all stages act on the program that was passed in
                    for s, e in tr:
                        cx.check("stage acts on the program", f"{s}", any(is_t(object_of(a), "in") and a.a[1] != "self" or
                                 any(is_t(x, "in") for x in subterms(a)) for a in e.args),
                                 f"stage '{s}' is not applied to the program being compiled")
                    # the program's entry point survives the stages that remove dead code
                    se = [e for e in o.events if e.fn.endswith("::set_entrypoint")]
                    for st, fn in (("dead functions", "with_module_entry_points"), ("constant fold", "with_inputs")):
                        for s, e in tr:
                            if s == st:
                                keep = [t for t in subterms(e.args[0]) if is_t(t) and t.a[0].endswith("::" + fn)]
                                ok = bool(se) and any(se[-1].args[1] in set(subterms(x)) for t in keep for x in t.a[2:] if hasattr(x, "k"))
                                cx.check("entry point kept alive", f"{st} (switches on: {label})", ok,
                                         f"stage '{st}' runs on the whole module and removes unused code, but it is not told to keep the program's entry point")
                cx.check("coverage", f"switches on: {label}", oks >= 2, f"{oks} successful paths found (expected: entry point given, or found by name)")
            cx.guard("stages", f"switches on: {label}", go)
    # a switch set twice: the last setting wins
    for nm in names:
        for b in (False, True):
            val = call_setter(cx, setters[nm], call_setter(cx, setters[nm], default, not b), b)

            def go2():
                it, outs = cx.run(runkey, {"self": val}, opaque=OPAQUE, loop_decisions=2)
                for o in outs:
                    if o.kind == "ret" and is_ok(it.reify(o.st, o.value)):
                        seq = [s for s, _ in trace(o, TABLE)]
                        for st in sorted(SWITCHES[nm][1]):
                            cx.check("last setting wins", f"{nm}={b} after {not b}: {st}", (st in seq) == b,
                                     f"switch {nm} set to {not b} and then to {b}, but stage '{st}' {'runs' if st in seq else 'does not run'}")
            cx.guard("last setting wins", f"{nm}={b}", go2)
    n = cx.guard("stage failure", "all stages on", lambda: stage_failures(cx, "stage failure", "all stages on", runkey, call_setter(
        cx, setters["constant_fold"], default, True), TABLE))
    cx.floor("coverage", "failing-stage paths", n or 0, 6)
    cx.floor("coverage", "successful paths", npaths, 32)
