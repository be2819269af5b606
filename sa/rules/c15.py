"""C15: `NormalizeGuppy::run` is executed abstractly for every combination of its options (each set through its public
setter, starting from the default value); the extracted stage sequences are compared with the settings and the required
order."""
import itertools
from stages import *
from interp import is_t, is_c, show, subterms

TABLE = [
    ("simplify control flow", r"NormalizeCFGPass.*::run$|normalize_cfgs?(::<|$)"),
    ("untuple", r"UntuplePass.*::run$"),
    ("constant fold", r"ConstantFoldPass.*::run$"),
    ("dead functions", r"RemoveDeadFuncsPass.*::run$"),
    ("inline", r"InlineDFGsPass.*::run$"),
    ("array clean-up", r"BorrowSquashPass.*::run$"),
]
N = "tket::passes::guppy::NormalizeGuppy::"
SWITCHES = {
    "simplify_cfgs": "simplify control flow", "remove_tuple_untuple": "untuple", "constant_folding": "constant fold",
    "remove_dead_funcs": "dead functions", "inline_dfgs": "inline", "squash_borrows": "array clean-up",
}
FIRST, LAST = "simplify control flow", "array clean-up"


def run(cx):
    cands = [k for k in cx.key(r"^<tket::passes::guppy::NormalizeGuppy as .*ComposablePass<.*>>::run$", many=True) if "closure" not in k]
    runkey = cands[0]
    default = default_value(cx, cx.key(r"^<tket::passes::guppy::NormalizeGuppy as core::default::Default>::default$"))
    names = sorted(SWITCHES)
    setters = {n: cx.key("^" + N + n + "$") for n in names}
    npaths = 0

    def analyse(val, on, label):
        nonlocal npaths
        it, outs = cx.run(runkey, {"self": val}, opaque=OPAQUE)
        n = 0
        for o in outs:
            if o.kind != "ret":
                cx.fail("stages", label, f"path not analysed: {o.st.cutreason}")
                continue
            if not is_ok(it.reify(o.st, o.value)):
                continue
            n += 1
            npaths += 1
            tr = trace(o, TABLE)
            seq = [s for s, _ in tr]
            d = " -> ".join(seq)
            for nm in names:
                st = SWITCHES[nm]
                cx.check("stage follows its option", f"{st} ({label})", seq.count(st) >= 1 if on[nm] else st not in seq,
                         f"option {nm} is {'on' if on[nm] else 'off'} but stage '{st}' {'runs' if st in seq else 'does not run'}; stages: {d}")
            if FIRST in seq:
                cx.check("stage order", f"control flow first ({label})", seq[0] == FIRST and seq.count(FIRST) == 1,
                         f"control-flow simplification does not come first; stages: {d}")
            if LAST in seq:
                cx.check("stage order", f"array clean-up last ({label})", seq.index(LAST) == len(seq) - 1,
                         f"array clean-up does not come last; stages: {d}")
            for s, e in tr:
                cx.check("stage acts on the program", s, any(is_t(object_of(a), "in") for a in e.args[1:]),
                         f"stage '{s}' is not applied to the program being normalised")
        cx.check("coverage", label, n >= 1, "no successful path")

    cx.guard("stages", "default options", analyse, default, {n: True for n in names}, "default options")
    for combo in itertools.product([False, True], repeat=len(names)):
        on = dict(zip(names, combo))
        label = "options on: " + (",".join(n for n in names if on[n]) or "none")
        for order in ([names, names[::-1]] if cx.thorough else [names if sum(combo) % 2 else names[::-1]]):
            val = default
            for n in order:
                val = call_setter(cx, setters[n], val, on[n])
            cx.guard("stages", label, analyse, val, on, label)
    # a setter called twice: the last call wins
    for n in names:
        val = call_setter(cx, setters[n], call_setter(cx, setters[n], default, False), True)
        cx.guard("stages", f"{n} off then on", analyse, val, {m: True for m in names}, f"{n} off then on")
    n = cx.guard("stage failure", "all on", lambda: stage_failures(cx, "stage failure", "all on", runkey, default, TABLE))
    cx.floor("coverage", "failing-stage paths", n or 0, 4)
    cx.floor("coverage", "successful paths", npaths, 64)
