"""C17: the rank function handed to the ordering routine is extracted from the pass driver and evaluated for every operation
of the gate, device and future operation sets and for an operation of none of these; the ranks must put releasing qubits
first, then quantum operations, then allocation, then everything else, and reads of measurement results last.  The routine
must be applied to the whole module."""
import re
from interp import T, Adt, Some, NONE, UNIT, DEFAULT, show, subterms, is_t, is_c, Ok as OkV
from models import *
from stages import object_of, is_ok, default_value, call_setter
from rules import c16
from cx import Abort

SETS = {"TketOp": "tket::ops::TketOp", "QSystemOp": "tket_qsystem::extension::qsystem::QSystemOp",
        "FutureOpDef": "tket_qsystem::extension::futures::FutureOpDef"}
CLASSES = ["releasing a qubit", "quantum operation", "qubit allocation", "ordinary operation", "reading a measurement result"]


def classify(s, v):
    if s in ("TketOp", "QSystemOp"):
        if v == "QFree":
            return 0
        if v in ("QAlloc", "TryQAlloc"):
            return 2
        return 1
    if s == "FutureOpDef" and v == "Read":
        return 4
    return 3


def run(cx):
    P = cx.P
    runkey = cx.key(r"^tket_qsystem::QSystemPass::run$")
    paths = {}
    for s, p in SETS.items():
        a = [q for q in P.adts if q.endswith("::" + s) and q.startswith("tket")]
        cx.check("coverage", f"operation set {s}", len(a) == 1, f"operation set {s} not found")
        paths[s] = a[0]
    ops = [(s, v["name"]) for s in SETS for v in P.adt_variants(paths[s])] + [(None, "other")]
    cx.floor("coverage", "operations", len(ops), 30)

    ranks = {}
    roots = []
    for s, v in ops:
        label = f"{s}::{v}" if s else "an operation of none of the sets"

        def hook(I_, st, ci, a):
            d = ci.def_
            nm = d.rsplit("::", 1)[-1]
            r = c16.hook(I_, st, ci, a)
            if r is not DEFAULT:
                return r
            if nm in ("force_order", "force_order_by_key") and d.startswith("hugr_passes"):
                hv, root, fn = I_.reify(st, a[0]), I_.reify(st, a[1]), a[2]
                hv = object_of(hv)
                roots.append((root, hv, st))

                def k(I2, st2, rv):
                    I2.log(st2, "vp::rank", [root, hv], I2.reify(st2, rv), ci, ci.where, ci.raw)
                    return Ret(OkV(UNIT))
                return Call(fn, [T("h"), T("vpnode")], k)
            if nm == "get_optype" and len(a) == 2 and is_t(I_.reify(st, a[1]), "vpnode"):
                return T("vpop")
            if nm in ("cast", "try_from", "try_into", "from_op", "from_extension_op", "from_optype", "from_def", "as_extension_op",
                      "try_from_op", "is_some_and") and a:
                x = I_.reify(st, a[0])
                if is_t(x, "vpop"):
                    if nm == "as_extension_op":
                        return Some(T("vpop")) if s else NONE
                    tgt = [q for q in list(ci.args) + [ci.full] if isinstance(q, str)]
                    hit = None
                    for n, p in paths.items():
                        if any(p in q for q in tgt):
                            hit = n
                    if hit is None:
                        # an operation set this property does not speak about
                        val = None
                    else:
                        val = Adt(paths[hit], v, ()) if hit == s else None
                    if nm == "cast":
                        return Some(val) if val is not None else NONE
                    return OkV(val) if val is not None else Err(T("notthis"))
            return DEFAULT

        def go():
            dflt = default_value(cx, cx.key(r"^<tket_qsystem::QSystemPass as core::default::Default>::default$"))
            val = dflt
            for sw, b in (("with_constant_fold", False), ("with_monormophize", False), ("with_force_order", True), ("with_lazify", False)):
                val = call_setter(cx, cx.key(rf"^tket_qsystem::QSystemPass::{sw}$"), val, b)
            it, outs = cx.run(runkey, {"self": val}, on_call=hook, opaque=[r"ComposablePass.*>?::run$", r"inline_constant_functions",
                              r"lower_tk2_op(::<|$)"], loop_decisions=2)
            seen = 0
            for o in outs:
                if o.kind != "ret" or not is_ok(it.reify(o.st, o.value)):
                    if o.kind not in ("ret",) and "loop" not in str(o.st.cutreason) and o.kind != "panic":
                        cx.fail("rank", label, f"path not analysed: {o.st.cutreason}")
                    continue
                evs = [e for e in o.events if e.fn == "vp::rank"]
                cx.check("order is imposed", label, len(evs) == 1, f"the ordering routine is called {len(evs)} times when force-order is on")
                for e in evs:
                    seen += 1
                    if not is_c(e.res):
                        cx.fail("rank", label, f"the rank of {label} is not a constant: {show(e.res)[:200]}")
                        continue
                    ranks.setdefault((s, v), set()).add(int(e.res.a[1]))
                    root, hv = e.args
                    whole = is_t(root) and root.a[0].endswith("module_root(") or "module_root" in show(root)
                    cx.check("whole module is ordered", label, whole,
                             f"operation order is imposed below {show(root)[:150]} only, not on the whole module")
            cx.check("coverage", f"paths for {label}", seen >= 1, "no successful path with the ordering routine")
        cx.guard("rank", label, go)
    n = 0
    for (s, v), rs in ranks.items():
        for (s2, v2), rs2 in ranks.items():
            c, c2 = classify(s, v), classify(s2, v2)
            if c2 == c + 1 or (c < c2 and not any(classify(*o) in range(c + 1, c2) for o in ranks)):
                n += 1
                cx.check("priority", f"{v} ({CLASSES[c]}) before {v2} ({CLASSES[c2]})", max(rs) < min(rs2),
                         f"{s or ''} {v} has rank {max(rs)} and {s2 or ''} {v2} has rank {min(rs2)}: {CLASSES[c]} must be preferred over {CLASSES[c2]}")
    cx.floor("coverage", "classes of operation", len({classify(*o) for o in ranks}), 5)
    cx.floor("coverage", "compared pairs", n, 100)
    cx.assume("hugr_passes::force_order places nodes of lower rank first whenever dependencies allow (its documented contract)")
