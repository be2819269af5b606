"""C01: the commutation facts attached to every core operation are extracted by value-flow analysis of the code that publishes
them (`TketOp::post_opdef`, and `qubit_commutation` where present), one abstract run per operation; each fact is compared with
the operation's oracle matrix (Kraus operators for measurements).  The Pauli commutation predicate is extracted the same way
for all pairs and compared with the Pauli matrices."""
import itertools
import qsem
from interp import Adt, is_c, is_t, show, subterms

OPPATH = "tket::ops::TketOp"
PAULI = "tket::ops::Pauli"
MAT = {"I": qsem.I1, "X": qsem.X, "Y": qsem.Y, "Z": qsem.Z}
P0 = [[1, 0], [0, 0]]
P1 = [[0, 0], [0, 1]]


def kraus(op):
    """[(n qubits, [Kraus operators])] at all generic angles; None when qubits are consumed or created"""
    if op in qsem.CORE:
        n, npar, f = qsem.CORE[op]
        for angs in itertools.product(qsem.ANGLES, repeat=npar):
            yield n, [f(*angs)], angs
    elif op == "Measure":
        yield 1, [P0, P1], ()
    elif op == "Reset":
        yield 1, [P0, [[0, 1], [0, 0]]], ()
    else:
        yield 0, [], ()


def embed(p, i, n):
    return qsem.unitary([(MAT[p], [i])], n)


def commutes(a, b):
    x, y = qsem.mm(a, b), qsem.mm(b, a)
    return all(abs(x[i][j] - y[i][j]) < 1e-9 for i in range(len(x)) for j in range(len(x)))


def true_fact(op, i, p):
    ps = ["X", "Y", "Z"] if p == "I" else [p]
    for n, ks, angs in kraus(op):
        if i >= n:
            return False
        for k in ks:
            for q in ps:
                if not commutes(k, embed(q, i, n)):
                    return False
    return True


def facts_of(v):
    """list of (index, pauli) from a concrete sequence value"""
    out = []
    for x in v.a[0]:
        if not (x.k == "tup" and is_c(x.a[0][0], "int") and x.a[0][1].k == "adt" and x.a[0][1].a[0] == PAULI):
            return None
        out.append((x.a[0][0].a[1], x.a[0][1].a[1]))
    return out


def run(cx):
    vs = cx.P.adt_variants(OPPATH)
    if not vs:
        return cx.fail("coverage", "TketOp", "core gate set not found")
    ops = [v["name"] for v in vs]
    cx.floor("coverage", "core operations", len(ops), 24)
    nfacts = 0
    keys = [("published", cx.key(r"^<tket::ops::TketOp as .*MakeOpDef>::post_opdef$"))]
    qc = cx.P.find(r"^tket::ops::TketOp::qubit_commutation$")
    if qc:
        keys.append(("internal", qc[0]))
    for op in ops:
        for kind, key in keys:
            def go():
                nonlocal nfacts
                it, outs = cx.run(key, [Adt(OPPATH, op, ())])
                rets = [o for o in outs if o.kind == "ret"]
                if not rets:
                    return cx.fail("fact extraction", f"{op} ({kind})", "no returning path")
                for o in rets:
                    seqs = []
                    if kind == "internal":
                        seqs = [it.reify(o.st, o.value)]
                    else:
                        ms = [e for e in o.events if e.fn.endswith("add_misc")]
                        ms = [e for e in ms if is_c(e.args[1], "str") and e.args[1].a[1] == "commutation"]
                        if len(ms) != 1:
                            cx.fail("fact extraction", f"{op} ({kind})", f"{len(ms)} 'commutation' entries published")
                            continue
                        seqs = [s for s in subterms(ms[0].args[2]) if s.k == "seq"][:1]
                    if len(seqs) != 1 or seqs[0].k != "seq" or facts_of(seqs[0]) is None:
                        cx.fail("fact extraction", f"{op} ({kind})", "the list of facts is not a constant table")
                        continue
                    fs = facts_of(seqs[0])
                    cx.check("fact extraction", f"{op} ({kind})", len({i for i, _ in fs}) == len(fs),
                             f"several bases declared for one qubit of {op}: {fs}")
                    for i, p in fs:
                        nfacts += 1
                        cx.check("declared basis commutes", f"{op} declares {p} on qubit {i} ({kind})", true_fact(op, i, p),
                                 f"{op} is declared to commute with Pauli {p} on qubit {i}, but its matrix does not")
            cx.guard("fact extraction", f"{op} ({kind})", go)
    cx.floor("coverage", "declared facts", nfacts, 15)

    # the Pauli commutation predicate
    key = cx.key(r"^tket::ops::Pauli::commutes_with$")
    ps = [v["name"] for v in cx.P.adt_variants(PAULI)]
    for a in ps:
        for b in ps:
            def go():
                it, outs = cx.run(key, [Adt(PAULI, a, ()), Adt(PAULI, b, ())])
                for o in outs:
                    v = it.reify(o.st, o.value) if o.kind == "ret" else None
                    want = commutes(MAT[a], MAT[b])
                    cx.check("Pauli commutation", f"{a} with {b}", v is not None and is_c(v, "bool") and v.a[1] == want,
                             f"commutes_with({a},{b}) = {show(v) if v else None}, Pauli matrices say {want}")
            cx.guard("Pauli commutation", f"{a} with {b}", go)
