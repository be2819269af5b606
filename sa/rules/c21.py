"""C21: each rewriting strategy is executed abstractly on a circuit and a list of rewrites that are only sets of nodes with an
old and a new cost.  For every list up to a bounded length, every circuit it returns must have had applied, to a copy of the
original circuit, only rewrites that pass the strategy's threshold and no two that share a node, each at most once, and the
cost change it reports must be the sum of new minus old cost over exactly the rewrites applied to that circuit."""
import itertools
from interp import V, mk, I, B, S, T, F, Adt, Tup, Seq, is_c, is_t, DEFAULT, Ret, show
from cx import Abort
import models
from costs import World, circ, hugr, rewrite, CIRC
from rules.c20 import graph

# the circuit: five gates
HOST = [("ExtensionOp", f"tket.quantum.{g}") for g in ("H", "CX", "T", "CX", "Rz")]
SETS = [(0,), (0, 1), (1, 2), (2,), (3, 4), (1, 3), (4,)]


def result(it, o):
    v = it.reify(o.st, o.value)
    if v.k != "seq":
        raise Abort(f"the result is not a list of circuits: {show(v)[:200]}")
    out = []
    for r in v.a[0]:
        if not (r.k == "adt" and r.a[0].endswith("RewriteResult")):
            raise Abort(f"unexpected result {show(r)[:200]}")
        c, d = None, None
        for x in r.a[2]:
            if x.k == "adt" and x.a[0] == CIRC:
                c = x.a[2][0]
            else:
                d = I(0) if is_t(x, "default") else x
        if c is None or d is None or not is_c(d) or c.k != "adt" or c.a[0] != "vp::Hugr":
            raise Abort(f"unexpected result {show(r)[:300]}")
        out.append((c.a[1], [x.a[1] for x in c.a[2][0].a[0]], d.a[1]))
    return out


def collect(I_, st, v):
    return models.drain_all(I_, st, v if v.k == "iter" else models.as_iter(I_, st, v), lambda s, items: Ret(Seq([I_.reify(s, x) for x in items])))


def run(cx):
    P = cx.P
    base = r"^<tket::rewrite::strategy::{} as tket::rewrite::strategy::RewriteStrategy>::apply_rewrites::<impl IntoIterator<Item = CircuitRewrite>>$"
    S_ = "tket::rewrite::strategy::"
    strategies = [("GreedyRewriteStrategy", "GreedyRewriteStrategy", Adt(S_ + "GreedyRewriteStrategy", "GreedyRewriteStrategy", ())),
                  ("ExhaustiveGreedyStrategy", "ExhaustiveGreedyStrategy<T>", Adt(S_ + "ExhaustiveGreedyStrategy", "ExhaustiveGreedyStrategy", (T("strat"),))),
                  ("ExhaustiveThresholdStrategy", "ExhaustiveThresholdStrategy<T>", Adt(S_ + "ExhaustiveThresholdStrategy", "ExhaustiveThresholdStrategy", (T("strat"),)))]
    host, e, tops = graph(HOST, ["FuncDefn"])
    graphs, entry = {"host": host}, {"host": e}
    for n in range(0, 5):
        graphs[f"r{n}"], entry[f"r{n}"], _ = graph([("ExtensionOp", "tket.quantum.H")] * n, ["FuncDefn", "DFG"])
    # a rewrite: a set of nodes and the number of gates it puts there
    one = [(s, d) for s in SETS for d in (-1, 0, 1)]
    lists = [[]] + [[x] for x in one] + [list(p) for p in itertools.product(one, repeat=2)]
    three = list(itertools.product(one, repeat=3))
    step = 7 if cx.thorough else 97
    lists += [list(three[k]) for k in range(0, len(three), step)]
    four = [((0, 1), -1), ((1, 2), -1), ((2,), 0), ((3, 4), -1), ((4,), 1), ((0,), -1)]
    lists += [list(p) for p in itertools.permutations(four, 4)][:: 3 if cx.thorough else 20]
    thresholds = [("not worse", lambda p, t: t <= p), ("strictly better", lambda p, t: t < p), ("anything", lambda p, t: True),
                  ("uneven", lambda p, t: (p + t) % 3 != 0)]
    for name, pat, selfv in strategies:
        key = cx.key(base.format(pat))
        ths = thresholds if "T>" in pat else [("fewer gates", lambda p, t: t < p)]
        applied_some = [0]
        for tn, allowed in ths:
            for li, l in enumerate(lists):
                if len(ths) > 1 and len(l) >= 2 and (li + len(tn)) % (2 if cx.thorough else 5):
                    continue
                rws = {i: (tuple(tops[k] for k in s), f"r{len(s) + d}") for i, (s, d) in enumerate(l)}
                w = World(P, graphs, entry, rws, cost=lambda o: 1, allowed=allowed)
                label = f"{name}, {tn}, " + (" ".join(f"{''.join(map(str, s))}{d:+d}" for s, d in l) or "no rewrites")

                def go():
                    it, outs = cx.run(key, [selfv, mk("iter", "seq", tuple(rewrite(i) for i in range(len(l)))), circ("host")],
                                      on_call=w, post=collect, cparams={}, max_visits=2000, loop_decisions=200)
                    if len(outs) != 1 or outs[0].kind != "ret":
                        raise Abort(f"{len(outs)} outcomes: {[(o.kind, o.st.cutreason) for o in outs][:3]}")
                    rs = result(it, outs[0])
                    bad = None
                    for base_, ids, delta in rs:
                        cost = {i: (len(l[i][0]), len(l[i][0]) + l[i][1]) for i in range(len(l))}
                        if base_ != "host":
                            bad = f"a result is not made from the circuit given but from {base_}"
                        elif len(set(ids)) != len(ids):
                            bad = f"a rewrite is applied twice: {ids}"
                        elif any(not allowed(*cost[i]) for i in ids):
                            bad = f"rewrite {[i for i in ids if not allowed(*cost[i])]} is applied although it does not pass the threshold"
                        elif any(set(l[i][0]) & set(l[j][0]) for i, j in itertools.combinations(ids, 2)):
                            bad = f"overlapping rewrites are applied to one circuit: {ids}"
                        elif delta != sum(cost[i][1] - cost[i][0] for i in ids):
                            bad = f"reports a change of {delta} for the rewrites {ids}, which change the cost by {sum(cost[i][1] - cost[i][0] for i in ids)}"
                        applied_some[0] += len(ids)
                    cx.check("strategy", label, bad is None, f"{key}: {bad}")
                cx.guard("strategy", label, go)
        cx.floor("coverage", f"rewrites applied by {name}", applied_some[0], 20)
