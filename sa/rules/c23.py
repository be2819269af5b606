"""C23: regions are only built by constructors that check convexity, with a checker made for the same circuit.
(1) every construction of a circuit region in the compiled program is a checked one, except inside CopyableExpr::try_new (whose
own check is C39); (2) each function that makes a convexity checker is executed abstractly: the checker is made from the graph and
the region of the circuit the function was given, and the constructor gets the same graph, that checker, and the boundary the
caller asked for; errors of the constructor are returned; (3) a candidate match that is not convex is skipped, one that is
convex is kept, and every other error stays an error; (4) reachability inside a scope is executed abstractly on concrete
circuits, with and without state order edges, and compared with the definition; (5) the rewrite of a match is made for the
region of that match, and errors of its construction are returned."""
import random, re
from interp import V, mk, I, B, S, T, Adt, Tup, Seq, Some, NONE, Ok, Err, is_c, is_t, show, Ret, DEFAULT, Fork, Call, UNIT
import hg, region, exprs, models
from hg import node, inp, outp
from exprs import Exprs, scope_of, reaches
from rules.c28 import regions, describe

PM = r"^tket::portmatching::matcher::PatternMatch::%s$"
CTOR = ("new_unchecked", "try_new", "try_new_with_checker", "try_from_nodes", "try_from_nodes_with_checker", "try_new_dataflow_subgraph",
        "try_from_nodes_with_line_checker", "try_new_with_line_checker")
UNCHECKED_OK = "tket::subcircuit::expression::CopyableExpr"


CALL = re.compile(r'"(hugr_core::hugr::views::sibling_subgraph::SiblingSubgraph[^"]*?::(%s)(?:::<[^"]*)?)"' % "|".join(CTOR))


def sites(cx):
    P, n = cx.P, 0
    for key in P.local_keys():
        hits = {m.group(2) for m in CALL.finditer(P.raw[key][1])}
        for nm in sorted(hits):
            n += 1
            cx.check("only checked constructors", f"{key}: {nm}", nm != "new_unchecked" or UNCHECKED_OK in key,
                     f"{key} builds a region with {nm}, which does not check that it is convex")
    cx.floor("coverage", "region constructions", n, 6)


class Sym:
    """the region and rewrite constructors, recorded; they may fail"""

    def __init__(self, matches=None, **kw):
        self.matches, self.kw = matches, kw

    def __call__(self, it, st, ci, a):
        d, nm = ci.def_, ci.def_.rsplit("::", 1)[-1]
        r = lambda: [it.reify(st, x) for x in a]
        if "sibling_subgraph" in d and nm == "new" and "Checker" in d:
            return T("vp.checker", *r())
        if "SiblingSubgraph" in d and nm == "try_new_with_checker":
            return Fork([(st, Ret(Ok(T("vp.region", *r())))), (st.clone(), Ret(Err(Adt(IS, "NotConvex", ()))))])
        if "SiblingSubgraph" in d and nm == "nodes" and is_t(it.reify(st, a[0]), "vp.region"):
            return Seq([node(i) for i in range(self.kw.get("size", 2))])
        if nm == "create_simple_replacement":
            return Fork([(st, Ret(Ok(T("vp.repl", *r())))), (st.clone(), Ret(Err(Adt(IR, "Bad", ()))))])
        if nm == "get_match_map" and "map" in self.kw:
            return Some(self.kw["map"])
        if nm == "run" and "portmatching" in d:
            return mk("iter", "seq", (Adt("tket::portmatching::matcher::PatternID", "PatternID", (I(3),)), ))
        if nm == "commands" and "Circuit" in ci.full:
            return mk("iter", "seq", tuple(Adt("vp::Cmd", "Cmd", (node(i),)) for i in (11, 12)))
        if nm == "node" and a:
            v = it.reify(st, a[0])
            if v.k == "adt" and v.a[0] == "vp::Cmd":
                return v.a[2][0]
        if nm == "try_from_root_match_with_checker" and self.matches:
            st.side["made"] = st.side.get("made", ()) + (tuple(r()),)
            m = T("vp.match", r()[0])
            return Fork([(st, Ret(Ok(m)))] + [(st.clone(), Ret(Err(e))) for e in self.matches])
        return DEFAULT


IS = "hugr_core::hugr::views::sibling_subgraph::InvalidSubgraph"
IB = "hugr_core::hugr::views::sibling_subgraph::InvalidSubgraphBoundary"
IR = "hugr_core::hugr::views::sibling_subgraph::InvalidReplacement"
PE = "tket::portmatching::matcher::InvalidPatternMatch"
NID = "tket::portmatching::NodeID"
PMT = "tket::portmatching::matcher::PatternMatch"
HUGR = T("hugr")
CIRC = Adt("tket::circuit::Circuit", "Circuit", (HUGR,))


def outcomes(cx, pat, args, sym, post=None):
    it, res = cx.run(cx.key(pat), args, on_call=sym, post=post, loop_decisions=60, max_visits=2000)
    return it, res


def same(cx, rule, where, got, want):
    cx.check(rule, where, got == want, f"{where}: {show(got)[:300]} instead of {show(want)[:300]}")


def is_checker(v, hugr):
    """a checker made from the graph and from the region of the circuit"""
    return is_t(v, "vp.checker") and v.a[1] == hugr and is_t(v.a[2]) and "entrypoint" in v.a[2].a[0] and v.a[2].a[1:] == (hugr,)


def single(cx):
    """functions that make one match"""
    ins, outs, root, pid = T("ins"), T("outs"), T("root"), T("pid")
    ck = T("given checker")
    n = 0
    for name, args, own in (("try_from_io", [root, pid, CIRC, ins, outs], True),
                            ("try_from_io_with_checker::<.*>", [root, pid, CIRC, ins, outs, ck], False)):
        it, res = outcomes(cx, PM % name, args, Sym())
        kinds = []
        for o in res:
            n += 1
            v = it.reify(o.st, o.value) if o.kind == "ret" else None
            if v is None or v.k != "adt":
                cx.fail("coverage", name, f"{o.kind} {o.st.cutreason if o.kind == 'cut' else ''}")
                continue
            kinds.append(v.a[1])
            if v.a[1] == "Ok":
                g = v.a[2][0].a[2][0]
                ok = is_t(g, "vp.region") and g.a[1:4] == (ins, outs, HUGR)
                cx.check("region of the caller's boundary", name, ok, f"{name}: region made from {show(g)[:300]}")
                c = g.a[4] if is_t(g, "vp.region") and len(g.a) > 4 else UNIT
                cx.check("checker of the same circuit", name, is_checker(c, HUGR) if own else c == ck, f"{name}: checker {show(c)[:300]}")
                same(cx, "match keeps its pattern and root", name, Tup(*v.a[2][0].a[2][1:]), Tup(pid, root))
            else:
                cx.check("error is returned", name, is_adt(v.a[2][0]) and v.a[2][0].a[1] == "NotConvex", f"{name}: {show(v)}")
        cx.check("error is returned", name + ": both", sorted(kinds) == ["Err", "Ok"], f"{name}: outcomes {kinds}")
    # by root: the boundary is the image of the pattern's
    it, res = outcomes(cx, PM % "try_from_root_match", [root, pid, CIRC, T("matcher")],
                       lambda it, st, ci, a: (st.side.__setitem__("made", tuple(it.reify(st, x) for x in a)) or T("vp.res"))
                       if ci.def_.endswith("try_from_root_match_with_checker") else Sym()(it, st, ci, a))
    cx.check("coverage", "try_from_root_match", len(res) == 1 and res[0].kind == "ret", f"{[(o.kind, o.st.cutreason) for o in res]}")
    for o in res:
        m = o.st.side.get("made")
        cx.check("checker of the same circuit", "try_from_root_match", m is not None and m[:4] == (root, pid, CIRC, T("matcher")) and is_checker(m[4], HUGR)
                 and it.reify(o.st, o.value) == T("vp.res"), f"try_from_root_match: {[show(x) for x in m or ()]}")
    # the errors
    P_, N_ = T("port"), T("node")
    for e, want in ((Adt(IS, "NotConvex", ()), "NotConvex"), (Adt(IS, "InvalidBoundary", (Adt(IB, "DisconnectedBoundaryPort", (N_, P_)),)), "NotConvex"),
                    (Adt(IS, "EmptySubgraph", ()), "EmptyMatch")):
        it, res = outcomes(cx, r"^<tket::portmatching::matcher::InvalidPatternMatch as .*From<.*InvalidSubgraph.*>>::from$", [e], Sym())
        got = [it.reify(o.st, o.value) if o.kind == "ret" else o.kind for o in res]
        cx.check("refusals are kept apart", show(e)[-60:], len(got) == 1 and is_adt(got[0]) and got[0].a[1] == want, f"{show(e)} becomes {[show(x) for x in got]}")
    for e in (Adt(IS, "InvalidBoundary", (Adt(IB, "PortNodeNotInSet", (N_, P_)),)), Adt(IS, "NoSharedParent", (N_, P_, N_, P_)),
              Adt(IS, "UnsupportedEdgeKind", (N_, P_))):
        it, res = outcomes(cx, r"^<tket::portmatching::matcher::InvalidPatternMatch as .*From<.*InvalidSubgraph.*>>::from$", [e], Sym())
        got = [it.reify(o.st, o.value) if o.kind == "ret" else o.kind for o in res]
        cx.check("refusals are kept apart", show(e)[-60:], len(got) == 1 and is_adt(got[0]) and got[0].a[1] not in ("NotConvex", "MatchNotFound"),
                 f"{show(e)} becomes {[show(x) for x in got]}: a broken region counts as a benign one")


def is_adt(v):
    return isinstance(v, V) and v.k == "adt"


def many(cx):
    """the search over all commands"""
    errs = [Adt(PE, "NotConvex", ()), Adt(PE, "MatchNotFound", ()), Adt(PE, "InvalidSubcircuit", ()), Adt(PE, "EmptyMatch", ())]
    matcher = Adt("tket::portmatching::matcher::PatternMatcher", "PatternMatcher", (T("automaton"), Seq([T("p0"), T("p1")])))

    def post(I_, st, v):
        return models.drain_all(I_, st, models.as_iter(I_, st, I_.reify(st, v)), lambda s, l: Ret(Seq([I_.reify(s, x) for x in l])))
    it, res = outcomes(cx, r"^tket::portmatching::matcher::PatternMatcher::find_matches_iter::<.*>$", [matcher, CIRC], Sym(errs), post)
    seen, np = set(), 0
    for o in res:
        made = o.st.side.get("made", ())
        if o.kind == "cut":
            cx.fail("coverage", "find_matches_iter", f"cut: {o.st.cutreason}")
            continue
        for m in made:
            cx.check("checker of the same circuit", "find_matches_iter", m[2] == CIRC and is_checker(m[4], HUGR) and m[3] == matcher,
                     f"find_matches_iter: a match is made with {[show(x)[:80] for x in m]}")
        if o.kind == "ret":
            got = it.reify(o.st, o.value).a[0]
            roots = [m[0] for m in made]
            cx.check("every candidate is examined", "find_matches_iter", roots == [node(11), node(12)], f"candidates at {[show(x) for x in roots]}")
            cx.check("only accepted matches are reported", "find_matches_iter", all(is_t(x, "vp.match") for x in got) and
                     [x.a[1] for x in got] == [r for r in roots if T("vp.match", r) in got], f"{[show(x) for x in got]}")
            seen.add(tuple(r in [x.a[1] for x in got] for r in roots))
        np += 1
    cx.check("benign refusals are skipped, matches are kept", "find_matches_iter", seen == {(a, b) for a in (True, False) for b in (True, False)},
             f"kept for (first, second) candidate: {sorted(seen)}")
    cx.floor("coverage", "paths of the search", np, 4)
    # an error that is not a refusal never yields a match
    for e in errs:
        it, res = outcomes(cx, r"^tket::portmatching::matcher::handle_match_error::<T>$", [Err(e), node(1)], Sym())
        for o in res:
            v = it.reify(o.st, o.value) if o.kind == "ret" else None
            cx.check("only accepted matches are reported", f"handle_match_error {e.a[1]}", v is None and o.kind == "panic" or v == NONE, f"{e.a[1]} gives {show(v) if v else o.kind}")


def rewrites(cx):
    tgt = T("target circuit")
    it, res = outcomes(cx, PM % "to_rewrite::<.*>", [Adt(PMT, "PatternMatch", (T("matched region"), T("pid"), T("root"))), CIRC, tgt],
                       lambda it, st, ci, a: T("vp.rw", *[it.reify(st, x) for x in a]) if ci.def_.endswith("CircuitRewrite::try_new") else Sym()(it, st, ci, a))
    for o in res:
        same(cx, "rewrite acts on the matched region", "to_rewrite", it.reify(o.st, o.value) if o.kind == "ret" else T(o.kind),
             T("vp.rw", T("matched region"), HUGR, tgt))
    it, res = outcomes(cx, r"^tket::rewrite::CircuitRewrite::try_new::<impl HugrView<Node = Node>, impl HugrView<Node = Node>>$",
                       [T("given region"), HUGR, Adt("tket::circuit::Circuit", "Circuit", (T("replacement"),))], Sym())
    kinds = []
    for o in res:
        if o.kind == "panic":
            continue
        v = it.reify(o.st, o.value) if o.kind == "ret" else None
        if not is_adt(v):
            cx.fail("coverage", "CircuitRewrite::try_new", f"{o.kind} {o.st.cutreason if o.kind == 'cut' else show(v)}")
            continue
        kinds.append(v.a[1])
        if v.a[1] == "Ok":
            r = v.a[2][0].a[2][0]
            cx.check("rewrite acts on the matched region", "CircuitRewrite::try_new", is_t(r, "vp.repl") and r.a[1:3] == (T("given region"), HUGR) and
                     "replacement" in show(r.a[3]), f"the rewrite is {show(r)[:300]}")
        else:
            cx.check("error is returned", "CircuitRewrite::try_new", "Bad" in show(v), f"{show(v)}")
    cx.check("error is returned", "CircuitRewrite::try_new: both", set(kinds) == {"Ok", "Err"}, f"outcomes {kinds}")


def reach(cx):
    """reachability inside a scope"""
    rng = random.Random(23)
    model = Exprs(cx)
    key = cx.key(r"^tket::resource::scope::ResourceScope::<H>::any_reachable_from::<impl IntoIterator<.*>>$")
    n = 0
    for i in range(160 if cx.thorough else 40):
        g = exprs.circuit(rng, order=rng.choice([0, 0.6]))
        for what, (nodes, ins, outs) in regions(rng, g):
            sc = scope_of(cx, model, g, nodes, ins, outs)
            if sc is None:
                cx.fail("coverage", f"scope {i} {what}", "the resource view is not a single value")
                continue
            all_ = [k for k, x in g.nodes.items() if x.parent == g.entry and k != g.out and x.op.a[1] != "Const"]
            for j in range(4):
                pts = [(m, p) for m in all_ for p in range(len(g.nodes[m].outs))]
                starts = rng.sample(pts, min(len(pts), rng.choice([1, 1, 2])))
                epts = [(m, 0) for m in all_ if m != g.inn and g.nodes[m].ins]
                ends = rng.sample(epts, min(len(epts), rng.choice([1, 1, 2])))
                want = reaches(g, set(m for m in nodes if g.nodes[m].op.a[1] != "Const"), starts, [m for m, _ in ends])
                it, res = cx.run(key, [sc, Seq(Tup(node(m), outp(p)) for m, p in starts), Seq(Tup(node(m), inp(p)) for m, p in ends)],
                                 setup=lambda it, st: st.side.__setitem__("hg", g), on_call=model, loop_decisions=200, max_visits=20000)
                got = [it.reify(o.st, o.value) if o.kind == "ret" else T(o.kind, S(str(o.st.cutreason))) for o in res]
                n += 1
                cx.check("reachable exactly if a path exists", f"{i} ({what}) {j}", got == [B(want)],
                         f"from {starts} to {ends}: {[show(x) for x in got]}, expected {want} in {describe(g, nodes)}"[:900])
    cx.floor("coverage", "reachability questions", n, 200)


def run(cx):
    for what, f in (("constructions", sites), ("one match", single), ("search", many), ("rewrites", rewrites), ("reachability", reach)):
        cx.guard("coverage", what, f, cx)
