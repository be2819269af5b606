"""C40: patterns are built from concrete circuits and matched in concrete circuits by abstract execution of the pattern code; every
match it hands out is compared with the definition of an occurrence.  The key operations are compared by is checked separately to
tell apart operations that differ in extension, name or arguments."""
import random
from interp import V, mk, I, B, S, T, Adt, Tup, Seq, Some, NONE, Ok, UNIT, DEFAULT, is_c, is_t, show, Ret
import hg, models, region, exprs, occ
from hg import node, N
from region import convex, opv
from cmds import circ
from occ import Occ, extract, isomorphism
from rules.c28 import describe, whole
from rules.c41 import ask

OPS = ["G1", "G2", "G3", "Gf", "MeasQB", "Alloc", "Free", "Not", "And", "Rot", "Shift", "Split", "AngB", "Meas"]
PID = "portmatching::PatternID"


def vary(rng, g):
    """some operations carry an argument"""
    for n, x in list(g.nodes.items()):
        if x.op.a[1] in ("G1", "G2", "Not", "And", "Const"):
            g.nodes[n] = N(opv(x.op.a[1], I(rng.randrange(2))), x.ins, x.outs, x.parent)


def host(rng):
    while True:
        allowed = rng.sample(OPS, rng.randint(2, 5))
        g = region.circuit(rng, [rng.choice([region.Q, region.Q, region.BIT, region.ANGLE]) for _ in range(rng.randint(1, 4))], rng.randint(3, 7),
                           order=rng.choice([0, 0, 0.4]), allowed=allowed, const=rng.choice([0, 0, 1]))
        vary(rng, g)
        if len(whole(g)[0]) > 1:
            return g


def disturb(rng, g):
    """a circuit close to g: two wires into an operation swapped, an argument changed, or a value used once more"""
    g = g.copy()
    g.inn, g.out = INN(g)
    nodes = whole(g)[0]
    k = rng.randrange(4)
    if k == 0:
        n = rng.choice(nodes)
        ps = [p for p in range(len(g.nodes[n].ins)) for q in range(len(g.nodes[n].ins)) if p != q and g.nodes[n].ins[p] == g.nodes[n].ins[q]]
        if ps:
            p = rng.choice(ps)
            q = rng.choice([q for q in range(len(g.nodes[n].ins)) if p != q and g.nodes[n].ins[p] == g.nodes[n].ins[q]])
            sw = {(n, p): q, (n, q): p}
            g.edges = tuple(e[:3] + (sw.get((e[2], e[3]), e[3]),) for e in g.edges)
    elif k == 1:
        vary(rng, g)
    elif k == 2:
        n = rng.choice(nodes)
        for p, t in enumerate(g.nodes[n].outs):
            if t.a[2][0].a[1]:
                o = g.nodes[g.out]
                g.link(n, p, g.out, len(o.ins))
                g.nodes[g.out] = N(o.op, o.ins + (t,), (), o.parent)
                break
    else:
        qs = [(e[2], e[3]) for e in g.edges if e[3] < len(g.nodes[e[2]].ins) and not g.nodes[e[2]].ins[e[3]].a[2][0].a[1] and g.nodes[e[2]].ins[e[3]] == region.Q]
        if len(qs) > 1:
            x, y = rng.sample(qs, 2)
            sw = {x: y, y: x}
            new = tuple(e[:2] + sw.get((e[2], e[3]), e[2:]) for e in g.edges)
            h = g.copy()
            h.edges = new
            if not any(n in region.reach(h, n) for n in h.nodes):
                g.edges = new
    return g


def INN(g):
    ks = [k for k, x in sorted(g.nodes.items()) if x.parent == g.entry]
    return ks[0], ks[1]


def parts(rng, g):
    nodes = whole(g)[0]
    for i in range(12):
        n = rng.choice(nodes)
        part = [n]
        while len(part) < 4 and rng.random() < 0.75:
            nb = [m for e in g.edges for m in (e[0], e[2]) if (e[0] in part or e[2] in part) and m in nodes and m not in part]
            if not nb:
                break
            part.append(rng.choice(nb))
        if convex(g, part):
            return part
    return [n]


def run(cx):
    model = Occ(cx)
    build = cx.key(r"^tket::portmatching::pattern::CircuitPattern::try_from_circuit$")
    find = cx.key(r"PatternMatch::try_from_root_match_with_checker::<H>$")
    rng = random.Random(40)
    model.rng = random.Random(4)
    st = {"patterns": 0, "matches": 0, "asked": 0}
    for i in range(3000 if cx.thorough else 500):
        g = host(rng)
        part = parts(rng, g)
        drop = rng.random() < 0.2
        p = extract(rng, g, part, keep=lambda w: not drop and (not g.nodes[w[0]].outs[w[1]].a[2][0].a[1] or rng.random() < 0.3))
        if p is None:
            continue
        lb = f"pattern {i}"
        cx.guard("coverage", lb, one, cx, model, build, find, lb, rng, g, p, st)
    cx.floor("coverage", "patterns", st["patterns"], 200)
    cx.floor("coverage", "roots asked", st["asked"], 2000)
    cx.floor("coverage", "matches reported", st["matches"], 400)
    cx.guard("coverage", "keys", keys, cx)


def one(cx, model, build, find, lb, rng, g, p, st):
    pat, why = ask(cx, model, p, build, [circ()])
    dp = describe(p, whole(p)[0])
    if pat is None:
        return cx.fail("coverage", lb, f"the pattern is not a single value: {why} in {dp}"[:900])
    if pat.a[1] != "Ok":
        return
    st["patterns"] += 1
    pat = pat.a[2][0]
    for j, h in enumerate([g, disturb(rng, g), disturb(rng, g)]):
        h.inn, h.out = INN(h)
        nodes = whole(h)[0]
        for n in nodes:
            r, why = ask(cx, model, h, find, [node(n), PIDV(0), circ(), MATCHER(cx, pat), T("checker")])
            l2 = f"{lb} host {j} root {n}"
            if r is None:
                cx.fail("coverage", l2, f"the match is not a single value: {why} in {describe(h, nodes)}"[:900])
                continue
            st["asked"] += 1
            if r.a[1] != "Ok":
                continue
            st["matches"] += 1
            sub, pid, root = fields(cx, r.a[2][0])
            got = [x.a[2][0].a[1] for x in sub.a[2][0].a[0]]
            np_ = lambda x: (x.a[0][0].a[2][0].a[1], x.a[0][1].a[2][0].a[1])
            ins, outs = [[np_(x) for x in grp.a[0]] for grp in sub.a[2][1].a[0]], [np_(x) for x in sub.a[2][2].a[0]]
            bad, f = isomorphism(p, whole(p)[0], h, ins, outs, got)
            cx.check("a reported match is an occurrence", l2, bad is None and convex(h, got),
                     f"{bad or 'the region is not convex'}: region {got}, inputs {ins}, outputs {outs} in {describe(h, nodes)} for the pattern {dp}"[:900])
            cx.check("a match names its pattern and root", l2, pid == PIDV(0) and root == node(n), f"{show(pid)} {show(root)}"[:300])


def PIDV(i):
    return Adt(PID, "PatternID", (I(i),))


def MATCHER(cx, pat):
    f = cx.P.adts["tket::portmatching::matcher::PatternMatcher"]
    names = field_names(f)
    return Adt("tket::portmatching::matcher::PatternMatcher", "PatternMatcher", tuple(Seq((pat,)) if n == "patterns" else T(n) for n in names))


def field_names(a):
    return a["variants"][0]["fields"]


def fields(cx, v):
    names = field_names(cx.P.adts["tket::portmatching::matcher::PatternMatch"])
    d = dict(zip(names, v.a[2]))
    return d["subgraph"], d["pattern"], d["root"]


MOP = "tket::portmatching::matcher::MatchOp"
OT = "hugr_core::ops::OpType"
ACC = ("extension", "unqualified_id", "args", "def_name")


def keys(cx):
    """what the key of an operation is made of"""
    key = cx.key(r"^<tket::portmatching::matcher::MatchOp as .*From<hugr_core::ops::OpType>>::from$")
    names = field_names(cx.P.adts[MOP])

    def subject(v):
        while v.k == "adt" and v.a[0] == OT or is_t(v, "same"):
            v = v.a[2][0] if v.k == "adt" else v.a[1]
        return v

    def model(I_, st, ci, a):
        d, nm = ci.def_, ci.def_.rsplit("::", 1)[-1]
        v = I_.reify(st, a[0]) if a else None
        if nm in ("to_string", "to_smolstr", "name") and len(a) == 1:
            return T("text", subject(v))
        if nm == "make_opaque":
            return T("same", v)
        if nm in ACC and len(a) == 1 and ("OpaqueOp" in ci.full or "ExtensionOp" in ci.full or "hugr_core" in d):
            return T(nm, subject(v))
        if nm == "extension_id":
            return T("extension", subject(v))
        if "rmp_serde" in d and nm in ("write", "write_named"):
            c, p, buf = models.seq_target(I_, st, a[0])
            if buf.k != "seq":
                return DEFAULT
            I_.storev(st, c, p, Seq(buf.a[0] + (whole_value(I_, st, a[1]),)))
            return Ok(UNIT)
        if "rmp_serde" in d and nm in ("to_vec", "to_vec_named"):
            return Ok(Seq((whole_value(I_, st, v),)))
        return DEFAULT

    def whole_value(I_, st, x):
        x = I_.reify(st, x)
        return subject(x)
    op = T("the operation")
    for var in ("ExtensionOp", "OpaqueOp", "Const", "LoadConstant", "Call", "DFG", "Input", "Conditional", "Tag"):
        it, res = cx.run(key, [Adt(OT, var, (op,))], on_call=model)
        lb = f"key of {var}"
        ok = res and all(o.kind == "ret" for o in res)
        what = []
        for o in res:
            if o.kind != "ret":
                what.append(o.kind)
                continue
            v = it.reify(o.st, o.value)
            f = dict(zip(names, v.a[2]))
            enc = f.get("encoded")
            toks = set(enc.a[2][0].a[0]) if enc is not None and enc.k == "adt" and enc.a[1] == "Some" and enc.a[2][0].k == "seq" else set()
            good = op in toks or (var in ("ExtensionOp", "OpaqueOp") and {T("extension", op), T("args", op)} <= toks and T("unqualified_id", op) in toks)
            what.append(show(v)[:300])
            ok = ok and good
        cx.check("the key tells operations apart by extension, name and arguments", lb, ok, f"the key is {what}")
    eq = cx.key(r"^<tket::portmatching::matcher::MatchOp as .*PartialEq.*>::eq$")
    vals = [Adt(MOP, "MatchOp", tuple({"op_name": n, "encoded": e}[k] for k in names)) for n in (S("a"), S("b")) for e in (NONE, Some(Seq((I(1),))), Some(Seq((I(2),))))]
    for x in vals:
        for y in vals:
            it, res = cx.run(eq, [x, y])
            got = {it.reify(o.st, o.value) for o in res if o.kind == "ret"}
            cx.check("equal keys are equal in both parts", f"{show(x)} {show(y)}", got == {B(x == y)} and all(o.kind == "ret" for o in res), f"{show(x)} == {show(y)} is {[show(g) for g in got]}"[:400])
