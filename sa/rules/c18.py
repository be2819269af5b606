"""C18: the array clean-up is executed abstractly on every chain of array operations up to a bounded length: borrows and
returns at constant indices, at an index that is not constant, and an operation that is neither.  The graph it leaves is
compared with the graph it was given, by evaluating both on symbolic element values: every remaining operation must see the
same element, index and array state as before, and nothing that can fail or be observed may disappear."""
import itertools
from interp import V, mk, I, B, S, T, Adt, Tup, Seq, Some, is_t, show
import hg
from hg import Gr, Model, ty, node, outp
from cx import Abort

BOP = "hugr_core::std_extensions::collections::borrow_array::BArrayUnsafeOpDef"


QB = ty("qubit")


class Bad(Exception):
    pass


def op(kind, *a):
    return Adt("vp::Op", kind, a)


def build(seq, elem="qubit", user=True):
    """a region: Input -> chain of array ops -> Output.  Every borrowed element goes through a user node `use_k` to wherever it
    is returned (the k-th return takes the most recent unreturned element of that index or a fresh one)."""
    g = Gr()
    root = g.add(op("Module"), [], [])
    arr = ty("borrow_array<%s>" % elem)
    el = ty(elem) if elem != "int" else ty(elem, True)
    usize = ty("usize", True)
    fn = g.add(op("FuncDefn"), [], [], root)
    g.entry = fn
    nret = sum(1 for x in seq if x[0] == "R")
    inn = g.add(op("Input"), [], [arr, usize] + [el] * nret, fn)
    out = g.add(op("Output"), [], [], fn)
    consts = {}

    def const(i):
        if i not in consts:
            c = g.add(op("Const", Adt("vp::ConstX", "ConstUsize" if i % 2 == 0 else "ConstInt", (I(i),))), [], [ty("const")], root)
            l = g.add(op("LoadConstant"), [ty("const")], [usize], fn)
            g.link(c, 0, l, 0)
            consts[i] = l
        return consts[i], 0
    cur = (inn, 0)
    held = {}
    more = []
    fresh = 0
    for k, x in enumerate(seq):
        if x[0] in "br":  # inner array: the most recently borrowed element of slot 0
            w, inner = held[0].pop()[:2], held.setdefault("inner", [])
            n = g.add(Adt(BOP, "borrow" if x[0] == "b" else "return", ()), [el, usize] + ([QB] if x[0] == "r" else []),
                      [el] + ([QB] if x[0] == "b" else []), fn)
            g.link(*w, n, 0)
            g.link(const(x[1])[0], 0, n, 1)
            if x[0] == "b":
                u = g.add(op("use", I(k)), [QB], [QB], fn)
                g.link(n, 1, u, 0)
                inner.append((u, 0))
            else:
                g.link(*inner.pop(), n, 2)
            held[0].append((n, 0))
            continue
        if x[0] == "N":  # another operation on the array
            n = g.add(op("other", I(k)), [arr], [arr], fn)
            g.link(*cur, n, 0)
            cur = (n, 0)
            continue
        i = x[1]
        src = (inn, 1) if i == "d" else const(i)
        if x[0] == "B":
            n = g.add(Adt(BOP, "borrow", ()), [arr, usize], [arr, el], fn)
            g.link(*cur, n, 0)
            g.link(*src, n, 1)
            if user == "copy":  # a copyable element with several consumers
                u = g.add(op("use", I(k)), [el], [el], fn)
                g.link(n, 1, u, 0)
                more.append((u, 0))
                more.append((n, 1))
                held.setdefault(i, []).append((n, 1))
            elif user and user != "nested":
                u = g.add(op("use", I(k)), [el], [el], fn)
                g.link(n, 1, u, 0)
                held.setdefault(i, []).append((u, 0))
            else:
                held.setdefault(i, []).append((n, 1))
        else:
            n = g.add(Adt(BOP, "return", ()), [arr, usize, el], [arr], fn)
            g.link(*cur, n, 0)
            g.link(*src, n, 1)
            if held.get(i) and x[2:] != ("fresh",):
                g.link(*held[i].pop(), n, 2)
            else:
                g.link(inn, 2 + fresh, n, 2)
                fresh += 1
        cur = (n, 0)
    outs = [cur] + [w for ws in held.values() for w in ws] + more + [(inn, 2 + j) for j in range(fresh, nret)]
    g.nodes[out] = hg.N(op("Output"), [g.nodes[w[0]].outs[w[1]] for w in outs], [], fn)
    for p, w in enumerate(outs):
        g.link(*w, out, p)
    g.out, g.inn = out, inn
    return g


def consistent(g):
    """every value input of every node in the region has exactly one edge, from an existing port, no cycles"""
    for n, x in g.nodes.items():
        for p in range(len(x.ins)):
            s = g.src(n, p)
            if len(s) != 1:
                raise Bad(f"input {p} of {show(x.op)} has {len(s)} incoming edges")
            if s[0][1] >= len(g.nodes[s[0][0]].outs):
                raise Bad("edge from a port that does not exist")
            if g.nodes[s[0][0]].outs[s[0][1]] != x.ins[p] and not show(x.op).startswith("Output"):
                raise Bad(f"input {p} of {show(x.op)} gets a value of another type")
        for p, t in enumerate(x.outs):
            if not t.a[2][0].a[1] and len(g.dst(n, p)) != 1:
                raise Bad(f"linear output {p} of {show(x.op)} has {len(g.dst(n, p))} uses")


def evaluate(g, inn, out):
    """symbolic run in dependency order of the array chain: returns the sequence of observations.
    Array state: {index: ('in', element value) | 'borrowed'}; untouched slots hold their initial value."""
    memo = {}

    def val(n, p):
        if (n, p) in memo:
            return memo[(n, p)]
        o = g.nodes[n].op
        k = o.a[1]
        if k in ("Input",):
            r = ("arr", (), ()) if p == 0 else ("in", p)
        elif k == "LoadConstant":
            r = ("const", g.nodes[g.src(n, 0)[0][0]].op.a[2][0].a[2][0].a[1])
        else:
            ins = [val(*g.src(n, q)[0]) for q in range(len(g.nodes[n].ins))]
            if k == "use":
                rs = [("use", o.a[2][0].a[1], ins[0])]
            elif k == "other":
                # sees the whole array: slots, and whatever happened to it before
                rs = [("arr", (("after", o.a[2][0].a[1], norm(ins[0])),), ())]
            elif k == "borrow":
                st, e = step(ins[0], "B", ins[1], None)
                rs = [st, e]
            elif k == "return":
                st, e = step(ins[0], "R", ins[1], ins[2])
                rs = [st]
            else:
                raise Bad("operation " + show(o))
            for q, r in enumerate(rs):
                memo[(n, q)] = r
            return memo[(n, p)]
        memo[(n, p)] = r
        return r
    return [norm(val(*g.src(out, q)[0])) for q in range(len(g.nodes[out].ins))]


def norm(v):
    """arrays: base, failures so far, and the slots that differ from their initial content"""
    if v[0] == "arr":
        slots = tuple(sorted((i, norm(s)) for i, s in v[2] if s != ("init", i, v[1])))
        return v[1][0] if not slots and len(v[1]) == 1 and v[1][0][0] not in ("fail", "mayfail", "dyn", "after") else ("arr", v[1], slots)
    return v


def step(arr, what, idx, elem):
    _, base, slots = arr if arr[0] == "arr" else ("arr", (arr,), ())
    d = dict(slots)
    elem = norm(elem) if elem else elem
    if idx[0] != "const":  # unknown index: the outcome depends on the whole array
        b = (("dyn", what, idx, elem, norm(arr)),)
        return ("arr", b, ()), ("dynelem", b)
    i = idx[1]
    cur = d.get(i, ("init", i, base))
    if what == "B":
        if cur == "borrowed":
            return ("arr", base + (("fail", "double borrow", i, norm(arr)),), tuple(d.items())), ("poison", i)
        d[i] = "borrowed"
        return ("arr", base, tuple(d.items())), cur
    if cur != "borrowed" and i in d:
        return ("arr", base + (("fail", "double return", i, norm(arr)),), tuple(d.items())), None
    if i not in d:  # the slot's state is not known here: may fail
        d[i] = elem
        return ("arr", base + (("mayfail", i),), tuple(d.items())), None
    d[i] = elem
    return ("arr", base, tuple(d.items())), None


def run(cx):
    P = cx.P
    key = cx.key(r"^tket::passes::borrow_squash::borrow_squash_array::<H>$")
    model = Model()
    alphabet = [("B", 0), ("R", 0), ("B", 1), ("R", 1), ("N",), ("B", "d"), ("R", "d")]
    extra = [("R", 0, "fresh")]
    n = changed = 0
    maxlen = 5 if cx.thorough else 4
    for L in range(1, maxlen + 1):
        for seq in itertools.product(alphabet + extra, repeat=L):
            if not any(x[0] == "R" for x in seq) and L > 2:
                continue
            for user in ((True, False) if L <= 3 else (True,)):
                c = one(cx, key, model, seq, user)
                n += 1
                changed += bool(c)
    # copyable elements used by several consumers
    for L in range(2, 5):
        for seq in itertools.product([("B", 0), ("R", 0), ("R", 0, "fresh"), ("B", 1), ("R", 1)], repeat=L):
            if any(x[0] == "R" for x in seq):
                n += 1
                changed += bool(one(cx, key, model, seq, "copy"))
    # arrays of arrays: operations on the inner array between borrowing it and returning it
    for seq in nested(9 if cx.thorough else 7):
        n += 1
        changed += bool(one(cx, key, model, seq, "nested"))
    # through the pass
    runkey = cx.key(r"^<tket::passes::borrow_squash::BorrowSquashPass as .*ComposablePass<H>>::run$")
    for L in range(2, 5):
        for seq in itertools.product([("B", 0), ("R", 0), ("B", 1), ("R", 1), ("N",), ("B", "d")], repeat=L):
            if ("R", 0) in seq and (L < 4 or ("B", 1) not in seq):
                n += 1
                changed += bool(one(cx, runkey, model, seq, True, whole=True))
    cx.floor("coverage", "operation chains", n, 1000)
    cx.floor("coverage", "chains in which a pair is removed", changed, 20)


def nested(maxlen):
    """well-formed chains: inner operations only while the inner array is held, inner slots borrowed before they are returned"""
    out = []

    def go(seq, held, inner):
        if len(seq) >= 4:
            out.append(tuple(seq))
        if len(seq) == maxlen:
            return
        if held:
            go(seq + [("R", 0)], False, inner)
            for i in (0, 1):
                if i not in inner and not inner:
                    go(seq + [("b", i)], held, inner + [i])
            if inner:
                go(seq + [("r", inner[-1])], held, inner[:-1])
        else:
            go(seq + [("B", 0)], True, inner)
    go([], False, [])
    return [s for s in out if ("R", 0) in s or any(x[0] == "r" for x in s)]


def label(seq, user=True):
    nm = {"B": "borrow", "R": "return", "N": "other op", "b": "inner borrow", "r": "inner return"}
    return "; ".join(nm[x[0]] + ("" if x[0] == "N" else f"[{'?' if x[1] == 'd' else x[1]}]") + (" new" if x[2:] else "") for x in seq) + ({True: "", False: " (direct)", "copy": " (copyable)", "nested": " (nested)"}[user])


def one(cx, key, model, seq, user, whole=False):
    g = build(seq, {"copy": "int", "nested": "borrow_array<qubit>"}.get(user, "qubit"), user)
    lb = label(seq, user) + (" (pass)" if whole else "")
    box = []

    def go():
        def setup(it, st):
            st.side["hg"] = g
        args = [Adt("tket::passes::borrow_squash::BorrowSquashPass", "BorrowSquashPass", (Some(Seq((node(g.entry),))),)), T("h")] if whole else [
            T("h"), Adt(hg.WIRE, "Wire", (node(g.inn), outp(0))), B(True)]
        it, outs = cx.run(key, args, setup=setup, on_call=model,
                          loop_decisions=40, max_visits=2000)
        before = evaluate(g, g.inn, g.out)
        for o in outs:
            if o.kind == "panic":
                cx.fail("clean-up completes", lb, f"the clean-up panics on the chain: {lb}")
                continue
            if o.kind != "ret":
                cx.fail("analysis", lb, f"path not analysed: {o.st.cutreason}")
                continue
            h = o.st.side["hg"]
            try:
                consistent(h)
                after = evaluate(h, g.inn, g.out)
                ok, why = before == after, f"before {before}, after {after}"
            except (Bad, KeyError, RecursionError, IndexError) as e:
                ok, why = False, f"broken graph: {e}"
            gone = [show(g.nodes[i].op) for i in g.nodes if i not in h.nodes]
            box.append(bool(gone))
            cx.check("same values", lb, ok, f"chain: {lb}; removed {len(gone)} operations; a consumer sees a different value: {why}"[:1500])
        cx.check("coverage", f"outcomes: {lb}", len(outs) == 1, f"{len(outs)} outcomes on a concrete chain")
    cx.guard("same values", lb, go)
    return any(box)
