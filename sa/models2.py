"""Further models of core/alloc/std/itertools functions: operations the analysed code does not (yet) use everywhere, so
that a rewrite of it with other library calls is still followed.  Imported at the end of models.py."""
import re
import math
from interp import (V, mk_fn_key, mk, I, B, S, F, T, Adt, Tup, Seq, Some, NONE, Ok, Err, ref, is_c, is_t, UNIT, OPT, RES,
                    Call, Fork, DEFAULT, Incomplete)
import models as M
from models import (TABLE, PATTERNS, model, pattern, opt_cases, res_cases, panic, as_iter, next_item, is_symbolic, drain_all,
                    sym_seq, elem_of, recv_iter, seq_target, elem_ref, by_keys, by_cmp, order_key, ground, map_put, map_find,
                    map_items, build_coll, default_of, structural_eq, reversed_iter, seqcat, concat, disp, range_of,
                    O, R, IT, IX, VEC, VDQ, SL)


def front(rx):
    """a model consulted before the earlier patterns; it returns DEFAULT where they should decide"""
    def deco(f):
        PATTERNS.insert(0, (re.compile(rx), f))
        return f
    return deco


def override(*names):
    """a model tried before the one registered under the same name"""
    def deco(f):
        for n in names:
            old = TABLE.get(n)

            def g(I_, st, ci, a, old=old):
                r = f(I_, st, ci, a)
                return old(I_, st, ci, a) if r is DEFAULT and old else r
            TABLE[n] = g
        return f
    return deco


def meth(ci):
    return ci.fn.rsplit("::", 1)[1]


def self_iter(I_, st, p):
    """iterator behind a `self` or `&mut self` argument; None when its length is unknown"""
    it = mk("iter", "byref", p) if p.k == "ref" else as_iter(I_, st, p)
    src = it
    n = 0
    while src.a[0] == "byref" and n < 10:
        x = I_.load(st, src.a[1].a[0], src.a[1].a[1])
        src = mk("iter", "byref", x) if x.k == "ref" else x if x.k == "iter" else as_iter(I_, st, x)
        n += 1
    return None if is_symbolic(src) else it


def walk(I_, st, it, step, end):
    """step(s, x, cont) for every item, cont(s) to go on; end(s) after the last"""
    def go(s, i, n):
        if n > 400:
            raise Incomplete("infinite iterator")
        return next_item(I_, s, i, lambda s2, x, i2: end(s2) if x is None else step(s2, x, lambda s3: go(s3, i2, n + 1)))
    return go(st, it, 0)


def concrete_iter(I_, st, v):
    it = recv_iter(I_, st, v)
    return None if is_symbolic(it) else it


def test(I_, f, args, k):
    """call a predicate and continue on its outcome: k(st, bool)"""
    return Call(f, args, lambda I2, s, r: I2.fork_bool(s, r, lambda s2, b: k(s2, b)))


def int_of(I_, st, v):
    n = I_.content(st, v)
    return n.a[1] if is_c(n, "int") else None


# ------------------------------------------------------------ iterator sources and adapters
@model("core::iter::sources::repeat_with::repeat_with", "core::iter::sources::from_fn::from_fn",
       "core::iter::sources::once_with::once_with")
def m_gen(I_, st, ci, a):
    return mk("iter", {"repeat_with": "repw", "from_fn": "fromfn", "once_with": "oncew"}[meth(ci)], a[0])


def nx_gen(I_, st, it, k):
    kind, f = it.a[0], it.a[1]
    if kind == "fromfn":
        return Call(f, [], lambda I2, s, r: opt_cases(I2, s, r, lambda s2, x: k(s2, x, it)))
    return Call(f, [], lambda I2, s, r: k(s, r, it if kind == "repw" else mk("iter", "seq", ())))


def nx_scan(I_, st, it, k):
    def got(s, x, i2):
        nx = mk("iter", "scan", i2, it.a[2], it.a[3])
        if x is None:
            return k(s, None, nx)
        return Call(it.a[2], [it.a[3], x], lambda I2, s2, r: opt_cases(
            I2, s2, r, lambda s3, y: k(s3, None, mk("iter", "seq", ())) if y is None else k(s3, y, nx)))
    return next_item(I_, st, it.a[1], got)


def nx_cycle(I_, st, it, k):
    def got(s, x, i2):
        if x is None:
            return next_item(I_, s, it.a[1], lambda s2, y, i3: k(s2, y, mk("iter", "cycle", it.a[1], i3)))
        return k(s, x, mk("iter", "cycle", it.a[1], i2))
    return next_item(I_, st, it.a[2], got)


def nx_step(I_, st, it, k):
    """items at distance it.a[2]; it.a[3] items to drop first"""
    def go(s, i, n):
        return next_item(I_, s, i, lambda s2, x, i2: k(s2, None, mk("iter", "seq", ())) if x is None else
                         go(s2, i2, n - 1) if n else k(s2, x, mk("iter", "step", i2, it.a[2], it.a[2] - 1)))
    return go(st, it.a[1], it.a[3])


def nx_okmap(I_, st, it, k):
    """map_ok / filter_ok / filter_map_ok"""
    op, f = it.a[2], it.a[3]

    def got(s, x, i2):
        nx = mk("iter", "okmap", i2, op, f)
        if x is None:
            return k(s, None, nx)

        def case(s2, ok, y):
            if not ok:
                return k(s2, Err(y), nx)
            if op == "map_ok":
                return Call(f, [y], lambda I2, s3, r: k(s3, Ok(r), nx))
            if op == "filter_ok":
                return test(I_, f, [I_.new_cell(s2, y)], lambda s3, b: k(s3, Ok(y), nx) if b else next_item(I_, s3, nx, k))
            return Call(f, [y], lambda I2, s3, r: opt_cases(I2, s3, r, lambda s4, z: next_item(I2, s4, nx, k)
                                                           if z is None else k(s4, Ok(z), nx)))
        return res_cases(I_, s, x, case)
    return next_item(I_, st, it.a[1], got)


def nx_revall(I_, st, it, k):
    return drain_all(I_, st, it.a[1], lambda s, xs: next_item(I_, s, mk("iter", "seq", tuple(reversed(xs))), k))


M.NEXT.update({"revall": nx_revall, "repw": nx_gen, "fromfn": nx_gen, "oncew": nx_gen, "scan": nx_scan, "cycle": nx_cycle, "step": nx_step,
               "okmap": nx_okmap})


@model(IT + "scan")
def m_scan(I_, st, ci, a):
    it = concrete_iter(I_, st, a[0])
    if it is None:
        return DEFAULT
    return mk("iter", "scan", it, a[2], I_.new_cell(st, a[1]))


@model(IT + "fuse")
def m_fuse(I_, st, ci, a):
    return recv_iter(I_, st, a[0])


@model(IT + "cycle")
def m_cycle(I_, st, ci, a):
    it = concrete_iter(I_, st, a[0])
    return DEFAULT if it is None else mk("iter", "cycle", it, it)


@override(IT + "step_by")
def m_step_by(I_, st, ci, a):
    it, n = concrete_iter(I_, st, a[0]), int_of(I_, st, a[1])
    if it is None or n is None or it.a[0] == "seq":
        return DEFAULT
    return panic(I_, st, "step_by 0") if n == 0 else mk("iter", "step", it, n, 0)


@override(IT + "take")
def m_take_gen(I_, st, ci, a):
    it, n = recv_iter(I_, st, a[0]), int_of(I_, st, a[1])
    if it.a[0] in ("repw", "cycle") and n is None:
        return mk("iter", "sym", T("repeat", I_.reify(st, it.a[1]), I_.reify(st, I_.content(st, a[1]))), 0)
    return DEFAULT


@model(IX + "map_ok", IX + "filter_ok", IX + "filter_map_ok")
def m_okmap(I_, st, ci, a):
    it = concrete_iter(I_, st, a[0])
    return DEFAULT if it is None else mk("iter", "okmap", it, meth(ci), a[1])


@model(IX + "map_into")
def m_map_into(I_, st, ci, a):
    it = concrete_iter(I_, st, a[0])
    if it is None:
        return DEFAULT
    tgt = ci.args[1] if len(ci.args) > 1 else ""
    via = [k for k in I_.p.local_keys() if k.startswith(f"<{tgt} as core::convert::From<") and k.endswith(">>::from")] if tgt else []
    if len(via) > 1:
        via = [k for k in via if k[len(f"<{tgt} as core::convert::From<"):-len(">>::from")] in ci.args[0]]
    if len(via) == 1:
        return mk("iter", "map", it, mk_fn_key(I_, via[0], via[0]))
    if via:
        return DEFAULT
    return drain_all(I_, st, it, lambda s, xs: mk("iter", "seq", tuple(M.convert(I_, s, "", tgt, x, "") if M.convert(
        I_, s, "", tgt, x, "") is not DEFAULT else T("into:" + tgt, I_.reify(s, x)) for x in xs)))


# ------------------------------------------------------------ iterator consumers
@front(r"^<.* as core::iter::traits::double_ended::DoubleEndedIterator>::(rfind|rfold|nth_back)$")
def m_back_impl(I_, st, ci, a):
    return m_back(I_, st, ci, a)


@model(IT + "rposition", IT + "rfind", "core::iter::traits::double_ended::DoubleEndedIterator::rfind",
       "core::iter::traits::double_ended::DoubleEndedIterator::rfold",
       "core::iter::traits::double_ended::DoubleEndedIterator::nth_back")
def m_back(I_, st, ci, a):
    m = meth(ci)
    it = self_iter(I_, st, a[0])
    if it is None:
        return DEFAULT

    def got(s, xs):
        n = len(xs)

        def put(s2, i):
            if a[0].k == "ref":
                c, p, _ = seq_target(I_, s2, a[0])
                I_.storev(s2, c, p, mk("iter", "seq", tuple(xs[:i])))
        if m == "nth_back":
            i = int_of(I_, s, a[1])
            if i is None:
                return T(m, Seq(xs))
            put(s, max(0, n - 1 - i))
            return Some(xs[n - 1 - i]) if i < n else NONE

        def go(s2, i, acc):
            if i < 0:
                return acc if m == "rfold" else NONE
            if m == "rfold":
                return Call(a[2], [acc, xs[i]], lambda I2, s3, r: go(s3, i - 1, r))
            x = I_.new_cell(s2, xs[i]) if m == "rfind" else xs[i]

            def k(s3, b):
                if not b:
                    return go(s3, i - 1, acc)
                put(s3, i)
                return Some(xs[i] if m == "rfind" else I(i))
            return test(I_, a[1], [x], k)
        return go(s, n - 1, a[1] if m == "rfold" else None)
    return drain_all(I_, st, it, got)


CMPS = ("eq", "ne", "lt", "le", "gt", "ge", "cmp", "partial_cmp")


@model(*[IT + x for x in CMPS])
def m_itcmp(I_, st, ci, a):
    m = meth(ci)
    x, y = concrete_iter(I_, st, a[0]), as_iter(I_, st, a[1])
    if x is None or is_symbolic(y):
        return DEFAULT

    def both(s, xs, ys):
        xs, ys = [I_.reify(s, v) for v in xs], [I_.reify(s, v) for v in ys]
        if m in ("eq", "ne"):
            rs = [structural_eq(I_, s, u, w) for u, w in zip(xs, ys)]
            r = False if len(xs) != len(ys) or False in rs else True if None not in rs else None
            return T(m, Seq(xs), Seq(ys)) if r is None else B(r == (m == "eq"))
        g = M.ground_cmp(Seq(xs), Seq(ys))
        if g is None:
            return T(m, Seq(xs), Seq(ys))
        if m in ("cmp", "partial_cmp"):
            o = Adt("core::cmp::Ordering", ["Less", "Equal", "Greater"][g + 1], ())
            return o if m == "cmp" else Some(o)
        return B({"lt": g < 0, "le": g <= 0, "gt": g > 0, "ge": g >= 0}[m])
    return drain_all(I_, st, x, lambda s, xs: drain_all(I_, s, y, lambda s2, ys: both(s2, xs, ys)))


def sorted_test(I_, s, xs, label):
    ks = [order_key(I_.reify(s, x)) for x in xs]
    if None in ks:
        return T(label, Seq([I_.reify(s, x) for x in xs]))
    return B(all(not ks[i + 1] < ks[i] for i in range(len(ks) - 1)))


@model(IT + "is_sorted", IT + "is_sorted_by_key")
def m_is_sorted(I_, st, ci, a):
    it = concrete_iter(I_, st, a[0])
    if it is None:
        return DEFAULT
    if len(a) > 1:
        it = mk("iter", "map", it, a[1])
    return drain_all(I_, st, it, lambda s, xs: sorted_test(I_, s, xs, "is_sorted"))


@model(IT + "try_reduce", IX + "fold_ok")
def m_fold_ok(I_, st, ci, a):
    if meth(ci) != "fold_ok":
        return DEFAULT
    it = self_iter(I_, st, a[0])
    if it is None:
        return DEFAULT

    def go(s, i, acc):
        def kn(s2, x, i2):
            if x is None:
                return Ok(acc)
            return res_cases(I_, s2, x, lambda s3, ok, y: Call(a[2], [acc, y], lambda I2, s4, r: go(s4, i2, r)) if ok else Err(y))
        return next_item(I_, s, i, kn)
    return go(st, it, a[1])


@override(IT + "try_fold", IT + "try_for_each")
def m_try_opt(I_, st, ci, a):
    """closures returning Option (the models below treat Result)"""
    m = meth(ci)
    ty = next((x for x in ci.args[1:] if x.startswith("core::option::Option<")), None)
    fk = I_.content(st, a[-1])
    if ty is None or fk.k not in ("clo", "fn") and False:
        return DEFAULT
    if any(x.startswith("core::result::Result<") for x in ci.args[1:]):
        return DEFAULT
    it = self_iter(I_, st, a[0])
    if it is None:
        return DEFAULT

    def go(s, i, acc):
        def kn(s2, x, i2):
            if x is None:
                return Some(acc)
            args = [acc, x] if m == "try_fold" else [x]
            return Call(a[-1], args, lambda I2, s3, r: opt_cases(I2, s3, r, lambda s4, y: NONE if y is None else go(s4, i2, y)))
        return next_item(I_, s, i, kn)
    return go(st, it, a[1] if m == "try_fold" else UNIT)


@model("core::iter::adapters::peekable::Peekable::<I>::next_if", "core::iter::adapters::peekable::Peekable::<I>::next_if_eq",
       "core::iter::adapters::peekable::Peekable::<I>::peek_mut")
def m_next_if(I_, st, ci, a):
    m = meth(ci)
    c, p, it = seq_target(I_, st, a[0])
    if it.k != "iter" or it.a[0] != "peekable":
        return DEFAULT

    def have(s, x, inner):
        """x: the peeked item (None at the end)"""
        I_.storev(s, c, p, mk("iter", "peekable", inner, (mk("none") if x is None else x,)))
        if x is None:
            return NONE
        if m == "peek_mut":
            return DEFAULT

        def dec(s2, b):
            if b:
                I_.storev(s2, c, p, mk("iter", "peekable", inner, ()))
            return Some(x) if b else NONE
        if m == "next_if_eq":
            r = structural_eq(I_, s, x, a[1])
            return I_.fork_bool(s, B(r) if r is not None else I_.binop1(s, "Eq", I_.reify(s, x), I_.reify(s, I_.content(s, a[1]))), dec)
        return test(I_, a[1], [I_.new_cell(s, x)], dec)
    if it.a[2]:
        x = it.a[2][0]
        return have(st, None if x.k == "none" else x, it.a[1])
    if m == "peek_mut":
        return DEFAULT
    return next_item(I_, st, it.a[1], have)


def tuple_arity(ci):
    ty = next((x for x in list(ci.args)[1:] + [ci.desty or ""] if re.search(r"\(", x)), None)
    if ty is None:
        return None
    ty = ty[ty.index("("):]
    d = n = 0
    tok = False
    for ch in ty[1:]:
        if ch in "<([":
            d += 1
        if ch in ">)]":
            d -= 1
            if d < 0:
                break
        if ch == "," and d == 0:
            n += 1
            tok = False
        elif ch != " ":
            tok = True
    return n + tok


@override(IX + "tuple_windows", IX + "tuples", IX + "tuple_combinations", IX + "circular_tuple_windows")
def m_tuples(I_, st, ci, a):
    import itertools
    it, n, m = concrete_iter(I_, st, a[0]), tuple_arity(ci), meth(ci)
    if it is None or not n or n > 12:
        return DEFAULT

    def got(s, xs):
        if m == "tuple_windows":
            ts = [xs[i:i + n] for i in range(len(xs) - n + 1)]
        elif m == "circular_tuple_windows":
            ts = [[xs[(i + j) % len(xs)] for j in range(n)] for i in range(len(xs))]
        elif m == "tuples":
            ts = [xs[i:i + n] for i in range(0, len(xs) - n + 1, n)]
        else:
            ts = itertools.combinations(xs, n)
        return mk("iter", "seq", tuple(Tup(*t) for t in ts))
    return drain_all(I_, st, it, got)


@model(IX + "combinations", IX + "permutations", IX + "powerset", IX + "cartesian_product", IX + "interleave", IX + "merge",
       IX + "intersperse", IX + "contains", IX + "positions", IX + "find_position", IX + "unique_by", IX + "dedup_by", IX + "counts_by",
       IX + "set_from", IX + "max_set", IX + "min_set", IX + "chunk_by", IX + "group_by", IX + "chunks", IX + "dedup_with_count",
       IX + "multi_cartesian_product", IX + "collect_array_", IX + "min_by_key_", IX + "rev_", IX + "partition_result", IX + "dropping",
       IX + "dropping_back", IX + "pad_using", IX + "with_position", IX + "update", IX + "all_equal_value", IX + "interleave_shortest")
def m_itertools(I_, st, ci, a):
    import itertools
    m = meth(ci)
    it = self_iter(I_, st, a[0])
    if it is None:
        return DEFAULT

    def seq(xs):
        return mk("iter", "seq", tuple(xs))
    if m == "find_position":
        def go(s, i, n):
            return next_item(I_, s, i, lambda s2, x, i2: NONE if x is None else test(
                I_, a[1], [I_.new_cell(s2, x)], lambda s3, b: Some(Tup(I(n), x)) if b else go(s3, i2, n + 1)))
        return go(st, it, 0)
    if m == "contains":
        def step(s, x, cont):
            r = structural_eq(I_, s, x, a[1])
            if r is None:
                return I_.fork_bool(s, I_.binop1(s, "Eq", I_.reify(s, x), I_.reify(s, I_.content(s, a[1]))), lambda s2, b: B(True) if b else cont(s2))
            return B(True) if r else cont(s)
        return walk(I_, st, it, step, lambda s: B(False))
    if m == "partition_result":
        def go(s, i, l, r):
            def kn(s2, x, i2):
                if x is None:
                    return Tup(Seq(l), Seq(r))
                return res_cases(I_, s2, x, lambda s3, ok, y: go(s3, i2, l + [y] if ok else l, r if ok else r + [y]))
            return next_item(I_, s, i, kn)
        return go(st, it, [], [])
    if m == "update":
        def go(s, i, acc):
            def kn(s2, x, i2):
                if x is None:
                    return seq(acc)
                c = I_.new_cell(s2, x)
                return Call(a[1], [c], lambda I2, s3, r: go(s3, i2, acc + [I2.load(s3, c.a[0], c.a[1])]))
            return next_item(I_, s, i, kn)
        return go(st, it, [])

    def with_items(s, xs):
        n = int_of(I_, s, a[1]) if len(a) > 1 and m in ("combinations", "permutations", "chunks", "dropping", "dropping_back",
                                                        "pad_using") else None
        rs = None
        if m in ("combinations", "permutations"):
            if n is None:
                return T(m, Seq([I_.reify(s, x) for x in xs]))
            return seq(Seq(list(t)) for t in getattr(itertools, m)(xs, n))
        if m == "powerset":
            return seq(Seq(list(t)) for k in range(len(xs) + 1) for t in itertools.combinations(xs, k))
        if m == "dropping":
            return seq(xs[n:]) if n is not None else T(m, Seq(xs))
        if m == "dropping_back":
            return seq(xs[:max(0, len(xs) - n)]) if n is not None else T(m, Seq(xs))
        if m == "chunks":
            return Adt("chunkby", "chunks", (Seq([seq(xs[i:i + n]) for i in range(0, len(xs), n)]),)) if n else T(m, Seq(xs))
        if m == "intersperse":
            out = []
            for x in xs:
                out += [a[1], x] if out else [x]
            return seq(out)
        if m in ("cartesian_product", "interleave", "interleave_shortest", "merge"):
            jt = as_iter(I_, s, a[1])
            if is_symbolic(jt):
                return T(m, Seq([I_.reify(s, x) for x in xs]), I_.reify(s, jt))

            def prod(s2, ys):
                if m == "cartesian_product":
                    return seq(Tup(x, y) for x in xs for y in ys)
                if m.startswith("interleave"):
                    out = []
                    for i in range(max(len(xs), len(ys))):
                        if m == "interleave_shortest" and (i >= len(xs) or i > len(ys)):
                            break
                        out += xs[i:i + 1] + ys[i:i + 1]
                    return seq(out)
                ks = [order_key(I_.reify(s2, x)) for x in xs + ys]
                if None in ks:
                    return T(m, Seq(xs), Seq(ys))
                import heapq
                p, q = ks[:len(xs)], ks[len(xs):]
                o = heapq.merge([(k, 0, i) for i, k in enumerate(p)], [(k, 1, i) for i, k in enumerate(q)], key=lambda e: e[0])
                return seq((xs, ys)[w][i] for _, w, i in o)
            return drain_all(I_, s, jt, prod)
        if m == "multi_cartesian_product":
            rows = [as_iter(I_, s, x) for x in xs]
            if all(r.a[0] == "seq" for r in rows):
                return seq(Seq(list(t)) for t in itertools.product(*[r.a[1] for r in rows]))
            return T(m, Seq([I_.reify(s, x) for x in xs]))
        if m == "with_position":
            P_ = "itertools::with_position::Position"
            n = len(xs)
            return seq(Tup(Adt(P_, "Only" if n == 1 else "First" if i == 0 else "Last" if i == n - 1 else "Middle", ()), x) for i, x in enumerate(xs))
        if m in ("set_from",):
            return DEFAULT
        if m in ("dedup_with_count", "all_equal_value"):
            ks = [I_.reify(s, x) for x in xs]
            if not all(ground(I_, k) for k in ks):
                return T(m, Seq(ks))
            if m == "dedup_with_count":
                return seq(Tup(I(len(list(g))), xs[0 if False else j]) for j, g in _groups(ks))
            return Ok(xs[0]) if xs and all(k is ks[0] or k == ks[0] for k in ks) else Err(
                NONE if not xs else Some(Tup(xs[0], next(x for x, k in zip(xs, ks) if k != ks[0]))))

        # keyed operations
        byval = m in ("chunk_by", "group_by", "unique_by", "counts_by", "positions", "dedup_by")

        def keys(s2, i, acc, k):
            if i == len(xs):
                return k(s2, acc)
            arg = xs[i] if m in ("positions", "counts_by") else I_.new_cell(s2, xs[i])
            return Call(a[1], [arg], lambda I2, s3, r: keys(s3, i + 1, acc + [I2.reify(s3, r)], k))
        if m == "positions":
            def pos(s2, i, acc):
                if i == len(xs):
                    return seq(I(j) for j in acc)
                return test(I_, a[1], [xs[i]], lambda s3, b: pos(s3, i + 1, acc + [i] if b else acc))
            return pos(s, 0, [])
        if m == "dedup_by":
            def ded(s2, i, acc):
                if i == len(xs):
                    return seq(acc)
                if not acc:
                    return ded(s2, i + 1, [xs[i]])
                return test(I_, a[1], [I_.new_cell(s2, acc[-1]), I_.new_cell(s2, xs[i])],
                            lambda s3, b: ded(s3, i + 1, acc if b else acc + [xs[i]]))
            return ded(s, 0, [])
        if byval:
            def keyed(s2, ks):
                if not all(ground(I_, k) for k in ks):
                    return T(m, Seq([I_.reify(s2, x) for x in xs]), Seq(ks))
                if m == "unique_by":
                    return seq(x for i, x in enumerate(xs) if ks[i] not in ks[:i])
                if m == "counts_by":
                    u = [k for i, k in enumerate(ks) if k not in ks[:i]]
                    return mk("map", "std::collections::hash::map::HashMap", tuple((k, I(ks.count(k))) for k in u))
                return Adt("chunkby", "chunks", (Seq([Tup(ks[j], seq(xs[i] for i in g)) for j, g in _groups(ks)]),))
            return keys(s, 0, [], keyed)
        return T(m, Seq([I_.reify(s, x) for x in xs]), *[I_.reify(s, I_.content(s, x)) for x in a[1:]])
    if m == "set_from":
        return DEFAULT
    return drain_all(I_, st, it, with_items)


def _groups(ks):
    i = 0
    while i < len(ks):
        j = i
        while j < len(ks) and (ks[j] is ks[i] or ks[j] == ks[i]):
            j += 1
        yield i, range(i, j)
        i = j


@override(IX + "all_equal", IX + "all_unique", IX + "duplicates", IX + "counts", IX + "into_group_map", IX + "partition_map",
          IX + "minmax", IX + "find_or_first", IX + "find_or_last", IX + "sorted_by_key_")
def m_itertools2(I_, st, ci, a):
    m = meth(ci)
    it = self_iter(I_, st, a[0])
    if it is None:
        return DEFAULT

    def with_items(s, xs):
        if m in ("find_or_first", "find_or_last"):
            def go(s2, i):
                if i == len(xs):
                    return NONE if not xs else Some(xs[0] if m == "find_or_first" else xs[-1])
                return test(I_, a[1], [I_.new_cell(s2, xs[i])], lambda s3, b: Some(xs[i]) if b else go(s3, i + 1))
            return go(s, 0)
        if m == "partition_map":
            def pm(s2, i, l, r):
                if i == len(xs):
                    return Tup(Seq(l), Seq(r))

                def got(I2, s3, v):
                    if v.k != "adt":
                        raise Incomplete("partition_map on an unknown value")
                    return pm(s3, i + 1, l + [v.a[2][0]] if v.a[1] == "Left" else l, r if v.a[1] == "Left" else r + [v.a[2][0]])
                return Call(a[1], [xs[i]], got)
            return pm(s, 0, [], [])
        ks = [I_.reify(s, x) for x in xs]
        if m in ("all_equal", "all_unique"):
            prs = [(0, j) for j in range(1, len(ks))] if m == "all_equal" else [(i, j) for j in range(len(ks)) for i in range(j)]
            rs = [structural_eq(I_, s, ks[i], ks[j]) for i, j in prs]
            if None not in rs:
                return B(all(rs) if m == "all_equal" else not any(rs))
        elif m == "into_group_map":
            if all(k.k == "tup" and ground(I_, k.a[0][0]) for k in ks):
                acc = []
                for x in xs:
                    t = I_.content(s, x)
                    k_, v_ = I_.reify(s, t.a[0][0]), t.a[0][1]
                    for e in acc:
                        if e[0] == k_:
                            e[1].append(v_)
                            break
                    else:
                        acc.append((k_, [v_]))
                return mk("map", "std::collections::hash::map::HashMap", tuple((k_, Seq(v_)) for k_, v_ in acc))
        elif all(ground(I_, k) for k in ks):
            if m == "duplicates":
                out = []
                for i, k in enumerate(ks):
                    if k in ks[:i] and k not in [ks[j] for j in out]:
                        out.append(i)
                return mk("iter", "seq", tuple(xs[i] for i in out))
            if m == "counts":
                u = [i for i, k in enumerate(ks) if k not in ks[:i]]
                return mk("map", "std::collections::hash::map::HashMap", tuple((xs[i], I(ks.count(ks[i]))) for i in u))
        return T(m, Seq(ks))
    return drain_all(I_, st, it, with_items)


# ------------------------------------------------------------ Option and Result
@model(O + "xor", O + "take_if", O + "get_or_insert", O + "map_or_default", O + "as_slice", O + "unzip", O + "or_insert_",
       "core::option::Option::<(T, U)>::unzip", O + "is_none_and_", O + "ok_or_default_")
def m_opt_more(I_, st, ci, a):
    m = meth(ci)
    if m == "xor":
        return opt_cases(I_, st, a[0], lambda s, x: opt_cases(
            I_, s, a[1], lambda s2, y: (NONE if (x is None) == (y is None) else Some(y if x is None else x))))
    if m in ("take_if", "get_or_insert"):
        c, p, _ = seq_target(I_, st, a[0])

        def f(s, x):
            if m == "get_or_insert":
                if x is None:
                    I_.storev(s, c, p, Some(a[1]))
                return ref(c, p + (("f", 0, "0", "Some"),))
            if x is None:
                return NONE

            def k(s2, b):
                if not b:
                    return NONE
                v = I_.load(s2, c, p)
                I_.storev(s2, c, p, NONE)
                return v
            return test(I_, a[1], [x], k)
        return opt_cases(I_, st, a[0], f)
    if m == "map_or_default":
        def g(s, x):
            if x is not None:
                return Call(a[1], [x])
            d = default_of(I_, s, next((t for t in ci.args[1:2]), ""))
            if d is None:
                raise Incomplete("default value")
            return d
        return opt_cases(I_, st, a[0], g)
    if m == "unzip":
        return opt_cases(I_, st, a[0], lambda s, x: Tup(NONE, NONE) if x is None else
                         Tup(Some(I_.proj_get(x, ("f", 0, "0", None))), Some(I_.proj_get(x, ("f", 1, "1", None)))))
    if m == "as_slice":
        return opt_cases(I_, st, a[0], lambda s, x: I_.new_cell(s, Seq([] if x is None else [I_.reify(s, x)])))
    return DEFAULT


@model(R + "and", R + "or", R + "map_or", R + "map_or_else", R + "is_err_and", R + "inspect", R + "inspect_err", R + "iter",
       R + "as_deref", R + "as_deref_mut", R + "is_ok_or_", R + "into_iter",
       "core::result::Result::<&T, E>::cloned", "core::result::Result::<&T, E>::copied",
       "core::result::Result::<core::result::Result<T, E>, E>::flatten")
def m_res_more(I_, st, ci, a):
    m = meth(ci)

    def f(s, ok, x):
        if m == "and":
            return a[1] if ok else Err(x)
        if m == "or":
            return Ok(x) if ok else a[1]
        if m == "map_or":
            return Call(a[2], [x]) if ok else a[1]
        if m == "map_or_else":
            return Call(a[2] if ok else a[1], [x])
        if m == "is_err_and":
            return B(False) if ok else Call(a[1], [x])
        if m in ("inspect", "inspect_err"):
            w = Ok(x) if ok else Err(x)
            if ok != (m == "inspect"):
                return w
            return Call(a[1], [I_.new_cell(s, x)], lambda I2, s2, r: w)
        if m in ("iter", "into_iter"):
            return mk("iter", "seq", (x,) if ok else ())
        if m in ("cloned", "copied"):
            return Ok(I_.load(s, x.a[0], x.a[1]) if x.k == "ref" else x) if ok else Err(x)
        if m == "flatten":
            return x if ok else Err(x)
        return Ok(x) if ok else Err(x)
    return res_cases(I_, st, a[0], f)


# ------------------------------------------------------------ vectors and slices
@pattern(r"^alloc::vec::Vec::<.*>::(dedup_by_key|dedup_by|retain_mut|extract_if|pop_if|resize_with|extend_from_within|into_boxed_slice|push_within_capacity|insert_mut|reserve_exact|shrink_to|capacity)$"
         r"|^alloc::collections::vec_deque::VecDeque::<.*>::(contains|retain|retain_mut|truncate|remove|insert|swap|append|drain|make_contiguous|rotate_left|rotate_right|resize|binary_search|as_slices|range|shrink_to_fit|reserve|into_iter|split_off)$")
def m_vec_more(I_, st, ci, a):
    m = meth(ci)
    deque = "VecDeque" in ci.fn
    if m in ("into_boxed_slice",):
        return a[0]
    if m in ("reserve_exact", "shrink_to", "reserve", "shrink_to_fit"):
        return UNIT
    c, p, v = seq_target(I_, st, a[0])
    if deque and m in ("truncate", "swap", "append", "drain", "split_off", "resize", "contains", "retain"):
        return TABLE[{"swap": SL + "swap", "contains": SL + "contains"}.get(m, VEC + m)](I_, st, ci, a)
    if v.k != "seq":
        return DEFAULT
    xs = list(v.a[0])

    def put(s, ys):
        I_.storev(s, c, p, Seq(ys))
    if m == "make_contiguous":
        return a[0]
    if m in ("remove", "insert") and deque:
        i = int_of(I_, st, a[1])
        if i is None:
            return DEFAULT
        if m == "insert":
            xs.insert(i, a[2])
            put(st, xs)
            return UNIT
        if i >= len(xs):
            return NONE
        x = xs.pop(i)
        put(st, xs)
        return Some(x)
    if m in ("rotate_left", "rotate_right"):
        return m_slice_more(I_, st, ci, a)
    if m == "resize_with":
        n = int_of(I_, st, a[1])
        if n is None:
            return DEFAULT

        def grow(s, ys):
            if len(ys) >= n:
                put(s, ys[:n])
                return UNIT
            return Call(a[2], [], lambda I2, s2, r: grow(s2, ys + [r]))
        return grow(st, xs)
    if m == "extend_from_within":
        r = range_of(I_.content(st, a[1]), len(xs))
        if r is None:
            return DEFAULT
        put(st, xs + xs[r[0]:r[1]])
        return UNIT
    if m == "pop_if":
        if not xs:
            return NONE

        def k(s, b):
            if not b:
                return NONE
            w = I_.load(s, c, p)
            put(s, list(w.a[0])[:-1])
            return Some(w.a[0][-1])
        return test(I_, a[1], [elem_ref(I_, st, c, p, v, len(xs) - 1)], k)
    if m in ("retain_mut", "extract_if"):
        f = a[-1]
        lo, hi = 0, len(xs)
        if m == "extract_if" and len(a) > 2:
            r = I_.content(st, a[1])
            rr = (0, len(xs)) if r.k == "adt" and r.a[1] == "RangeFull" else range_of(r, len(xs))
            if rr is None:
                return DEFAULT
            lo, hi = rr

        def go(s, i, keep, out):
            if i == hi:
                put(s, keep + xs[hi:])
                return UNIT if m == "retain_mut" else mk("iter", "seq", tuple(out))
            cell = I_.new_cell(s, xs[i])

            def k(s2, b):
                x = I_.load(s2, cell.a[0], cell.a[1])
                yes = b == (m == "retain_mut")
                return go(s2, i + 1, keep + [x] if yes else keep, out if yes else out + [x])
            return test(I_, f, [cell], k)
        return go(st, lo, xs[:lo], [])
    if m in ("dedup_by_key", "dedup_by"):
        def ded(s, i, acc, key):
            if i == len(xs):
                put(s, acc)
                return UNIT
            cell = I_.new_cell(s, xs[i])
            if m == "dedup_by":
                if not acc:
                    return ded(s, i + 1, [xs[i]], None)
                return test(I_, a[1], [cell, I_.new_cell(s, acc[-1])], lambda s2, b: ded(s2, i + 1, acc if b else acc + [xs[i]], None))

            def got(I2, s2, r):
                kk = I2.reify(s2, r)
                e = structural_eq(I2, s2, kk, key) if acc else False
                if e is None:
                    raise Incomplete("dedup key is not known")
                return ded(s2, i + 1, acc if e else acc + [xs[i]], key if e else kk)
            return Call(a[1], [cell], got)
        return ded(st, 0, [], None)
    return DEFAULT


@pattern(r"^(core|alloc)::slice::<impl \[.*\]>::(windows|chunks|chunks_exact|rchunks|binary_search|binary_search_by|binary_search_by_key|partition_point|fill|fill_with|rotate_left|rotate_right|starts_with|ends_with|to_vec|into_vec|is_sorted|is_sorted_by_key|copy_from_slice|clone_from_slice|chunk_by|first_chunk|last_chunk|split|as_array|as_slice|split_at_checked|strip_prefix|as_ptr_|iter|get_unchecked|copy_within)$")
def m_slice_more(I_, st, ci, a):
    m = meth(ci)
    c, p, v = seq_target(I_, st, a[0])
    if m in ("to_vec", "into_vec"):
        return v if v.k in ("seq", "t") else DEFAULT
    if v.k != "seq":
        return DEFAULT
    xs = list(v.a[0])
    n = len(xs)

    def sub(lo, hi):
        return ref(c, p + (("ss", lo, hi, False),))

    def er(i):
        return elem_ref(I_, st, c, p, v, i)
    k = int_of(I_, st, a[1]) if len(a) > 1 else None
    if m == "windows":
        return DEFAULT if not k else mk("iter", "seq", tuple(sub(i, i + k) for i in range(n - k + 1)))
    if m in ("chunks", "chunks_exact"):
        return DEFAULT if not k else mk("iter", "seq", tuple(sub(i, min(n, i + k)) for i in range(0, n, k) if m == "chunks" or i + k <= n))
    if m == "rchunks":
        return DEFAULT if not k else mk("iter", "seq", tuple(sub(max(0, i - k), i) for i in range(n, 0, -k)))
    if m in ("rotate_left", "rotate_right"):
        if k is None:
            return DEFAULT
        if k > n:
            return panic(I_, st, "rotate past the end")
        j = k if m == "rotate_left" else n - k
        I_.storev(st, c, p, Seq(xs[j:] + xs[:j]))
        return UNIT
    if m == "fill":
        I_.storev(st, c, p, Seq([a[1]] * n))
        return UNIT
    if m == "fill_with":
        def go(s, i, acc):
            if i == n:
                I_.storev(s, c, p, Seq(acc))
                return UNIT
            return Call(a[1], [], lambda I2, s2, r: go(s2, i + 1, acc + [r]))
        return go(st, 0, [])
    if m in ("copy_from_slice", "clone_from_slice"):
        w = I_.content(st, a[1])
        if w.k != "seq":
            return DEFAULT
        if len(w.a[0]) != n:
            return panic(I_, st, "copy_from_slice: length mismatch")
        I_.storev(st, c, p, w)
        return UNIT
    if m in ("starts_with", "ends_with", "strip_prefix"):
        w = I_.content(st, a[1])
        if w.k != "seq":
            return DEFAULT
        ys = list(w.a[0])
        if len(ys) > n:
            return NONE if m == "strip_prefix" else B(False)
        part = xs[n - len(ys):] if m == "ends_with" else xs[:len(ys)]
        rs = [structural_eq(I_, st, x, y) for x, y in zip(part, ys)]
        if False not in rs and None in rs:
            return DEFAULT
        b = False not in rs
        return B(b) if m != "strip_prefix" else Some(sub(len(ys), n)) if b else NONE
    if m == "split_at_checked":
        return DEFAULT if k is None else Some(Tup(sub(0, k), sub(k, n))) if k <= n else NONE
    if m in ("first_chunk", "last_chunk"):
        q = next((int(x) for x in ci.args if x.isdigit()), None)
        if q is None:
            return DEFAULT
        return NONE if q > n else Some(sub(0, q) if m == "first_chunk" else sub(n - q, n))
    if m == "is_sorted":
        return sorted_test(I_, st, [I_.content(st, x) for x in xs], m)
    if m == "is_sorted_by_key":
        it = mk("iter", "map", mk("iter", "seq", tuple(er(i) for i in range(n))), a[1])
        return drain_all(I_, st, it, lambda s, ks: sorted_test(I_, s, ks, m))
    if m == "binary_search":
        ks = [order_key(I_.reify(st, x)) for x in xs]
        t = order_key(I_.reify(st, I_.content(st, a[1])))
        if t is None or None in ks:
            return DEFAULT
        import bisect
        i = bisect.bisect_left(ks, t)
        return Ok(I(i)) if i < n and ks[i] == t else Err(I(i))
    if m == "partition_point":
        def pp(s, lo, hi):
            if lo == hi:
                return I(lo)
            mid = (lo + hi) // 2
            return test(I_, a[1], [er(mid)], lambda s2, b: pp(s2, mid + 1, hi) if b else pp(s2, lo, mid))
        return pp(st, 0, n)
    if m in ("binary_search_by", "binary_search_by_key"):
        def bs(s, lo, hi):
            if lo == hi:
                return Err(I(lo))
            mid = (lo + hi) // 2

            def got(I2, s2, r):
                r = I2.reify(s2, r)
                if m.endswith("_key"):
                    g = M.ground_cmp(r, I2.reify(s2, I2.content(s2, a[1])))
                else:
                    g = {"Less": -1, "Equal": 0, "Greater": 1}.get(r.a[1]) if r.k == "adt" else None
                if g is None:
                    raise Incomplete("binary search on an unknown order")
                return Ok(I(mid)) if g == 0 else bs(s2, mid + 1, hi) if g < 0 else bs(s2, lo, mid)
            return Call(a[-1], [er(mid)], got)
        return bs(st, 0, n)
    if m == "chunk_by":
        def cb(s, i, start, acc):
            if i >= n:
                return mk("iter", "seq", tuple(acc + ([sub(start, n)] if n else [])))
            return test(I_, a[1], [er(i - 1), er(i)], lambda s2, b: cb(s2, i + 1, start, acc) if b else cb(s2, i + 1, i, acc + [sub(start, i)]))
        return cb(st, 1, 0, [])
    if m == "split":
        def sp(s, i, start, acc):
            if i == n:
                return mk("iter", "seq", tuple(acc + [sub(start, n)]))
            return test(I_, a[1], [er(i)], lambda s2, b: sp(s2, i + 1, i + 1, acc + [sub(start, i)]) if b else sp(s2, i + 1, start, acc))
        return sp(st, 0, 0, [])
    return DEFAULT


@pattern(r"^core::array::<impl \[T; N\]>::(each_ref|each_mut|as_slice|as_mut_slice)$")
def m_array_more(I_, st, ci, a):
    if meth(ci).startswith("as"):
        return a[0]
    c, p, v = seq_target(I_, st, a[0])
    return Seq([elem_ref(I_, st, c, p, v, i) for i in range(len(v.a[0]))]) if v.k == "seq" else DEFAULT


# ------------------------------------------------------------ maps and sets
COLL = (r"^(std::collections::hash|alloc::collections::btree|indexmap)::(map|set)::(HashMap|BTreeMap|IndexMap|HashSet|BTreeSet|IndexSet)::<.*>::")


def key_ref(I_, st, x):
    return I_.new_cell(st, x)


@pattern(COLL + r"(retain|drain|remove_entry|get_key_value|pop_first|pop_last|first_key_value|last_key_value|range|append|extract_if|"
         r"reserve|shrink_to_fit|split_off|first|last|pop|get|take|replace|is_subset|is_superset|is_disjoint|union|intersection|"
         r"difference|symmetric_difference|contains|swap_take|shift_take|swap_remove_index|shift_remove_index|get_index_mut|"
         r"get_index|sort_keys|sort_unstable_keys|reverse|truncate|swap_remove_full|insert_full|insert_sorted|as_slice|len|get_or_insert_with|insert_before|capacity)$")
def m_coll(I_, st, ci, a):
    m = meth(ci)
    c, p, v = seq_target(I_, st, a[0])
    if m in ("reserve", "shrink_to_fit"):
        return UNIT
    if v.k != "map":
        return DEFAULT
    es = list(v.a[1])
    isset = "set" in v.a[0].lower()
    btree = "btree" in v.a[0].lower()
    index = "indexmap" in v.a[0].lower()

    def put(s, xs):
        I_.storev(s, c, p, mk("map", v.a[0], tuple(xs)))

    def item(i):
        return key_ref(I_, st, es[i][0]) if isset else Tup(key_ref(I_, st, es[i][0]), ref(c, p + (("mv", i),)))

    def owned(e):
        return e[0] if isset else Tup(e[0], e[1])
    if m == "retain":
        order = [i for i, _ in map_items(I_, st, v, True)]

        def go(s, j, drop):
            if j == len(order):
                cur = I_.load(s, c, p)
                I_.storev(s, c, p, mk("map", v.a[0], tuple(e for i, e in enumerate(cur.a[1]) if i not in drop)))
                return UNIT
            i = order[j]
            args = [I_.new_cell(s, es[i][0])] + ([] if isset else [ref(c, p + (("mv", i),))])
            return test(I_, a[1], args, lambda s2, b: go(s2, j + 1, drop if b else drop | {i}))
        return go(st, 0, frozenset())
    if m == "drain" and len(a) == 1 or m == "drain" and index and I_.content(st, a[1]).k == "adt" and I_.content(st, a[1]).a[1] == "RangeFull":
        put(st, [])
        return mk("iter", "seq", tuple(owned(e) for e in es))
    if m in ("first", "last", "pop_first", "pop_last", "first_key_value", "last_key_value", "pop") and (btree or index):
        order = [i for i, _ in map_items(I_, st, v, True)]
        if not es:
            return NONE
        if btree and len(es) > 1 and any(order_key(I_.reify(st, e[0])) is None for e in es):
            return DEFAULT
        i = order[0] if "first" in m else order[-1]
        if m.startswith("pop"):
            put(st, es[:i] + es[i + 1:])
            return Some(owned(es[i]))
        return Some(item(i))
    if m in ("remove_entry", "take", "swap_take", "shift_take"):
        i = map_find(I_, st, v, a[1])
        if i is None:
            return DEFAULT
        if i < 0:
            return NONE
        put(st, es[:i] + es[i + 1:])
        return Some(owned(es[i]))
    if m == "get_key_value" or m == "get" and isset:
        i = map_find(I_, st, v, a[1])
        return DEFAULT if i is None else NONE if i < 0 else Some(item(i))
    if m == "replace" and isset:
        i = map_find(I_, st, v, a[1])
        if i is None:
            return DEFAULT
        put(st, [e for j, e in enumerate(es) if j != i] + [(I_.reify(st, a[1]), UNIT)])
        return NONE if i < 0 else Some(es[i][0])
    if m == "append":
        c2, p2, w = seq_target(I_, st, a[1])
        if w.k != "map":
            return DEFAULT
        cur = v
        for k_, y in w.a[1]:
            cur = map_put(I_, st, cur, k_, y)
        I_.storev(st, c, p, cur)
        I_.storev(st, c2, p2, mk("map", w.a[0], ()))
        return UNIT
    if m in ("is_subset", "is_superset", "is_disjoint", "union", "intersection", "difference", "symmetric_difference"):
        c2, p2, w = seq_target(I_, st, a[1])
        if w.k != "map":
            return DEFAULT
        inw = [map_find(I_, st, w, e[0]) for e in es]
        inv = [map_find(I_, st, v, e[0]) for e in w.a[1]]
        if None in inw or None in inv:
            return DEFAULT
        if m == "is_subset":
            return B(all(i >= 0 for i in inw))
        if m == "is_superset":
            return B(all(i >= 0 for i in inv))
        if m == "is_disjoint":
            return B(all(i < 0 for i in inw))
        l = [e for e, i in zip(es, inw) if m == "union" or (i >= 0) == (m == "intersection")]
        r = [] if m in ("intersection", "difference") else [e for e, i in zip(w.a[1], inv) if i < 0]
        return mk("iter", "seq", tuple(I_.new_cell(st, e[0]) for e in map_items(I_, st, mk("map", v.a[0], tuple(l + r)))))
    if m == "range" and btree:
        r = I_.content(st, a[1])
        ks = [order_key(I_.reify(st, e[0])) for e in es]
        if r.k != "adt" or None in ks:
            return DEFAULT
        bs = [order_key(I_.reify(st, I_.content(st, x))) for x in r.a[2][:2]]
        if r.a[1] != "RangeFull" and None in bs:
            return DEFAULT
        ok = {"Range": lambda k_: bs[0] <= k_ < bs[1], "RangeFrom": lambda k_: bs[0] <= k_, "RangeTo": lambda k_: k_ < bs[0],
              "RangeInclusive": lambda k_: bs[0] <= k_ <= bs[1], "RangeToInclusive": lambda k_: k_ <= bs[0],
              "RangeFull": lambda k_: True}.get(r.a[1])
        if ok is None:
            return DEFAULT
        return mk("iter", "seq", tuple(item(i) for i, _ in map_items(I_, st, v, True) if ok(ks[i])))
    if m == "split_off" and btree:
        ks = [order_key(I_.reify(st, e[0])) for e in es]
        t = order_key(I_.reify(st, I_.content(st, a[1])))
        if None in ks or t is None:
            return DEFAULT
        put(st, [e for e, k_ in zip(es, ks) if k_ < t])
        return mk("map", v.a[0], tuple(e for e, k_ in zip(es, ks) if k_ >= t))
    if m in ("get_index", "get_index_mut") and index:
        n = int_of(I_, st, a[1])
        return DEFAULT if n is None else Some(item(n)) if n < len(es) else NONE
    if m in ("swap_remove_index", "shift_remove_index") and index:
        n = int_of(I_, st, a[1])
        if n is None:
            return DEFAULT
        if n >= len(es):
            return NONE
        rest = es[:n] + es[n + 1:] if m.startswith("shift") or n == len(es) - 1 else es[:n] + es[-1:] + es[n + 1:-1]
        put(st, rest)
        return Some(owned(es[n]))
    if m == "insert_full" and index:
        i = map_find(I_, st, v, a[1])
        if i is None:
            return DEFAULT
        val = a[2] if len(a) > 2 else UNIT
        I_.storev(st, c, p, map_put(I_, st, v, a[1], val))
        n = i if i >= 0 else len(es)
        return Tup(I(n), B(i < 0)) if isset else Tup(I(n), NONE if i < 0 else Some(es[i][1]))
    if m == "reverse" and index:
        put(st, es[::-1])
        return UNIT
    if m in ("sort_keys", "sort_unstable_keys") and index:
        ks = [order_key(I_.reify(st, e[0])) for e in es]
        if None in ks:
            return DEFAULT
        put(st, [es[i] for i in sorted(range(len(es)), key=lambda i: ks[i])])
        return UNIT
    if m == "truncate" and index:
        n = int_of(I_, st, a[1])
        if n is None:
            return DEFAULT
        put(st, es[:n])
        return UNIT
    if m == "extract_if":
        f = a[-1]
        order = [i for i, _ in map_items(I_, st, v, True)]

        def ex(s, j, out):
            if j == len(order):
                cur = I_.load(s, c, p)
                I_.storev(s, c, p, mk("map", v.a[0], tuple(e for i, e in enumerate(cur.a[1]) if i not in out)))
                return mk("iter", "seq", tuple(owned(cur.a[1][i]) for i in out))
            i = order[j]
            args = [I_.new_cell(s, es[i][0])] + ([] if isset else [ref(c, p + (("mv", i),))])
            return test(I_, f, args, lambda s2, b: ex(s2, j + 1, out + [i] if b else out))
        return ex(st, 0, [])
    return DEFAULT


@front(r"<&.*(HashSet|BTreeSet|IndexSet)<.*> as core::ops::(bit::Bit(And|Or|Xor)|arith::Sub)<.*>>::\w+$")
def m_set_ops(I_, st, ci, a):
    x, y = I_.content(st, a[0]), I_.content(st, a[1])
    if x.k != "map" or y.k != "map":
        return DEFAULT
    op = meth(ci)
    inw = [map_find(I_, st, y, e[0]) for e in x.a[1]]
    inv = [map_find(I_, st, x, e[0]) for e in y.a[1]]
    if None in inw or None in inv:
        return DEFAULT
    l = [e for e, i in zip(x.a[1], inw) if op == "bitor" or (i >= 0) == (op == "bitand")]
    r = [e for e, i in zip(y.a[1], inv) if i < 0] if op in ("bitor", "bitxor") else []
    return mk("map", x.a[0], tuple(l + r))


@front(r"::Entry::<.*>::(and_modify|or_insert_with_key|key|or_insert_entry|insert_entry|index)$")
def m_entry_more(I_, st, ci, a):
    e0 = a[0]
    m = meth(ci)
    e = I_.content(st, e0)
    if e.k == "adt" and e.a[1] in ("Occupied", "Vacant"):
        e = e.a[2][0]
    if not (e.k == "adt" and e.a[0] == "entry"):
        return DEFAULT
    pm, key = e.a[2]
    mv = I_.load(st, pm.a[0], pm.a[1])
    i = map_find(I_, st, mv, key) if mv.k == "map" else None
    if m == "key":
        return I_.new_cell(st, key)
    if i is None:
        return DEFAULT
    if m == "insert_entry":
        I_.storev(st, pm.a[0], pm.a[1], map_put(I_, st, mv, key, a[1]))
        return Adt("entry", "Entry", (pm, key))
    if m == "and_modify":
        if i < 0:
            return e0
        return Call(a[1], [ref(pm.a[0], pm.a[1] + (("mv", i),))], lambda I2, s, r: e0)
    if m == "or_insert_with_key":
        if i >= 0:
            return ref(pm.a[0], pm.a[1] + (("mv", i),))

        def put(I2, s, r):
            nm = map_put(I2, s, I2.load(s, pm.a[0], pm.a[1]), key, r)
            I2.storev(s, pm.a[0], pm.a[1], nm)
            return ref(pm.a[0], pm.a[1] + (("mv", map_find(I2, s, nm, key)),))
        return Call(a[1], [I_.new_cell(st, key)], put)
    return DEFAULT


# ------------------------------------------------------------ strings
def pat_of(I_, st, v):
    """a constant string/char pattern as a python string"""
    x = I_.content(st, v)
    return x.a[1] if is_c(x, "str") or is_c(x, "char") else None


@front(r"^(core|alloc)::str::<impl str>::(split|rsplit|splitn|rsplitn|split_whitespace|split_ascii_whitespace|split_once|rsplit_once|find|rfind|trim_start|trim_end|trim_start_matches|trim_end_matches|trim_matches|char_indices|lines|eq_ignore_ascii_case|repeat|matches|split_at|split_terminator|parse|chars|starts_with|ends_with|contains|into_string|to_owned|split_inclusive|strip_prefix|strip_suffix|is_char_boundary|get|bytes|replacen)$")
def m_str_more(I_, st, ci, a):
    m = meth(ci)
    v = I_.content(st, a[0])
    if not is_c(v, "str"):
        return DEFAULT
    s = v.a[1]
    q = pat_of(I_, st, a[1]) if len(a) > 1 else None

    def seq(xs):
        return mk("iter", "seq", tuple(xs))

    def off(i):
        return I(len(s[:i].encode()))
    if m in ("trim_start", "trim_end"):
        return S(s.lstrip() if m == "trim_start" else s.rstrip())
    if m in ("split_whitespace", "split_ascii_whitespace"):
        return seq(S(x) for x in s.split())
    if m == "lines":
        return seq(S(x) for x in s.splitlines())
    if m == "char_indices":
        return seq(Tup(off(i), mk("c", "char", x)) for i, x in enumerate(s))
    if m == "chars":
        return seq(mk("c", "char", x) for x in s)
    if m == "bytes":
        return seq(I(x) for x in s.encode())
    if m == "into_string":
        return v
    if m == "parse":
        ty = ci.args[0] if ci.args else ""
        w = re.match(r"^([ui])(8|16|32|64|128|size)$", ty)
        if not w:
            return DEFAULT
        bits = 64 if w.group(2) == "size" else int(w.group(2))
        if re.match(r"^[+-]?\d+$" if w.group(1) == "i" else r"^\+?\d+$", s):
            n = int(s)
            lo, hi = (0, 2 ** bits) if w.group(1) == "u" else (-2 ** (bits - 1), 2 ** (bits - 1))
            if lo <= n < hi:
                return Ok(I(n))
        return Err(T("parse_error", v))
    if m in ("splitn", "rsplitn"):
        n, q = int_of(I_, st, a[1]), pat_of(I_, st, a[2])
        if n is None or not q:
            return DEFAULT
        return seq(S(x) for x in (s.split(q, n - 1) if m == "splitn" else s.rsplit(q, n - 1)[::-1])) if n else seq([])
    if m == "repeat":
        n = int_of(I_, st, a[1])
        return DEFAULT if n is None else S(s * n)
    if m == "split_at":
        n = int_of(I_, st, a[1])
        b = s.encode()
        return DEFAULT if n is None or n > len(b) else Tup(S(b[:n].decode(errors="replace")), S(b[n:].decode(errors="replace")))
    if m == "get":
        i = I_.content(st, a[1])
        r = range_of(i, len(s))
        return DEFAULT if r is None or not s.isascii() else Some(S(s[r[0]:r[1]])) if r[0] <= r[1] <= len(s) else NONE
    f = I_.content(st, a[1]) if len(a) > 1 else None
    if q is None and f is not None and f.k in ("clo", "fn") and m in (
            "find", "rfind", "starts_with", "ends_with", "contains", "split", "trim_start_matches", "trim_end_matches",
            "trim_matches", "strip_prefix", "strip_suffix", "matches", "split_once", "split_terminator"):
        # a predicate on characters
        def flags(s2, i, acc, k):
            if i == len(s):
                return k(s2, acc)
            return test(I_, a[1], [mk("c", "char", s[i])], lambda s3, b: flags(s3, i + 1, acc + [b], k))

        def done(s2, fl):
            hits = [i for i, b in enumerate(fl) if b]
            if m in ("find", "rfind"):
                return NONE if not hits else Some(off(hits[0] if m == "find" else hits[-1]))
            if m == "contains":
                return B(bool(hits))
            if m == "starts_with":
                return B(bool(s) and fl[0])
            if m == "ends_with":
                return B(bool(s) and fl[-1])
            if m == "strip_prefix":
                return Some(S(s[1:])) if s and fl[0] else NONE
            if m == "strip_suffix":
                return Some(S(s[:-1])) if s and fl[-1] else NONE
            if m == "matches":
                return seq(S(s[i]) for i in hits)
            if m == "split_once":
                return NONE if not hits else Some(Tup(S(s[:hits[0]]), S(s[hits[0] + 1:])))
            lo, hi = 0, len(s)
            if m.startswith("trim"):
                while m != "trim_end_matches" and lo < hi and fl[lo]:
                    lo += 1
                while m != "trim_start_matches" and hi > lo and fl[hi - 1]:
                    hi -= 1
                return S(s[lo:hi])
            parts, cur = [], ""
            for ch, b in zip(s, fl):
                if b:
                    parts.append(cur)
                    cur = ""
                else:
                    cur += ch
            if m == "split" or cur:
                parts.append(cur)
            return seq(S(x) for x in parts)
        return flags(st, 0, [], done)
    if q is None:
        return DEFAULT
    if m in ("split", "rsplit", "split_terminator", "split_inclusive"):
        if not q:
            return DEFAULT
        xs = s.split(q)
        if m == "split_terminator" and xs[-1] == "":
            xs.pop()
        if m == "split_inclusive":
            xs = [x + q for x in xs[:-1]] + ([xs[-1]] if xs[-1] else [])
        return seq(S(x) for x in (xs[::-1] if m == "rsplit" else xs))
    if m in ("split_once", "rsplit_once"):
        l, mid, r = s.partition(q) if m == "split_once" else s.rpartition(q)
        return Some(Tup(S(l), S(r))) if mid else NONE
    if m in ("find", "rfind"):
        i = s.find(q) if m == "find" else s.rfind(q)
        return NONE if i < 0 else Some(off(i))
    if m in ("trim_start_matches", "trim_end_matches", "trim_matches"):
        if not q:
            return DEFAULT
        while m != "trim_end_matches" and s.startswith(q):
            s = s[len(q):]
        while m != "trim_start_matches" and s.endswith(q):
            s = s[:-len(q)]
        return S(s)
    if m == "eq_ignore_ascii_case":
        return B(s.lower() == q.lower())
    if m == "matches":
        return seq(S(q) for _ in range(s.count(q))) if q else DEFAULT
    if m == "replacen" and len(a) > 3:
        w, n = pat_of(I_, st, a[2]), int_of(I_, st, a[3])
        return DEFAULT if w is None or n is None else S(s.replace(q, w, n))
    return DEFAULT


@front(r"^core::str::(iter|traits)::.*<impl .*Iterator for core::str::iter::|^<core::str::iter::\w+<.*> as core::iter::traits::iterator::Iterator>::rev$")
def m_str_iter(I_, st, ci, a):
    return DEFAULT


@pattern(r"^alloc::string::String::(pop|insert|insert_str|truncate|clear|remove|retain|with_capacity|reserve|as_str|as_mut_str|into_boxed_str|drain|split_off|len|extend_from_within|leak|shrink_to_fit|from_utf8_lossy|into_chars)$")
def m_string_more(I_, st, ci, a):
    m = meth(ci)
    if m == "with_capacity":
        return S("")
    if m in ("reserve", "shrink_to_fit"):
        return UNIT
    if m in ("as_str", "as_mut_str", "into_boxed_str", "leak"):
        return a[0]
    c, p, v = seq_target(I_, st, a[0])
    if m == "clear":
        I_.storev(st, c, p, S(""))
        return UNIT
    if not is_c(v, "str"):
        return DEFAULT
    s = v.a[1]
    if m == "pop":
        I_.storev(st, c, p, S(s[:-1]))
        return Some(mk("c", "char", s[-1])) if s else NONE
    n = int_of(I_, st, a[1]) if len(a) > 1 else None
    if m == "retain":
        def go(s2, i, acc):
            if i == len(s):
                I_.storev(s2, c, p, S(acc))
                return UNIT
            return test(I_, a[1], [mk("c", "char", s[i])], lambda s3, b: go(s3, i + 1, acc + s[i] if b else acc))
        return go(st, 0, "")
    if n is None or not s.isascii() or n > len(s):
        return DEFAULT
    if m in ("insert", "insert_str"):
        q = pat_of(I_, st, a[2])
        if q is None:
            return DEFAULT
        I_.storev(st, c, p, S(s[:n] + q + s[n:]))
        return UNIT
    if m == "truncate":
        I_.storev(st, c, p, S(s[:n]))
        return UNIT
    if m == "split_off":
        I_.storev(st, c, p, S(s[:n]))
        return S(s[n:])
    if m == "remove" and n < len(s):
        I_.storev(st, c, p, S(s[:n] + s[n + 1:]))
        return mk("c", "char", s[n])
    return DEFAULT


@front(r"<alloc::string::String as core::iter::traits::collect::(Extend|FromIterator)<.*>>::extend$")
def m_string_extend(I_, st, ci, a):
    c, p, v = seq_target(I_, st, a[0])
    it = as_iter(I_, st, a[1])
    if is_symbolic(it) or not (is_c(v, "str") or is_t(v, "concat")):
        return DEFAULT

    def put(s, xs):
        xs = [I_.content(s, x) for x in xs]
        I_.storev(s, c, p, concat([I_.load(s, c, p)] + [S(x.a[1]) if is_c(x, "char") else x for x in xs]))
        return UNIT
    return drain_all(I_, st, it, put)


@pattern(r"^core::char::methods::<impl char>::(\w+)$|^core::num::<impl u8>::(is_ascii_\w+|to_ascii_\w+)$")
def m_char(I_, st, ci, a):
    m = meth(ci)
    v = I_.content(st, a[0])
    if v.k != "c":
        return DEFAULT
    isb = v.a[0] == "int"
    ch = chr(v.a[1]) if isb else v.a[1]
    t = {"is_alphabetic": ch.isalpha(), "is_numeric": ch.isnumeric(), "is_alphanumeric": ch.isalnum(), "is_whitespace": ch.isspace(),
         "is_uppercase": ch.isupper(), "is_lowercase": ch.islower(), "is_ascii": ord(ch) < 128,
         "is_ascii_digit": ch in "0123456789", "is_ascii_alphabetic": ch.isascii() and ch.isalpha(),
         "is_ascii_alphanumeric": ch.isascii() and ch.isalnum(), "is_ascii_uppercase": ch.isascii() and ch.isupper(),
         "is_ascii_lowercase": ch.isascii() and ch.islower(), "is_ascii_whitespace": ch in " \t\n\r\x0c",
         "is_ascii_punctuation": ch.isascii() and ch.isprintable() and not ch.isalnum() and ch != " ",
         "is_ascii_hexdigit": ch in "0123456789abcdefABCDEF", "is_control": ord(ch) < 32 or 127 <= ord(ch) < 160}
    if m in t:
        return B(t[m])
    if m in ("to_ascii_lowercase", "to_ascii_uppercase"):
        r = (ch.lower() if m.endswith("lowercase") else ch.upper()) if ch.isascii() else ch
        return I(ord(r)) if isb else mk("c", "char", r)
    if m == "len_utf8":
        return I(len(ch.encode()))
    if m == "is_digit":
        n = int_of(I_, st, a[1])
        return DEFAULT if n is None else B(ch.lower() in "0123456789abcdefghijklmnopqrstuvwxyz"[:n])
    if m == "to_digit":
        n = int_of(I_, st, a[1])
        i = "0123456789abcdefghijklmnopqrstuvwxyz".find(ch.lower())
        return DEFAULT if n is None else Some(I(i)) if 0 <= i < n else NONE
    return DEFAULT


# ------------------------------------------------------------ numbers
@front(r"^core::num::<impl (\w+)>::(abs_diff|pow|div_ceil|rem_euclid|div_euclid|is_power_of_two|next_power_of_two|trailing_zeros|leading_zeros|count_ones|count_zeros|abs|unsigned_abs|signum|checked_\w+|saturating_\w+|wrapping_\w+|overflowing_\w+|is_multiple_of|midpoint|isqrt|ilog2|next_multiple_of|is_positive|is_negative|from_str_radix|checked_next_multiple_of)$")
def m_int(I_, st, ci, a):
    m = meth(ci)
    vs = [I_.content(st, x) for x in a]
    if not all(is_c(x, "int") for x in vs):
        return DEFAULT
    xs = [x.a[1] for x in vs]
    w = re.search(r"<impl ([ui])(8|16|32|64|128|size)>", ci.fn)
    if not w:
        return DEFAULT
    bits = 64 if w.group(2) == "size" else int(w.group(2))
    signed = w.group(1) == "i"
    lo, hi = (-2 ** (bits - 1), 2 ** (bits - 1) - 1) if signed else (0, 2 ** bits - 1)
    x = xs[0]
    y = xs[1] if len(xs) > 1 else None

    def fit(r):
        return I(r) if lo <= r <= hi else panic(I_, st, "integer overflow")

    def tdiv(p, q):
        r = abs(p) // abs(q)
        return r if (p >= 0) == (q >= 0) else -r
    ops = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "pow": lambda: x ** y if y < 4096 else hi + 1,
           "neg": lambda: -x, "abs": lambda: abs(x), "shl": lambda: x << y, "shr": lambda: x >> y,
           "div": lambda: tdiv(x, y), "rem": lambda: x - tdiv(x, y) * y, "div_euclid": lambda: (x - x % abs(y)) // y,
           "rem_euclid": lambda: x % abs(y)}
    mm = re.match(r"(checked|saturating|wrapping|overflowing)_(\w+)$", m)
    if mm:
        kind, op = mm.groups()
        if op not in ops:
            return DEFAULT
        if op in ("div", "rem", "div_euclid", "rem_euclid") and y == 0:
            return NONE if kind == "checked" else panic(I_, st, "division by zero")
        if op in ("shl", "shr"):
            if kind == "checked" and y >= bits:
                return NONE
            y %= bits
        r = ops[op]()
        wrap = (r - lo) % (1 << bits) + lo
        if op in ("shl", "shr"):
            return Some(I(wrap)) if kind == "checked" else I(wrap) if kind == "wrapping" else DEFAULT
        if kind == "checked":
            return Some(I(r)) if lo <= r <= hi else NONE
        if kind == "saturating":
            return I(min(hi, max(lo, r)))
        return I(wrap) if kind == "wrapping" else Tup(I(wrap), B(wrap != r))
    if m in ("div_ceil", "rem_euclid", "div_euclid", "next_multiple_of") and y == 0:
        return panic(I_, st, "division by zero")
    u = x % (1 << bits)
    t = {"abs_diff": lambda: I(abs(x - y)), "pow": lambda: fit(ops["pow"]()), "div_ceil": lambda: I(-((-x) // y)) if not signed else DEFAULT,
         "rem_euclid": lambda: I(ops["rem_euclid"]()), "div_euclid": lambda: fit(ops["div_euclid"]()),
         "is_power_of_two": lambda: B(x > 0 and x & (x - 1) == 0), "next_power_of_two": lambda: fit(1 << max(0, x - 1).bit_length()),
         "trailing_zeros": lambda: I((u & -u).bit_length() - 1 if u else bits), "leading_zeros": lambda: I(bits - u.bit_length()),
         "count_ones": lambda: I(bin(u).count("1")), "count_zeros": lambda: I(bits - bin(u).count("1")), "abs": lambda: fit(abs(x)),
         "unsigned_abs": lambda: I(abs(x)), "signum": lambda: I((x > 0) - (x < 0)), "is_multiple_of": lambda: B(x % y == 0 if y else x == 0),
         "midpoint": lambda: I((x + y) // 2) if not signed else DEFAULT, "isqrt": lambda: I(math.isqrt(x)) if x >= 0 else DEFAULT,
         "ilog2": lambda: I(x.bit_length() - 1) if x > 0 else panic(I_, st, "ilog2 of zero"),
         "next_multiple_of": lambda: fit(-((-x) // y) * y) if not signed else DEFAULT,
         "is_positive": lambda: B(x > 0), "is_negative": lambda: B(x < 0)}
    return t[m]() if m in t else DEFAULT


@front(r"^(core|std)::(num::)?f64::<impl f64>::(floor|ceil|round|trunc|fract|signum|min|max|clamp|rem_euclid|div_euclid|sqrt|is_normal|copysign|abs|round_ties_even|mul_add_|to_radians_|recip)$|^std::num::f64::<impl f64>::(floor|ceil|round|trunc|fract|signum|min|max|clamp|rem_euclid|div_euclid|sqrt|copysign|abs|round_ties_even|recip)$")
def m_flt(I_, st, ci, a):
    m = meth(ci)
    vs = [I_.content(st, x) for x in a]
    if not all(is_c(x, "flt") for x in vs):
        return DEFAULT
    xs = [x.a[1] for x in vs]
    x = xs[0]
    if not all(math.isfinite(v) for v in xs):
        return DEFAULT
    y = xs[1] if len(xs) > 1 else None

    def rem():
        r = math.fmod(x, y)
        return r + abs(y) if r < 0 else r
    t = {"floor": lambda: float(math.floor(x)), "ceil": lambda: float(math.ceil(x)), "trunc": lambda: float(math.trunc(x)),
         "round": lambda: math.copysign(math.floor(abs(x) + 0.5), x), "round_ties_even": lambda: float(round(x)), "fract": lambda: x - math.trunc(x),
         "signum": lambda: math.copysign(1.0, x), "min": lambda: min(x, y), "max": lambda: max(x, y),
         "clamp": lambda: min(max(x, y), xs[2]), "copysign": lambda: math.copysign(x, y), "abs": lambda: abs(x)}
    if m in t:
        return F(t[m]())
    if m == "rem_euclid" and y:
        return F(rem())
    if m == "div_euclid" and y:
        q = math.trunc(x / y)
        return F(float(q - (1 if y > 0 else -1)) if math.fmod(x, y) < 0 else float(q))
    if m == "sqrt" and x >= 0:
        return F(math.sqrt(x))
    if m == "recip" and x:
        return F(1.0 / x)
    return DEFAULT


@model("core::cmp::Ord::clamp", "core::cmp::max_by_key", "core::cmp::min_by_key", "core::cmp::max_by", "core::cmp::min_by")
def m_cmp_more(I_, st, ci, a):
    m = meth(ci) if not ci.def_.endswith("clamp") else "clamp"
    if m == "clamp":
        x, lo, hi = [I_.content(st, v) for v in a]
        if x.k == lo.k == hi.k == "c":
            return mk("c", x.a[0], min(max(x.a[1], lo.a[1]), hi.a[1]))
        return T("min", T("max", I_.reify(st, x), I_.reify(st, lo)), I_.reify(st, hi))
    xs = [a[0], a[1]]

    def pick(ys):
        return ys[0] if m.startswith("min") else ys[-1]

    def fb(s):
        return T(m, I_.reify(s, a[0]), I_.reify(s, a[1]))
    if m.endswith("key"):
        return by_keys(I_, st, xs, a[2], lambda s, ks: pick([x for _, x in ks]), fb)
    return by_cmp(I_, st, xs, a[2], lambda s, ys: pick(ys), fb)


# ------------------------------------------------------------ cells
@pattern(r"^core::cell::(RefCell|Cell)::<T>::(replace|take|set|get|replace_with|get_mut|swap|update|as_ptr_|try_borrow|try_borrow_mut)$")
def m_cell_more(I_, st, ci, a):
    m = meth(ci)
    c, p, v = seq_target(I_, st, a[0])
    if v.k != "adt" or v.a[0] != "cell":
        return DEFAULT
    q = p + (("f", 0, "0", None),)
    if m == "get":
        return I_.load(st, c, q)
    if m == "get_mut":
        return ref(c, q)
    if m.startswith("try_borrow"):
        return Ok(ref(c, q))
    if m in ("set", "replace"):
        old = I_.load(st, c, q)
        I_.storev(st, c, q, a[1])
        return UNIT if m == "set" else old
    if m == "take":
        return TABLE["core::mem::take"](I_, st, ci, [ref(c, q)])
    if m == "replace_with":
        old = I_.load(st, c, q)
        return Call(a[1], [ref(c, q)], lambda I2, s, r: (I2.storev(s, c, q, r), old)[1])
    if m == "update":
        return Call(a[1], [I_.load(st, c, q)], lambda I2, s, r: (I2.storev(s, c, q, r), UNIT)[1])
    return DEFAULT


# ------------------------------------------------------------ conversions and ranges
@front(r"<impl core::convert::From<\[.*; N\]> for .*>::from$|^<.*(HashMap|HashSet|BTreeMap|BTreeSet|IndexMap|IndexSet|VecDeque|BinaryHeap)<.*> as core::convert::From<\[.*\]>>::from$")
def m_from_array(I_, st, ci, a):
    ty = ci.desty or (ci.args[0] if ci.args else "")
    v = I_.content(st, a[0])
    if M.coll_kind(ty) not in ("map", "set", "vec") or v.k != "seq":
        return DEFAULT
    return build_coll(I_, st, ty, list(v.a[0]))


@pattern(r"^core::ops::range::Range\w*::<Idx>::(contains|is_empty)$|^core::ops::range::RangeBounds::contains$")
def m_range_contains(I_, st, ci, a):
    r = I_.content(st, a[0])
    if r.k != "adt":
        return DEFAULT
    fs = [I_.content(st, x) for x in r.a[2][:2]]
    if meth(ci) == "is_empty":
        if all(is_c(x, "int") for x in fs) and len(fs) == 2:
            return B(fs[0].a[1] >= fs[1].a[1] if r.a[1] == "Range" else fs[0].a[1] > fs[1].a[1])
        return DEFAULT
    x = I_.content(st, a[1])
    lo = fs[0] if r.a[1] in ("Range", "RangeInclusive", "RangeFrom") else None
    hi = fs[-1] if r.a[1] in ("Range", "RangeInclusive", "RangeTo", "RangeToInclusive") else None
    incl = "Inclusive" in r.a[1]

    def upper(s):
        return B(True) if hi is None else I_.binop1(s, "Le" if incl else "Lt", I_.reify(s, x), I_.reify(s, hi))
    if lo is None:
        return upper(st)
    return I_.fork_bool(st, I_.binop1(st, "Le", I_.reify(st, lo), I_.reify(st, x)), lambda s, b: upper(s) if b else B(False))


@pattern(r"^itertools::either_or_both::EitherOrBoth::<.*>::(reduce|left|right|both|or|or_default|left_or|right_or|has_left|has_right|is_both|map|map_any|into_left|into_right|left_and_right|just_left|just_right|is_left|is_right|map_left|map_right|or_else)$")
def m_eob(I_, st, ci, a):
    m = meth(ci)
    v = I_.content(st, a[0])
    if v.k != "adt":
        return DEFAULT
    vn, xs = v.a[1], v.a[2]
    l = xs[0] if vn in ("Both", "Left") else None
    r = xs[-1] if vn in ("Both", "Right") else None

    def o(x):
        return NONE if x is None else Some(x)
    if m == "reduce":
        return Call(a[1], [l, r]) if vn == "Both" else xs[0]
    if m in ("left", "right"):
        return o(l if m == "left" else r)
    if m in ("just_left", "just_right"):
        return o(xs[0] if vn == ("Left" if m == "just_left" else "Right") else None)
    if m == "both":
        return Some(Tup(l, r)) if vn == "Both" else NONE
    if m in ("has_left", "has_right"):
        return B((l if m == "has_left" else r) is not None)
    if m in ("is_left", "is_right", "is_both"):
        return B(vn == {"is_left": "Left", "is_right": "Right", "is_both": "Both"}[m])
    if m == "or":
        return Tup(a[1] if l is None else l, a[2] if r is None else r)
    if m in ("left_or", "right_or"):
        w = l if m == "left_or" else r
        return a[1] if w is None else w
    if m == "left_and_right":
        return Tup(o(l), o(r))
    return DEFAULT


@model("core::clone::Clone::clone_from")
def m_clone_from(I_, st, ci, a):
    """replaces the value with a clone of the source"""
    c = {x: y.replace("clone_from", "clone") if isinstance(y, str) else y for x, y in ci.callee.items()}
    dst = I_.deref(a[0])

    def store(I2, s, v):
        I2.storev(s, *dst, v)
        return UNIT
    return Call(I_.fnval(c), [a[1]], store)


@override(IT + "sum", "core::iter::traits::accum::Sum::sum")
def m_sum_own(I_, st, ci, a):
    """the sum of values of a type of the code under analysis: its own `Sum`"""
    t = next((x for x in reversed(ci.args) if f"<{x} as core::iter::traits::accum::Sum>::sum::<I>" in I_.p), None)
    if t is None or not any(t.startswith(c) for c in ("tket", "qis_compiler")):
        return DEFAULT
    k = f"<{t} as core::iter::traits::accum::Sum>::sum::<I>"
    return Call(mk_fn_key(I_, k, k), [a[0]], lambda I2, s, r: r)


@front(r"^indexmap::map::IndexMap::<.*>::get_index_of$")
def m_index_of(I_, st, ci, a):
    c, p, v = seq_target(I_, st, a[0])
    if v.k != "map":
        return DEFAULT
    i = map_find(I_, st, v, a[1])
    return DEFAULT if i is None else Some(I(i)) if i >= 0 else NONE
