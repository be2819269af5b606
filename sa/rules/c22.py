"""C22: the search loop is executed abstractly on concrete state graphs (states with a cost, a hash and successors), with every
possible point at which a time limit fires and every bounded queue size.  On every path the state returned must be the cheapest
of the start state and the states taken from the queue, no two states with one hash are expanded, and when no limit fires and
the queue is large enough every reachable state is expanded.  The shared-queue worker must announce each new best state with its
own cost, the loops which follow those announcements must replace best circuit and best cost together and only by a strictly
lower cost, and the cost a state carries must be its parent's cost plus the change reported with the rewrite it came from."""
import itertools
from interp import V, mk, I, B, S, T, F, Adt, Tup, Seq, Some, NONE, Ok, Err, UNIT, is_c, is_t, DEFAULT, Ret, Fork, Dead, Call, show
from cx import Abort
import models
from costs import place

BT = "tket::optimiser::backtracking::BacktrackingOptimiser"
DPQ = "priority_queue::double_priority_queue::DoublePriorityQueue"


def state(i):
    return Adt("vp::State", "State", (I(i),))


def sid(I_, st, v):
    v = I_.reify(st, v)
    if v.k == "adt" and v.a[0] == "vp::State":
        return v.a[2][0].a[1]
    return None


class Search:
    """graph: state -> (cost, hash, successors)"""

    def __init__(self, graph, time=True):
        self.g, self.time = graph, time

    def __call__(self, I_, st, ci, a):
        d, nm = ci.def_, ci.def_.rsplit("::", 1)[-1]
        if "BadgerLogger" in ci.full or "tracing" in ci.full:
            return UNIT
        if nm == "clone" and len(a) == 1:
            v = I_.content(st, a[0])
            if v.k == "adt" and v.a[0] == "vp::State" or is_c(v):
                return v
        if "::State::" in d or "as tket::optimiser::State<" in ci.full:
            i = sid(I_, st, a[0]) if a else None
            if i is not None:
                if nm == "cost":
                    return NONE if self.g[i][0] is None else Some(I(self.g[i][0]))
                if nm == "hash":
                    return NONE if self.g[i][1] is None else Some(mk("c", "u64", self.g[i][1]) if False else I(self.g[i][1]))
                if nm == "next_states":
                    I_.log(st, "vp::expand", [I(i)], UNIT, ci, ci.where, ())
                    return Seq([state(j) for j in self.g[i][2]])
        if "DoublePriorityQueue" in ci.full or "double_priority_queue" in ci.full:
            r = self.queue(I_, st, ci, nm, a)
            if r is not None:
                return r
        if nm in ("now",) and "Instant" in ci.full:
            return T("now")
        if nm == "elapsed":
            return T("elapsed", I(len(st.events)))
        if nm == "as_secs_f64":
            return T("secs", I_.reify(st, a[0]))
        return DEFAULT

    def queue(self, I_, st, ci, nm, a):
        if nm in ("with_capacity", "new", "default"):
            cap = a[0] if a else I(0)
            return Adt(DPQ, "DoublePriorityQueue", (Seq(()), cap))
        v = I_.content(st, a[0])
        if not (v.k == "adt" and v.a[0] == DPQ):
            return None
        items, cap = list(v.a[2][0].a[0]), v.a[2][1]

        def put(xs):
            c, p = place(I_, st, a[0])
            I_.storev(st, c, p, Adt(DPQ, "DoublePriorityQueue", (Seq(xs), cap)))

        def cost(x):
            y = I_.reify(st, x.a[0][1])
            if not is_c(y):
                raise Abort(f"cost in the queue is not known: {show(y)[:100]}")
            return y.a[1]

        def ref(x):
            return I_.new_cell(st, x)
        if nm == "len":
            return I(len(items))
        if nm == "is_empty":
            return B(not items)
        if nm == "capacity":
            return cap
        if nm == "push":
            k, c = I_.reify(st, a[1]), I_.reify(st, a[2])
            old = [x for x in items if x.a[0][0] is k]
            put([x for x in items if x.a[0][0] is not k] + [Tup(k, c)])
            I_.log(st, "vp::push", [k, c], UNIT, ci, ci.where, ())
            return Some(old[0].a[0][1]) if old else NONE
        if nm in ("pop_min", "pop_max", "peek_min", "peek_max"):
            if not items:
                return NONE
            x = (min if nm.endswith("min") else max)(items, key=cost)
            if nm.startswith("pop"):
                put([y for y in items if y is not x])
                I_.log(st, "vp::" + nm, list(x.a[0]), UNIT, ci, ci.where, ())
                return Some(x)
            return Some(Tup(ref(x.a[0][0]), ref(x.a[0][1])))
        if nm in ("contains", "get", "get_priority"):
            k = I_.reify(st, a[1])
            hit = [x for x in items if x.a[0][0] is k]
            if nm == "contains":
                return B(bool(hit))
            if nm == "get_priority":
                return Some(ref(hit[0].a[0][1])) if hit else NONE
            return Some(Tup(ref(hit[0].a[0][0]), ref(hit[0].a[0][1]))) if hit else NONE
        if nm == "remove":
            k = I_.reify(st, a[1])
            hit = [x for x in items if x.a[0][0] is k]
            put([x for x in items if x.a[0][0] is not k])
            return Some(hit[0]) if hit else NONE
        if nm in ("into_sorted_iter", "into_ascending_sorted_vec", "into_descending_sorted_vec"):
            xs = sorted(items, key=cost)
            if nm == "into_sorted_iter":
                return mk("iter", "seq", tuple(xs))
            if "descending" in nm:
                xs = xs[::-1]
            return Seq([x.a[0][0] for x in xs])
        return None


# state graphs: (cost, hash, successors) per state; state 0 is the start
GRAPHS = {
    "one state": [(5, 10, [])],
    "no better state": [(5, 10, [1, 2]), (6, 11, [3]), (5, 12, []), (9, 13, [])],
    "chain": [(5, 10, [1]), (4, 11, [2]), (3, 12, [3]), (4, 13, [])],
    "better after worse": [(5, 10, [1, 2]), (7, 11, [3]), (6, 12, []), (2, 13, [4]), (2, 14, [])],
    "loops": [(5, 10, [1, 0]), (5, 11, [0, 2, 1]), (4, 12, [0, 1, 2, 3]), (4, 13, [2])],
    "equal hash": [(5, 10, [1, 2]), (4, 11, [3]), (3, 11, [4]), (6, 10, [5]), (1, 14, []), (2, 15, [])],
    "wide": [(5, 10, [1, 2, 3, 4]), (8, 11, []), (4, 12, [5]), (6, 13, [6]), (3, 14, []), (4, 15, [6]), (1, 16, [])],
}


def opt(v):
    return NONE if v is None else Some(I(v))


def search(cx):
    key = cx.key(r"^<" + BT + r" as tket::optimiser::Optimiser>::optimise_with_options::<C, S>$")
    stops = popped = 0
    sizes = (1, 2, 3, 20)
    for gname, g in GRAPHS.items():
        for size, lim, timed, track in itertools.product(sizes, (None, 1, 2, 4), ("none", "total", "progress", "both"), (None, 0, 1, 2, 3)):
            if timed == "both" and not cx.thorough:
                continue
            if track is not None and (timed != "none") and not cx.thorough:
                continue
            me = Adt(BT, "BacktrackingOptimiser", (I(size), opt(7 if timed in ("total", "both") else None), opt(7 if timed in ("progress", "both") else None), opt(lim)))
            o_ = Adt("tket::optimiser::OptimiserOptions", "OptimiserOptions", (T("logger"), opt(track)))
            label = f"{gname}, queue of {size}, visit limit {lim}, time limit {timed}, track {track}"

            def go():
                nonlocal stops, popped
                it, outs = cx.run(key, [me, state(0), T("context"), o_], on_call=Search(g), cparams={}, max_visits=100, loop_decisions=100, sym_visits=100)
                bad = None
                for o in outs:
                    if o.kind != "ret":
                        raise Abort(f"{o.kind} {o.st.cutreason}")
                    r = it.reify(o.st, o.value)
                    if not (r.k == "adt" and r.a[1] == "Some" and r.a[2][0].k == "adt" and len(r.a[2][0].a[2]) == 2):
                        bad = f"returns {show(r)[:200]}"
                        break
                    best, nbest = r.a[2][0].a[2]
                    b = sid(it, o.st, best)
                    exp = [e.args[0].a[1] for e in o.events if e.fn == "vp::expand"]
                    stops += 1
                    popped += len(exp)
                    costs = [g[i][0] for i in [0] + exp]
                    found = {0} | {j for i in exp for j in g[i][2]}
                    if b is None or b not in found:
                        bad = f"returns {show(best)[:100]}, which is neither the start nor a state that was found"
                    elif g[b][0] > min(costs):
                        bad = f"returns a state of cost {g[b][0]} although one of cost {min(costs)} was reached"
                    elif b != 0 and g[b][0] >= g[0][0]:
                        bad = f"returns state {b} of cost {g[b][0]}, which is not better than the start"
                    elif len({g[i][1] for i in exp}) != len(exp):
                        bad = f"expands states with the same hash: {exp}"
                    elif lim is not None and len(exp) > lim:
                        bad = f"expands {len(exp)} states, more than the limit"
                    elif lim is None and timed == "none" and size == 20:
                        reach, todo = [], [0]
                        while todo:
                            i = todo.pop()
                            if g[i][1] in [g[j][1] for j in reach]:
                                continue
                            reach.append(i)
                            todo += g[i][2]
                        if gname != "equal hash" and sorted(exp) != sorted(reach):
                            bad = f"expands only {sorted(exp)} of the reachable states {sorted(reach)}"
                    if bad is None and track is not None:
                        pushed = {}
                        for e in o.events:
                            if e.fn == "vp::push" and e.args[0].a[1] not in pushed:
                                pushed[e.args[0].a[1]] = e.args[1].a[1]
                        want = sorted(pushed.values())[:track]
                        got = None
                        if nbest.k == "adt" and nbest.a[1] == "Some" and it.reify(o.st, nbest.a[2][0]).k == "seq":
                            ids = [sid(it, o.st, x) for x in it.reify(o.st, nbest.a[2][0]).a[0]]
                            got = [g[i][0] for i in ids]
                            if len({g[i][1] for i in ids}) != len(ids):
                                bad = f"the list of best states repeats a state: {ids}"
                        if bad is None and got != want:
                            bad = f"the costs of the {track} best states are {got}, should be {want}"
                    elif bad is None and not (nbest.k == "adt" and nbest.a[1] == "None"):
                        bad = f"a list of best states although none was asked for: {show(nbest)[:100]}"
                    if bad:
                        break
                cx.check("search", label, bad is None, f"{key}: {bad}")
            cx.guard("search", label, go)
    cx.floor("coverage", "stopping points of the search", stops, 300)
    cx.floor("coverage", "states expanded", popped, 800)


# ---------------------------------------------------------------- channels and messages
ENTRY = "tket::optimiser::pqueue::Entry"
LOG = "tket::optimiser::pqueue_worker::LogMessage"
RR = "tket::rewrite::strategy::RewriteResult"
OPT_ = "tket::optimiser::badger::BadgerOptions"
CIRC_COST = {0: 10, 1: 7, 2: 12, 3: 9, 4: 3, 5: 6, 6: 15, 7: 1, 10: 4, 11: 5, 12: 6, 20: 3, 21: 5, 22: 2}


def circ(i):
    return Adt("vp::Circ", "Circ", (I(i),))


def cid(I_, st, v):
    v = I_.reify(st, v)
    while v.k == "adt" and len(v.a[2]) == 1 and v.a[0] == "tket::circuit::Circuit":
        v = I_.reify(st, v.a[2][0])
    return v.a[2][0].a[1] if v.k == "adt" and v.a[0] == "vp::Circ" else None


def fields(cx, adt, variant, **vals):
    for v in cx.P.adts[adt]["variants"]:
        if v["name"] == variant or variant is None:
            missing = set(vals) - set(v["fields"])
            if missing:
                raise Abort(f"{adt} has no field {missing}")
            return Adt(adt, v["name"], [vals.get(n, T("field", S(n))) for n in v["fields"]])
    raise Abort(f"no variant {variant} of {adt}")


def field(cx, v, name):
    for x in cx.P.adts[v.a[0]]["variants"] if v.k == "adt" and v.a[0] in cx.P.adts else []:
        if x["name"] == v.a[1]:
            return v.a[2][x["fields"].index(name)]
    raise Abort(f"no field {name} in {show(v)[:80]}")


class Chan:
    """message passing: `script` is what is received, in order; which branch a select takes is arbitrary"""

    def __init__(self, cx, script=(), branches=3, more=None):
        self.cx, self.script, self.branches, self.more = cx, script, branches, more

    def take(self, st):
        i = st.side.get("vp::at", 0)
        if i >= len(self.script):
            return Err(T("disconnected"))
        st.side["vp::at"] = i + 1
        return Ok(self.script[i])

    def next(self, c):
        return [k for k in (1, 2, 3, 4, 5) if k != c]

    def __call__(self, I_, st, ci, a):
        if self.more is not None:
            r = self.more(I_, st, ci, a)
            if r is not None:
                return r
        d, nm, full = ci.def_, ci.def_.rsplit("::", 1)[-1], ci.full
        if nm == "in_scope" and len(a) == 2:
            return Call(a[1], [], lambda I2, s, v: Ret(v))
        if "tracing" in full and "rewrite_tracing" not in full:
            return B(False) if str(ci.desty) == "bool" else T("tracing")
        if "BadgerLogger" in full:
            return UNIT
        if d.endswith("select::select"):
            alts = []
            for k in range(self.branches):
                alts.append((st.clone(), Ret(Adt("vp::Sel", str(k), ()))))
            return Fork(alts)
        v = I_.reify(st, a[0]) if a else None
        if v is not None and v.k == "adt" and v.a[0] == "vp::Sel":
            if nm == "index":
                return I(int(v.a[1]))
            if nm == "recv":
                return self.take(st) if "Instant" not in full else Ok(T("now"))
            if nm == "send":
                I_.log(st, "vp::sent", [I_.reify(st, x) for x in a[1:]], UNIT, ci, ci.where, ())
                return Ok(UNIT)
        if "crossbeam_channel" in full:
            if nm == "recv":
                return self.take(st)
            if nm in ("iter", "try_iter", "into_iter") and "channel::Receiver" in ci.fn:
                return mk("iter", "received", self)
            if nm == "send":
                I_.log(st, "vp::sent", [I_.reify(st, x) for x in a], UNIT, ci, ci.where, ())
                return Ok(UNIT)
            if nm in ("never", "at", "after", "tick"):
                return T("timer")
        if nm == "now" and "Instant" in full:
            return T("now")
        if nm == "elapsed":
            return T("elapsed", I(len(st.events)))
        if nm == "clone" and len(a) == 1:
            v = I_.content(st, a[0])
            if v.k == "adt" and v.a[0] in ("vp::State", "vp::Circ") or is_c(v):
                return v
        if nm == "circuit_cost" or (nm == "cost" and "BadgerOptimiser" in full and "State<" not in full):
            for x in a:
                if cid(I_, st, x) is not None:
                    return I(CIRC_COST[cid(I_, st, x)])
        if nm == "add_delta" and len(a) == 2:
            x, y = I_.reify(st, a[0]), I_.reify(st, a[1])
            if is_c(x) and is_c(y):
                return I(max(0, x.a[1] + y.a[1]))
        c = cid(I_, st, a[0]) if a else None
        if c is not None:
            if nm == "circuit_hash":
                return Ok(I(100 + c))
            if nm == "parent":
                return T("parent", I(c))
            if nm in ("to_owned", "into_owned"):
                return circ(c)
            if nm == "rewrite_trace":
                return NONE
        if nm == "get_rewrites" and cid(I_, st, a[1]) is not None:
            return Seq([T("rewrite", I(cid(I_, st, a[1])), I(j)) for j in range(3)])
        if nm == "apply_rewrites" and cid(I_, st, a[2]) is not None:
            c = cid(I_, st, a[2])
            return mk("iter", "seq", tuple(fields(self.cx, RR, None, circ=circ(k), cost_delta=I(CIRC_COST[k] - CIRC_COST[c])) for k in self.next(c)))
        return DEFAULT


def nx_received(I_, st, it, k):
    """the messages of a channel, in order, until it is disconnected"""
    v = it.a[1].take(st)
    return k(st, v.a[2][0] if v.a[1] == "Ok" else None, it)


models.NEXT["received"] = nx_received


def messages(cx):
    """the loops that follow the announcements of the shared queue"""
    key = cx.key(r"^tket::optimiser::badger::BadgerOptimiser::<R, S>::badger_multithreaded::<impl HugrView<Node = Node>>$")
    n = 0

    def more(I_, st, ci, a):
        nm = ci.def_.rsplit("::", 1)[-1]
        if ci.def_.endswith("StatePQWorker::<S, P>::init"):
            return Tup(T("chan"), T("rx"))
        if ci.def_.endswith("BadgerWorker::<R, S, P>::spawn"):
            return T("join")
        if "StatePQueueChannels" in ci.full:
            if nm == "send":
                I_.log(st, "vp::work", [I_.reify(st, a[1])], UNIT, ci, ci.where, ())
                return Ok(UNIT)
            return Ok(UNIT) if nm == "close" else T("chan")
        if nm == "join":
            return Ok(UNIT)
        return None
    for sc in [[], [1], [2], [1, 4], [3, 1, 5, 4], [4, 1], [2, 4, 6], [5, 5, 1]]:
        for lim, tm, pt in itertools.product((None, 1), (None, 5), (None, 5)):
            msgs = []
            for i, c in enumerate(sc):
                msgs.append(Adt(LOG, "NewBestState", (circ(c), I(CIRC_COST[c]))))
                msgs.append(fields(cx, LOG, "StateCount", processed_count=I(i), seen_count=I(i), queue_length=I(3)))
            label = f"announced {[CIRC_COST[c] for c in sc]}, limit {lim}, time limits {tm} {pt}"

            def go():
                nonlocal n
                o_ = fields(cx, OPT_, None, timeout=opt(tm), progress_timeout=opt(pt), max_circuit_count=opt(lim), n_threads=I(2), split_circuit=B(False), queue_size=I(20))
                me = Adt("tket::optimiser::badger::BadgerOptimiser", "BadgerOptimiser", (T("rewriter"), T("strategy")))
                it, outs = cx.run(key, [me, circ(0), T("logger"), o_], on_call=Chan(cx, msgs, 3, more), cparams={}, max_visits=100, loop_decisions=100, sym_visits=100)
                bad = None
                for o in outs:
                    if o.kind != "ret":
                        raise Abort(f"{o.kind} {o.st.cutreason}")
                    b = cid(it, o.st, o.value)
                    want = min(CIRC_COST[c] for c in [0] + sc)
                    n += 1
                    w = [x for e in o.events if e.fn == "vp::work" for x in works(it, o.st, cx, e.args[0])]
                    if b is None or CIRC_COST[b] != want:
                        bad = f"returns the circuit of cost {CIRC_COST.get(b)} ({show(it.reify(o.st, o.value))[:80]}), the best is {want}"
                    elif w != [(0, 10, 100)]:
                        bad = f"starts the search from {w} (circuit, cost, hash) instead of the circuit given"
                    if bad:
                        break
                cx.check("messages", label, bad is None, f"{key}: {bad}")
            cx.guard("messages", label, go)
    cx.floor("coverage", "stopping points of the message loop", n, 50)


def works(it, st, cx, v):
    """[(circuit or state, cost, hash)] of a list of queue entries"""
    v = it.reify(st, v)
    if v.k != "seq":
        raise Abort(f"not a list of entries: {show(v)[:150]}")
    out = []
    for w in v.a[0]:
        s = it.reify(st, field(cx, w, "state"))
        c, h = it.reify(st, field(cx, w, "cost")), it.reify(st, field(cx, w, "hash"))
        out.append((sid(it, st, s) if sid(it, st, s) is not None else cid(it, st, s), c.a[1] if is_c(c) else show(c), h.a[1] if is_c(h) else show(h)))
    return out


def queue_worker(cx):
    """the thread that owns the shared queue: what it announces, hands out and forgets"""
    new = cx.key(r"^tket::optimiser::pqueue_worker::StatePQWorker::<S, P>::new$")
    clos = [k for k in cx.P.find(r"^tket::optimiser::pqueue_worker::StatePQWorker::<S, P>::run::\{closure#\d+\}$")]
    if len(clos) != 1:
        raise Abort(f"{len(clos)} closures in StatePQWorker::run")
    key = clos[0]
    ent = lambda s, c, h: fields(cx, ENTRY, None, state=state(s), cost=I(c), hash=I(h))
    batches = {
        "one": [[(0, 5, 10)]],
        "batch": [[(0, 5, 10)], [(1, 4, 11), (2, 6, 12), (3, 3, 13)]],
        "no better": [[(0, 5, 10)], [(1, 5, 11), (2, 6, 12)]],
        "seen again": [[(0, 5, 10)], [(1, 4, 11), (2, 5, 10), (3, 4, 11)], [(4, 3, 12), (5, 4, 11)]],
        "descending": [[(0, 5, 10)], [(1, 4, 11)], [(2, 3, 12)], [(3, 2, 13)]],
        "closed": [[(0, 5, 10), (1, 3, 11)], []],
    }
    n = handed = 0
    for bn, bs in batches.items():
        for size in (1, 2, 20):
            script = [Seq([ent(*x) for x in b]) for b in bs]
            q = Search({})

            def more(I_, st, ci, a):
                nm = ci.def_.rsplit("::", 1)[-1]
                if "double_priority_queue" in ci.full:
                    return q.queue(I_, st, ci, nm, a)
                if ci.def_ == "core::sync::RwLock" or nm == "write":
                    return Ok(T("lock"))
                if nm in ("sub", "checked_sub") and "Instant" in ci.full:
                    return T("then")
                return None
            label = f"{bn}, queue of {size}"

            def post(I_, st, v):
                if st.side.get("vp::run"):
                    return Ret(v)
                st.side["vp::run"] = True
                c = cx.P.get(key)
                return Call(mk("clo", key, (v,)), [], lambda I2, s, w: Ret(w))

            def go():
                nonlocal n, handed
                it, outs = cx.run(new, [T("push"), T("pop"), T("log"), T("max"), I(size)], on_call=Chan(cx, script, 2, more), cparams={},
                                  post=post, max_visits=100, loop_decisions=100, sym_visits=100)
                bad = None
                for o in outs:
                    if o.kind != "ret":
                        raise Abort(f"{o.kind} {o.st.cutreason}")
                    n += 1
                    ann, popped, gave, pushed = [], [], [], []
                    for e in o.events:
                        if e.fn == "vp::sent":
                            m = e.args[-1]
                            if m.k == "adt" and m.a[0] == LOG:
                                if m.a[1] == "NewBestState":
                                    ann.append((sid(it, o.st, m.a[2][0]), it.reify(o.st, m.a[2][1]).a[1]))
                            elif m.k == "adt" and m.a[0] == ENTRY:
                                gave += works(it, o.st, cx, Seq([m]))
                            else:
                                bad = f"sends {show(m)[:100]}"
                        elif e.fn == "vp::pop_min":
                            popped.append(e.args[0].a[1])
                        elif e.fn == "vp::push":
                            pushed.append((e.args[0].a[1], e.args[1].a[1]))
                    got = [x for b in bs[:o.st.side.get("vp::at", 0)] for x in b]
                    handed += len(gave)
                    first = {}
                    for x in got:
                        first.setdefault(x[2], x)
                    if bad:
                        pass
                    elif [x for x in ann if x not in [y[:2] for y in got]]:
                        bad = f"announces {ann} (state, cost), which it was not given"
                    elif got and (not ann or min(x[1] for x in ann) != min(x[1] for x in got)):
                        bad = f"announces only {ann} (state, cost) of {got}, which is not the best"
                    elif [x[2] for x in gave] != popped:
                        bad = f"takes {popped} from the queue but hands out {gave}"
                    elif any(x not in got for x in gave):
                        bad = f"hands out {gave}, which are not entries it was given"
                    elif len({x[2] for x in gave}) != len(gave):
                        bad = f"hands out one circuit twice: {gave}"
                    elif len({h for h, _ in pushed}) != len(pushed):
                        bad = f"puts one circuit into the queue twice: {pushed}"
                    elif size == 20 and {h for h, _ in pushed} != set(first):
                        bad = f"puts only {pushed} of {got} into the queue"
                    if bad:
                        break
                cx.check("shared queue", label, bad is None, f"{key}: {bad}")
            cx.guard("shared queue", label, go)
    cx.floor("coverage", "histories of the shared queue", n, 40)
    cx.floor("coverage", "entries handed out", handed, 40)


def provenance(cx):
    """costs and hashes carried by the states of the search"""
    key = cx.key(r"^tket::optimiser::badger::worker::BadgerWorker::<R, S, P>::run_loop$")
    for start, mx, nohash in itertools.product((0, 2, 4), (None, 0, 5, 7, 100), (None, 3)):
        e = fields(cx, ENTRY, None, state=circ(start), cost=I(CIRC_COST[start]), hash=I(100 + start))
        label = f"worker on a circuit of cost {CIRC_COST[start]}, bound {mx}, circuit without hash {nohash}"

        def more(I_, st, ci, a):
            nm = ci.def_.rsplit("::", 1)[-1]
            if "StatePQueueChannels" in ci.full:
                if nm == "recv":
                    return ch.take(st)
                if nm == "max_cost":
                    return opt(mx)
                if nm == "send":
                    I_.log(st, "vp::work", [I_.reify(st, a[1])], UNIT, ci, ci.where, ())
                    return Ok(UNIT)
            if nm == "circuit_hash" and cid(I_, st, a[0]) is not None and cid(I_, st, a[0]) == nohash:
                return Err(T("no hash"))
            return None
        ch = Chan(cx, [e], 3, more)

        def go():
            me = fields(cx, "tket::optimiser::badger::worker::BadgerWorker", None)
            it, outs = cx.run(key, [me], on_call=ch, cparams={}, max_visits=100, loop_decisions=100, sym_visits=100)
            bad = None
            for o in outs:
                if o.kind != "ret":
                    raise Abort(f"{o.kind} {o.st.cutreason}")
                got = sum((works(it, o.st, cx, x.args[0]) for x in o.events if x.fn == "vp::work"), [])
                ok = [(k, CIRC_COST[k], 100 + k) for k in ch.next(start) if k != nohash]
                must = [x for x in ok if mx is None or x[1] < mx]
                if [x for x in got if x not in ok]:
                    bad = f"sends {[x for x in got if x not in ok]} (circuit, cost, hash); correct are {ok}"
                elif [x for x in must if x not in got]:
                    bad = f"drops {[x for x in must if x not in got]}"
                elif len(set(got)) != len(got):
                    bad = f"sends a circuit twice: {got}"
            cx.check("provenance", label, bad is None and outs, f"{key}: {bad}")
        cx.guard("provenance", label, go)
    base = r"^<tket::optimiser::badger::BadgerState<<S as tket::rewrite::strategy::RewriteStrategy>::Cost> as tket::optimiser::State<&tket::optimiser::badger::BadgerOptimiser<R, S>>>::"
    BS = "tket::optimiser::badger::BadgerState"
    opt_ = Adt("tket::optimiser::badger::BadgerOptimiser", "BadgerOptimiser", (T("rewriter"), T("strategy")))
    for start in (0, 2, 4):
        s = fields(cx, BS, None, circ=circ(start), cost=I(CIRC_COST[start]))

        def go():
            key = cx.key(base + "next_states$")
            it, outs = cx.run(key, [s, opt_], on_call=Chan(cx), cparams={}, max_visits=50)
            for o in outs:
                v = it.reify(o.st, o.value)
                if o.kind != "ret" or v.k != "seq":
                    raise Abort(f"{o.kind} {show(v)[:100]}")
                got = [(cid(it, o.st, field(cx, x, "circ")), it.reify(o.st, field(cx, x, "cost")).a[1]) for x in v.a[0]]
                want = [(k, CIRC_COST[k]) for k in Chan(cx).next(start)]
                cx.check("provenance", f"successors of a circuit of cost {CIRC_COST[start]}", sorted(got) == sorted(want), f"{key}: gives {got} (circuit, cost), should give {want}")
            key = cx.key(base + "hash$")
            it, outs = cx.run(key, [s, opt_], on_call=Chan(cx), cparams={})
            cx.check("provenance", f"hash of state {start}", all(it.reify(o.st, o.value) is Some(I(100 + start)) for o in outs) and outs,
                     f"{key}: gives {[show(it.reify(o.st, o.value))[:80] for o in outs]}")
            key = cx.key(base + "cost$")
            it, outs = cx.run(key, [s, opt_], on_call=Chan(cx), cparams={})
            cx.check("provenance", f"cost of state {start}", all(it.reify(o.st, o.value) is Some(I(CIRC_COST[start])) for o in outs) and outs,
                     f"{key}: gives {[show(it.reify(o.st, o.value))[:80] for o in outs]}")
        cx.guard("provenance", f"state {start}", go)


def entry_points(cx):
    """what the three modes start from and what they return"""
    base = r"^tket::optimiser::badger::BadgerOptimiser::<R, S>::"
    me = Adt("tket::optimiser::badger::BadgerOptimiser", "BadgerOptimiser", (T("rewriter"), T("strategy")))
    BS = "tket::optimiser::badger::BadgerState"

    def options(n, split):
        return fields(cx, OPT_, None, timeout=NONE, progress_timeout=NONE, max_circuit_count=NONE,
                      n_threads=I(n), split_circuit=B(split), queue_size=I(20))

    def single():
        key = cx.key(base + r"badger::<impl HugrView<Node = Node>>$")
        seen = []

        def more(I_, st, ci, a):
            if ci.def_.endswith("optimise_with_options"):
                s = I_.reify(st, a[1])
                seen.append((cid(I_, st, field(cx, s, "circ")), field(cx, s, "cost"), I_.content(st, a[2]) if a[2].k == "ref" else a[2]))
                return Some(fields(cx, "tket::optimiser::OptimiserResult", None, best_state=fields(cx, BS, None, circ=circ(4), cost=I(3)), n_best_states=NONE))
            return None
        it, outs = cx.run(key, [me, circ(0), T("logger"), options(1, False)], on_call=Chan(cx, more=more), cparams={})
        ok = len(outs) == 1 and outs[0].kind == "ret" and cid(it, outs[0].st, outs[0].value) == 4 and len(seen) == 1 and seen[0][:2] == (0, I(10))
        cx.check("modes", "single thread", ok, f"{key}: starts from {seen}, returns {[show(it.reify(o.st, o.value))[:100] for o in outs if o.kind == 'ret']}")
    cx.guard("modes", "single thread", single)

    def dispatch():
        key = cx.key(base + r"optimise_with_log::<impl HugrView<Node = Node>>$")
        for n, split in itertools.product((1, 2, 8), (False, True)):
            def more(I_, st, ci, a):
                nm = ci.def_.rsplit("::", 1)[-1]
                if nm in ("badger", "badger_multithreaded", "badger_split_multithreaded") and "BadgerOptimiser" in ci.full:
                    v = T("result", S(nm), I(cid(I_, st, a[1])))
                    return Ok(v) if "split" in nm else v
                return None
            it, outs = cx.run(key, [me, circ(0), T("logger"), options(n, split)], on_call=Chan(cx, more=more), cparams={})
            for o in outs:
                v = it.reify(o.st, o.value) if o.kind == "ret" else T(o.kind)
                cx.check("modes", f"{n} threads, split {split}", is_t(v, "result") and v.a[2] is I(0), f"{key}: returns {show(v)[:150]} instead of an optimised circuit")
    cx.guard("modes", "choice of mode", dispatch)

    def split():
        key = cx.key(base + r"badger_split_multithreaded::<impl HugrView<Node = Node>>$")
        CC, CH = "tket::passes::chunks::CircuitChunks", "tket::passes::chunks::Chunk"
        for n in (1, 2, 3):
            def more(I_, st, ci, a):
                nm = ci.def_.rsplit("::", 1)[-1]
                if nm == "split_with_cost":
                    return fields(cx, CC, None, chunks=Seq([fields(cx, CH, None, circ=circ(10 + j)) for j in range(n)]))
                if nm == "div_cost":
                    return I(4)
                if nm == "par_iter_mut":
                    c, p = place(I_, st, a[0])
                    v = I_.load(st, c, p)
                    if v.k == "adt" and v.a[0] == CC:
                        k = cx.P.adts[CC]["variants"][0]["fields"].index("chunks")
                        kc = cx.P.adts[CH]["variants"][0]["fields"].index("circ")
                        return mk("iter", "seq", tuple(mk("ref", c, p + (("f", k, "chunks", None), ("i", j, False), ("f", kc, "circ", None))) for j in range(n)))
                if "rayon" in ci.full or a and a[0].k == "iter":
                    if nm == "enumerate" and a[0].k == "iter" and a[0].a[0] == "seq":
                        return mk("iter", "seq", tuple(Tup(I(k), x) for k, x in enumerate(a[0].a[1])))
                    if nm == "map" and a[0].k == "iter" and a[0].a[0] == "seq" and "rayon" in ci.full:
                        return models.drain_all(I_, st, mk("iter", "map", a[0], a[1]), lambda s2, items: Ret(mk("iter", "seq", tuple(items))))
                    if nm == "unzip" and a[0].k == "iter" and a[0].a[0] == "seq":
                        xs = [I_.reify(st, x) for x in a[0].a[1]]
                        return Tup(Seq([x.a[0][0] for x in xs]), Seq([x.a[0][1] for x in xs]))
                if nm in ("unbounded", "bounded") and "crossbeam" in ci.full:
                    k = st.side["vp::chans"] = st.side.get("vp::chans", 0) + 1
                    return Tup(Adt("vp::Tx", "Tx", (I(k),)), Adt("vp::Tx", "Tx", (I(k),)))
                v = I_.reify(st, a[0]) if a else None
                if v is not None and v.k == "adt" and v.a[0] == "vp::Tx":
                    q = ("vp::q", v.a[2][0].a[1])
                    if nm == "send":
                        st.side[q] = st.side.get(q, ()) + (I_.reify(st, a[1]),)
                        return Ok(UNIT)
                    if nm == "recv":
                        xs = st.side.get(q, ())
                        if not xs:
                            return Err(T("disconnected"))
                        st.side[q] = xs[1:]
                        return Ok(xs[0])
                if nm == "spawn" and "thread" in ci.full:
                    return Call(a[-1], [], lambda I2, s2, r: Ret(Ok(T("join"))))
                if nm in ("optimise", "optimise_with_log", "badger") and "BadgerOptimiser" in ci.full:
                    c = cid(I_, st, a[1])
                    return circ(c + 10)
                if nm == "reassemble":
                    v = I_.reify(st, a[0])
                    I_.log(st, "vp::reassemble", [field(cx, v, "chunks")], UNIT, ci, ci.where, ())
                    return Ok(circ(7))
                if nm == "take" and ci.def_.startswith("core::mem"):
                    c, p = place(I_, st, a[0])
                    v = I_.load(st, c, p)
                    if cid(I_, st, v) is not None:
                        I_.storev(st, c, p, T("taken"))
                        return v
                return None
            it, outs = cx.run(key, [me, circ(0), T("logger"), options(n, True)], on_call=Chan(cx, more=more), cparams={}, max_visits=100, loop_decisions=100, sym_visits=100)
            for o in outs:
                if o.kind != "ret":
                    raise Abort(f"{o.kind} {o.st.cutreason}")
                v = it.reify(o.st, o.value)
                b = cid(it, o.st, v.a[2][0]) if v.k == "adt" and v.a[1] == "Ok" else None
                got = [[cid(it, o.st, field(cx, x, "circ")) for x in e.args[0].a[0]] for e in o.events if e.fn == "vp::reassemble"]
                cx.check("modes", f"{n} chunks", b == 0 or (b == 7 and got == [[20 + j for j in range(n)]]),
                         f"{key}: reassembles {got} (chunk j optimised is 20+j) and returns {show(v)[:100]}")
    cx.guard("modes", "chunks", split)


GROWS = {"insert", "extend", "reserve", "get_or_insert", "get_or_insert_with", "contains", "len", "iter", "get", "capacity", "is_empty"}


def is_seen(cx, key, pl):
    """does this MIR place end at the set of hashes of a state queue?"""
    ps = pl.get("p", []) if isinstance(pl, dict) else []
    fs = [x for x in ps if isinstance(x, dict) and "n" in x]
    return bool(fs) and fs[-1]["n"] == "seen_hashes" and not [x for x in ps[ps.index(fs[-1]) + 1:] if x != "*"]


def memory(cx):
    """the set of circuits already seen only ever grows"""
    n = 0
    for key in cx.P.find(r"^(<)?tket::optimiser::"):
        f = cx.P.get(key)
        if "::promoted[" in key or not f or "seen_hashes" not in str(cx.P.raw[key][1]):
            continue
        for b in f["blocks"]:
            for st in b["s"]:
                if isinstance(st, list) and len(st) == 3 and isinstance(st[1], dict) and is_seen(cx, key, st[1]):
                    cx.fail("memory", f"{key} assigns the set of seen hashes", f"{key} (line {st[0]}) replaces the set of circuits already seen")
                if not (isinstance(st, list) and len(st) == 3 and isinstance(st[2], list) and st[2] and st[2][0] == "refm" and is_seen(cx, key, st[2][1])):
                    continue
                n += 1
                loc = st[1]
                users = [c["t"] for c in f["blocks"] if c["t"][0] == "call" and any(isinstance(x, dict) and x.get("m", x.get("c")) == loc for x in c["t"][2])]
                names = {(t[1].get("k", {}).get("fn", {}) or {}).get("def", "?").rsplit("::", 1)[-1] for t in users}
                cx.check("memory", f"use of the set of seen hashes in {key.split('::<')[0]} {sorted(names)}", bool(names) and names <= GROWS,
                         f"{key} (line {st[0]}) can shrink the set of circuits already seen: {sorted(names) or 'unknown use'}")
            t = b["t"]
            if t[0] == "call" and isinstance(t[3], dict) and is_seen(cx, key, t[3]):
                cx.fail("memory", f"{key} assigns the set of seen hashes", f"{key} replaces the set of circuits already seen")
    cx.floor("coverage", "places that change the set of seen hashes", n, 1)


def run(cx):
    search(cx)
    cx.guard("memory", "set of seen hashes", memory, cx)
    messages(cx)
    queue_worker(cx)
    provenance(cx)
    entry_points(cx)
