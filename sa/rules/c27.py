"""C27: order taint of randomly seeded hash tables.  In the typed intermediate code every iterator over a std hash table (or
bimap) carries the table's iterator type inside its own type, whatever adapters were put around it; the analysis finds every
call that makes such an iterator and every call that consumes one, and judges the consumer: it must not depend on the order
(quantifiers, counts, sums, extrema; collection into a set or map; an explicit sort before any other use), and loops driven by
such an iterator may only have effects that commute between iterations."""
import re
from interp import T, Tup, ref, show, Incomplete, subterms

PFX = r"(?:std::collections::hash::(?:map|set)|std::collections::hash_(?:map|set)|hashbrown::[a-z_:]+|bimap::hash|rayon::collections::hash_(?:map|set))::"
HIT = re.compile(PFX + r"(?:Iter|IterMut|IntoIter|Keys|Values|ValuesMut|IntoKeys|IntoValues|Drain|ExtractIf|Union|Intersection|Difference|SymmetricDifference|LeftValues|RightValues)\b")
CON = re.compile(r"^(?:&(?:'\w+ )?(?:mut )?)*(std::collections::hash::(map::HashMap|set::HashSet)|bimap::hash::BiHashMap)<")
UNORD = re.compile(r"^(?:alloc::collections::(?:btree::(?:set::BTreeSet|map::BTreeMap)|binary_heap::BinaryHeap)|std::collections::hash::(?:set::HashSet|map::HashMap)|bimap::)")
MAPS = re.compile(r"^(?:alloc::collections::btree::map::BTreeMap|std::collections::hash::map::HashMap|bimap::)")
FREE = {"any", "all", "count", "len", "is_empty", "size_hint", "max", "min", "sum", "product", "is_subset", "is_superset",
        "is_disjoint", "sorted", "sorted_unstable", "contains", "fmt", "drop", "max_set", "all_unique", "all_equal", "counts",
        "is_some", "is_none", "with_capacity"}
COLLECT = {"collect", "from_iter", "collect_vec", "extend", "try_collect", "collect_into", "from_par_iter", "to_vec",
           "collect_into_vec", "par_extend", "into_group_map", "into_group_map_by"}
CARRY = re.compile(r"(::clone::Clone::clone|core::mem::(replace|swap|take|drop)|ops::index::Index|cmp::Partial|cmp::Eq|Default::default"
                   r"|cell::|rwlock::|mutex::|rc::|boxed::|option::|result::|once|Borrow|AsRef|AsMut|ops::deref|convert::(From|Into)|fmt::Debug"
                   r"|collect::IntoIterator::into_iter|IntoParallel|iter::traits::collect::FromIterator)")
COMMUTE = {"insert", "remove", "contains", "contains_key", "get", "get_mut", "find_mut", "reserve", "len", "entry", "or_default",
           "or_insert", "or_insert_with", "take", "size_hint"}
VIEWS = re.compile(r"PatchVerification>::invalidation_set|PatchVerification>::invalidated_nodes")
RAND = re.compile(r"^(rand::|rand_core::|getrandom::|fastrand::)|thread_rng|RandomState(::<.*>)?::new$|BuildHasher::hash_one$|SystemTime::now$|process::id$")


def split(s):
    out, d, cur, prev = [], 0, "", ""
    for ch in s:
        if ch in "<([{":
            d += 1
        elif ch in ")]}" or (ch == ">" and prev != "-"):
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
        prev = ch
    if cur.strip():
        out.append(cur.strip())
    return out


def arg_types(t):
    i = t.find("fn(")
    if i < 0:
        return []
    j, d = i + 3, 1
    while d and j < len(t):
        d += {"(": 1, ")": -1}.get(t[j], 0)
        j += 1
    return split(t[i + 3:j - 1])


def container(t):
    """t is (a reference to) a table with the default, randomly seeded hasher"""
    m = CON.match(t)
    if not m:
        return False
    n = len(split(t[m.end():-1]))
    return n <= (1 if "HashSet" in m.group(1) else 2)


def unwrap(t):
    while True:
        m = re.match(r"^core::(?:result::Result|option::Option)<", t)
        if not m:
            return t
        t = split(t[m.end():-1])[0]


def base(p):
    return p if isinstance(p, int) else p["l"]


def operands(r):
    """operands of an rvalue / call argument list"""
    for x in r:
        if isinstance(x, dict) and ("c" in x or "m" in x):
            yield base(x.get("c", x.get("m")))
        elif isinstance(x, list):
            yield from operands(x)


def reads(st):
    ln, p, r = st
    if r[0] in ("ref", "refm", "discr"):
        yield base(r[1])
    yield from operands(r[1:])
    if not isinstance(p, int):
        yield p["l"]


class Fn:
    def __init__(self, cx, key):
        self.cx, self.key = cx, key
        self.f = cx.P.get(key)
        self.b = self.f["blocks"]
        self.tys = self.f["tys"]
        self.defs = {}
        for i, b in enumerate(self.b):
            for s in b["s"]:
                if isinstance(s[1], int):
                    self.defs.setdefault(s[1], []).append((i, s[2]))
            if b["t"][0] == "call" and isinstance(b["t"][3], int):
                self.defs.setdefault(b["t"][3], []).append((i, b["t"]))

    def succ(self, i):
        t = self.b[i]["t"]
        if t[0] == "goto":
            return [t[1]]
        if t[0] == "switch":
            return [x[1] for x in t[2]] + [t[3]]
        if t[0] == "call":
            return [t[4]] if t[4] is not None else []
        if t[0] == "drop":
            return [t[2]]
        if t[0] == "assert":
            return [t[3]]
        return []

    def reach(self, i, stop=()):
        seen, todo = set(), [i]
        while todo:
            x = todo.pop()
            if x in seen or x in stop or self.b[x]["cl"]:
                continue
            seen.add(x)
            todo += self.succ(x)
        return seen

    def loop(self, i):
        """blocks on a cycle through i"""
        fw = set()
        for s in self.succ(i):
            fw |= self.reach(s)
        if i not in fw:
            return set()
        return {x for x in fw if i in self.reach(x)}

    def root(self, l, n=0):
        return self.place(l, n)[0]

    def place(self, l, n=0, proj=()):
        """the (local, fields) a reference points into, through reborrows, moves and deref calls"""
        d = self.defs.get(l, [])
        if len(d) != 1 or n > 20:
            return l, proj
        r = d[0][1]
        if r[0] in ("ref", "refm"):
            pr = () if isinstance(r[1], int) else tuple(x["f"] for x in r[1]["p"] if isinstance(x, dict) and "f" in x)
            return self.place(base(r[1]), n + 1, pr + proj)
        if r[0] == "use":
            o = list(operands(r[1:]))
            return self.place(o[0], n + 1, proj) if o else (l, proj)
        if r[0] == "call" and "fn" in r[1].get("k", {}) and re.search(r"deref|as_mut|as_ref|borrow|by_ref|as_mut_slice|into_iter$", r[1]["k"]["fn"]["def"]):
            o = list(operands(r[2]))
            return self.place(o[0], n + 1, proj) if o else (l, proj)
        return l, proj

    def live(self):
        if hasattr(self, "_live"):
            return self._live
        use, kill = [], []
        for b in self.b:
            u, k = set(), set()
            for st in b["s"]:
                u |= set(reads(st)) - k
                if isinstance(st[1], int):
                    k.add(st[1])
            t = b["t"]
            if t[0] == "call":
                u |= set(operands([t[1]] + [t[2]])) - k
                if isinstance(t[3], int):
                    k.add(t[3])
                else:
                    u |= {t[3]["l"]} - k
            elif t[0] in ("switch", "assert"):
                u |= set(operands([t[1]])) - k
            elif t[0] == "ret":
                u |= {0} - k
            use.append(u)
            kill.append(k)
        live = [set(u) for u in use]
        again = True
        while again:
            again = False
            for i in range(len(self.b) - 1, -1, -1):
                n = set(use[i])
                for s in self.succ(i):
                    n |= live[s] - kill[i]
                if n != live[i]:
                    live[i] = n
                    again = True
        self._live = live
        return live

    def closure(self, l):
        d = self.defs.get(l, [])
        for _, r in d:
            if r[0] == "clo":
                return r
        return None

    def mutates(self, args):
        """a closure among the arguments captures something by mutable reference"""
        for l in operands(args):
            c = self.closure(l)
            if c:
                for o in operands(c[2]):
                    if self.tys[o].startswith("&mut ") or self.tys[o].startswith("&'_ mut "):
                        return c[1]
        return None


def name_of(c):
    return c["fn"]["def"].rsplit("::", 1)[-1]


def keeps_key(cx, fn, key):
    """the closure maps an entry (key, value) to an entry with the same key, or an item to something that contains all of it"""
    K, V = T("itemkey"), T("itemvalue")
    item = Tup(K, V)
    parts = set()
    try:
        _, outs = cx.run(key, [T("env"), item], max_steps=20000)
    except (Incomplete, Exception):
        return False
    for o in outs:
        if o.kind == "panic":
            continue
        if o.kind != "ret":
            return False
        v = o.value
        while v.k == "adt" and v.a[1] in ("Some", "Ok") and len(v.a[2]) == 1:
            v = v.a[2][0]
        if v.k == "adt" and v.a[1] in ("None", "Err"):
            continue
        if v.k == "tup" and v.a[0]:
            v = v.a[0][0]
        v = strip(v)
        if v.k == "t" and v.a[0] == "." and len(v.a) == 4 and v.a[1] == K:
            parts.add(v.a[2])      # the only field of one variant of the key: still one-to-one
            if any(x["name"] == v.a[2] and len(x["fields"]) != 1 for a in cx.P.adts.values() for x in a["variants"]):
                return False
            continue
        if v != K and v != item:
            return False
    return len(parts) <= 1


def strip(v):
    while v.k == "t" and len(v.a) == 2 and (v.a[0] in ("clone", "deref") or str(v.a[0]).startswith("into")):
        v = v.a[1]
    return v


def chain_closures(fn, args):
    """closures applied by the lazy adapters between the table and this call"""
    out, todo, seen = [], list(operands(args)), set()
    while todo:
        l = todo.pop()
        if l in seen:
            continue
        seen.add(l)
        for _, r in fn.defs.get(l, []):
            if r[0] == "call":
                nm = name_of(r[1]["k"]) if "fn" in r[1].get("k", {}) else ""
                ops = list(operands(r[2]))
                if HIT.search(fn.tys[l]) and nm in ("map", "filter_map", "flat_map", "map_into", "flatten", "zip", "enumerate", "chain",
                                                    "scan", "tuple_windows", "take", "skip", "step_by", "map_while", "take_while", "skip_while", "chunks", "dedup"):
                    c = [fn.closure(o) for o in ops]
                    out.append((nm, [x[1] for x in c if x]))
                todo += ops[:1]
            elif r[0] in ("use", "ref", "refm"):
                todo += [base(r[1])] if r[0] != "use" else list(operands(r[1:]))
    return out


def sorted_before_use(cx, fn, i, dest):
    """the sequence in local `dest` is sorted before anything else looks at it"""
    al = {dest}
    deriv = re.compile(r"(DerefMut::deref_mut|Deref::deref|as_mut_slice|as_slice|BorrowMut::borrow_mut)$")
    again = True
    while again:
        again = False
        for b in fn.b:
            for s in b["s"]:
                if isinstance(s[1], int) and s[1] not in al and s[2][0] in ("use", "ref", "refm", "cast"):
                    o = {base(s[2][1])} if s[2][0] in ("ref", "refm") else set(operands(s[2][1:]))
                    if o & al:
                        al.add(s[1])
                        again = True
            t = b["t"]
            if t[0] == "call" and "fn" in t[1].get("k", {}) and deriv.search(t[1]["k"]["fn"]["def"]) and isinstance(t[3], int):
                if set(operands(t[2])) & al and t[3] not in al:
                    al.add(t[3])
                    again = True
    sorts = set()
    for j, b in enumerate(fn.b):
        t = b["t"]
        if t[0] == "call" and "fn" in t[1].get("k", {}):
            nm = name_of(t[1]["k"])
            ops = list(operands(t[2]))
            if ops and ops[0] in al:
                if nm in ("sort", "sort_unstable", "par_sort", "par_sort_unstable"):
                    sorts.add(j)
                elif nm in ("sort_by_key", "sort_unstable_by_key", "sort_by_cached_key"):
                    c = fn.closure(ops[1]) if len(ops) > 1 else None
                    if c and keeps_key(cx, fn, c[1]):
                        sorts.add(j)
    if not sorts:
        return False
    for s in fn.succ(i):
        for j in fn.reach(s, stop=sorts):
            for st in fn.b[j]["s"]:
                if set(reads(st)) & al and not (isinstance(st[1], int) and st[1] in al):
                    return False
            t = fn.b[j]["t"]
            if t[0] == "call" and set(operands(t[2])) & al and "fn" in t[1].get("k", {}):
                if not deriv.search(t[1]["k"]["fn"]["def"]) and name_of(t[1]["k"]) not in ("len", "is_empty"):
                    return False
            if t[0] == "ret" and 0 in al:
                return False
    return True


def loop_commutes(cx, fn, i, item):
    """None, or why the iterations of the loop around block i do not commute"""
    L = fn.loop(i)
    nxt = fn.b[i]["t"]
    inside = set()      # locals written in the loop
    for j in L:
        for s in fn.b[j]["s"]:
            inside.add(base(s[1]))
        if fn.b[j]["t"][0] == "call":
            inside.add(base(fn.b[j]["t"][3]))
    itp = fn.place(next(operands(nxt[2]), -1))
    it = itp[0]
    # locals whose value at an exit of the loop is looked at afterwards
    live = fn.live()
    exits = {s for j in L for s in fn.succ(j) if s not in L and not fn.b[s]["cl"]}
    carried = {l for x in exits for l in live[x]} & inside
    for l in sorted(carried):
        if l == it or fn.tys[l] == "()":
            continue
        if re.match(r"^core::ops::control_flow::ControlFlow<core::(result::Result<(core::convert::Infallible|!)|option::Option<(core::convert::Infallible|!))", fn.tys[l]):
            continue        # the error that ends the function
        # the option that ends the loop
        if l == base(nxt[3]):
            continue
        ws = [(j, s[2]) for j in L for s in fn.b[j]["s"] if base(s[1]) == l]
        cs = [j for j in L if fn.b[j]["t"][0] == "call" and base(fn.b[j]["t"][3]) == l]
        if cs:
            return f"a value computed in one iteration ({fn.tys[l][:60]}) is used after the loop"
        consts = {str(r) for _, r in ws if r[0] == "use" and "k" in (r[1] if isinstance(r[1], dict) else {})}
        if len(consts) == len({str(r) for _, r in ws}) and len(consts) == 1:
            continue
        ok = True
        for _, r in ws:
            if r[0] == "bin" and r[1].replace("WithOverflow", "") in ("Add", "Mul", "BitOr", "BitAnd", "BitXor") and l in set(operands(r[2:4])):
                continue
            if r[0] == "use":
                src = list(operands(r[1:]))
                if src and all(any(d[1][0] == "bin" and d[1][1].startswith(("Add", "Mul", "Bit")) and l in set(operands(d[1][2:4])) for d in fn.defs.get(o, [])) for o in src):
                    continue
            if r[0] == "adt" and r[2] == "Err":
                continue
            ok = False
        if not ok:
            return f"a value written in the loop ({fn.tys[l][:60]}) is used after it"
    for j in L:
        for s in fn.b[j]["s"]:
            if not isinstance(s[1], int) and s[1]["l"] not in inside and "*" in s[1]["p"]:
                if fn.root(s[1]["l"]) not in inside:
                    return "writes through a reference to something outside the loop"
        t = fn.b[j]["t"]
        if t[0] != "call" or j == i:
            continue
        c = t[1].get("k", {})
        if "fn" not in c:
            return "calls a function value"
        nm = name_of(c)
        at = arg_types(c["t"])
        ops = [list(operands([o])) for o in t[2]]
        for o, ty in zip(ops, at):
            if not o:
                continue
            mut = re.match(r"^&(?:'\w+ )?mut ", ty)
            clo = fn.closure(o[0])
            if clo and any(fn.tys[x].startswith("&mut ") and fn.root(x) not in inside for x in operands(clo[2])):
                return f"passes a closure that changes something outside the loop to {nm}"
            if not mut:
                continue
            rt = fn.root(o[0])
            if rt in inside and fn.place(o[0]) != itp:
                continue
            if fn.place(o[0]) == itp:
                return f"advances the iterator in the loop body ({nm})"
            tgt = re.sub(r"^&(?:'\w+ )?mut ", "", ty)
            if nm in COMMUTE and (UNORD.match(tgt) or "unionfind" in tgt):
                continue
            if nm in ("push", "push_back", "extend", "insert") and re.match(r"^alloc::(vec|collections::vec_deque)", tgt):
                if sorted_before_use(cx, fn, i, rt):
                    continue
            return f"calls {c['fn']['def']} on something outside the loop ({tgt[:70]})"
    return None


def judge(cx, fn, i, where):
    """why the consumer of a hash-ordered iterator at block i depends on the order, or None"""
    t = fn.b[i]["t"]
    c = t[1]["k"]
    nm = name_of(c)
    m = fn.mutates(t[2])
    if nm == "next" or nm == "next_back":
        if fn.loop(i):
            return loop_commutes(cx, fn, i, t[3])
        return "takes whichever element comes first"
    if m:
        return "runs a closure with effects in that order"
    if nm in FREE:
        if nm in ("sum", "product") and re.search(r"\bf(32|64)\b", t[5]):
            return "adds floating-point numbers in that order"
        return None
    if nm in COLLECT:
        at = arg_types(c["t"])
        tgt = unwrap(t[5]) if nm not in ("extend", "par_extend", "collect_into", "collect_into_vec") else re.sub(r"^&(?:'\w+ )?mut ", "", at[0] if nm in ("extend", "par_extend") else at[-1])
        if UNORD.match(tgt) and "RandomState" not in nm:
            if MAPS.match(tgt):
                for ad, cl in chain_closures(fn, t[2]):
                    if ad in ("map", "filter_map") and cl and all(keeps_key(cx, fn, x) for x in cl):
                        continue
                    return f"collects into a map through `{ad}`, which is not seen to keep the keys distinct (the last of two equal keys wins)"
            return None
        if nm in ("into_group_map", "into_group_map_by"):
            return "groups values in that order"
        if nm in ("extend", "par_extend"):
            o = next(operands(t[2]), None)
            if o is not None and sorted_before_use(cx, fn, i, fn.root(o)):
                return None
        elif isinstance(t[3], int) and sorted_before_use(cx, fn, i, t[3]):
            return None
        return f"collects into {tgt[:60]} without sorting"
    if nm in ("sorted_by_key", "sorted_by_cached_key", "sorted_unstable_by_key"):
        ops = list(operands(t[2]))
        cl = fn.closure(ops[1]) if len(ops) > 1 else None
        if cl and keeps_key(cx, fn, cl[1]) and not [a for a in chain_closures(fn, t[2])]:
            return None
        return "sorts by a key that may be equal for different elements"
    return f"passes it to {c['fn']['def']}"


def run(cx):
    P = cx.P
    tables = sources = sinks = views = 0
    seen_rand = 0
    ordinal = {}
    for k in sorted(P.local_keys()):
        if "::promoted[" in k or "::test" in k or "core::fmt::Debug>::fmt" in k:
            continue
        raw = P.raw[k][1]
        rnd = RAND.search(raw) or "hash_one" in raw or "RandomState" in raw and "::new" in raw or "thread_rng" in raw
        if not (HIT.search(raw) or "hash::map::HashMap" in raw or "hash::set::HashSet" in raw or "BiHashMap" in raw or rnd or "rand::" in raw):
            continue
        fn = Fn(cx, k)
        sh = short(k)
        for i, b in enumerate(fn.b):
            if b["cl"]:
                continue
            for s in b["s"]:
                if s[2][0] == "cast" and HIT.search(" ".join(fn.tys[o] for o in operands(s[2][1:]))) and "dyn " in s[2][3]:
                    cx.fail("order does not escape", f"{sh} boxes a hash-ordered iterator", "the order of a hash table escapes through a trait object")
            t = b["t"]
            if t[0] != "call" or "fn" not in t[1].get("k", {}):
                continue
            c = t[1]["k"]
            d = c["fn"]["def"]
            at = arg_types(c["t"])
            if RAND.search(d):
                seen_rand += 1
                cx.fail("no other random source", f"{sh} calls {d}", f"{where(fn, b)}: a randomly seeded value enters library code")
                continue
            tab = [x for x in at if container(x)]
            if tab:
                tables += 1
                local = c["fn"].get("key") in P and d.split("::")[0] in ("tket", "tket_qsystem", "selene_hugr_qis_compiler")
                own = re.match(r"^(<)?(std::collections::hash|bimap)", d)
                nm = name_of(c)
                if nm in ("extend", "par_extend") and container(at[0]) and not any(container(x) for x in at[1:]):
                    own = True
                if not (local or own or CARRY.search(d)):
                    if nm == "extend" and UNORD.match(re.sub(r"^&(?:'\w+ )?mut ", "", at[0])):
                        pass
                    else:
                        cx.fail("order does not escape", f"{sh} passes a hash table to {d}", f"{where(fn, b)}: {d} sees the elements of a randomly seeded hash table in their random order")
                elif local and not d.startswith("<") and c["fn"].get("key") not in P.raw:
                    cx.fail("order does not escape", f"{sh} passes a hash table to {d}", "the instance of the callee is not available for analysis")
                if HIT.search(t[5]) or nm in ("retain", "extract_if", "drain"):
                    sources += 1
                if nm == "retain" and fn.mutates(t[2]):
                    cx.fail("consumers are order-independent", f"{sh} retain", f"{where(fn, b)}: retain runs a closure with effects in the table's random order")
            if any(HIT.search(x) for x in at) and not container_only(at):
                if HIT.search(t[5]) and name_of(c) not in ("next", "next_back", "fold", "try_fold", "find", "last", "nth", "reduce") and not re.match(r"^core::option::Option<", t[5]):
                    m = fn.mutates(t[2])
                    if m:
                        cx.fail("consumers are order-independent", f"{sh} {name_of(c)}", f"{where(fn, b)}: a closure with effects runs in the random order of a hash table")
                    continue
                sinks += 1
                n = ordinal[sh, name_of(c)] = ordinal.get((sh, name_of(c)), 0) + 1
                why = judge(cx, fn, i, b)
                cx.check("consumers are order-independent", f"{sh}: {name_of(c)}" + (f" #{n}" if n > 1 else ""), why is None,
                         f"{where(fn, b)}: the result depends on the random order of a hash table: {why}")
        if HIT.search(fn.tys[0]) and not re.match(r"^core::option::Option<", fn.tys[0]):
            views += 1
            if re.match(r"^<.* as (?!tket)", k) and "{closure" not in k and not VIEWS.search(k):
                cx.fail("order does not escape", f"{sh} returns a hash-ordered iterator", "the order of a hash table is handed to code outside the crates")
        cx.functions.add(k)
    cx.floor("coverage", "calls on randomly seeded tables", tables, 40)
    cx.floor("coverage", "iterations over randomly seeded tables", sources, 4)
    cx.floor("coverage", "consumers of such iterations", sinks, 3)
    cx.check("coverage", "functions returning a hash-ordered iterator", True)
    cx.assume("functions that return an iterator over a hash table (supported extensions and the like) are views without a promised order; their callers inside the crates are judged by the same rule")
    cx.assume("which of several errors is reported, and Debug output, are not results")
    cx.assume("tables with a fixed hasher (fxhash) iterate in an order determined by their history of insertions")


def container_only(at):
    return all(container(x) or not HIT.search(x) for x in at)


def where(fn, b):
    return f"{fn.f['file']}"


def short(k):
    k = re.sub(r"::<.*$", "", k) if not k.startswith("<") else k
    return re.sub(r"[a-z_]+::(?=[a-z_]+::)", "", k)[:110]
