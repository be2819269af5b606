"""C30: metadata stored by one part of the library is what the other part reads.  The writers are executed abstractly, what they
store under which key is given to the readers, and the values read are compared with the ones written; every other use of metadata
in the compiled program is enumerated with its key."""
import re
from interp import I, B, S, T, Adt, Tup, Seq, Some, NONE, is_c, is_t, show, Ret, Call, DEFAULT, UNIT, mk, mk_fn_key, Ok
import region, enc, pytk, models
from enc import Q, BIT, ANGLE

FLAGS = "tket::modifier::ModifierFlags"
COMB = "tket::modifier::CombinedModifier"
READ, WRITE = ("get_metadata",), ("get_metadata_mut", "set_metadata", "set_child_metadata")
# keys set by the producers of a program, never by the library
GIVEN = {"TKET1.opgroup"}


def run(cx):
    keys(cx)
    cx.guard("modifier flags", "flags", flags, cx)
    cx.guard("flags of a modified function", "modify_fn", modified, cx)
    cx.guard("register names", "decoder and encoder", names, cx)
    cx.guard("parameter names", "decoder", params, cx)
    cx.guard("rewrite traces", "trace", trace, cx)


# ------------------------------------------------------------------ every use
def calls_in(f):
    for b in f["blocks"]:
        t = b["t"]
        if t and t[0] == "call" and isinstance(t[1], dict) and "fn" in t[1].get("k", {}):
            yield t


def local(op):
    v = op.get("m", op.get("c")) if isinstance(op, dict) else op
    return v["l"] if isinstance(v, dict) else v


def strings(P, k, op, seen=()):
    """the constant strings an operand can hold; CALLER for a parameter nothing in the library passes, None for anything unknown"""
    if isinstance(op, dict) and "k" in op:
        return {op["k"].get("str")}
    l = local(op)
    if not isinstance(l, int) or (k, l) in seen:
        return {None} if not isinstance(l, int) else set()
    seen = seen + ((k, l),)
    f = P.get(k)
    if 1 <= l <= f["argc"]:
        d, out = f["def"], set()
        short = d.rsplit("::", 1)[-1]
        for c in sorted(P.raw):
            if short in P.raw[c][1] and c != k:
                for t in calls_in(P.get(c)):
                    if t[1]["k"]["fn"].get("rdef", t[1]["k"]["fn"]["def"]) == d and len(t[2]) >= l:
                        out |= strings(P, c, t[2][l - 1], seen)
        return out or {CALLER}
    out = set()
    for b in f["blocks"]:
        for s in b["s"]:
            if s[1] == l and isinstance(s[2], list):
                r = s[2]
                if r[0] in ("use", "ref", "refm", "cast", "deref"):
                    x = r[1] if isinstance(r[1], (dict, int)) else r[-1]
                    out |= strings(P, k, x if isinstance(x, int) or "k" in x or "m" in x or "c" in x else x["l"], seen)
                else:
                    out.add(None)
        t = b["t"]
        if t and t[0] == "call" and t[3] == l:
            fn = t[1].get("k", {}).get("fn", {}).get("def", "") if isinstance(t[1], dict) else ""
            if fn.rsplit("::", 1)[-1] in ("as_ref", "deref", "borrow", "into", "from", "to_string", "to_owned", "clone", "as_str"):
                out |= strings(P, k, t[2][0], seen)
            else:
                out.add(None)
    return out


CALLER = "(given by the caller)"


def keys(cx):
    P = cx.P
    rd, wr, n = {}, {}, 0
    for k in sorted(P.raw):
        if "metadata" not in P.raw[k][1]:
            continue
        for t in calls_in(P.get(k)):
            d = t[1]["k"]["fn"]["def"]
            nm = d.rsplit("::", 1)[-1]
            if nm not in READ + WRITE or not d.startswith("hugr_core"):
                continue
            n += 1
            a = t[2][1] if d.endswith("Container::set_metadata") else t[2][2]
            for s in strings(P, k, a) or {None}:
                (rd if nm in READ else wr).setdefault(s, set()).add(re.sub(r"::<.*", "", k))
    for s in sorted(set(rd) - {CALLER}, key=str):
        cx.check("keys that are read are written", f"key {s!r} read by {sorted(rd[s])[:2]}", s is not None and (s in wr or s in GIVEN), f"no part of the library stores {s!r}; stored keys: {sorted(map(str, wr))}")
    for s in sorted(wr, key=str):
        cx.check("keys that are written are read", f"key {s!r} written by {sorted(wr[s])[:2]}", s is not None and s in rd, f"no part of the library reads {s!r}; keys read: {sorted(map(str, rd))}")
    cx.floor("metadata uses", "calls", n, 12)
    cx.floor("metadata uses", "keys", len(set(rd) & set(wr)), 6)
    cx.assume("the key TKET1.opgroup is set by the producers of a program; the library reads it only")


# ------------------------------------------------------------------ modifier flags
def number(v):
    """the number a JSON value holds"""
    if (is_t(v, "json") or v.k == "adt" or is_t(v)) and is_c(payload(v), "int"):
        return payload(v).a[1]
    return None


def payload(v):
    l = v.a[2] if v.k == "adt" else v.a[1:] if is_t(v) else ()
    return l[-1] if l else v


def store(meta):
    """on_call: metadata kept in the state, node -> {key: cell}"""
    def f(it, st, ci, a):
        nm = ci.def_.rsplit("::", 1)[-1]
        if not ci.def_.startswith(("hugr_core", "serde_json")) and nm not in ("set_metadata", "get_metadata", "get_metadata_mut"):
            return DEFAULT
        if "ModifierFlags" in ci.def_:
            return DEFAULT
        if nm in ("get_metadata", "get_metadata_mut", "set_metadata") and len(a) >= 3:
            n, k = show(it.reify(st, a[1])), show(it.reify(st, a[2]))
            m = st.side.setdefault("meta", dict(meta))
            if nm == "set_metadata":
                m[n, k] = it.new_cell(st, it.reify(st, a[3]))
                st.side["meta"] = dict(m)
                return UNIT
            if (n, k) not in m:
                if nm == "get_metadata":
                    return NONE
                m[n, k] = it.new_cell(st, T("null"))
                st.side["meta"] = dict(m)
            r = m[n, k]
            return Some(r) if nm == "get_metadata" else r
        if "serde_json" in ci.full and nm in ("from", "into") and a:
            return T("json", it.reify(st, a[0]))
        if "serde_json" in ci.def_ and nm == "as_u64":
            v = number(it.reify(st, a[0]))
            return NONE if v is None else Some(I(v))
        if "serde_json" in ci.def_ and nm == "as_bool":
            v = it.reify(st, a[0])
            return Some(v.a[0]) if is_t(v, "json") and is_c(v.a[0], "bool") else NONE
        return DEFAULT
    return f


ALL = [(bool(i & 1), bool(i & 2), bool(i & 4)) for i in range(8)]


def fl(cx, c, d, p):
    fs = cx.P.adts[FLAGS]["variants"][0]["fields"]
    v = {"control": c, "dagger": d, "power": p}
    return Adt(FLAGS, "ModifierFlags", tuple(B(v[x]) for x in fs))


def rf(cx, v):
    fs = cx.P.adts[FLAGS]["variants"][0]["fields"]
    d = dict(zip(fs, v.a[2]))
    return tuple(bool(d[x].a[1]) for x in ("control", "dagger", "power"))


def comb(cx, c, d, p, n=1):
    fs = cx.P.adts[COMB]["variants"][0]["fields"]
    v = {"control": I(n if c else 0), "accum_ctrl": Seq([I(n)] if c else []), "dagger": B(d), "power": B(p)}
    return Adt(COMB, "CombinedModifier", tuple(v[x] for x in fs))


def one(cx, key, args, **kw):
    it, res = cx.run(key, args, **kw)
    if len(res) != 1 or res[0].kind != "ret":
        raise Exception(f"{key}: {[(o.kind, str(o.st.cutreason)) for o in res]}")
    return it.reify(res[0].st, res[0].value), it, res[0]


def flags(cx):
    P = cx.P
    sets = [k for k in P.find(r"ModifierFlags::set_metadata(::<|$)")]
    gets = [k for k in P.find(r"ModifierFlags::from_metadata(::<[^{]*>)?$")]
    cx.floor("modifier flags", "readers and writers", min(len(sets), len(gets)), 1)
    node = T("func")
    for c, d, p in ALL:
        lb = f"control {c}, dagger {d}, power {p}"
        for ks in sets[:1]:
            def post(it, st, v):
                return Call(mk_fn_key(it, gets[0], gets[0]), [T("hugr"), node], lambda I2, s, w: Ret(I2.reify(s, w)))
            v, it, o = one(cx, ks, [fl(cx, c, d, p), T("hugr"), node], on_call=store({}), post=post)
            ok = v.k == "adt" and v.a[1] == "Some" and rf(cx, v.a[2][0]) == (c, d, p)
            cx.check("flags are read as they were written", lb, ok, f"read back as {show(v)[:200]}")
            cell = next(iter(o.st.side["meta"].items()), None)
            w = it.reify(o.st, cell[1]) if cell else None
            cx.check("flags are stored as published (1 dagger, 2 control, 4 power)", lb, w is not None and number(w) == d * 1 + c * 2 + p * 4, f"stored as {show(w) if w is not None else None}")
        v, _, _ = one(cx, cx.key(r"ModifierFlags::from_combined$"), [comb(cx, c, d, p, 2)])
        cx.check("flags of a modifier", lb, rf(cx, v) == (c, d, p), f"{show(v)[:200]}")
        for c2, d2, p2 in ALL:
            l2 = f"{lb} with control {c2}, dagger {d2}, power {p2}"
            v, _, _ = one(cx, cx.key(r"ModifierFlags::satisfies$"), [fl(cx, c, d, p), comb(cx, c2, d2, p2)])
            cx.check("a function suffices exactly if it has every modifier", l2, is_c(v, "bool") and bool(v.a[1]) == ((c or not c2) and (d or not d2) and (p or not p2)), f"answer {show(v)}")
            v, _, _ = one(cx, cx.key(r"ModifierFlags::or$"), [fl(cx, c, d, p), Some(fl(cx, c2, d2, p2))])
            cx.check("flags are combined", l2, rf(cx, v) == (c or c2, d or d2, p or p2), f"{show(v)[:200]}")
        v, _, _ = one(cx, cx.key(r"ModifierFlags::or$"), [fl(cx, c, d, p), NONE])
        cx.check("flags are combined", lb + " with none", rf(cx, v) == (c, d, p), f"{show(v)[:200]}")
    sample = gets[0]
    for k in gets[1:]:
        cx.check("one reader", k, same(cx, sample, k), "the instances of the reader differ")


def same(cx, a, b):
    f = lambda k: [len(x["s"]) for x in cx.P.get(k)["blocks"]]
    return f(a) == f(b)


def modified(cx):
    key = cx.key(r"ModifierResolver<N>>::modify_fn(::<impl HugrMut<Node = N>>)?$")
    for c, d, p in ALL:
        for old in (None, (False, True, False), (True, False, True), (False, False, True)):
            lb = f"control {c}, dagger {d}, power {p}, function with {old}"
            meta = {}

            def setup(it, st):
                if old is not None:
                    cc, dd, pp = old
                    meta[show(T("func")), show(S("unitary"))] = it.new_cell(st, T("json", I(dd * 1 + cc * 2 + pp * 4)))
            base = store(meta)

            def on(it, st, ci, a):
                nm = ci.def_.rsplit("::", 1)[-1]
                if nm == "modifiers" and "ModifierResolver" in ci.full:
                    return it.new_cell(st, comb(cx, c, d, p))
                return base(it, st, ci, a)
            it, res = cx.run(key, [T("resolver"), T("hugr"), T("func"), T("sig")], setup=setup, on_call=on, opaque=[r"ModifierResolver<N>>::(?!modify_fn)", r"update_call_map"])
            good = [o for o in res if o.kind == "ret" and it.reify(o.st, o.value).k == "adt" and it.reify(o.st, o.value).a[1] == "Ok"]
            cx.floor("flags of a modified function", "successful paths " + lb, len(good), 1)
            oc, od, op = old or (False,) * 3
            for o in good:
                new = show(it.reify(o.st, it.reify(o.st, o.value).a[2][0]))
                m = {k: it.reify(o.st, r) for k, r in o.st.side.get("meta", {}).items() if k[0] != show(T("func"))}
                want = (d or od) * 1 + (c or oc) * 2 + (p or op) * 4
                cx.check("a modified function records its modifiers", lb, {k[0]: number(x) for k, x in m.items()} == {new: want}, f"the new function {new[:80]} carries { {k[0][:80]: show(x) for k, x in m.items()} }")


# ------------------------------------------------------------------ pytket
def names(cx):
    ini = cx.key(r"PytketDecoderContext::<'_>::init_metadata$")
    qs = [enc.elem("q", 1), enc.elem("a", 0), enc.elem("q", 0)]
    bs = [enc.elem("c", 2), enc.elem("b", 0)]
    got = {}

    def on(it, st, ci, a):
        nm = ci.def_.rsplit("::", 1)[-1]
        if nm == "set_metadata":
            cell = st.side.setdefault("w", ())
            st.side["w"] = cell + ((show(it.reify(st, a[-2])), it.reify(st, a[-1]), "container" if "container" not in nm and len(a) == 3 else show(it.reify(st, a[1]))),)
            return UNIT
        if nm == "to_value" and "serde_json" in ci.def_:
            return Ok(it.reify(st, a[0]))
        return DEFAULT
    ser = serial(cx, qs, bs)
    v, it, o = one(cx, ini, [T("dfg"), ser], on_call=on)
    w = o.st.side.get("w", ())
    for k, val, where in w:
        # a register is encoded as its name alone
        got[k.strip("'")] = Seq(x.a[2][0] if x.k == "adt" and x.a[1] in ("Qubit", "Bit") else x for x in val.a[0]) if val.k == "seq" else val
    cx.check("names are stored on the decoded region", "init_metadata", len(w) == len(got) and all(x[2] == "container" for x in w), f"{[x[0::2] for x in w]}")
    # what the encoder makes of it
    import random
    g = region.Gr()
    root = g.add(region.opv("Module"), [], [])
    fn = g.add(region.opv("FuncDefn"), [], [], root)
    g.entry = fn
    ins = [Q, BIT, Q, BIT, Q]
    g.inn = g.add(region.opv("Input"), [], ins, fn)
    g.out = g.add(region.opv("Output"), ins, [], fn)
    for i in range(len(ins)):
        g.link(g.inn, i, g.out, i)
    e, err = enc.encode(cx, enc.Enc(cx, got), g)
    if e is None or e.a[1] != "Ok":
        return cx.fail("register names", "encoding of a decoded region", f"{err or show(e)[:300]}")
    s = e.a[2][0].a[0][0].a[2][0]
    for fld, want in (("qubits", qs), ("bits", bs)):
        have = [enc.reg(x) for x in pytk.field(s, fld).a[0]]
        cx.check("the encoder uses the names the decoder stored", fld, have == [enc.reg(x) for x in want], f"stored {[enc.reg(x) for x in want]}, encoded {have}")
    cx.check("the encoder uses the phase the decoder stored", "phase", "'1/4'" in show(s).split("{")[0], f"{show(s)[:200]}")


def serial(cx, qs, bs):
    names_ = cx.P.adts[enc.SER]["variants"][0]["fields"]
    mkq = lambda k, l: Seq([Adt(f"tket_json_rs::register::{k}", k, (x,)) for x in l])
    val = {"qubits": mkq("Qubit", qs), "bits": mkq("Bit", bs), "phase": S("1/4")}
    return Adt(enc.SER, "SerialCircuit", tuple(val.get(x, T(x)) for x in names_))


def params(cx):
    key = cx.key(r"decoder::wires::WireTracker::finish$")
    adt = "tket::serialize::pytket::decoder::wires::WireTracker"
    fs = cx.P.adts[adt]["variants"][0]["fields"]
    vs = mk("map", "indexmap::set::IndexSet", tuple((S(x), UNIT) for x in ("beta", "alpha", "f0")))
    v, it, o = one(cx, key, [Adt(adt, "WireTracker", tuple(vs if x == "parameter_vars" else T(x) for x in fs))])
    ok = v.k == "map" and [k.a[1] for k, _ in v.a[1]] == ["beta", "alpha", "f0"]
    cx.check("parameter names are recorded in the order of the inputs", "WireTracker::finish", ok, f"{show(v)[:200]}")

    # what is stored on the decoded region
    fin = cx.key(r"PytketDecoderContext::<'_>::finish$")

    def on(it, st, ci, a):
        nm = ci.def_.rsplit("::", 1)[-1]
        if nm == "set_metadata":
            st.side["w"] = st.side.get("w", ()) + ((show(it.reify(st, a[-2])), it.reify(st, a[-1])),)
            return UNIT
        if nm == "to_value" and "serde_json" in ci.def_:
            return Ok(it.reify(st, a[0]))
        if ci.def_ == "tket::serialize::pytket::decoder::wires::WireTracker::finish":
            return vs
        if nm in ("known_pytket_qubits", "known_pytket_bits", "node_inputs", "output_types") or nm == "iter" and "TypeRow" in ci.full:
            return mk("iter", "seq", ())
        return DEFAULT
    it, res = cx.run(fin, [T("ctx"), it_empty(), it_empty()], on_call=on, opaque=[r"WireTracker::", r"add_implicit_qfree_operations"])
    good = [o for o in res if o.kind == "ret"]
    cx.floor("parameter names", "paths", len(good), 1)
    for o in good:
        w = [(k.strip("'"), x) for k, x in o.st.side.get("w", ())]
        ok = len(w) == 1 and w[0][0] in ("TKET1.input_parameters",) and w[0][1].k == "seq" and [x.a[1] for x in w[0][1].a[0]] == ["beta", "alpha", "f0"]
        cx.check("parameter names are stored in the order of the inputs", "PytketDecoderContext::finish", ok, f"{[(k, show(x)[:200]) for k, x in w]}")


def it_empty():
    return Seq([])


def trace(cx):
    to = cx.key(r"From<tket::rewrite::trace::RewriteTrace> for serde_json::value::Value>::from$")
    back = cx.key(r"^<tket::rewrite::trace::RewriteTrace as core::convert::From<&serde_json::value::Value>>::from$")
    base = store({})
    for n in (0, 1, 2, 255, 256, 65535):
        tr = Adt("tket::rewrite::trace::RewriteTrace", "RewriteTrace", (I(n),))

        def post(it, st, v):
            return Call(mk_fn_key(it, back, back), [it.new_cell(st, it.reify(st, v))], lambda I2, s, w: Ret(I2.reify(s, w)))
        v, _, _ = one(cx, to, [tr], on_call=base, post=post)
        cx.check("rewrite traces are read as they were written", f"{n} matches", v == tr, f"read back as {show(v)[:200]}")
