"""C25: every loading function is executed abstractly with the raw readers, the validator and the entry point check as uninterpreted
decisions; on every path that ends in success the loaded program must have passed validation (and, where a circuit is returned, the
check of the entry point it is returned with).  Every function of the crates that calls a raw reader must be reached this way."""
import re
from interp import V, mk, I, B, S, T, Adt, Tup, Seq, Some, NONE, Ok, Err, UNIT, DEFAULT, is_c, is_t, show, Ret, Call, Fork, Incomplete
import models

PKG = "hugr_core::package::Package"
RAW = re.compile(r"hugr_core::(hugr::Hugr|package::Package|envelope)[A-Za-z_:<>]*::(load|load_str|read_\w*envelope\w*)$")
RAWT = re.compile(r"hugr_core::(?:hugr::Hugr|package::Package|envelope)[A-Za-z_:<>]*::(?:load|load_str|read_[a-z_]*envelope[a-z_]*)\b")
EXEMPT = re.compile(r"ecc_rewriter")  # rewriter files are not programs: C26


def hugr(i):
    return T("hugr", I(i))


class Load:
    def __init__(self, cx, modules=1, ops=(), names=()):
        self.cx, self.modules, self.ops, self.names = cx, modules, ops, names
        self.reached = set()
        self.check = cx.key(r"^tket::circuit::check_hugr::<H>$")

    def base(self, I_, st, v):
        """the program a value is (a view of)"""
        v = I_.reify(st, v)
        while v.k == "adt" and len(v.a[2]) == 1 and not (v.a[0] == PKG):
            v = v.a[2][0]
        return v

    def opaque(self, I_, st, ci, args):
        return True

    def __call__(self, I_, st, ci, a):
        d, nm = ci.def_, ci.def_.rsplit("::", 1)[-1]
        if RAW.search(d):
            pk = Adt(PKG, "Package", (Seq(hugr(i) for i in range(self.modules)), T("exts")))
            v = hugr(0) if "hugr::Hugr" in d else Tup(T("desc"), pk) if "described" in nm else pk
            I_.log(st, "vp::load", [v], UNIT, ci, ci.where, ci.raw)
            return Fork([(st, Ret(Ok(v))), (st.clone(), Ret(Err(T("readerror"))))])
        if nm == "validate" and len(a) == 1 and ("hugr" in d):
            v = self.base(I_, st, a[0])
            s2 = st.clone()
            hs = v.a[2][0].a[0] if v.k == "adt" and v.a[0] == PKG else [v]
            st.side["valid"] = st.side.get("valid", ()) + tuple(hs)
            return Fork([(st, Ret(Ok(UNIT))), (s2, Ret(Err(T("invalid"))))])
        if nm == "check_hugr" and "tket::circuit" in d:
            v = self.base(I_, st, a[0])
            s2 = st.clone()
            st.side["checked"] = st.side.get("checked", ()) + ((v, st.side.get("entry", {}).get(v)),)
            return Fork([(st, Ret(Ok(UNIT))), (s2, Ret(Err(T("notcircuit"))))])
        if nm == "set_entrypoint":
            st.side["entry"] = {**st.side.get("entry", {}), self.base(I_, st, a[0]): I_.reify(st, a[1])}
            return UNIT
        if nm == "clone" and len(a) == 1:
            v = I_.reify(st, a[0])
            if is_t(v, "hugr"):
                return v
        if nm in ("module_root", "entrypoint") and len(a) == 1:
            return T(nm, self.base(I_, st, a[0]))
        if nm == "children" and len(a) == 2:
            h = self.base(I_, st, a[0])
            return mk("iter", "seq", tuple(T("child", h, I(j)) for j in range(len(self.names))))
        if nm in ("nodes", "entry_descendants", "descendants") and "hugr" in d:
            h = self.base(I_, st, a[0])
            inside = len(self.ops) - (nm != "nodes")  # the last operation is in a function other than the entry point
            return mk("iter", "seq", tuple(T("node", h, I(j)) for j in range(inside)))
        if nm == "get_optype" and len(a) == 2:
            n = I_.reify(st, a[1])
            if is_t(n, "child"):
                return Adt("hugr_core::ops::OpType", "FuncDefn", (T("defn", n.a[-1]),))
            if is_t(n, "node"):
                return T("op", n.a[-1])
            return T("optype", n)
        if nm == "func_name" and a:
            v = I_.reify(st, a[0])
            if is_t(v, "defn"):
                return S(self.names[v.a[1].a[1]])
        if nm == "as_extension_op" and len(a) == 1:
            v = I_.reify(st, a[0])
            if is_t(v, "op"):
                return NONE if self.ops[v.a[1].a[1]][0] is None else Some(T("extop", v.a[1]))
        if nm in ("extension_id", "unqualified_id") and len(a) == 1:
            v = I_.reify(st, a[0])
            if is_t(v, "extop"):
                return S(self.ops[v.a[1].a[1]][nm == "unqualified_id"])
        if nm in ("eq", "ne") and len(a) == 2:
            l, r = name(I_, st, a[0]), name(I_, st, a[1])
            if l is not None and r is not None:
                return B((l == r) == (nm == "eq"))
        return DEFAULT


def name(I_, st, v):
    """the text of an identifier"""
    v = I_.reify(st, v)
    while v.k == "adt" and len(v.a[2]) == 1 or v.k == "t" and str(v.a[0]).endswith("new_unchecked"):
        v = I_.reify(st, v.a[2][0] if v.k == "adt" else v.a[-1])
    return v.a[1] if is_c(v, "str") else None


def cases(cx, model, key, args):
    it, res = cx.run(key, args, on_call=model, opaque=OPAQUE, loop_decisions=200, max_visits=5000)
    model.reached |= set(it.inlined) if hasattr(it, "inlined") else set()
    return it, res


OPAQUE = None


def held(I_, o, v, out):
    """the programs inside a value"""
    v = I_.reify(o.st, v)
    if is_t(v, "hugr") and len(v.a) == 2 and is_c(v.a[1]):
        out.add(v)
    for x in (v.a[2] if v.k == "adt" else v.a[0] if v.k in ("seq", "tup") else ()):
        held(I_, o, x, out)
    return out


def run(cx):
    public(cx)
    device(cx)
    entry(cx)
    readers(cx)


def public(cx):
    """Circuit::load and friends"""
    n = 0
    for k in cx.P.find(r"^tket::serialize::<impl tket::circuit::Circuit>::load\w*(::<.*>)?$"):
        if k not in set(cx.P.local_keys()) or not template(k):
            continue
        for modules in (1, 2):
            for names in (("f", "main"), ("main",), ("g",)):
                m = Load(cx, modules, names=names)
                cx.guard("coverage", f"{short(k)} {modules} {names}", loader, cx, k, m, f"{short(k)} modules {modules} functions {names}")
        n += 1
    cx.floor("coverage", "loading functions", n, 4)


def template(k):
    m = re.search(r"::<([^<>]*(?:<[^<>]*>)?[^<>]*)>$", k)
    return m is None or "impl " in m.group(1) or re.fullmatch(r"[A-Z]\w*(, [A-Z]\w*)*", m.group(1)) is not None


def short(k):
    return re.sub(r"::<.*>$", "", k).rsplit("::", 1)[-1]


def loader(cx, k, m, lb):
    args = [T("reader"), S("main") if "function" in k else NONE]
    it, res = cx.run(k, args, on_call=m, loop_decisions=200, max_visits=5000)
    oks = [o for o in res if o.kind == "ret" and it.reify(o.st, o.value).k == "adt" and it.reify(o.st, o.value).a[1] == "Ok"]
    und = [o for o in res if o.kind == "cut" or o.kind == "ret" and it.reify(o.st, o.value).k != "adt"]
    cx.check("a loading function either succeeds or fails", lb, not und and len(res) > 1, f"{[(o.kind, str(o.st.cutreason), show(o.value)[:200]) for o in und][:2]}"[:900])
    if not ("function" in k and "main" not in m.names):
        cx.check("a valid program is accepted", lb, len(oks) > 0, "no path succeeds")
    for i, o in enumerate(oks):
        hs = held(it, o, o.value, set())
        valid, checked, ent = o.st.side.get("valid", ()), o.st.side.get("checked", ()), o.st.side.get("entry", {})
        cx.check("an accepted program passed validation", f"{lb} path {i}", len(hs) == 1 and all(h in valid for h in hs),
                 f"returned {[show(h) for h in hs]}, validated {[show(h) for h in valid]}")
        cx.check("the entry point of an accepted circuit was checked", f"{lb} path {i}", len(hs) == 1 and all((h, ent.get(h)) in checked for h in hs),
                 f"returned {[show(h) for h in hs]} with entry points {[(show(x), show(y)) for x, y in ent.items()]}, checked {[(show(x), y and show(y)) for x, y in checked]}"[:900])
        if "function" in k:
            e = [ent.get(h) for h in hs]
            ok = all(x is not None and is_t(x, "child") and m.names[x.a[-1].a[1]] == "main" for x in e)
            cx.check("the function asked for becomes the entry point", f"{lb} path {i}", ok, f"{[x and show(x) for x in e]}")


OPS = [(None, None), ("TKET1", "tk1op"), ("TKET1", "other"), ("other", "tk1op"), ("other", "other")]


def device(cx):
    read = cx.key(r"^selene_hugr_qis_compiler::utils::read_hugr_envelope$")
    tk1 = consts(cx)
    n = 0
    for modules in (0, 1, 2):
        for ops in ([0], [4, 0], [0, 1], [1, 0], [2, 3], [3, 4, 1, 0], []):
            m = Load(cx, modules, ops=[tuple(tk1.get(x, x) if x else None for x in OPS[j]) for j in ops])
            cx.guard("coverage", f"device {modules} {ops}", envelope, cx, read, m, modules, 1 in ops, f"read_hugr_envelope modules {modules} operations {ops}")
            n += 1
    cx.floor("coverage", "packages", n, 20)
    # what the public functions do with it
    n = 0
    for name in ("check_hugr", "compile_to_llvm_ir", "compile_to_bitcode"):
        k = cx.key(r"^selene_hugr_qis_compiler::selene_hugr_qis_compiler::%s$" % name)
        cx.guard("coverage", name, entrypoint, cx, k, name)
        n += 1
    cx.floor("coverage", "public functions of the device compiler", n, 3)


def consts(cx):
    return {"TKET1": "TKET1", "tk1op": "tk1op"}


def envelope(cx, read, m, modules, foreign, lb):
    it, res = cx.run(read, [T("bytes")], on_call=m, loop_decisions=200, max_visits=5000)
    oks = [o for o in res if o.kind == "ret" and it.reify(o.st, o.value).k == "adt" and it.reify(o.st, o.value).a[1] == "Ok"]
    und = [o for o in res if o.kind == "cut" or o.kind == "ret" and it.reify(o.st, o.value).k != "adt"]
    cx.check("a loading function either succeeds or fails", lb, not und and len(res) > 0, f"{[(o.kind, str(o.st.cutreason), show(o.value)[:200]) for o in und][:2]}"[:900])
    cx.check("exactly one module without foreign operations is accepted", lb, bool(oks) == (modules == 1 and not foreign), f"{len(oks)} accepting paths with {modules} modules, untranslated operation: {foreign}")
    for i, o in enumerate(oks):
        hs = held(it, o, o.value, set())
        valid = o.st.side.get("valid", ())
        cx.check("an accepted program passed validation", f"{lb} path {i}", len(hs) == 1 and all(h in valid for h in hs), f"returned {[show(h) for h in hs]}, validated {[show(h) for h in valid]}")


def entrypoint(cx, k, name):
    """only a program that was read (and so validated) is compiled"""
    def model(I_, st, ci, a):
        nm = ci.def_.rsplit("::", 1)[-1]
        if nm == "read_hugr_envelope":
            s2 = st.clone()
            st.side["read"] = True
            return Fork([(st, Ret(Ok(hugr(0)))), (s2, Ret(Err(T("readerror"))))])
        if nm == "compile" and "selene" in ci.def_:
            v = I_.reify(st, a[-1])
            st.side["compiled"] = st.side.get("compiled", ()) + ((v, st.side.get("read", False)),)
            s2 = st.clone()
            return Fork([(st, Ret(Ok(T("llvm")))), (s2, Ret(Err(T("compileerror"))))])
        if nm in ("get_opt_level", "get_native_target_machine", "get_target_machine_from_triple"):
            return Fork([(st, Ret(Ok(T(nm)))), (st.clone(), Ret(Err(T("error"))))])
        return DEFAULT
    it, res = cx.run(k, [T("bytes"), T("opt"), T("triple")][:1 if name == "check_hugr" else 3], on_call=model)
    oks = [o for o in res if o.kind == "ret" and it.reify(o.st, o.value).k == "adt" and it.reify(o.st, o.value).a[1] == "Ok"]
    und = [o for o in res if o.kind == "cut" or o.kind == "ret" and it.reify(o.st, o.value).k != "adt"]
    cx.check("a loading function either succeeds or fails", name, not und and oks and len(res) > len(oks), f"{[(o.kind, str(o.st.cutreason), show(o.value)[:200]) for o in und][:2]} {len(oks)} of {len(res)}"[:900])
    for o in res:
        comp = o.st.side.get("compiled", ())
        ok = o in oks
        cx.check("only a program that was read is compiled", name, all(v == hugr(0) and r for v, r in comp) and (not ok or o.st.side.get("read", False)), f"compiled {[(show(v)[:100], r) for v, r in comp]}")


OT = "hugr_core::ops::OpType"


def entry(cx):
    """the check of the entry point: a dataflow region, functions only without type parameters"""
    key = cx.key(r"^tket::circuit::check_hugr::<H>$")
    kinds = ["Module", "FuncDefn", "FuncDecl", "AliasDecl", "AliasDefn", "Const", "Input", "Output", "Call", "CallIndirect", "LoadConstant", "LoadFunction", "DFG",
             "ExtensionOp", "OpaqueOp", "Tag", "DataflowBlock", "ExitBlock", "TailLoop", "CFG", "Conditional", "Case"]
    for kd in kinds:
        for generic in ((True, False) if kd == "FuncDefn" else (False,)):
            def model(I_, st, ci, a):
                nm = ci.def_.rsplit("::", 1)[-1]
                if nm in ("entrypoint_optype", "get_optype"):
                    return Adt(OT, kd, (T("payload"),))
                if nm == "params":
                    return Seq((T("param"),) if generic else ())
                if nm == "partial_cmp" and "OpTag" in ci.full:
                    return NONE
                return DEFAULT
            it, res = cx.run(key, [T("hugr")], on_call=model)
            vs = {it.reify(o.st, o.value).a[1] for o in res if o.kind == "ret"}
            want = kd in ("DFG", "DataflowBlock", "Case", "TailLoop") or kd == "FuncDefn" and not generic
            cx.check("exactly the dataflow regions without type parameters are circuits", f"{kd} {'generic' if generic else ''}", vs == {"Ok" if want else "Err"} and all(o.kind == "ret" for o in res),
                     f"{kd}{' with type parameters' if generic else ''}: {vs or [(o.kind, str(o.st.cutreason)) for o in res]}"[:400])


def readers(cx):
    """the functions that call a raw reader; each must be one of those examined (or called by one)"""
    loc = set(cx.P.local_keys())
    known = re.compile(r"^tket::serialize::<impl tket::circuit::Circuit>::load\w*|^selene_hugr_qis_compiler::utils::read_hugr_envelope|insert_inline_subgraph")
    n = 0
    for k in sorted(loc):
        if EXEMPT.search(k) or not RAWT.search(cx.P.raw[k][1]):
            continue
        n += 1
        if known.search(k):
            continue
        # a helper: it has to validate itself, or every caller is examined above and reached with the helper inlined
        callers = [c for c in loc if c != k and ('"' + k.replace('"', '\\"') + '"') in cx.P.raw[c][1]]
        cx.check("every reader is examined", k, bool(callers) and all(known.search(c) for c in callers), f"{k} reads a program and is called by {callers[:3]}")
    cx.floor("coverage", "functions that call a raw reader", n, 5)
    k = [k for k in loc if k.endswith("::insert_inline_subgraph")]
    for key in k:
        cx.guard("coverage", "inline subgraph", inline, cx, key)


def inline(cx, key):
    """a subgraph stored inside a pytket circuit is validated before any of it is inserted"""
    def model(I_, st, ci, a):
        d, nm = ci.def_, ci.def_.rsplit("::", 1)[-1]
        if RAW.search(d):
            return Fork([(st, Ret(Ok(hugr(0)))), (st.clone(), Ret(Err(T("readerror"))))])
        if nm == "validate" and len(a) == 1 and "hugr" in d:
            s2 = st.clone()
            st.side["valid"] = True
            return Fork([(st, Ret(Ok(UNIT))), (s2, Ret(Err(T("invalid"))))])
        if nm == "successors":
            return mk("iter", "seq", (T("entry"), T("entryfunction")))
        if nm.startswith("insert_") and any(is_t(I_.reify(st, x), "hugr") for x in a):
            st.side["inserted"] = st.side.get("inserted", ()) + (st.side.get("valid", False),)
            return Fork([(st, Ret(Err(T("stopped"))))])  # what happens afterwards is not of interest
        return DEFAULT
    it, res = cx.run(key, [T("self")] + [T(f"a{i}") for i in range(6)], on_call=model, max_steps=400000, sym_visits=1)
    ins = [x for o in res for x in o.st.side.get("inserted", ())]
    cx.check("a stored subgraph is validated before it is inserted", "insert_inline_subgraph", bool(ins) and all(ins), f"inserted with validation passed: {ins[:5]}, outcomes {[(o.kind, str(o.st.cutreason)[:100]) for o in res][:5]}")
