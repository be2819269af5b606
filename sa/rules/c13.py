"""The extensions held by each loader registry are read off the registry expressions; the operations, types and constants
each code generator registers are read off its abstractly executed registration. Every extension with a code generator
(or that the device pipeline lowers away) must be in the loader registry, every operation and type of such an extension
must be registered, and every extension built by the core library must be in the core registry."""
import re
from interp import *
import exts, ll

QIS = "selene_hugr_qis_compiler::"
# hugr's own code generators -> the extensions they handle
HUGR_GEN = {
    "add_prelude_extensions": ["prelude"], "IntCodegenExtension": ["arithmetic.int", "arithmetic.int.types"],
    "add_default_int_extensions": ["arithmetic.int", "arithmetic.int.types"],
    "add_float_extensions": ["arithmetic.float", "arithmetic.float.types"], "add_conversion_extensions": ["arithmetic.conversions"],
    "add_logic_extensions": ["logic"], "ArrayCodegenExtension": ["collections.array"],
    "add_default_static_array_extensions": ["collections.static_array"], "add_borrow_array_extensions": ["collections.borrow_arr"],
}
HUGR_STATIC = {
    "prelude::PRELUDE": "prelude", "int_types::EXTENSION": "arithmetic.int.types", "int_ops::EXTENSION": "arithmetic.int",
    "float_types::EXTENSION": "arithmetic.float.types", "float_ops::EXTENSION": "arithmetic.float", "conversions::EXTENSION": "arithmetic.conversions",
    "logic::EXTENSION": "logic", "ptr::EXTENSION": "ptr", "list::EXTENSION": "collections.list", "value_array::EXTENSION": "collections.value_array",
    "static_array::EXTENSION": "collections.static_array", "borrow_array::EXTENSION": "collections.borrow_arr", "collections::array::EXTENSION": "collections.array",
}
# extensions whose operations the device pipeline replaces before code generation (C02, C07, C09 decide how)
# known to the loader but, by design, without a code generator: opaque operations are rejected, the others have no runtime
NOT_COMPILED = {"TKET1", "tket.wasm", "collections.list", "collections.value_array", "ptr"}
LOWERED = {"tket.quantum": "lowered to device gates", "tket.bool": "replaced by sums", "tket.guppy": "drops are lowered"}


def registry(cx, key, byname):
    """names of the extensions in a registry expression"""
    it, outs = cx.run(key)
    rs = [it.reify(o.st, o.value) for o in outs if o.kind == "ret"]
    if len(rs) != 1:
        raise Incomplete(f"registry {key}: {len(rs)} values")
    return names(cx, rs[0], byname)


def names(cx, t, byname):
    out, std = set(), False
    for s in subterms(t):
        if is_t(s, "lazy"):
            if s.a[1] in byname:
                out.add(byname[s.a[1]])
            elif "REGISTRY" in s.a[1]:
                o2, s2 = registry(cx, s.a[1], byname)
                out |= o2
                std |= s2
            else:
                raise Incomplete(f"registry element {s.a[1]}")
        elif is_t(s, "static"):
            p = s.a[1]
            if p.endswith("STD_REG"):
                std = True
                continue
            m = [v for k, v in HUGR_STATIC.items() if p.endswith("::" + k) or p == k]
            if len(m) != 1:
                raise Incomplete(f"registry element {p}")
            out.add(m[0])
    return out, std


def run(cx):
    X = exts.Exts(cx)
    byname, defs = {}, {}
    for key, name, ver, clos in X.statics():
        byname[key] = name
        d = cx.guard("extensions", name, X.load, key, name, ver, clos)
        if d:
            defs[name] = (d, key)
    cx.floor("extensions", "extensions defined in the libraries", len(defs), 12)
    # ---- core registry
    core = cx.guard("core registry", "tket::extension::REGISTRY", registry, cx, cx.key(r"^<tket::extension::REGISTRY as .*__static_ref_initialize$"), byname)
    if core:
        cx.check("core registry", "standard extensions", core[1] or {"prelude", "arithmetic.int", "collections.array"} <= core[0], "the standard extensions are missing")
        n = 0
        for name, (d, key) in sorted(defs.items()):
            if key.startswith("<tket::"):
                n += 1
                cx.check("core registry", f"{name} can be loaded", name in core[0],
                         f"extension {name} is defined in the core library ({key.split(' ')[0][1:]}) but its default registry lacks it: programs using it cannot be loaded")
        cx.floor("core registry", "core extensions", n, 8)
    # ---- device compiler
    reg = cx.guard("device registry", QIS + "REGISTRY", registry, cx, cx.key(r"^" + QIS + r"REGISTRY::\{closure#0\}$"), byname)
    it, outs = cx.run(cx.key(r"^" + QIS + "codegen_extensions$"))
    gens, handled = [], {}
    rs = [it.reify(o.st, o.value) for o in outs if o.kind == "ret"]
    if len(rs) != 1:
        return cx.fail("code generators", "codegen_extensions", f"{len(rs)} sets of code generators")
    for s in subterms(rs[0]):
        f = s.a[0].rsplit("::", 1)[-1] if is_t(s) else None
        if f and f.startswith("add_") and f.endswith("_extensions"):
            if not cx.check("code generators", f, f in HUGR_GEN, "unknown set of code generators"):
                continue
            for e in HUGR_GEN[f]:
                handled.setdefault(e, f)
        elif f == "add_extension":
            g = s.a[2]
            n = genname(g)
            if n in HUGR_GEN:
                for e in HUGR_GEN[n]:
                    handled.setdefault(e, n)
            else:
                gens.append(n)
    cx.floor("code generators", "code generators of this repository", len(gens), 7)
    covered, types, consts = {}, {}, set()
    for g in gens:
        r = cx.guard("code generators", g, ll.registered, cx, g)
        if not r:
            continue
        for (s,) in r["op"]:
            adts = [x.split("<")[0] for x in s.a[1].split(" ") if cx.P.find(r"^<" + re.escape(x.split("<")[0]) + r" as .*MakeOpDef>::opdef_id$")]
            if not cx.check("code generators", f"{g}: operation set {s.a[1][:80]}", len(adts) == 1, f"operation set not determined: {s.a[1]}"):
                continue
            own = [(n, o) for n, (d, _) in defs.items() for o, x in d["operations"].items() if x.get("adt") == adts[0]]
            for n, o in own:
                covered.setdefault(n, {})[o] = g
                handled[n] = g
        for e, n in r["named"]:
            e, n = X.sig.string(e), X.sig.string(n)
            covered.setdefault(e, {})[n] = g
            handled[e] = g
            cx.check("code generators", f"{g}: {e}.{n} exists", e in defs and n in defs[e][0]["operations"], f"code is generated for {e}.{n}, which is not defined")
        for (n,) in r["type"]:
            if n.k != "tup":
                raise Incomplete(f"type key {show(n)}")
            e, t = X.sig.string(n.a[0][0]), X.sig.string(n.a[0][1])
            types.setdefault(e, set()).add(t)
            handled.setdefault(e, g)
            cx.check("code generators", f"{g}: type {e}.{t} exists", e in defs and t in defs[e][0]["types"], f"a representation is given for {e}.{t}, which is not defined")
        for (s,) in r["const"]:
            consts |= {x.split("<")[0] for x in s.a[1].split(" ")}
    for e in LOWERED:
        handled.setdefault(e, LOWERED[e])
    if reg:
        for e, g in sorted(handled.items()):
            cx.check("device registry", f"{e} can be loaded", e in reg[0], f"{g} handles operations of {e}, but the loader's registry lacks that extension")
        for e in sorted(reg[0] - NOT_COMPILED):
            cx.check("device registry", f"{e} can be compiled", e in handled, f"the loader accepts {e}, but nothing in the device compiler handles its operations")
    for e in sorted(covered):
        d = defs[e][0]
        for o in sorted(d["operations"]):
            cx.check("operations", f"{e}.{o} has a code generator", o in covered[e], f"no code generator of the device compiler handles {e}.{o}")
        for t in sorted(d["types"]):
            cx.check("types", f"{e}.{t} has a representation", t in types.get(e, ()), f"no code generator gives the type {e}.{t} a representation")
    # ---- constants of these extensions
    n = 0
    for k in cx.P.find(r"^<tket.* as .*CustomConst>::get_type$"):
        adt = re.match(r"<(.*?) as ", k).group(1)
        it, outs = cx.run(k)
        es = set()
        for o in outs:
            if o.kind == "ret":
                v = it.reify(o.st, o.value)
                for s in subterms(v):
                    if is_t(s) and s.a[0].endswith(("CustomType::new", "CustomType::new_simple")):
                        es.add(X.sig.string(s.a[3] if s.a[0].endswith("new") else s.a[2]))
        for e in es:
            if e in covered:
                n += 1
                cx.check("constants", f"{adt} has a code generator", adt in consts, f"constants of {e} cannot be compiled")
    cx.floor("constants", "constants of compiled extensions", n, 1)
    cx.assume("hugr's code generator sets handle the extensions they are named after; operations of " + ", ".join(LOWERED) + " are replaced before code generation (C02, C07, C09)")


def genname(g):
    if is_t(g) and g.a[0] == "zst":
        return g.a[1].split("<")[0].rsplit("::", 1)[-1]
    if g.k == "adt":
        return g.a[0].split("<")[0].rsplit("::", 1)[-1]
    if is_t(g):
        for p in g.a[0].split("::"):
            m = re.match(r"(\w*CodegenExtension|\w*Codegen)", p)
            if m:
                return m.group(1)
    raise Incomplete(f"code generator {show(g)[:200]}")
