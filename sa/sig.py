"""Types and signatures built by the source, as the JSON structure hugr serialises them to."""
import re
from interp import (V, mk, I, B, S, F, T, Adt, Tup, Seq, Some, NONE, is_c, is_t, UNIT, Interp, Opts, Incomplete, show, subterms)

BOUND = {"Linear": "A", "Copyable": "C", "Eq": "E"}


class Sig:
    def __init__(self, cx):
        self.cx = cx
        self.cache = {}

    # ---- constants
    def lazy(self, key):
        if key not in self.cache:
            it, outs = self.cx.run(key)
            rs = [o for o in outs if o.kind == "ret"]
            if len(rs) != 1:
                raise Incomplete(f"static {key}: {len(rs)} values")
            self.cache[key] = it.reify(rs[0].st, rs[0].value)
        return self.cache[key]

    def const(self, name):
        ks = [k for k in self.cx.P.find(r"(^|^const )" + re.escape(name) + "$")]
        if not ks:
            raise Incomplete(f"constant {name}")
        return self.lazy(ks[0])

    def string(self, t):
        if is_c(t, "str"):
            return t.a[1]
        if is_t(t, "lazy"):
            return self.string(self.lazy(t.a[1]))
        if is_t(t, "const"):
            return self.string(self.const(t.a[1]))
        if is_t(t, "static"):
            return self.string(self.const(t.a[1]))
        if is_t(t, "smol") or (is_t(t) and re.search(r"(new_inline|new_static|new_unchecked|to_owned|clone|SmolStr.*::new)$", t.a[0])):
            return self.string(t.a[1])
        raise Incomplete(f"name not determined: {show(t)[:200]}")

    def nat(self, t):
        if is_c(t, "int"):
            return t.a[1]
        raise Incomplete(f"number not determined: {show(t)[:200]}")

    def fn(self, t):
        return t.a[0].rsplit("::", 1)[-1] if is_t(t) else None

    def un(self, t):
        """strip conversions that do not change the meaning"""
        while True:
            if is_t(t, "lazy"):
                t = self.lazy(t.a[1])
            elif is_t(t, "ok") or is_t(t, "some"):
                t = t.a[1]
            elif is_t(t) and self.fn(t) in ("into", "from", "unwrap", "to_owned", "clone", "new_extension", "instantiate_extension", "as_ref", "new_box") and len(t.a) == 2:
                t = t.a[1]
            elif t.k == "adt" and t.a[1] in ("Ok", "Owned", "Borrowed") and len(t.a[2]) == 1:
                t = t.a[2][0]
            else:
                return t

    # ---- bounds, params, args, types
    def bound(self, t):
        t = self.un(t)
        if t.k == "adt" and t.a[1] in BOUND:
            return BOUND[t.a[1]]
        raise Incomplete(f"type bound not determined: {show(t)[:200]}")

    def param(self, t):
        t = self.un(t)
        if t.k == "adt":
            if t.a[1] in BOUND:
                return {"tp": "Type", "b": BOUND[t.a[1]]}
            if t.a[1] == "StringType":
                return {"tp": "String"}
            if t.a[1] == "ListType":
                return {"tp": "List", "param": self.param(t.a[2][0])}
            if t.a[1] == "RuntimeType":
                return {"tp": "Type", "b": self.bound(t.a[2][0])}
            if t.a[1] == "BoundedNatType":
                return {"tp": "BoundedNat", "bound": None}
        f = self.fn(t)
        if f == "max_nat_type":
            return {"tp": "BoundedNat", "bound": None}
        if f == "bounded_nat_type":
            return {"tp": "BoundedNat", "bound": self.nonzero(t.a[1])}
        if f == "new_list_type":
            return {"tp": "List", "param": self.param(t.a[1])}
        if is_t(t, "const") and t.a[1].endswith("LOG_WIDTH_TYPE_PARAM"):
            return {"tp": "BoundedNat", "bound": 7}
        raise Incomplete(f"type parameter not determined: {show(t)[:300]}")

    def nonzero(self, t):
        for s in subterms(t):
            if is_c(s, "int"):
                return s.a[1]
        raise Incomplete(f"bound not determined: {show(t)[:200]}")

    def arg(self, t):
        t = self.un(t)
        if t.k == "adt":
            if t.a[1] == "Runtime":
                return {"tya": "Type", "ty": self.type(t.a[2][0])}
            if t.a[1] == "BoundedNat":
                return {"tya": "BoundedNat", "n": self.nat(t.a[2][0])}
            if t.a[1] == "String":
                return {"tya": "String", "arg": self.string(t.a[2][0])}
            if t.a[1] == "List":
                return {"tya": "List", "elems": [self.arg(x) for y in t.a[2] for x in self.seq(y)]}
        if is_c(t, "int"):
            return {"tya": "BoundedNat", "n": t.a[1]}
        if is_c(t, "str"):
            return {"tya": "String", "arg": t.a[1]}
        f = self.fn(t)
        if f == "new_var_use":
            p = self.un(t.a[2])
            if "TypeBase" in t.a[0]:
                return {"tya": "Type", "ty": self.type(t)}
            d = self.param(p)
            return {"tya": "Variable", "idx": self.nat(t.a[1]), "cached_decl": d}
        if f == "new_row_var_use":
            return {"tya": "Variable", "idx": self.nat(t.a[1]), "cached_decl": {"tp": "List", "param": {"tp": "Type", "b": self.bound(t.a[2])}}}
        if f in ("new_list", "List"):
            return {"tya": "List", "elems": [self.arg(x) for x in self.seq(t.a[1])]}
        return {"tya": "Type", "ty": self.type(t)}

    def seq(self, t):
        t = self.un(t)
        if t.k == "seq":
            return t.a[0]
        if t.k == "iter" and t.a[0] == "sym" and t.a[2] == 0:
            return self.seq(t.a[1])
        if is_t(t) and self.fn(t) in ("map_into", "collect", "into_iter", "into_owned", "collect_vec", "into_boxed_slice", "to_vec"):
            return self.seq(t.a[1])
        if is_t(t) and self.fn(t) in ("new_row_var_use",):
            return [t]
        if is_t(t) and self.fn(t) in ("new", "from", "into", "default") and len(t.a) == 1:
            return []
        raise Incomplete(f"list not determined: {show(t)[:200]}")

    def type(self, t):
        t = self.un(t)
        f = self.fn(t)
        n = t.a[0] if is_t(t) else ""
        if f == "qb_t":
            return {"t": "Q"}
        if f == "usize_t":
            return {"t": "I"}
        if f == "bool_t":
            return {"t": "Sum", "s": "Unit", "size": 2}
        if f == "new_unary" or f == "new_unit_sum":
            return {"t": "Sum", "s": "Unit", "size": self.nat(t.a[1])}
        if f == "float64_type":
            return op("arithmetic.float.types", "float64", [], "C")
        if f == "int_type":
            return op("arithmetic.int.types", "int", [self.arg(t.a[1])], "C")
        if f in ("string_type", "error_type"):
            return op("prelude", {"string_type": "string", "error_type": "error"}[f], [], "C")
        if f == "option_type":
            return {"t": "Sum", "s": "General", "rows": [[], self.row(t.a[1])]}
        if f == "either_type":
            return {"t": "Sum", "s": "General", "rows": [self.row(t.a[1]), self.row(t.a[2])]}
        if f == "new_sum" or n.endswith("SumType::new"):
            return {"t": "Sum", "s": "General", "rows": [self.row(x) for x in self.seq(t.a[1])]}
        if f == "array_type":
            return op("collections.array", "array", [self.arg(t.a[1]), {"tya": "Type", "ty": self.type(t.a[2])}], self.jbound("A"))
        if f == "array_type_parametric":
            return op("collections.array", "array", [self.arg(t.a[1]), {"tya": "Type", "ty": self.type(t.a[2])}], "A")
        if f in ("borrow_array_type", "borrow_array_type_parametric"):
            return op("collections.borrow_arr", "borrow_array", [self.arg(t.a[1]), {"tya": "Type", "ty": self.type(t.a[2])}], "A")
        if f == "new_function":
            b = self.body(t.a[1])
            return {"t": "G", "input": b["input"], "output": b["output"]}
        if f in ("new_endo", "new") and "FuncTypeBase" in n:
            b = self.body(t)
            return {"t": "G", "input": b["input"], "output": b["output"]}
        if f == "new_var_use":
            return {"t": "V", "i": self.nat(t.a[1]), "b": self.bound(t.a[2])}
        if f == "new_row_var_use":
            return {"t": "R", "i": self.nat(t.a[1]), "b": self.bound(t.a[2])}
        if n.endswith("CustomType::new"):
            return op(self.string(t.a[3]), self.string(t.a[1]), [self.arg(x) for x in self.seq(t.a[2])], self.bound(t.a[4]))
        if n.endswith("CustomType::new_simple"):
            return op(self.string(t.a[2]), self.string(t.a[1]), [], self.bound(t.a[3]))
        raise Incomplete(f"type not determined: {show(t)[:300]}")

    def jbound(self, b):
        return b

    def row(self, t):
        t = self.un(t)
        if t.k == "seq":
            return [self.type(x) for x in t.a[0]]
        if is_t(t) and self.fn(t) in ("new", "default", "type_row") and "TypeRow" in t.a[0] and len(t.a) == 1:
            return []
        if is_t(t) and self.fn(t) == "from_elem":
            return [self.type(t.a[1])] * self.nat(t.a[2])
        if is_t(t) and self.fn(t) in ("into_owned",):
            return self.row(t.a[1])
        if is_t(t) and self.fn(t) == "just_row_var":
            return [{"t": "R", "i": self.nat(t.a[1]), "b": self.bound(t.a[2])}]
        if t.k == "unit" or t == UNIT:
            return []
        return [self.type(t)]

    def body(self, t):
        t = self.un(t)
        f = self.fn(t)
        n = t.a[0] if is_t(t) else ""
        if f == "new_endo":
            r = self.row(t.a[1])
            return {"input": r, "output": r}
        if f == "new" and "FuncTypeBase" in n:
            return {"input": self.row(t.a[1]), "output": self.row(t.a[2])}
        raise Incomplete(f"signature not determined: {show(t)[:300]}")

    def sig(self, t):
        t = self.un(t)
        if is_t(t) and "PolyFuncTypeBase" in t.a[0] and self.fn(t) == "new":
            return {"params": [self.param(x) for x in self.seq(t.a[1])], "body": self.body(t.a[2])}
        return {"params": [], "body": self.body(t)}

    def of(self, adt, op_value):
        """signature of one operation of an enumeration implementing MakeOpDef"""
        key = self.cx.key(r"^<" + re.escape(adt) + r" as .*MakeOpDef>::init_signature$")
        it, outs = self.cx.run(key, {"self": op_value})
        rs = [it.reify(o.st, o.value) for o in outs if o.kind == "ret"]
        if len(rs) != 1:
            raise Incomplete(f"{len(rs)} signatures for {show(op_value)}")
        return self.sig(rs[0])


def op(ext, id, args, bound):
    return {"t": "Opaque", "extension": ext, "id": id, "args": args, "bound": bound}


def kind(t):
    """short name of a type"""
    if t["t"] == "Q":
        return "qubit"
    if t["t"] == "I":
        return "usize"
    if t["t"] == "Sum" and t["s"] == "Unit":
        return "bool" if t["size"] == 2 else f"unit{t['size']}"
    if t["t"] == "Sum":
        return "sum(" + "|".join(",".join(kind(x) for x in r) for r in t["rows"]) + ")"
    if t["t"] == "Opaque":
        a = [kind(x["ty"]) if x["tya"] == "Type" else str(x.get("n", x.get("arg", "var"))) for x in t["args"]]
        return t["id"] if t["extension"].startswith(("arithmetic", "prelude", "collections")) and not a else (f"{t['extension']}." if t["extension"].startswith("tket") else "") + t["id"] + ("(" + ",".join(a) + ")" if a else "")
    return t["t"]
