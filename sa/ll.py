"""Model of LLVM code emission. A code generator is executed abstractly; every inkwell builder call is an instruction placed at the
builder's current position. The emitted instructions (terms, not LLVM) are then interpreted for given operand values: the result is the
ordered sequence of runtime calls, the memory they see and the values the operation outputs. Nothing is compiled or run."""
import re
import models
from interp import (V, mk, I, B, S, F, T, Adt, Tup, Seq, Some, NONE, Ok, Err, is_c, is_t, UNIT, Ret, Call, Fork, Dead, DEFAULT, Incomplete, show)

NAMED = {"bool_type": "i1", "i8_type": "i8", "i16_type": "i16", "i32_type": "i32", "i64_type": "i64", "i128_type": "i128",
         "f64_type": "double", "f32_type": "float", "void_type": "void"}
CASTS = {"build_bit_cast", "build_pointer_cast", "build_int_z_extend", "build_int_s_extend", "build_int_truncate", "build_int_cast",
         "build_ptr_to_int", "build_int_to_ptr", "build_int_z_extend_or_bit_cast", "build_int_truncate_or_bit_cast", "build_int_cast_sign_flag"}
BITS = {"i1": 1, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "usize": 64, "qubit": 64}


def ty(n):
    return T("ty", S(n))


def X(op, *a):
    return T("x", S(op), Seq(list(a)))


def nxt(st):
    n = st.side.get("lln", 0) + 1
    st.side["lln"] = n
    return n


def type_of(v):
    if is_t(v, "k") or is_t(v, "typed"):
        return v.a[1]
    if is_t(v, "arg"):
        return v.a[2] if len(v.a) > 2 else T("tyof", v)
    if is_t(v, "x"):
        op, a = v.a[1].a[1], v.a[2].a[0]
        if op in CASTS:
            return a[1]
        if op in ("build_load",):
            t = type_of(a[0])
            return t.a[1] if is_t(t, "ptr") else T("tyof", v)
        if op in ("build_int_compare", "build_float_compare"):
            return ty("i1")
        if op.startswith("build_int_") or op in ("build_not", "build_and", "build_or", "build_xor"):
            return type_of(a[0])
        if op == "build_select":
            return type_of(a[1])
        if op == "build_call" and is_t(a[0], "extern") and is_t(a[0].a[2], "fnty"):
            return a[0].a[2].a[1]
    if is_t(v, "tag"):
        return ty("i1")
    return T("tyof", v)


class LL:
    """on_call hook; nxt_hook handles what this one declines"""

    def __init__(self, inner=None, globals_=None):
        self.inner = inner

    def __call__(self, I_, st, ci, a):
        first = self.inner and getattr(self.inner, "first", False)
        if first:
            r = self.inner(I_, st, ci, a)
            if r is not DEFAULT:
                return r
        r = self.call(I_, st, ci, a)
        if r is DEFAULT and self.inner and not first:
            return self.inner(I_, st, ci, a)
        return r

    def ins(self, I_, st, ci, op, args, effect):
        args = [I_.reify(st, x) for x in args]
        t = X(op, *args)
        if effect:
            t = T("x", S(op), Seq(args), I(nxt(st)))
        I_.log(st, "ll::ins", [S(op)] + args, t, ci, ci.where, args)
        return t

    def call(self, I_, st, ci, a):
        d = ci.def_
        nm = d.rsplit("::", 1)[1]
        if d in ("core::convert::Into::into", "core::convert::From::from") or d.endswith("convert::Into<U>>::into"):
            if "inkwell" in "".join(ci.args) + ci.full:
                return a[0]
            return DEFAULT
        if nm in ("eq", "ne") and "PartialEq" in d:
            x, y = [I_.reify(st, I_.content(st, z)) for z in a[:2]]
            if is_t(x, "ty") and is_t(y, "ty"):
                return B((x == y) == (nm == "eq"))
            if is_t(x, "initof") or is_t(y, "initof"):
                g, v = (x.a[1], y) if is_t(x, "initof") else (y.a[1], x)
                s2 = st.clone()
                I_.log(st, "ll::set_initializer", [g, v], UNIT, ci, ci.where, [])
                return Fork([(st, Ret(B(nm == "eq"))), (s2, Ret(B(nm != "eq")))])
        if d == "anyhow::Ok":
            return Ok(I_.reify(st, a[0]))
        if "inkwell" in d or d.startswith("<inkwell"):
            return self.inkwell(I_, st, ci, a, d, nm)
        if d.startswith("hugr_llvm::") or "hugr_llvm::" in d and not d.startswith(("<tket", "tket")):
            return self.hugr(I_, st, ci, a, d, nm)
        if d.endswith("convert::TryFrom::try_from") and "inkwell" in "".join(ci.args):
            return Ok(a[0])
        return DEFAULT

    def items(self, I_, st, v):
        it = I_.items(I_.content(st, v))
        if it is None:
            r = I_.reify(st, v)
            it = r.a[0] if r.k == "seq" else None
        if it is None:
            raise Incomplete(f"operands of an instruction not determined: {show(I_.reify(st, v))[:200]}")
        return [I_.reify(st, x) for x in it]

    # ------------------------------------------------------------ inkwell
    def inkwell(self, I_, st, ci, a, d, nm):
        if "::context::" in d:
            if nm in NAMED:
                return ty(NAMED[nm])
            if nm == "custom_width_int_type":
                w = I_.reify(st, a[1])
                return ty(f"i{w.a[1]}") if is_c(w, "int") else T("ty", S("i?"), w)
            if nm == "struct_type":
                return T("structty", Seq(self.items(I_, st, a[1])))
            if nm == "const_struct":
                return T("k", T("structty", Seq([])), Seq(self.items(I_, st, a[1])))
            if nm == "const_string":
                return T("k", ty("str"), I_.reify(st, a[1]))
            if nm in ("insert_basic_block_after", "append_basic_block", "prepend_basic_block"):
                return T("bb", I(nxt(st)))
            return T("iw:" + nm, *[I_.reify(st, x) for x in a[1:]])
        if "::builder::" in d:
            if nm == "position_at_end":
                b = I_.reify(st, a[1])
                st.side["llpos"] = b
                I_.log(st, "ll::pos", [b], UNIT, ci, ci.where, [b])
                return UNIT
            if nm == "get_insert_block":
                return Some(st.side.get("llpos", T("bb", I(0))))
            if nm == "build_call" or nm == "build_direct_call":
                f = I_.reify(st, a[1])
                t = self.ins(I_, st, ci, "build_call", [f, Seq(self.items(I_, st, a[2]))], True)
                return Ok(t)
            if nm in ("build_in_bounds_gep", "build_gep"):
                return Ok(self.ins(I_, st, ci, "build_gep", [a[1], Seq(self.items(I_, st, a[2]))], False))
            if nm in ("build_alloca", "build_array_alloca", "build_malloc", "build_array_malloc", "build_load"):
                xs = [x for x in a[1:] if not is_c(I_.reify(st, x), "str")]
                t = self.ins(I_, st, ci, nm, xs, True)
                return Ok(t)
            if nm.startswith("build_"):
                xs = [I_.reify(st, x) for x in a[1:]]
                if xs and is_c(xs[-1], "str"):
                    xs = xs[:-1]
                eff = nm in ("build_store", "build_conditional_branch", "build_unconditional_branch", "build_unreachable", "build_return", "build_switch",
                             "build_phi", "build_aggregate_return", "build_memcpy", "build_free")
                return Ok(self.ins(I_, st, ci, nm, xs, eff))
            return DEFAULT
        if "::types::" in d:
            if nm == "fn_type":
                return T("fnty", I_.reify(st, a[0]), Seq(self.items(I_, st, a[1])))
            if nm == "ptr_type":
                return T("ptr", I_.reify(st, a[0]))
            if nm == "array_type":
                return T("arrty", I_.reify(st, a[0]), I_.reify(st, a[1]))
            if nm in ("const_int", "const_float"):
                return T("k", I_.reify(st, a[0]), I_.reify(st, a[1]))
            if nm == "const_zero":
                return T("k", I_.reify(st, a[0]), I(0))
            if nm == "const_all_ones":
                t = I_.reify(st, a[0])
                return T("k", t, I((1 << BITS.get(t.a[1].a[1], 64)) - 1))
            if nm == "const_array":
                return T("k", T("arrty", I_.reify(st, a[0]), I(len(self.items(I_, st, a[1])))), Seq(self.items(I_, st, a[1])))
            if nm == "const_named_struct":
                return T("k", I_.reify(st, a[0]), Seq(self.items(I_, st, a[1])))
            if nm == "get_field_type_at_index":
                t, i = I_.reify(st, a[0]), I_.reify(st, a[1])
                if is_t(t, "structty") and is_c(i, "int") and i.a[1] < len(t.a[1].a[0]):
                    return Some(t.a[1].a[0][i.a[1]])
                return DEFAULT
            if nm == "len" and is_t(I_.reify(st, a[0]), "arrty"):
                return I_.reify(st, a[0]).a[2]
            if nm == "get_element_type" and is_t(I_.reify(st, a[0]), "arrty"):
                return I_.reify(st, a[0]).a[1]
            if nm in ("eq", "ne"):
                x, y = [I_.content(st, z) for z in a[:2]]
                x, y = I_.reify(st, x), I_.reify(st, y)
                if is_t(x, "ty") and is_t(y, "ty"):
                    return B((x == y) == (nm == "eq"))
                return DEFAULT
            if re.match(r"^(as_|into_|clone$|from$)", nm):
                return I_.reify(st, a[0])
        if "::values::" in d:
            if nm == "get_type":
                return type_of(I_.reify(st, a[0]))
            if nm == "try_as_basic_value":
                v = I_.reify(st, a[0])
                if is_t(type_of(v), "ty") and type_of(v) == ty("void"):
                    return Adt("either::Either", "Right", [v])
                return Adt("either::Either", "Left", [v])
            if nm == "get_initializer":
                return Some(T("initof", I_.reify(st, a[0])))
            if nm in ("unwrap_basic",):
                return I_.reify(st, a[0])
            if re.match(r"^(as_|into_|clone$|from$|try_from$)", nm):
                v = I_.reify(st, a[0])
                return Ok(v) if nm == "try_from" else v
            if nm in ("add_attribute", "set_initializer", "set_linkage", "set_constant"):
                I_.log(st, "ll::" + nm, [I_.reify(st, x) for x in a], UNIT, ci, ci.where, a)
                return UNIT
        if "::basic_block::" in d and nm == "get_context":
            return T("iwctx")
        if "::module::" in d:
            if nm == "get_global":
                n = I_.reify(st, a[1])
                if st.side.get("llglobal"):
                    return NONE
                s2 = st.clone()
                s2.side["llglobal"] = 1
                st.side["llglobal"] = 1
                return Fork([(st, Ret(NONE)), (s2, Ret(Some(T("global", I(0), ty("?"), n))))])
            if nm == "add_global":
                t = T("global", I(nxt(st)), I_.reify(st, a[1]), I_.reify(st, a[3]))
                return t
        return DEFAULT

    # ------------------------------------------------------------ hugr-llvm
    def hugr(self, I_, st, ci, a, d, nm):
        if nm == "build_positioned_new_block":
            b = T("bb", I(nxt(st)))
            return self.positioned(I_, st, ci, b, a[3], [a[0], b])
        if nm == "build_positioned":
            return self.positioned(I_, st, ci, I_.reify(st, a[1]), a[2], [a[0]])
        if nm == "new_basic_block":
            return T("bb", I(nxt(st)))
        if nm == "get_extern_func":
            return Ok(T("extern", I_.content(st, a[1]), I_.reify(st, a[2])))
        if nm == "finish" and "RowPromise" in d:
            outs = Seq(self.items(I_, st, a[2]))
            I_.log(st, "ll::finish", [outs], UNIT, ci, ci.where, [outs])
            return Ok(UNIT)
        if nm in ("builder", "typing_session", "iw_context", "get_current_module", "extensions"):
            return T("llctx")
        if nm == "emit_value":
            return Ok(T("hconst", I_.reify(st, a[1])))
        if nm == "build_tag":
            t = T("x", S("sum"), Seq([I_.reify(st, a[2]), Seq(self.items(I_, st, a[3]))]))
            return Ok(t)
        if nm in ("llvm_sum_type", "llvm_type", "llvm_func_type"):
            r = I_.reify(st, a[1])
            return Ok(T("hty", r))
        if nm == "try_new" and "LLVMSumValue" in d:
            return Ok(T("sumval", I_.reify(st, a[0]), I_.reify(st, a[1])))
        if nm == "value" and "LLVMSumType" in d:
            return Ok(T("sumval", I_.reify(st, a[1]), I_.reify(st, a[0])))
        if nm == "build_get_tag":
            v = I_.reify(st, a[0])
            return Ok(T("tag", v.a[1] if is_t(v, "sumval") else v))
        if nm == "build_option":
            some = X("sum", I(1), Seq([I_.reify(st, a[2])]))
            none = X("sum", I(0), Seq([]))
            return Ok(X("build_select", I_.reify(st, a[1]), some, none))
        if nm in ("qubit_type", "usize_type") and "PreludeCodegen" in d:
            return ty({"qubit_type": "qubit", "usize_type": "usize"}[nm])
        if nm == "emit_panic" and "PreludeCodegen" in d:
            self.ins(I_, st, ci, "panic", [a[2]], True)
            return Ok(UNIT)
        if nm == "decompose_array_fat_pointer":
            v = I_.reify(st, a[1])
            return Ok(Tup(X("fatptr", v), X("fatoff", v)))
        if nm == "build_array_fat_pointer":
            return Ok(X("mkfat", I_.reify(st, a[1]), I_.reify(st, a[2])))
        return DEFAULT

    def positioned(self, I_, st, ci, b, f, args):
        cur = st.side.get("llpos", T("bb", I(0)))
        st.side["llpos"] = b
        I_.log(st, "ll::pos", [b], UNIT, ci, ci.where, [b])

        def k(I2, s2, v):
            s2.side["llpos"] = cur
            I2.log(s2, "ll::pos", [cur], UNIT, ci, ci.where, [cur])
            return Ret(v)
        return Call(f, args, k)


# ------------------------------------------------------------ the emitted program
class Prog:
    """blocks of instructions emitted on one path of a code generator"""

    def __init__(self, o):
        self.blocks = {}
        self.globals = {}
        cur = ("bb", 0)
        self.blocks[cur] = []
        for e in o.events:
            if e.fn == "ll::pos":
                cur = ("bb", e.args[0].a[1].a[1])
                self.blocks.setdefault(cur, [])
            elif e.fn == "ll::ins":
                self.blocks[cur].append((e.args[0].a[1], e.args[1:], e.res))
            elif e.fn == "ll::finish":
                self.blocks[cur].append(("finish", e.args[0].a[0], None))
            elif e.fn == "ll::set_initializer":
                self.globals[e.args[0].a[1].a[1]] = e.args[1]
        self.end = cur
        self.externs = {}
        for b in self.blocks.values():
            for op, args, res in b:
                if op == "build_call" and is_t(args[0], "extern") and is_c(args[0].a[1], "str"):
                    self.externs.setdefault(args[0].a[1].a[1], []).append(args[0].a[2])


def string_bytes(v):
    """content of a constant string"""
    if is_t(v, "k") and v.a[2].k == "seq" and all(is_c(x, "int") for x in v.a[2].a[0]):
        return [x.a[1] for x in v.a[2].a[0]]
    if is_t(v, "k") and is_c(v.a[2], "str"):
        return list(v.a[2].a[1].encode())
    return None


class Bad(Exception):
    """the emitted program is wrong regardless of what was required"""


class Poison:
    pass


class Run:
    """execution of an emitted program on operand values. leaf(term) gives the value of operands and constants, ret(name, args, n) of calls"""

    def __init__(self, prog, args, ret=lambda name, args, n: f"{name}#{n}", consts=None):
        self.p, self.args, self.ret, self.consts = prog, args, ret, consts
        self.env = {}
        self.mem = {}
        self.trace = []
        self.out = None
        self.dead = False
        self.n = {}
        for g, v in prog.globals.items():
            b = string_bytes(v)
            if b:
                self.mem[("global", g)] = b[0]
        self.go()

    def go(self):
        b = ("bb", 0)
        seen = set()
        while True:
            if b in seen:
                raise Bad("the emitted code contains a loop")
            seen.add(b)
            nx = None
            term = False
            for op, args, res in self.p.blocks.get(b, []):
                if term:
                    raise Bad("an instruction follows the end of its block")
                if op == "finish":
                    if self.out is not None:
                        raise Bad("outputs are written twice")
                    self.out = [self.val(x) for x in args]
                elif op == "build_call":
                    f = args[0]
                    if not is_t(f, "extern") or not is_c(f.a[1], "str"):
                        raise Incomplete(f"callee not determined: {show(f)[:200]}")
                    nm = f.a[1].a[1]
                    vs = [self.val(x) for x in args[1].a[0]]
                    n = self.n.get(nm, 0)
                    self.n[nm] = n + 1
                    self.trace.append((nm, vs, dict(self.mem)))
                    self.env[res] = self.ret(nm, vs, n)
                elif op == "panic":
                    self.trace.append(("panic!", [self.val(x) for x in args], dict(self.mem)))
                elif op == "build_conditional_branch":
                    c = self.val(args[0])
                    if c not in (0, 1, True, False):
                        raise Incomplete(f"branch condition {c}")
                    nx = args[1] if c else args[2]
                    term = True
                elif op == "build_unconditional_branch":
                    nx = args[0]
                    term = True
                elif op == "build_unreachable":
                    self.dead = True
                    return
                elif op in ("build_alloca", "build_array_alloca"):
                    self.env[res] = ("mem", res.a[3].a[1], ())
                    if op == "build_array_alloca":
                        self.mem[("size", res.a[3].a[1])] = self.val(args[1])
                elif op == "build_store":
                    p, v = self.val(args[0]), self.val(args[1])
                    self.mem[p] = v
                elif op == "build_load":
                    p = self.val(args[0])
                    if p in self.mem:
                        self.env[res] = self.mem[p]
                    else:
                        sub = {k[2][len(p[2]):]: v for k, v in self.mem.items() if isinstance(p, tuple) and p[0] == "mem" and k[0] == "mem" and k[1] == p[1] and k[2][:len(p[2])] == p[2]} if isinstance(p, tuple) and p[0] == "mem" else None
                        self.env[res] = ("struct", tuple(sorted(sub.items()))) if sub else ("load", p)
                elif op in ("build_phi", "build_switch", "build_return", "build_memcpy"):
                    raise Incomplete(f"instruction {op}")
            if nx is None:
                break
            b = ("bb", nx.a[1].a[1])
        if b != self.p.end:
            raise Bad("control does not reach the point where code generation continues")

    def val(self, t):
        if t in self.env:
            return self.env[t]
        if t.k == "c":
            return t.a[1]
        if is_t(t, "arg"):
            return self.args[t.a[1].a[1]]
        if is_t(t, "k"):
            v = t.a[2]
            if v.k == "seq":
                return ("struct",) + tuple(self.val(x) for x in v.a[0])
            if is_c(v, "int") and is_t(t.a[1], "ty"):
                return v.a[1] & ((1 << BITS.get(t.a[1].a[1].a[1], 64)) - 1)
            return self.val(v) if v.k == "c" or is_t(v, "cast") else ("k", show(v))
        if is_t(t, "hconst"):
            s = show(t.a[1])
            for r, w in (("true_val", 1), ("false_val", 0)):
                if s in (r + "()", "Value::" + r + "()"):
                    return ("sum", w, ())
            m = self.consts(t.a[1]) if self.consts else None
            return ("hconst", s) if m is None else m
        if is_t(t, "tag"):
            v = self.val(t.a[1])
            if isinstance(v, tuple) and v[0] == "sum":
                return v[1]
            raise Bad(f"tag of {v}")
        if is_t(t, "bb"):
            return t
        if is_t(t, "global"):
            return ("global", t.a[1].a[1])
        if not is_t(t, "x"):
            if is_t(t, "iw:as_pointer"):
                return self.val(t.a[1])
            return ("sym", show(t))
        op, a = t.a[1].a[1], t.a[2].a[0]
        if op == "sum":
            return ("sum", self.val(a[0]), tuple(self.val(x) for x in a[1].a[0]))
        if op == "build_select":
            c = self.val(a[0])
            if c not in (0, 1, True, False):
                raise Bad(f"select on {c}")
            return self.val(a[1]) if c else self.val(a[2])
        if op in CASTS:
            v = self.val(a[0])
            if op.startswith("build_int_trunc") and isinstance(v, int) and is_t(a[1], "ty"):
                return v & ((1 << BITS.get(a[1].a[1].a[1], 64)) - 1)
            return v
        if op == "build_struct_gep":
            p = self.val(a[0])
            if isinstance(p, tuple) and p[0] == "mem":
                return ("mem", p[1], p[2] + (self.val(a[1]),))
            return ("gep", p, self.val(a[1]))
        if op == "build_gep":
            p = self.val(a[0])
            ix = tuple(self.val(x) for x in a[1].a[0])
            return p if all(i == 0 for i in ix) else ("gep", p) + ix
        if op == "build_extract_value":
            v = self.val(a[0])
            i = self.val(a[1])
            if isinstance(v, tuple) and v[0] == "struct" and i + 1 < len(v) + 0 and not isinstance(v[1], tuple):
                return v[1 + i]
            return ("field", v, i)
        if op in ("fatptr", "fatoff"):
            return (op, self.val(a[0]))
        if op == "mkfat":
            return ("fat", self.val(a[0]), self.val(a[1]))
        if op in ("build_int_compare", "build_float_compare"):
            p = a[0].a[1] if a[0].k == "adt" else show(a[0])
            return self.cmp(p, self.val(a[1]), self.val(a[2]))
        vs = [self.val(x) for x in a]
        if op == "build_not":
            if vs[0] in (0, 1):
                return 1 - int(vs[0])
        elif op in ("build_and", "build_or", "build_xor") and all(isinstance(v, int) for v in vs):
            x, y = int(vs[0]), int(vs[1])
            return {"build_and": x & y, "build_or": x | y, "build_xor": x ^ y}[op]
        elif op in ("build_int_add", "build_int_sub", "build_int_mul") and all(isinstance(v, int) for v in vs):
            x, y = vs
            return {"build_int_add": x + y, "build_int_sub": x - y, "build_int_mul": x * y}[op] & (2**64 - 1)
        elif op in ("build_float_add", "build_float_sub", "build_float_mul", "build_float_div") and all(isinstance(v, (int, float)) for v in vs):
            x, y = vs
            try:
                return {"build_float_add": lambda: x + y, "build_float_sub": lambda: x - y, "build_float_mul": lambda: x * y, "build_float_div": lambda: x / y}[op]()
            except ZeroDivisionError:
                return float("inf")
        elif op == "build_float_neg" and isinstance(vs[0], (int, float)):
            return -vs[0]
        return (op,) + tuple(vs)

    def cmp(self, p, x, y):
        if not all(isinstance(v, (int, float)) for v in (x, y)):
            if p in ("EQ", "NE") and x == y:
                return int(p == "EQ")
            raise Incomplete(f"comparison of {x} and {y}")
        nan = x != x or y != y
        f = {"EQ": x == y, "NE": x != y, "ULT": x < y, "ULE": x <= y, "UGT": x > y, "UGE": x >= y, "SLT": x < y, "SLE": x <= y, "SGT": x > y, "SGE": x >= y,
             "OEQ": not nan and x == y, "ONE": not nan and x != y, "OLT": not nan and x < y, "OLE": not nan and x <= y, "OGT": not nan and x > y,
             "OGE": not nan and x >= y, "UNO": nan, "ORD": not nan, "UEQ": nan or x == y, "UNE": nan or x != y}
        if isinstance(x, float) or isinstance(y, float):
            f.update({"ULT": nan or x < y, "UGT": nan or x > y, "ULE": nan or x <= y, "UGE": nan or x >= y})
        return int(f[p])


def args_of(n, types=None):
    """EmitOpArgs with n inputs"""
    ins = [T("arg", I(i), ty(types[i])) if types and types[i] else T("arg", I(i)) for i in range(n)]
    return mk("with", T("args"), (("inputs", Seq(ins)),))


def emit(cx, key, args, hook=None, **kw):
    """abstract execution of an emitter: list of (interp, outcome, Prog); error results and panics are returned as (it, o, None)"""
    it, outs = cx.run(key, args, on_call=LL(hook), **kw)
    r = []
    for o in outs:
        if o.kind == "ret":
            v = it.reify(o.st, o.value)
            if not (v.k == "adt" and v.a[1] == "Err"):
                r.append((it, o, Prog(o)))
                continue
        r.append((it, o, None))
    return r


# ------------------------------------------------------------ through the registration of a code generator
class Reg:
    """on_call hook for CodegenExtension::add_extension: records what is registered and runs the registered closure asked for.
    want: ("op", operation value, args) | ("named", extension term pattern, operation name pattern, args) | ("const", constant value) | ("type", name pattern, type term)"""

    def __init__(self, want=None, inner=None):
        self.want, self.inner = want, inner

    def __call__(self, I_, st, ci, a):
        d = ci.def_
        if "CodegenExtsBuilder" not in d:
            return self.inner(I_, st, ci, a) if self.inner else DEFAULT
        nm = d.rsplit("::", 1)[1]
        w = self.want
        b = T("exts")

        def done(I2, s2, v):
            v = I2.reify(s2, v)
            I2.log(s2, "ll::ret", [v], v, ci, ci.where, [v])
            return Ret(b)
        if nm == "simple_extension_op":
            t = ci.args
            I_.log(st, "ll::reg_op", [S(" ".join(t))], UNIT, ci, ci.where, [])
            if w and w[0] == "op" and any(x.split("<")[0] == w[1].a[0] for x in t):
                return Call(a[1], [T("llctx"), w[2], w[1]], done)
            return b
        if nm == "extension_op":
            e, n = I_.reify(st, a[1]), I_.reify(st, a[2])
            I_.log(st, "ll::reg_named", [e, n], UNIT, ci, ci.where, [e, n])
            if w and w[0] == "named" and re.search(w[1], show(e)) and re.search(w[2], show(n)):
                return Call(a[3], [T("llctx"), w[3]], done)
            return b
        if nm == "custom_const":
            I_.log(st, "ll::reg_const", [S(" ".join(ci.args))], UNIT, ci, ci.where, [])
            if w and w[0] == "const" and any(x.split("<")[0] == w[1].a[0] for x in ci.args):
                return Call(a[1], [T("llctx"), w[1]], done)
            return b
        if nm == "custom_type":
            n = I_.reify(st, a[1])
            I_.log(st, "ll::reg_type", [n], UNIT, ci, ci.where, [n])
            if w and w[0] == "type" and re.search(w[1], show(n)):
                return Call(a[2], [T("llctx"), w[2]], done)
            return b
        if nm == "add_extension":
            return b
        return DEFAULT


def drive(cx, gen, want, hook=None, self_=None, **kw):
    """run the code generator `gen` (a type name) through its registration; list of (it, outcome, Prog or None, result)"""
    key = cx.key(r"^<[\w:]*" + gen + r"(<.*>)? as hugr_llvm::custom::CodegenExtension>::add_extension::<'_, H>$")
    args = {}
    if self_ is not None:
        args["self"] = self_
    it, outs = cx.run(key, args, on_call=LL(Reg(want, hook)), **kw)
    r = []
    for o in outs:
        ret = [e.args[0] for e in o.events if e.fn == "ll::ret"]
        if o.kind == "ret" and len(ret) == 1 and not (ret[0].k == "adt" and ret[0].a[1] == "Err"):
            v = ret[0]
            r.append((it, o, Prog(o), v.a[2][0] if v.k == "adt" and v.a[1] == "Ok" else v))
        else:
            r.append((it, o, None, ret[0] if ret else None))
    return r


def registered(cx, gen):
    """what a code generator registers: (operation types, named operations, constants, types)"""
    key = cx.key(r"^<[\w:]*" + gen + r"(<.*>)? as hugr_llvm::custom::CodegenExtension>::add_extension::<'_, H>$")
    it, outs = cx.run(key, {}, on_call=LL(Reg(None)))
    res = []
    for o in outs:
        if o.kind == "ret":
            res.append({k: [e.args for e in o.events if e.fn == "ll::reg_" + k] for k in ("op", "named", "const", "type")})
    if len(res) != 1:
        raise Incomplete(f"registration of {gen} has {len(res)} results")
    return res[0]


def failure(o, ret):
    if o.kind != "ret":
        return f"code generation ends with {o.kind}: {show(o.value)[:200] if o.value else o.st.cutreason}"
    return f"code generation returns {show(ret)[:200] if ret else 'nothing: no code generator is registered'}"
