"""Value-flow analysis over MIR.

A trace-partitioned abstract interpreter: values are constants, aggregates of
values, abstract references, closures, or uninterpreted value terms over the
inputs.  Branches on known values are resolved, branches on unknown values
split the trace and remember the branch fact; unknown calls become terms and
are logged as events.  Nothing of the analysed program is executed and no
solver is involved: the result is, per trace, the value flow graph of the
return value, the branch facts and the ordered call events.
"""
import re
import json


class Incomplete(Exception):
    pass


# ------------------------------------------------------------------ values
class V:
    __slots__ = ("k", "a", "__weakref__")

    def __repr__(self):
        return show(self)


_tab = {}


def mk(k, *a):
    key = (k,) + tuple((type(x), x) if isinstance(x, (bool, int, float)) else x for x in a)
    if k == "c" and isinstance(a[1], float):
        key = (k, a[0], repr(a[1]))
    v = _tab.get(key)
    if v is None:
        v = V()
        v.k = k
        v.a = a
        _tab[key] = v
    return v


def I(n):
    return mk("c", "int", n)


def B(b):
    return mk("c", "bool", bool(b))


def S(s):
    return mk("c", "str", s)


def F(x):
    return mk("c", "flt", float(x))


UNIT = mk("tup", ())
UNDEF = mk("undef")


def T(op, *args):
    return mk("t", op, *args)


def Adt(path, var, fields):
    return mk("adt", path, var, tuple(fields))


def Tup(*xs):
    return mk("tup", tuple(xs)) if xs else UNIT


def Seq(xs):
    return mk("seq", tuple(xs))


OPT = "core::option::Option"
RES = "core::result::Result"
CF = "core::ops::control_flow::ControlFlow"


def Some(x):
    return Adt(OPT, "Some", (x,))


NONE = Adt(OPT, "None", ())


def Ok(x):
    return Adt(RES, "Ok", (x,))


def Err(x):
    return Adt(RES, "Err", (x,))


def ref(cell, proj=()):
    return mk("ref", cell, tuple(proj))


def is_c(v, kind=None):
    return v.k == "c" and (kind is None or v.a[0] == kind)


def is_t(v, op=None):
    return v.k == "t" and (op is None or v.a[0] == op)


def short(p):
    """tket::a::b::C -> C, keeps generic text short"""
    if not isinstance(p, str):
        return str(p)
    out, cur = [], ""
    for ch in p:
        if ch.isalnum() or ch in "_:":
            cur += ch
        else:
            out.append(cur.split("::")[-1] if not cur.endswith("::") else cur)
            out.append(ch)
            cur = ""
    out.append(cur.split("::")[-1])
    return "".join(out)


def show(v, d=0):
    if not isinstance(v, V):
        return repr(v) if not isinstance(v, str) else v
    if d > 40:
        return "…"
    k, a = v.k, v.a
    s = lambda x: show(x, d + 1)
    if k == "c":
        return repr(a[1]) if a[0] != "bool" else str(a[1]).lower()
    if k == "adt":
        p = short(a[0])
        n = a[1] if a[1] == p else f"{p}::{a[1]}"
        return n + ("(" + ", ".join(map(s, a[2])) + ")" if a[2] else "")
    if k == "tup":
        return "(" + ", ".join(map(s, a[0])) + ")"
    if k == "seq":
        return "[" + ", ".join(map(s, a[0])) + "]"
    if k == "ref":
        return "&" + str(a[0]) + "".join(str(p) for p in a[1])
    if k == "t":
        op = a[0]
        if op == ".":
            return s(a[1]) + "." + ".".join(str(x) for x in a[2:])
        if op == "ix":
            return s(a[1]) + "[" + s(a[2]) + "]"
        if op == "in":
            return str(a[1])
        if op in ("ok", "some", "err"):
            return s(a[1]) + "?" + ("" if op != "err" else "err")
        if op == "bin":
            return f"({s(a[2])} {a[1]} {s(a[3])})"
        return f"{short(op)}(" + ", ".join(s(x) if isinstance(x, V) else short(x) for x in a[1:]) + ")"
    if k == "with":
        return s(a[0]) + "{" + ", ".join(f"{n}: {s(x)}" for n, x in a[1]) + "}"
    if k == "clo":
        return "<closure " + short(a[0])[-40:] + ">"
    if k == "iter":
        return "iter:" + ",".join(s(x) if isinstance(x, V) else str(x) for x in a)
    return f"<{k} {a}>"


def subterms(v, seen=None):
    """All V reachable inside v (refs not followed)."""
    seen = set() if seen is None else seen
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, V) or x in seen:
            continue
        seen.add(x)
        st.extend(x.a)
    return seen


# ------------------------------------------------------------------ state
class Frame:
    __slots__ = ("id", "fn", "bb", "dest", "target", "visits", "kind", "k", "site")

    def copy(self):
        f = Frame.__new__(Frame)
        for s in Frame.__slots__:
            setattr(f, s, getattr(self, s))
        f.visits = dict(self.visits) if self.visits else {}
        return f


class Event:
    __slots__ = ("fn", "args", "res", "where", "line", "seq", "callee", "raw", "nfacts")

    def __repr__(self):
        return f"{short(self.fn)}(" + ", ".join(show(a) for a in self.args) + ")"


class State:
    __slots__ = ("frames", "store", "facts", "events", "ver", "trail", "cutreason", "side")

    def clone(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.store = dict(self.store)
        s.facts = dict(self.facts)
        s.events = list(self.events)
        s.ver = dict(self.ver)
        s.trail = list(self.trail)
        s.cutreason = self.cutreason
        s.side = dict(self.side)
        return s


class Outcome:
    def __init__(self, kind, value, st):
        self.kind = kind      # ret | panic | cut
        self.value = value
        self.facts = st.facts
        self.trail = st.trail
        self.events = st.events
        self.store = st.store
        self.side = st.side
        self.st = st


# actions returned by models
class Ret:
    def __init__(self, v):
        self.v = v


class Call:
    """call a callable value with args, then continue with k(I, st, v) -> action"""

    def __init__(self, f, args, k=None, spread=False):
        self.f, self.args, self.k = f, args, k


class Fork:
    def __init__(self, alts):
        self.alts = alts  # [(state, action)]


class Dead:
    def __init__(self, kind="panic", v=None):
        self.kind, self.v = kind, v


DEFAULT = object()  # a model declines


class Opts:
    def __init__(self, **kw):
        self.follow_errors = False     # split on Err of unknown Results
        self.max_paths = 4000
        self.max_steps = 2_000_000
        self.sym_iter = 1              # iterations over sequences of unknown length
        self.max_visits = 300
        self.sym_visits = 2
        self.loop_decisions = 12       # iterations of a loop in which symbolic decisions are taken
        self.max_depth = 60
        self.recursion = 3             # nested activations of one function
        self.opaque = ()               # regexes of def paths/keys not to be entered
        self.models = {}               # def path -> model
        self.inline = None             # predicate(key) or None
        self.effectful = ()            # regexes: opaque calls whose result is unique per call
        self.stable = ()               # regexes: opaque calls unaffected by object versions
        self.cparams = {}              # values of constant generic parameters
        self.user_iter = None          # the `next` function of an iterator defined in the program: user_iter(I, st, v) -> key or None
        self.post = None               # continuation applied to the result: post(I, st, v) -> action
        self.on_call = None            # hook(I, st, info) -> action or DEFAULT
        for k, v in kw.items():
            assert hasattr(self, k), k
            setattr(self, k, v)


class CallInfo:
    __slots__ = ("callee", "fn", "full", "args", "raw", "desty", "line", "tys", "where", "def_")


PAT_CACHE = {}


class Interp:
    def __init__(self, prog, opts=None):
        import re
        import models
        self.p = prog
        self.o = opts or Opts()
        self.models = dict(models.TABLE)
        self.prefix_models = list(models.PATTERNS)
        self.models.update(self.o.models)
        self.opaque_re = [re.compile(x) for x in self.o.opaque]
        self.eff_re = [re.compile(x) for x in self.o.effectful]
        self.stable_re = [re.compile(x) for x in self.o.stable]
        self.re = re
        self.callees = {}
        self.pat_cache = PAT_CACHE
        self.nid = 0
        self.entered = set()
        self.opaque_seen = set()
        self.steps = 0

    # ---------------- memory
    def new_cell(self, st, v, tag="h"):
        self.nid += 1
        c = (tag, self.nid)
        st.store[c] = v
        return ref(c)

    def load_cell(self, st, cell):
        v = st.store.get(cell)
        if v is None:
            if cell[0] == "H":
                return cell[1]
            return UNDEF
        return v

    def proj_get(self, v, e):
        k = v.k
        tag = e[0]
        if tag == "f":
            _, idx, name, var = e
            if k in ("adt",):
                fs = v.a[2]
                return fs[idx] if idx < len(fs) else T(".", v, name or str(idx))
            if k == "tup":
                return v.a[0][idx] if idx < len(v.a[0]) else UNDEF
            if k == "clo":
                return v.a[1][idx]
            if k == "ref":
                return v
            if k == "with":
                key = self.fkey(idx, name, var)
                for n, x in v.a[1]:
                    if n == key:
                        return x
                return self.proj_get(v.a[0], e)
            if k == "undef":
                return UNDEF
            if k == "t":
                if var == "Ok" and idx == 0:
                    return T("ok", v)
                if var == "Some" and idx == 0:
                    return T("some", v)
                if var == "Err" and idx == 0:
                    return T("err", v)
            if k == "c" and v.a[0] not in ("str",):
                return v
            if var:
                return T(".", v, var, name or str(idx))
            return T(".", v, name or str(idx))
        if tag == "i":
            n = e[1]
            items = self.items(v)
            if items is not None:
                if e[2]:
                    n = len(items) - n
                if 0 <= n < len(items):
                    return items[n]
                return T("oob", v, I(n))
            if k == "with":
                for nn, x in v.a[1]:
                    if nn == ("i", n, e[2]):
                        return x
                return self.proj_get(v.a[0], e)
            if e[2]:
                return T("ix_end", v, I(n))
            return T("ix", v, I(n))
        if tag == "ss":
            items = self.items(v)
            if items is not None:
                to = len(items) - e[2] if e[3] else e[2]
                return Seq(items[e[1]:to])
            return T("slice", v, I(e[1]), I(e[2]), B(e[3]))
        if tag == "ix":
            items = self.items(v)
            if items is not None and is_c(e[1], "int"):
                n = e[1].a[1]
                if 0 <= n < len(items):
                    return items[n]
            return T("ix", v, e[1])
        raise Incomplete(f"proj {e}")

    @staticmethod
    def fkey(idx, name, var):
        return (name or str(idx)) if not var else f"{var}.{name or idx}"

    def items(self, v):
        if v.k == "seq":
            return v.a[0]
        return None

    def proj_set(self, v, proj, i, val):
        if i == len(proj):
            return val
        e = proj[i]
        k = v.k
        tag = e[0]
        if tag == "f":
            _, idx, name, var = e
            if k == "adt" and idx < len(v.a[2]):
                fs = list(v.a[2])
                fs[idx] = self.proj_set(fs[idx], proj, i + 1, val)
                return Adt(v.a[0], v.a[1], fs)
            if k == "tup" and idx < len(v.a[0]):
                fs = list(v.a[0])
                fs[idx] = self.proj_set(fs[idx], proj, i + 1, val)
                return mk("tup", tuple(fs))
            if k == "clo":
                fs = list(v.a[1])
                fs[idx] = self.proj_set(fs[idx], proj, i + 1, val)
                return mk("clo", v.a[0], tuple(fs))
            key = self.fkey(idx, name, var)
            old = self.proj_get(v, e)
            nv = self.proj_set(old, proj, i + 1, val)
            return self.with_(v, key, nv)
        if tag in ("i", "ix"):
            items = self.items(v)
            n = None
            if tag == "i":
                n = e[1]
                if items is not None and e[2]:
                    n = len(items) - n
            elif is_c(e[1], "int"):
                n = e[1].a[1]
            if items is not None and n is not None and 0 <= n < len(items):
                xs = list(items)
                xs[n] = self.proj_set(xs[n], proj, i + 1, val)
                return Seq(xs)
            old = self.proj_get(v, e)
            nv = self.proj_set(old, proj, i + 1, val)
            return T("upd", v, e[1] if isinstance(e[1], V) else I(e[1]), nv)
        raise Incomplete(f"set proj {e}")

    @staticmethod
    def with_(v, key, nv):
        if v.k == "with":
            d = [(n, x) for n, x in v.a[1] if n != key]
            d.append((key, nv))
            d.sort(key=lambda x: str(x[0]))
            return mk("with", v.a[0], tuple(d))
        return mk("with", v, ((key, nv),))

    def load(self, st, cell, proj=()):
        v = self.load_cell(st, cell)
        for e in proj:
            v = self.proj_get(v, e)
        return v

    def storev(self, st, cell, proj, val):
        if not proj:
            st.store[cell] = val
        else:
            st.store[cell] = self.proj_set(self.load_cell(st, cell), proj, 0, val)

    def deref(self, v):
        """(cell, proj) denoted by a pointer value"""
        if v.k == "ref":
            return v.a[0], v.a[1]
        return ("H", v), ()

    def content(self, st, v):
        """strip references"""
        n = 0
        while v.k == "ref" and n < 50:
            v = self.load(st, v.a[0], v.a[1])
            n += 1
        if v.k in ("t",):
            h = st.store.get(("H", v))
            if h is not None and h is not v:
                return self.content(st, h)
        return v

    def reify(self, st, v, depth=0):
        """replace references by what they refer to, recursively"""
        if depth > 30:
            return v
        if v.k == "ref":
            return self.reify(st, self.load(st, v.a[0], v.a[1]), depth + 1)
        if v.k == "t":
            h = st.store.get(("H", v))
            if h is not None and h is not v and depth < 20:
                return self.reify(st, h, depth + 1)
            return v
        if v.k == "adt":
            if not v.a[2]:
                return v
            return Adt(v.a[0], v.a[1], [self.reify(st, x, depth + 1) for x in v.a[2]])
        if v.k == "tup":
            return mk("tup", tuple(self.reify(st, x, depth + 1) for x in v.a[0]))
        if v.k == "seq":
            return Seq([self.reify(st, x, depth + 1) for x in v.a[0]])
        if v.k == "with":
            return mk("with", self.reify(st, v.a[0], depth + 1),
                      tuple((n, self.reify(st, x, depth + 1)) for n, x in v.a[1]))
        if v.k == "clo":
            return mk("clo", v.a[0], tuple(self.reify(st, x, depth + 1) for x in v.a[1]))
        if v.k == "map":
            return mk("map", v.a[0], tuple((self.reify(st, x, depth + 1), self.reify(st, y, depth + 1))
                                           for x, y in v.a[1]))
        if v.k == "iter":
            return mk("iter", *[self.reify(st, x, depth + 1) if isinstance(x, V) else
                                (tuple(self.reify(st, y, depth + 1) if isinstance(y, V) else y for y in x)
                                 if isinstance(x, tuple) else x) for x in v.a])
        return v

    # ---------------- places and operands
    def place(self, st, fr, p):
        """-> (cell, proj)"""
        if isinstance(p, int):
            return ("L", fr.id, p), ()
        cell, proj = ("L", fr.id, p["l"]), []
        var = None
        for e in p["p"]:
            if e == "*":
                v = self.load(st, cell, proj)
                cell, pr = self.deref(v)
                proj = list(pr)
                var = None
            elif e == "?":
                raise Incomplete("projection")
            elif "f" in e:
                proj.append(("f", e["f"], e["n"], var))
                var = None
            elif "dc" in e:
                var = e["n"]
            elif "ci" in e:
                proj.append(("i", e["ci"], e["e"]))
            elif "ix" in e:
                iv = self.load_cell(st, ("L", fr.id, e["ix"]))
                if is_c(iv, "int"):
                    proj.append(("i", iv.a[1], False))
                else:
                    proj.append(("ix", iv))
            elif "ss" in e:
                proj.append(("ss", e["ss"][0], e["ss"][1], e["e"]))
            else:
                raise Incomplete(f"place elem {e}")
        return cell, tuple(proj)

    def read_place(self, st, fr, p):
        c, pr = self.place(st, fr, p)
        return self.load(st, c, pr)

    def operand(self, st, fr, o):
        if "c" in o:
            return self.read_place(st, fr, o["c"])
        if "m" in o:
            return self.read_place(st, fr, o["m"])
        if "k" in o:
            return self.konst(st, o["k"])
        return UNDEF

    def konst(self, st, k):
        if "fn" in k:
            return self.fnval(k["fn"])
        if "prom" in k:
            return self.eval_prom(st, k["prom"], k)
        if "int" in k:
            if k["t"] == "bool":
                return B(k["int"])
            if k["t"] == "char":
                return mk("c", "char", chr(k["int"]))
            return I(k["int"])
        if "flt" in k:
            return F(k["flt"].replace("NaN", "nan"))
        if "str" in k:
            return S(k["str"])
        if "bytes" in k:
            return mk("c", "bytes", bytes(k["bytes"]))
        if "static" in k:
            if re.match(r"^&(&('\S+ )?str|.*SmolStr)$", k.get("t", "")) and "const " + k["static"] in self.p:
                c = ("static", k["static"])
                if c not in st.store:
                    st.store[c] = self.eval_const(st, "const " + k["static"], {"name": k["static"]})
                return ref(c, ())
            return T("static", k["static"])
        if "name" in k:
            ck = "const " + k["name"]
            if ck in self.p:
                return self.eval_const(st, ck, k)
            if k["name"].endswith("Direction::BOTH") and "Direction; 2]" in k.get("t", ""):
                return Seq(Adt("portgraph::Direction", d, ()) for d in ("Incoming", "Outgoing"))
            return T("const", k["name"])
        if "cparam" in k:
            if k["cparam"] in self.o.cparams:
                return I(self.o.cparams[k["cparam"]])
            return T("cparam", k["cparam"])
        if "zst" in k:
            t = k["t"]
            if t == "()":
                return UNIT
            return T("zst", t)
        return T("konst", json.dumps(k, sort_keys=True))

    def eval_const(self, st, ck, k):
        if any(f.kind == "mir" and f.fn["key"] == ck for f in st.frames):
            return T("const", ck)
        f = self.p.get(ck)
        outs = self.sub_run(f, [], st)
        if len(outs) == 1 and outs[0].kind == "ret":
            st.store.update({c: v for c, v in outs[0].store.items() if c not in st.store})
            return outs[0].value
        return T("const", k["name"])

    def eval_prom(self, st, key, k):
        f = self.p.get(key)
        if f is None:
            return T("prom", key)
        outs = self.sub_run(f, [], st)
        if len(outs) == 1 and outs[0].kind == "ret":
            st.store.update({c: v for c, v in outs[0].store.items() if c not in st.store})
            return outs[0].value
        return T("prom", key)

    def sub_run(self, f, args, st):
        s = State()
        s.frames, s.store, s.facts, s.events, s.ver, s.trail = [], {}, {}, [], {}, []
        s.cutreason = None
        s.side = {"vp::posted": True}
        s.frames.append(self.mir_frame(s, f, args))
        return self.loop(s)

    def fnval(self, c):
        key = c.get("key") or c["full"]
        ident = json.dumps(c, sort_keys=True)
        v = mk("fn", key, ident)
        self.callees.setdefault(v, c)
        return v

    # ---------------- rvalues
    def rvalue(self, st, fr, r):
        op = r[0]
        if op == "use":
            return self.operand(st, fr, r[1])
        if op in ("ref", "refm"):
            c, pr = self.place(st, fr, r[1])
            if c[0] == "H" and not pr and c not in st.store:
                return c[1]
            return ref(c, pr)
        if op == "adt":
            fs = [self.operand(st, fr, x) for x in r[3]]
            if r[1] == "alloc::borrow::Cow" and len(fs) == 1:
                # a copy-on-write value is represented by its content
                return self.content(st, fs[0])
            return Adt(r[1], r[2], fs)
        if op == "tup":
            return mk("tup", tuple(self.operand(st, fr, x) for x in r[1]))
        if op == "arr":
            return Seq([self.operand(st, fr, x) for x in r[1]])
        if op == "clo":
            return mk("clo", r[1], tuple(self.operand(st, fr, x) for x in r[2]))
        if op == "discr":
            v = self.read_place(st, fr, r[1])
            return self.discr(st, v, r[2])
        if op == "cast":
            v = self.operand(st, fr, r[2])
            if v.k == "t" and r[1] in ("IntToInt", "IntToFloat", "FloatToInt", "FloatToFloat"):
                if r[1] == "IntToInt" and not r[3].startswith("f"):
                    return v
                return T("cast", r[3], v)
            if v.k == "c":
                if r[1] == "IntToInt":
                    return self.int_cast(v, r[3])
                if r[1] == "IntToFloat":
                    return F(v.a[1])
                if r[1] == "FloatToInt":
                    return I(int(v.a[1]))
            return v
        if op == "bin":
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            return self.binop(st, r[1], a, b)
        if op == "un":
            a = self.operand(st, fr, r[2])
            return self.unop(st, r[1], a)
        if op == "rep":
            v = self.operand(st, fr, r[1])
            if isinstance(r[2], int) and r[2] <= 64:
                return Seq([v] * r[2])
            n = self.o.cparams.get(r[2]) if isinstance(r[2], str) else r[2]
            if n is not None and self.o.cparams:
                return Seq([v] * n)
            return T("repeat", v, r[2] if isinstance(r[2], str) else I(r[2]))
        if op == "tls":
            return T("tls", r[1])
        return T("rvalue", op, json.dumps(r[1:])[:120])

    def int_cast(self, v, ty):
        n = int(v.a[1]) if not isinstance(v.a[1], str) else ord(v.a[1])
        bits = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128}.get(ty)
        if bits:
            return I(n % (1 << bits))
        sb = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64}.get(ty)
        if sb:
            n %= 1 << sb
            if n >= 1 << (sb - 1):
                n -= 1 << sb
            return I(n)
        if ty == "bool":
            return B(n)
        return I(n)

    def discr(self, st, v, adt):
        v0 = v
        if v.k == "adt":
            vs = self.p.adts.get(v.a[0])
            if vs:
                return I(self.p.discr_of(v.a[0], v.a[1]))
            std = {"None": 0, "Some": 1, "Ok": 0, "Err": 1, "Continue": 0, "Break": 1,
                   "Less": -1, "Equal": 0, "Greater": 1}
            if v.a[1] in std:
                return I(std[v.a[1]])
            return T("discr", v, adt)
        if v.k == "with":
            v = v.a[0]
        if v.k == "t":
            f = st.facts.get(("var", v))
            if isinstance(f, str):
                d = self.p.discr_of(adt, f) if adt in self.p.adts else None
                if d is not None:
                    return I(d)
        if v.k == "c" and v.a[0] == "bool":
            return I(int(v.a[1]))
        return T("discr", v, adt)

    CMP = {"Eq", "Ne", "Lt", "Le", "Gt", "Ge"}

    def binop(self, st, op, a, b):
        ov = op.endswith("WithOverflow")
        base = op[:-len("WithOverflow")] if ov else op.replace("Unchecked", "")
        r = self.binop1(st, base, a, b)
        if ov:
            return Tup(r, B(False))
        return r

    def binop1(self, st, op, a, b):
        if a.k == "c" and b.k == "c" and a.a[0] in ("int", "flt", "bool", "char") :
            x, y = a.a[1], b.a[1]
            k = a.a[0]
            try:
                if op == "Add":
                    return mk("c", k, x + y)
                if op == "Sub":
                    return mk("c", k, x - y)
                if op == "Mul":
                    return mk("c", k, x * y)
                if op == "Div":
                    if k == "int":
                        return I(abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1))
                    return F(x / y)
                if op == "Rem" and k == "int":
                    return I(abs(x) % abs(y) * (1 if x >= 0 else -1))
                if op == "Eq":
                    return B(x == y)
                if op == "Ne":
                    return B(x != y)
                if op == "Lt":
                    return B(x < y)
                if op == "Le":
                    return B(x <= y)
                if op == "Gt":
                    return B(x > y)
                if op == "Ge":
                    return B(x >= y)
                if op in ("BitAnd", "BitOr", "BitXor"):
                    z = {"BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y}[op]()
                    return mk("c", k, bool(z) if k == "bool" else z)
                if op == "Shl":
                    return I(x << y)
                if op == "Shr":
                    return I(x >> y)
                if op == "Cmp":
                    return Adt("core::cmp::Ordering", "Less" if x < y else "Equal" if x == y else "Greater", ())
            except Exception:
                pass
        if op == "Eq" and a is b and a.k in ("t", "adt", "ref"):
            return B(True)
        if op == "Ne":
            return self.not_(self.binop1(st, "Eq", a, b))
        if op == "Gt":
            return self.binop1(st, "Lt", b, a)
        if op == "Ge":
            return self.not_(self.binop1(st, "Lt", a, b))
        if op == "Le":
            return self.not_(self.binop1(st, "Lt", b, a))
        if op == "Eq":
            if is_c(a, "bool"):
                a, b = b, a
            if is_c(b, "bool"):
                return a if b.a[1] else self.not_(a)
            # constants second, otherwise keep a stable order
            if a.k == "c" and b.k != "c":
                a, b = b, a
            r = T("bin", "Eq", a, b)
            if b.k == "c":
                f = st.facts.get(("int", a))
                if f is not None:
                    if isinstance(f, V):
                        return B(f is b)
            return r
        if op in ("BitAnd", "BitOr") and (is_c(a, "bool") or is_c(b, "bool")):
            c, o = (a, b) if is_c(a, "bool") else (b, a)
            if op == "BitAnd":
                return o if c.a[1] else B(False)
            return B(True) if c.a[1] else o
        if op in ("Add", "Mul", "BitAnd", "BitOr", "BitXor") and a.k == "c" and b.k != "c":
            a, b = b, a
        if op in ("Add", "Sub") and is_c(b, "int") and b.a[1] == 0:
            return a
        if op == "Add" and is_c(b, "int") and is_t(a, "bin") and a.a[1] == "Add" and is_c(a.a[3], "int"):
            return self.binop1(st, "Add", a.a[2], I(a.a[3].a[1] + b.a[1]))
        if op == "Cmp":
            return T("cmp", a, b)
        return T("bin", op, a, b)

    @staticmethod
    def not_(v):
        if is_c(v, "bool"):
            return B(not v.a[1])
        if is_t(v, "not"):
            return v.a[1]
        return T("not", v)

    def unop(self, st, op, a):
        if op == "Not":
            if is_c(a, "int"):
                return T("bitnot", a)
            return self.not_(a)
        if op == "Neg":
            if a.k == "c":
                return mk("c", a.a[0], -a.a[1])
            return T("neg", a)
        if op == "PtrMetadata":
            return self.len_of(st, a)
        return T("un", op, a)

    def len_of(self, st, a):
        v = self.content(st, a)
        it = self.items(v)
        if it is not None:
            return I(len(it))
        if v.k == "map":
            return I(len(v.a[1]))
        if is_c(v, "str"):
            return I(len(v.a[1].encode()))
        if is_c(v, "bytes"):
            return I(len(v.a[1]))
        if is_t(v, "push"):
            return self.binop1(st, "Add", self.len_of(st, v.a[1]), I(1))
        return T("len", v)

    # ---------------- facts
    def truth(self, st, v):
        """True / False / None"""
        if is_c(v, "bool"):
            return v.a[1]
        neg = False
        while is_t(v, "not"):
            v = v.a[1]
            neg = not neg
        f = st.facts.get(("b", v))
        if f is None and is_t(v, "bin") and v.a[1] == "Eq":
            g = st.facts.get(("int", v.a[2]))
            if isinstance(g, V) and v.a[3].k == "c":
                f = g is v.a[3]
            elif isinstance(g, frozenset) and v.a[3] in g:
                f = False
        if f is None and is_t(v, "is"):
            g = st.facts.get(("var", v.a[1]))
            if isinstance(g, str):
                f = g == v.a[2]
            elif isinstance(g, frozenset) and v.a[2] in g:
                f = False
        if f is None:
            return None
        return f != neg

    def set_truth(self, st, v, b):
        if is_c(v, "bool"):
            return
        while is_t(v, "not"):
            v = v.a[1]
            b = not b
        st.facts[("b", v)] = b
        st.trail.append((v, b))
        if is_t(v, "bin") and v.a[1] == "Eq" and v.a[3].k == "c":
            if b:
                st.facts[("int", v.a[2])] = v.a[3]
            else:
                g = st.facts.get(("int", v.a[2]))
                if not isinstance(g, V):
                    st.facts[("int", v.a[2])] = (g or frozenset()) | {v.a[3]}
        if is_t(v, "is"):
            if b:
                st.facts[("var", v.a[1])] = v.a[2]

    def set_variant(self, st, t, name):
        if t.k == "with":
            t = t.a[0]
        st.facts[("var", t)] = name
        st.trail.append((t, name))

    def fork_bool(self, st, v, f):
        """f(st, bool) -> action, on each feasible truth value"""
        b = self.truth(st, v)
        if b is not None:
            return f(st, b)
        s2 = st.clone()
        self.set_truth(st, v, True)
        self.set_truth(s2, v, False)
        return Fork([(st, f(st, True)), (s2, f(s2, False))])

    def variants_of(self, st, v, path, names):
        """[(state, variant)] feasible for a value of an enum type; v content value"""
        if v.k == "adt":
            return [(st, v.a[1])]
        base = v.a[0] if v.k == "with" else v
        f = st.facts.get(("var", base))
        if isinstance(f, str):
            return [(st, f)]
        excl = f or frozenset()
        out = []
        names = [n for n in names if n not in excl]
        for i, n in enumerate(names):
            s2 = st if i == len(names) - 1 else st.clone()
            out.append([s2, n])
        for s2, n in out:
            self.set_variant(s2, base, n)
        return out

    # ---------------- running
    def mir_frame(self, st, f, args, dest=None, target=None, site=None):
        self.nid += 1
        fr = Frame()
        fr.id = self.nid
        fr.fn = f
        fr.bb = 0
        fr.dest, fr.target = dest, target
        fr.visits = {}
        fr.kind = "mir"
        fr.k = None
        fr.site = site
        argc = f["argc"]
        self.entered.add(f["key"])
        for i, a in enumerate(args):
            st.store[("L", fr.id, i + 1)] = a
        return fr

    def run(self, key, args=None, setup=None, arg_refs=True):
        f = self.p.get(key)
        if f is None:
            raise Incomplete(f"no function {key}")
        st = State()
        st.frames, st.store, st.facts, st.events, st.ver, st.trail = [], {}, {}, [], {}, []
        st.cutreason = None
        st.side = {}
        names = {}
        for n, p in f["vars"]:
            if isinstance(p, int) and 1 <= p <= f["argc"]:
                names.setdefault(p, n)
        vals = []
        for i in range(f["argc"]):
            a = None
            if args is not None:
                if isinstance(args, dict):
                    a = args.get(names.get(i + 1), args.get(i))
                elif i < len(args):
                    a = args[i]
            if a is None:
                a = T("in", names.get(i + 1, f"arg{i}"))
            if callable(a):
                a = a(self, st)
            if f["tys"][i + 1].startswith("&") and a.k not in ("ref", "t") and not is_c(a, "str"):
                a = self.new_cell(st, a)
            vals.append(a)
        if setup:
            setup(self, st)
        st.frames.append(self.mir_frame(st, f, vals))
        self.argvals = vals
        return self.loop(st)

    def loop(self, st0):
        work = [st0]
        outs = []
        while work:
            st = work.pop()
            while st is not None:
                self.steps += 1
                if self.steps > self.o.max_steps:
                    raise Incomplete("step limit")
                r = self.step(st)
                if r is None:
                    continue
                if isinstance(r, Outcome):
                    outs.append(r)
                    if len(outs) > self.o.max_paths:
                        raise Incomplete("path limit")
                    st = None
                else:  # list of states
                    for s in reversed(r[1:]):
                        work.append(s)
                    if len(work) > self.o.max_paths:
                        raise Incomplete("path limit")
                    st = r[0] if r else None
        return outs

    def step(self, st):
        fr = st.frames[-1]
        blk = fr.fn["blocks"][fr.bb]
        n = fr.visits.get(fr.bb, 0) + 1
        fr.visits[fr.bb] = n
        if n > self.o.max_visits:
            st.cutreason = f"loop bound in {fr.fn['key']}"
            return Outcome("cut", None, st)
        if n > 1:
            lt, cnt = fr.visits.get(("tr", fr.bb), (0, 0))
            if len(st.trail) > lt:
                cnt += 1
                if cnt > self.o.loop_decisions:
                    st.cutreason = f"symbolic loop in {fr.fn['key']}"
                    return Outcome("cut", None, st)
            fr.visits[("tr", fr.bb)] = (len(st.trail), cnt)
        else:
            fr.visits[("tr", fr.bb)] = (len(st.trail), 0)
        for s in blk["s"]:
            line, p, r = s
            if r[0] == "setd":
                continue
            v = self.rvalue(st, fr, r)
            c, pr = self.place(st, fr, p)
            self.storev(st, c, pr, v)
        t = blk["t"]
        op = t[0]
        if op == "goto":
            fr.bb = t[1]
            return None
        if op == "ret":
            v = self.load_cell(st, ("L", fr.id, 0))
            return self.pop_frame(st, v)
        if op == "switch":
            return self.switch(st, fr, t)
        if op == "drop":
            fr.bb = t[2]
            return None
        if op == "assert":
            c = self.operand(st, fr, t[1])
            b = self.truth(st, c)
            if b is not None and b != t[2]:
                st.cutreason = "assert: " + t[4]
                return Outcome("panic", None, st)
            fr.bb = t[3]
            return None
        if op == "call":
            return self.call_term(st, fr, t, blk["ln"])
        if op in ("unreachable", "unwind"):
            st.cutreason = "unreachable"
            return Outcome("dead", None, st)
        raise Incomplete(f"terminator {t}")

    def pop_frame(self, st, v):
        fr = st.frames.pop()
        if not st.frames:
            if self.o.post is not None and not st.side.get("vp::posted"):
                st.side["vp::posted"] = True
                h = Frame()
                h.id, h.fn, h.bb, h.kind, h.k, h.visits, h.dest, h.target, h.site = 0, None, 0, "h", None, {}, None, None, None
                return self.act(st, h, self.o.post(self, st, v))
            return Outcome("ret", v, st)
        if fr.kind == "mir" and fr.dest == "K":
            # returns into a continuation
            kf = st.frames[-1]
            assert kf.kind == "k"
            st.frames.pop()
            return self.act(st, kf, kf.k(self, st, v))
        return self.finish(st, fr, v)

    def finish(self, st, holder, v):
        """deliver v to holder's destination in the frame below"""
        if holder.dest == "K":
            kf = st.frames.pop()
            return self.act(st, kf, kf.k(self, st, v))
        if not st.frames:
            return Outcome("ret", v, st)
        top = st.frames[-1]
        if holder.target is None:
            return Outcome("panic", v, st)
        cell, pr = holder.dest
        self.storev(st, cell, pr, v)
        top.bb = holder.target
        return None

    def act(self, st, holder, action):
        """perform an action whose result goes to holder.dest/target"""
        while True:
            if isinstance(action, V):
                return self.finish(st, holder, action)
            if isinstance(action, Ret):
                return self.finish(st, holder, action.v)
            if isinstance(action, Dead):
                st.cutreason = str(action.v)
                return Outcome(action.kind, action.v, st)
            if isinstance(action, Fork):
                res = []
                for s, a in action.alts:
                    r = self.act(s, holder, a)
                    if r is None:
                        res.append(s)
                    elif isinstance(r, Outcome):
                        self.pending_outs.append(r) if hasattr(self, "pending_outs") else None
                        res.append(r)
                    else:
                        res.extend(r)
                return self.merge(res)
            if isinstance(action, Call):
                if action.k is not None:
                    kf = Frame()
                    self.nid += 1
                    kf.id = self.nid
                    kf.fn = None
                    kf.bb = 0
                    kf.kind = "k"
                    kf.k = action.k
                    kf.visits = {}
                    kf.dest, kf.target = holder.dest, holder.target
                    kf.site = None
                    st.frames.append(kf)
                    h2 = Frame()
                    h2.id = 0
                    h2.fn = None
                    h2.bb = 0
                    h2.kind = "h"
                    h2.k = None
                    h2.visits = {}
                    h2.dest, h2.target = "K", 0
                    h2.site = None
                    return self.apply(st, h2, action.f, action.args)
                return self.apply(st, holder, action.f, action.args)
            raise Incomplete(f"bad action {action!r}")

    def merge(self, res):
        """mixed list of states and outcomes -> what loop() understands"""
        sts = []
        for r in res:
            if isinstance(r, Outcome):
                sts.append(DoneState(r))
            else:
                sts.append(r)
        return sts

    def apply(self, st, holder, f, args):
        """call callable value f with positional args (closure args not tupled)"""
        at = None
        n = 0
        while f.k == "ref" and n < 10:
            at = f
            f = self.load(st, f.a[0], f.a[1])
            n += 1
        if f.k == "clo":
            fn = self.p.get(f.a[0])
            if fn is None:
                return self.act(st, holder, T("apply", f, *[self.reify(st, a) for a in args]))
            if len(st.frames) > self.o.max_depth:
                raise Incomplete("depth limit at " + f.a[0])
            selfty = fn["tys"][1]
            selfv = f if not selfty.startswith("&") else at if at is not None else self.new_cell(st, f, "clo")
            if fn.get("spread"):
                args = list(args)
            fr = self.mir_frame(st, fn, [selfv] + list(args), holder.dest, holder.target)
            st.frames.append(fr)
            return None
        if f.k == "fn":
            c = self.callees[f]
            return self.dispatch(st, holder, c, list(args), None, None, None, list(args))
        return self.opaque_apply(st, holder, f, args)

    def opaque_apply(self, st, holder, f, args):
        r = [self.reify(st, a) for a in args]
        v = T("apply", self.reify(st, f), *r)
        self.log(st, "apply", [self.reify(st, f)] + r, v, None, None, args)
        return self.act(st, holder, v)

    def switch(self, st, fr, t):
        v = self.operand(st, fr, t[1])
        ty = t[4]
        targets, other = t[2], t[3]
        if v.k == "c":
            n = v.a[1]
            if isinstance(n, str):
                n = ord(n)
            n = int(n)
            if n < 0:
                for bits in (8, 16, 32, 64, 128):
                    m = n % (1 << bits)
                    if any(val == m for val, _ in targets):
                        n = m
                        break
            for val, b in targets:
                if val == n:
                    fr.bb = b
                    return None
            fr.bb = other
            return None
        if v.k == "undef":
            raise Incomplete(f"switch on undefined value in {fr.fn['key']} bb{fr.bb}")
        # symbolic
        key = ("sw", fr.bb)
        n = fr.visits.get(key, 0) + 1
        fr.visits[key] = n
        if n > self.o.sym_visits:
            st.cutreason = f"symbolic loop in {fr.fn['key']}"
            return Outcome("cut", None, st)
        if ty == "bool":
            b = self.truth(st, v)
            if b is not None:
                for val, bb in targets:
                    if bool(val) == b:
                        fr.bb = bb
                        return None
                fr.bb = other
                return None
            s2 = st.clone()
            self.set_truth(st, v, False)
            self.set_truth(s2, v, True)
            for s, val in ((st, 0), (s2, 1)):
                f2 = s.frames[-1]
                tg = [b for x, b in targets if x == val]
                f2.bb = tg[0] if tg else other
            return [s2, st]
        if is_t(v, "discr"):
            adt = v.a[2]
            base = v.a[1]
            if base.k == "with":
                base = base.a[0]
            vs = self.p.adt_variants(adt)
            if vs is None:
                raise Incomplete(f"unknown enum {adt}")
            excl = st.facts.get(("var", base))
            excl = excl if isinstance(excl, frozenset) else frozenset()
            fam = self.err_family(adt, base)
            out = []
            tmap = dict((a, b) for a, b in targets)
            live = []
            for x in vs:
                if x["name"] in excl:
                    continue
                bb = tmap.get(x["discr"])
                if bb is None:
                    bb = tmap.get(x["discr"] % (1 << 64), tmap.get(x["discr"] % 256, None))
                if bb is None:
                    bb = other
                if self.is_unreach(fr, bb):
                    continue
                if fam and x["name"] == "Err":
                    continue
                live.append((x["name"], bb))
            if len(live) > 12 and not self.wide_ok(adt):
                # keep explicit targets apart, one trace for the rest
                groups = [(nm, bb) for nm, bb in live if bb != other]
                rest = [nm for nm, bb in live if bb == other]
                out = []
                for nm, bb in groups:
                    s = st.clone()
                    self.set_variant(s, base, nm)
                    s.frames[-1].bb = bb
                    out.append(s)
                if rest:
                    s = st.clone()
                    if len(rest) == 1:
                        self.set_variant(s, base, rest[0])
                    else:
                        s.facts[("var", base)] = excl | {nm for nm, bb in groups}
                        s.trail.append((base, "not:" + ",".join(sorted(nm for nm, _ in groups))))
                    s.frames[-1].bb = other
                    out.append(s)
                return out
            for i, (nm, bb) in enumerate(live):
                s = st.clone() if i < len(live) - 1 else st
                out.append((s, nm, bb))
            for s, nm, bb in out:
                self.set_variant(s, base, nm)
                s.frames[-1].bb = bb
            if not out:
                st.cutreason = "infeasible"
                return Outcome("dead", None, st)
            return [s for s, _, _ in out]
        # integers / chars
        f = st.facts.get(("int", v))
        if isinstance(f, V):
            for val, b in targets:
                if val == f.a[1]:
                    fr.bb = b
                    return None
            fr.bb = other
            return None
        out = []
        excl = f or frozenset()
        for val, b in targets:
            if I(val) in excl:
                continue
            s = st.clone()
            s.facts[("int", v)] = I(val)
            s.trail.append((v, val))
            s.frames[-1].bb = b
            out.append(s)
        if not self.is_unreach(fr, other):
            st.facts[("int", v)] = excl | {I(val) for val, _ in targets}
            st.trail.append((v, "not:" + ",".join(str(val) for val, _ in targets)))
            fr.bb = other
            out.append(st)
        return out

    wide = set()

    def wide_ok(self, adt):
        return adt in self.wide

    def err_family(self, adt, base):
        return (not self.o.follow_errors) and adt == RES and base.k == "t"

    def is_unreach(self, fr, bb):
        b = fr.fn["blocks"][bb]
        return b["t"][0] == "unreachable" and not b["s"]

    # ---------------- calls
    def call_term(self, st, fr, t, ln):
        _, fop, aops, dest, target, desty, line = t
        args = [self.operand(st, fr, a) for a in aops]
        tys = []
        for a in aops:
            p = a.get("c", a.get("m")) if ("c" in a or "m" in a) else None
            if isinstance(p, int):
                tys.append(fr.fn["tys"][p])
            elif p is None and "k" in a:
                tys.append(a["k"].get("t", ""))
            else:
                tys.append("")
        holder = Frame()
        holder.id = 0
        holder.fn = None
        holder.bb = 0
        holder.kind = "h"
        holder.k = None
        holder.visits = {}
        holder.site = (fr.fn["key"], line)
        cell, pr = self.place(st, fr, dest)
        holder.dest, holder.target = (cell, pr), target
        k = fop.get("k", {}).get("fn")
        if k is None:
            f = self.operand(st, fr, fop)
            if f.k == "fn":
                k = self.callees[f]
            else:
                if f.k == "clo":
                    return self.apply(st, holder, f, args)
                return self.opaque_apply(st, holder, f, args)
        return self.dispatch(st, holder, k, args, tys, desty, (fr.fn["key"], line), args)

    FNTRAITS = {"core::ops::function::FnOnce::call_once", "core::ops::function::FnMut::call_mut",
                "core::ops::function::Fn::call"}

    def dispatch(self, st, holder, c, args, tys, desty, where, raw):
        d = c["def"]
        if "ctor" in c:
            return self.act(st, holder, Adt(c["ctor"], c["vn"], args))
        if d in self.FNTRAITS:
            f = args[0]
            tup = args[1] if len(args) > 1 else UNIT
            xs = list(tup.a[0]) if tup.k == "tup" else [tup]
            fc = f
            n = 0
            while fc.k == "ref" and n < 10:
                fc = self.load(st, fc.a[0], fc.a[1])
                n += 1
            if fc.k == "clo":
                fn = self.p.get(fc.a[0])
                if fn is not None:
                    self_is_ref = fn["tys"][1].startswith("&")
                    if self_is_ref and f.k == "ref":
                        # keep captured state shared
                        selfv = f
                        while True:
                            inner = self.load(st, selfv.a[0], selfv.a[1])
                            if inner.k == "ref":
                                selfv = inner
                            else:
                                break
                    elif self_is_ref:
                        selfv = self.new_cell(st, fc, "clo")
                    else:
                        selfv = fc
                    if len(st.frames) > self.o.max_depth:
                        raise Incomplete("depth limit at " + fc.a[0])
                    fr = self.mir_frame(st, fn, [selfv] + xs, holder.dest, holder.target)
                    st.frames.append(fr)
                    return None
            return self.apply(st, holder, fc, xs)
        ci = CallInfo()
        ci.callee = c
        ci.def_ = d
        ci.fn = c.get("rdef") or d
        ci.full = c["full"]
        ci.args = c.get("args", [])
        ci.raw = raw
        ci.desty = desty
        ci.tys = tys or [""] * len(args)
        ci.where = where
        ci.line = where[1] if where else None
        if self.o.on_call:
            r = self.o.on_call(self, st, ci, args)
            if r is not DEFAULT:
                return self.act(st, holder, r)
        # a closure with captured state of its own keeps that state between the calls a library function makes
        margs = [self.new_cell(st, x, "clo") if x.k == "clo" and self.stateful(x) else x for x in args]
        for name in (ci.fn, d):
            m = self.models.get(name)
            if m is not None:
                r = m(self, st, ci, margs)
                if r is not DEFAULT:
                    return self.act(st, holder, r)
        pm = self.pat_cache.get((ci.fn, d))
        if pm is None:
            pm = self.pat_cache[(ci.fn, d)] = [m for rx, m in self.prefix_models if rx.search(ci.fn) or rx.search(d)]
        for m in pm:
            r = m(self, st, ci, margs)
            if r is not DEFAULT:
                return self.act(st, holder, r)
        key = c.get("key")
        if key and key in self.p and not self.is_opaque(key, ci.fn):
            if len(st.frames) > self.o.max_depth:
                raise Incomplete("depth limit at " + key)
            if sum(1 for f in st.frames if f.kind == "mir" and f.fn["key"] == key) < self.o.recursion:
                f = self.p.get(key)
                fr = self.mir_frame(st, f, self.adapt(st, f, args), holder.dest, holder.target, where)
                st.frames.append(fr)
                return None
        if "via" in c and c["via"] in self.p and not self.is_opaque(c["via"], c["vdef"]):
            r = self.via(st, holder, c, ci, args)
            if r is not DEFAULT:
                return r
        return self.act(st, holder, self.opaque_call(st, ci, args))

    def stateful(self, clo):
        """a FnMut closure that owns some of what it captures"""
        fn = self.p.get(clo.a[0])
        return fn is not None and fn["tys"][1].startswith("&mut ") and any(x.k != "ref" for x in clo.a[1])

    def adapt(self, st, f, args):
        if f.get("spread") and args and f["argc"] != len(args):
            last = args[-1]
            if last.k == "tup":
                args = list(args[:-1]) + list(last.a[0])
        return args

    def is_opaque(self, key, fn):
        if self.o.inline is not None and not self.o.inline(key):
            return True
        return any(r.search(fn) or r.search(key) for r in self.opaque_re)

    def via(self, st, holder, c, ci, args):
        d = ci.def_
        f = self.p.get(c["via"])

        def enter(a, k=None):
            return Call(mk_fn_key(self, c["via"], c["vdef"]), a, k)
        if d in ("core::convert::Into::into", "core::convert::TryInto::try_into") or d.endswith("parse"):
            return self.act(st, holder, enter(args))
        if d == "core::cmp::PartialEq::ne":
            return self.act(st, holder, enter(args, lambda I_, s, v: I_.not_(v)))
        if d == "core::cmp::PartialEq::eq":
            if "for &A" in ci.fn:
                a = [self.load(st, *self.deref(x)) if x.k == "ref" else x for x in args]
                return self.act(st, holder, enter(a))
            return DEFAULT
        if d == "alloc::string::ToString::to_string":
            cell = self.new_cell(st, S(""))
            fmt = Adt("core::fmt::Formatter", "Formatter", (cell,))
            fcell = self.new_cell(st, fmt)
            return self.act(st, holder, enter([args[0], fcell],
                                              lambda I_, s, v: I_.content(s, cell)))
        if d.endswith("unwrap_or_default"):
            return DEFAULT
        if d.startswith("core::cmp::PartialOrd::"):
            m = d.rsplit("::", 1)[1]
            import models
            return self.act(st, holder, enter(args, lambda I_, s, v: models.ord_test(I_, s, v, m)))
        return DEFAULT

    def opaque_call(self, st, ci, args):
        rargs = [self.reify(st, a) for a in args]
        name = ci.fn
        eff = any(r.search(name) or r.search(ci.def_) for r in self.eff_re)
        muts = []
        for a, ty in zip(args, ci.tys):
            if ty.startswith("&mut ") or (ty.startswith("&") and " mut " in ty[:12]):
                muts.append(a)
        stable = any(r.search(name) or r.search(ci.def_) for r in self.stable_re)
        extra = ()
        if muts or eff:
            n = st.side.get("evn", 0) + 1
            st.side["evn"] = n
            extra = (("#", n),)
        elif not stable:
            ver = sum(st.ver.get(x, 0) for x in self.roots(rargs))
            if ver:
                extra = (("@", ver),)
        self.opaque_seen.add(name)
        res = T(name, *self.typeargs(ci), *rargs, *[mk("c", "ver", e) for e in extra])
        self.log(st, name, rargs, res, ci, ci.where, args)
        for a in muts:
            self.havoc(st, a, res)
        return res

    def roots(self, rargs):
        out = set()
        for r in rargs:
            if r.k == "t":
                out.add(r)
                b = r
                # field paths of an object share its version
                while is_t(b, ".") or is_t(b, "ok") or is_t(b, "some"):
                    b = b.a[1]
                    out.add(b)
        return out

    def havoc(self, st, a, res):
        if a.k == "ref":
            v = self.load(st, a.a[0], a.a[1])
            n = 0
            while v.k == "ref" and n < 10:
                a = v
                v = self.load(st, a.a[0], a.a[1])
                n += 1
            if v.k == "t":
                st.ver[v] = st.ver.get(v, 0) + 1
                return
            self.storev(st, a.a[0], a.a[1], T("after", res, v))
        elif a.k == "t":
            st.ver[a] = st.ver.get(a, 0) + 1

    def typeargs(self, ci):
        """const/type generic arguments that matter to the meaning of a call"""
        return ()

    def log(self, st, fn, args, res, ci, where, raw):
        e = Event()
        e.fn, e.args, e.res = fn, args, res
        e.callee = ci.callee if ci else None
        e.where = where[0] if where else None
        e.line = where[1] if where else None
        e.seq = len(st.events)
        e.raw = raw
        e.nfacts = len(st.trail)
        st.events.append(e)


class DoneState:
    """an outcome travelling through a list of states"""

    def __init__(self, o):
        self.o = o


def mk_fn_key(I_, key, vdef):
    c = {"def": vdef, "full": key, "key": key, "resolved": True, "rdef": vdef}
    return I_.fnval(c)


_step = Interp.step


def step(self, st):
    if isinstance(st, DoneState):
        return st.o
    return _step(self, st)


Interp.step = step
