"""Extension definitions built by the source: every `Extension::new_arc` builder closure is executed abstractly and
its add_type / add_op / load_all_ops calls are turned into the definition it would serialise to."""
import json, re
from interp import *
from models import *
import sig


class Exts:
    def __init__(self, cx):
        self.cx = cx
        self.sig = sig.Sig(cx)

    def statics(self):
        """[(static key, extension name, version, closure)] of every library extension"""
        out = []
        for k in self.cx.P.find(r"^<tket.*__static_ref_initialize$"):
            b = self.cx.P.body(k) if hasattr(self.cx.P, "body") else None
            it = None
            try:
                it, outs = self.cx.run(k)
            except Incomplete:
                continue
            for o in outs:
                if o.kind != "ret":
                    continue
                v = it.reify(o.st, o.value)
                if is_t(v) and v.a[0].endswith("Extension>::new_arc") or is_t(v) and v.a[0].rsplit("::", 1)[-1] == "new_arc":
                    out.append((k, self.sig.string(v.a[1]), self.version(v.a[2]), v.a[3]))
        return out

    def version(self, t):
        t = self.sig.un(t)
        if is_t(t, "const"):
            t = self.sig.const(t.a[1])
        if is_t(t, "lazy"):
            t = self.sig.lazy(t.a[1])
        xs = [x.a[1] for x in (t.a[1:] if is_t(t) else t.a[2])[:3]]
        return ".".join(map(str, xs))

    def id_of(self, adt, val):
        key = self.cx.key(r"^<" + re.escape(adt) + r" as .*MakeOpDef>::opdef_id$")
        it, outs = self.cx.run(key, {"self": val})
        rs = {self.sig.string(it.reify(o.st, o.value)) for o in outs if o.kind == "ret"}
        if len(rs) != 1:
            raise Incomplete(f"{len(rs)} names for {show(val)}")
        return rs.pop()

    def variants(self, adt):
        """values produced by EnumIter (no variant may be skipped)"""
        return [Adt(adt, v["name"], ()) for v in self.cx.P.adt_variants(adt)]

    def misc(self, adt, val):
        ks = self.cx.P.find(r"^<" + re.escape(adt) + r" as .*MakeOpDef>::post_opdef$")
        if not ks:
            return {}
        it, outs = self.cx.run(ks[0], {"self": val})
        res = []
        for o in outs:
            if o.kind != "ret":
                continue
            m = {}
            for e in o.events:
                if e.fn.endswith("add_misc"):
                    m[self.sig.string(e.args[1])] = self.misc_value(e.args[2])
            res.append(m)
        if len(res) != 1:
            raise Incomplete(f"{len(res)} paths in post_opdef of {show(val)}")
        return res[0]

    def misc_value(self, t):
        t = self.sig.un(t)
        if is_t(t) and t.a[0].endswith("to_value"):
            return self.misc_value(t.a[1])
        if t.k == "seq":
            return [self.misc_value(x) for x in t.a[0]]
        if t.k == "tup":
            return [self.misc_value(x) for x in t.a[0]]
        if t.k == "iter" and t.a[0] == "sym" and t.a[2] == 0:
            return self.misc_value(t.a[1])
        if is_t(t) and self.sig.fn(t) in ("as_slice", "deref") and len(t.a) == 2:
            return self.misc_value(t.a[1])
        if t.k == "adt" and not t.a[2]:
            return t.a[1]
        if is_c(t):
            return t.a[1]
        if is_t(t) and self.sig.fn(t) == "new" and len(t.a) == 1:
            return []
        raise Incomplete(f"misc value {show(t)[:200]}")

    def load(self, key, name, version, clos):
        """{name, version, types, operations}"""
        d = {"name": name, "version": version, "types": {}, "operations": {}}
        alls = []

        def hook(I_, st, ci, a):
            nm = ci.fn if "::" not in ci.fn else ci.fn.rsplit("::", 1)[-1]
            full = ci.def_ or ""
            if full.endswith("MakeOpDef::load_all_ops") or full.endswith("MakeOpDef::add_to_extension"):
                tys = [str(x) for x in ci.args]
                alls.append((nm, tys))
                I_.log(st, "ext::" + full.rsplit("::", 1)[-1], [S(tys[0])] + [I_.reify(st, I_.content(st, x)) for x in a], UNIT, ci, ci.where, a)
                return Ret(Ok(UNIT))
            return DEFAULT
        ck = key + "::{closure#0}"
        m = re.search(r"closure", clos.k) if hasattr(clos, "k") else None
        it, outs = self.cx.run(ck, None, on_call=hook)
        rs = [o for o in outs if o.kind == "ret"]
        if len(rs) != 1:
            raise Incomplete(f"{len(rs)} results of the builder of {name}")
        for e in rs[0].events:
            if e.fn.endswith("::add_type"):
                n = self.sig.string(e.args[1])
                d["types"][n] = {"params": [self.sig.param(x) for x in self.sig.seq(e.args[2])], "bound": self.tbound(e.args[4]), "where": e.where}
            elif e.fn.endswith("::add_op"):
                n = self.sig.string(e.args[1])
                s, b = self.opsig(e.args[3])
                d["operations"][n] = {"signature": s, "binary": b, "misc": {}, "where": e.where}
            elif e.fn in ("ext::load_all_ops", "ext::add_to_extension"):
                adt = e.args[0].a[1]
                vals = self.variants(adt) if e.fn.endswith("load_all_ops") else [e.args[1]]
                for v in vals:
                    n = self.id_of(adt, v)
                    if n in d["operations"]:
                        raise Incomplete(f"operation {n} defined twice in {name}")
                    s, b = self.defsig(adt, v)
                    d["operations"][n] = {"signature": s, "binary": b, "misc": self.misc(adt, v), "adt": adt, "value": v, "where": e.where}
        return d

    def defsig(self, adt, v):
        key = self.cx.key(r"^<" + re.escape(adt) + r" as .*MakeOpDef>::init_signature$")
        it, outs = self.cx.run(key, {"self": v})
        rs = [it.reify(o.st, o.value) for o in outs if o.kind == "ret"]
        if len(rs) != 1:
            raise Incomplete(f"{len(rs)} signatures for {show(v)}")
        return self.opsig(rs[0])

    def opsig(self, t):
        """(signature or None, computed by code?)"""
        u = self.sig.un(t)
        if u.k == "adt" and u.a[1] == "CustomFunc" or is_t(u) and self.sig.fn(u) == "CustomFunc":
            return None, True
        try:
            return self.sig.sig(u), False
        except Incomplete:
            if u.k == "adt":
                return None, True
            raise

    def tbound(self, t):
        t = self.sig.un(t)
        if t.k == "adt" and t.a[1] == "Explicit" or is_t(t) and t.a[0].endswith("TypeDefBound"):
            return {"b": "Explicit", "bound": self.sig.bound(t.a[2][0] if t.k == "adt" else t.a[1])}
        if is_t(t) and self.sig.fn(t) in ("any", "copyable") and len(t.a) == 1:
            return {"b": "Explicit", "bound": {"any": "A", "copyable": "C"}[self.sig.fn(t)]}
        if t.k == "adt" and t.a[1] == "FromParams":
            return {"b": "FromParams", "indices": [self.sig.nat(x) for x in self.sig.seq(t.a[2][0])]}
        if is_t(t) and self.sig.fn(t) == "from_params":
            return {"b": "FromParams", "indices": [self.sig.nat(x) for x in self.sig.seq(t.a[1])]}
        return {"b": "Explicit", "bound": self.sig.bound(t)}
