"""C26: saving and loading of compiled rewriters and pattern matchers is executed abstractly against a file system whose operations may
fail: what a successful save leaves in the file it reports is what loading that path takes apart again, on every path on which an
operation fails an error is reported, and the derived encodings of all parts write and read the same fields."""
import itertools, re
import models
from interp import V, mk, I, B, S, T, Adt, Tup, Seq, Some, NONE, Ok, Err, UNIT, DEFAULT, is_c, is_t, show, Ret, Call, Fork

ECC = "tket::rewrite::ecc_rewriter::ECCRewriter"
PM = "tket::portmatching::matcher::PatternMatcher"


class Files:
    """paths are terms; a file's contents are a list of written pieces; zstd(x) and rmp(v) are invertible encodings"""

    def put(self, st, w, piece):
        """write a piece to a writer"""
        if w.a[0] == "vp::File":
            fs = dict(st.side.get("fs", {}))
            p = w.a[2][0]
            fs[p] = fs.get(p, ()) + (piece,)
            st.side["fs"] = fs
        else:
            b = dict(st.side.get("buf", {}))
            b[w] = b.get(w, ()) + (piece,)
            st.side["buf"] = b

    def take(self, st, w):
        b = dict(st.side.get("buf", {}))
        x = b.pop(w, ())
        st.side["buf"] = b
        return x

    def read(self, st, p, opened):
        fs = st.side.get("fs", {})
        if p not in fs:
            return Err(T("notfound", p))
        return Ok(Adt("vp::Read" if opened else "vp::Data", "Read", (Seq(fs[p]),)))

    def create(self, st, p, new, trunc, append):
        """open a file for writing; what it held stays behind what is written unless it is emptied"""
        old = st.side.get("fs", {}).get(p)
        if new and old is not None:
            return Err(T("exists", p))

        def ok(s):
            keep = () if trunc or not old else old
            s.side["fs"] = {**s.side.get("fs", {}), p: keep if append else ()}
            if keep and not append:
                s.side["rest"] = {**s.side.get("rest", {}), p: T("end of", *keep)}
            return Adt("vp::File", "File", (p,))
        return self.fallible(st, ok)

    def fallible(self, st, ok):
        """the operation succeeds, doing ok(state), or fails"""
        bad = st.clone()
        bad.side["failed"] = True
        return Fork([(st, Ret(Ok(ok(st)))), (bad, Ret(Err(T("ioerror"))))])

    def flush(self, st, w):
        for x in self.take(st, w) if w.a[0] != "vp::File" else ():
            self.put(st, w.a[2][0], x)
        if w.a[0] == "vp::Buf":
            self.flush(st, w.a[2][0])
        return UNIT

    def finish(self, st, w):
        inner = w.a[2][0]
        self.put(st, inner, T("zstd", Seq(self.take(st, w))))
        return inner

    def w(self, I_, st, v):
        v = I_.reify(st, v)
        return v if v.k == "adt" and v.a[0] in ("vp::File", "vp::Buf", "vp::Zstd", "vp::Bytes") else None

    def data(self, I_, st, v):
        """contents of a reader or byte string"""
        v = I_.reify(st, v)
        if v.k == "adt" and v.a[0] in ("vp::Read", "vp::Data"):
            return v.a[2][0]
        return None

    def __call__(self, I_, st, ci, a):
        d, f, nm = ci.def_, ci.full, ci.def_.rsplit("::", 1)[-1]
        g = lambda i: I_.reify(st, a[i])
        if re.search(r"\bPath(Buf)?\b", d) or nm in ("as_ref", "from", "into", "clone", "to_owned", "to_path_buf", "borrow", "deref") and a and is_t(g(0), "path"):
            if nm in ("from", "new", "as_ref", "to_path_buf", "into", "clone", "to_owned", "as_path", "borrow", "deref") and a and is_t(g(0), "path"):
                return g(0)
            if nm in ("with_extension", "set_extension") and len(a) == 2:
                new = T("path", *[x for x in g(0).a[1:] if not is_t(x, "ext")], T("ext", g(1)))
                if nm == "with_extension":
                    return new
                c, p, _ = models.seq_target(I_, st, a[0])
                I_.storev(st, c, p, new)
                return B(True)
            if nm == "extension" and a and is_t(g(0), "path"):
                e = [x for x in g(0).a[1:] if is_t(x, "ext")]
                return Some(e[0].a[1]) if e else DEFAULT
        if d.startswith("std::fs::File::") and nm in ("create", "create_new"):
            return self.create(st, g(0), nm == "create_new", True, False)
        if d.startswith("std::fs::File::") and nm == "options" or d.startswith("std::fs::OpenOptions::"):
            if nm in ("new", "options"):
                return Adt("vp::Opts", "Opts", ())
            if nm == "open":
                on = {n for n in ("read", "write", "append", "create", "create_new", "truncate") if S(n) in g(0).a[2]}
                if on & {"write", "append"}:
                    if "create_new" not in on and "create" not in on and g(1) not in st.side.get("fs", {}):
                        return Err(T("notfound", g(1)))
                    return self.create(st, g(1), "create_new" in on, "truncate" in on, "append" in on)
                return self.read(st, g(1), True)
            if len(a) == 2:
                c, p, o = models.seq_target(I_, st, a[0])
                o = I_.reify(st, o)
                I_.storev(st, c, p, Adt("vp::Opts", "Opts", tuple(x for x in o.a[2] if x != S(nm)) + ((S(nm),) if g(1) == B(True) else ())))
                return a[0]
        if d.startswith("std::fs::") and nm == "write" and len(a) == 2:
            p, x = g(0), self.data(I_, st, a[1])

            def ok(s):
                s.side["fs"] = {**s.side.get("fs", {}), p: x.a[0] if x is not None else (g(1),)}
                return UNIT
            return self.fallible(st, ok)
        if d.startswith("std::fs::File::") and nm == "open" or d.startswith("std::fs::") and nm == "read":
            return self.read(st, g(0), nm == "open")
        if "BufReader" in d and nm in ("new", "with_capacity"):
            return g(-1)
        if "BufWriter" in d and nm in ("new", "with_capacity"):
            return Adt("vp::Buf", "Buf", (g(-1),))
        if nm in ("by_ref", "into_inner") and a and self.w(I_, st, a[0]) is not None:
            w = self.w(I_, st, a[0])
            return w if nm == "by_ref" else self.fallible(st, lambda s: (self.flush(s, w), w.a[2][0])[1])
        if nm in ("flush", "sync_all", "sync_data") and a and self.w(I_, st, a[0]) is not None:
            w = self.w(I_, st, a[0])
            return self.fallible(st, lambda s: self.flush(s, w) if w.a[0] != "vp::Zstd" else UNIT)
        if nm == "write_all" and len(a) == 2 and self.w(I_, st, a[0]) is not None:
            w, x = self.w(I_, st, a[0]), self.data(I_, st, a[1])

            def ok(s):
                for y in (x.a[0] if x is not None else (T("bytes", I_.reify(s, a[1])),)):
                    self.put(s, w, y)
                return UNIT
            return self.fallible(st, ok)
        if "zstd" in d:
            if nm == "new" and "Encoder" in d:
                return Ok(Adt("vp::Zstd", "Zstd", (g(0),)))
            if nm in ("finish", "do_finish") and self.w(I_, st, a[0]) is not None:
                w = self.w(I_, st, a[0])
                return self.fallible(st, lambda s: self.finish(s, w))
            if nm in ("encode_all", "decode_all") or nm == "new" and "Decoder" in d:
                x = self.data(I_, st, a[0])
                if x is not None:
                    if nm == "encode_all":
                        return self.fallible(st, lambda s: Adt("vp::Data", "Data", (Seq((T("zstd", x),)),)))
                    if len(x.a[0]) == 1 and is_t(x.a[0][0], "zstd"):
                        return self.fallible(st, lambda s: Adt("vp::Data" if nm == "decode_all" else "vp::Read", "Data", (x.a[0][0].a[1],)))
                    return Err(T("notzstd"))
        if nm == "read_to_end" and len(a) == 2 and self.data(I_, st, a[0]) is not None:
            x = self.data(I_, st, a[0])
            c, p, _ = models.seq_target(I_, st, a[1])

            def ok(s):
                I_.storev(s, c, p, Adt("vp::Data", "Data", (x,)))
                return T("n")
            return self.fallible(st, ok)
        if "rmp_serde" in d or nm == "serialize" and "rmp" in f:
            if nm in ("write", "write_named") and self.w(I_, st, a[0]) is not None:
                w, v = self.w(I_, st, a[0]), g(1)
                return self.fallible(st, lambda s: (self.put(s, w, T("rmp", v)), UNIT)[1])
            if nm in ("to_vec", "to_vec_named"):
                v = g(0)
                return self.fallible(st, lambda s: Adt("vp::Data", "Data", (Seq((T("rmp", v),)),)))
            if nm in ("from_slice", "from_read"):
                x = self.data(I_, st, a[0])
                if x is not None:
                    if x.a[0] and is_t(x.a[0][0], "rmp"):  # what follows the value is not read
                        return self.fallible(st, lambda s: x.a[0][0].a[1])
                    return Err(T("notrmp"))
        if nm in ("deref", "as_slice", "as_ref", "borrow", "as_bytes") and a and self.data(I_, st, a[0]) is not None:
            return g(0)
        if nm == "resolve_extension_defs":
            if g(0) == T("target", I(1)):
                return Err(T("the second target has operations of extensions that travel with it in the file, not in the registry"))
            return self.fallible(st, lambda s: UNIT)
        if nm in ("parent", "create_dir_all"):
            return DEFAULT
        return DEFAULT


def run(cx):
    loc = set(cx.P.local_keys())
    rw = Adt(ECC, "ECCRewriter", (T("matcher"), Seq((T("target", I(0)), T("target", I(1)))), T("rules"), T("empty")))
    n = 0
    for ty, val, ext in ((ECC, rw, "rwr"), (PM, Adt(PM, "PatternMatcher", (T("automaton"), T("patterns"))), "bin")):
        flds = cx.P.adts[ty]["variants"][0]["fields"]
        if len(flds) != len(val.a[2]):
            cx.fail("coverage", ty, f"the fields of {ty} are {flds}")
            continue
        cx.guard("coverage", f"{ty} files", files, cx, ty, val, ext)
        n += 1
    cx.floor("coverage", "kinds of saved files", n, 2)
    cx.guard("coverage", "default rewriter", default, cx, rw)
    derived(cx, loc)


def okv(it, o):
    v = it.reify(o.st, o.value) if o.kind == "ret" else None
    return v.a[2][0] if v is not None and v.k == "adt" and v.a[1] == "Ok" else None


def bad(it, res):
    return [(o.kind, str(o.st.cutreason)[:200], show(o.value)[:200] if o.value is not None else "") for o in res
            if o.kind != "ret" or it.reify(o.st, o.value).k != "adt" or it.reify(o.st, o.value).a[1] not in ("Ok", "Err")]


def files(cx, ty, val, ext):
    nm = ty.rsplit("::", 1)[-1]
    save, load = cx.key(rf"^{ty}::save_binary::<impl"), cx.key(rf"^{ty}::load_binary::<impl")
    m = Files()
    saved = 0
    for name, old in itertools.product((T("path", S("dir/name")), T("path", S("dir/name"), T("ext", S(ext))), T("path", S("dir/name"), T("ext", S("old")))), (False, True)):
        lb = f"{nm} {show(name)}" + (" over an older file" if old else "")
        was = {T("path", S("dir/name"), T("ext", S(ext))): (T("an older file"),)} if old else {}
        it, res = cx.run(save, [val, name], on_call=m, setup=lambda it_, s: s.side.__setitem__("fs", was))
        b = bad(it, res)
        cx.check("saving succeeds or reports an error", lb, not b and res, str(b[:2]))
        for i, o in enumerate(res):
            p = okv(it, o)
            fs = {q: x + ((o.st.side["rest"][q],) if q in o.st.side.get("rest", {}) else ()) for q, x in o.st.side.get("fs", {}).items() if q not in was or x != was[q]}
            if p is None:
                cx.check("an error has a cause", f"{lb} path {i}", bool(o.st.side.get("failed")), show(o.value)[:300])
                continue
            cx.check("a failed write is reported", f"{lb} path {i}", not o.st.side.get("failed"), "an operation failed but the save reports success")
            cx.check("everything is written when the save returns", f"{lb} path {i}", not any(o.st.side.get("buf", {}).values()),
                     f"left to be written while the writer is dropped, where errors go unnoticed: {[(show(w)[:60], [show(y)[:80] for y in x]) for w, x in o.st.side.get('buf', {}).items()]}")
            cx.check("the path reported is the file written", f"{lb} path {i}", p in fs and len(fs) == 1, f"reported {show(p)}, written {[show(x) for x in fs]}")
            cx.check("the file has the documented extension", f"{lb} path {i}", is_t(p, "path") and [x.a[1] for x in p.a[1:] if is_t(x, "ext")] == [S(ext)], show(p))
            saved += 1
            it2, res2 = cx.run(load, [p], on_call=m, setup=lambda it_, s: s.side.__setitem__("fs", fs))
            b = bad(it2, res2)
            good = [okv(it2, x) for x in res2 if okv(it2, x) is not None]
            cx.check("loading succeeds or reports an error", lb, not b and res2, str(b[:2]))
            cx.check("what was saved is loaded", f"{lb} path {i}", bool(good) and all(x == val for x in good), f"loaded {[show(x)[:300] for x in good] or [show(x.value)[:200] for x in res2]}, saved {show(val)[:300]}")
            for x in res2:
                if okv(it2, x) is None:
                    cx.check("a file just saved is accepted", f"{lb} path {i}", bool(x.st.side.get("failed")), show(x.value)[:300])
                else:
                    cx.check("a failed read is reported", f"{lb} path {i}", not x.st.side.get("failed"), "an operation failed but the load reports success")
    cx.floor("coverage", f"saves of {nm}", saved, 3)
    # reading and writing through streams
    sio, lio = cx.key(rf"^{ty}::save_binary_io::<W>$"), cx.key(rf"^{ty}::load_binary_io::<R>$")
    dst = T("path", S("stream"))
    it, res = cx.run(sio, [val, Adt("vp::File", "File", (dst,))], on_call=m)
    n = 0
    for o in res:
        if okv(it, o) is None:
            cx.check("an error has a cause", f"{nm} stream", bool(o.st.side.get("failed")), str(bad(it, res))[:300])
            continue
        cx.check("a failed write is reported", f"{nm} stream", not o.st.side.get("failed"), "an operation failed but the save reports success")
        c = Adt("vp::Read", "Read", (Seq(o.st.side.get("fs", {}).get(dst, ())),))
        it2, res2 = cx.run(lio, [c], on_call=m)
        good = [okv(it2, x) for x in res2 if okv(it2, x) is not None]
        cx.check("what was saved is loaded", f"{nm} stream", bool(good) and all(x == val for x in good), f"loaded {[show(x)[:300] for x in good] or [show(x.value)[:200] for x in res2]}, saved {show(val)[:300]}")
        n += 1
    cx.floor("coverage", f"stream saves of {nm}", n, 1)


def default(cx, rw):
    """the optimiser loads the rewriter from the path it is given"""
    n = 0
    for k in cx.P.find(r"default_with_rewriter_binary::<impl AsRef<Path>>$"):
        p = T("path", S("given"))
        content = (T("zstd", Seq((T("rmp", rw),))),)
        it, res = cx.run(k, [p], on_call=Files(), setup=lambda it_, s: s.side.__setitem__("fs", {p: content}))
        good = [okv(it, o) for o in res if okv(it, o) is not None]
        cx.check("the optimiser uses the rewriter stored under the name it is given", "default_with_rewriter_binary", good and not bad(it, res) and all(inside(x, rw) for x in good), f"{[show(x)[:300] for x in good]}")
        n += 1
    cx.floor("coverage", "optimisers with a stored rewriter", n, 1)


def inside(v, x):
    return v == x or isinstance(v, V) and any(inside(y, x) for y in v.a) or isinstance(v, tuple) and any(inside(y, x) for y in v)


def derived(cx, loc):
    """the derived encodings: every field is written, and read back from where it was written"""
    n = 0
    for k in sorted(loc):
        m = re.search(r"impl serde_core::ser::Serialize for (tket::(?:portmatching|rewrite::ecc_rewriter)[\w:]+)>::serialize::<__S>$", k)
        if not m:
            continue
        ty = m.group(1)
        adt = cx.P.adts.get(ty)
        cx.guard("coverage", f"encoding of {ty}", struct if len(adt["variants"]) == 1 and adt.get("kind") != "enum" else enum, cx, ty, adt, k, loc)
        n += 1
    cx.floor("coverage", "derived encodings", n, 7)


def atoms(v, out):
    if isinstance(v, V):
        if is_t(v, "field"):
            out.add(v.a[1].a[1])
        elif is_t(v, "elem"):
            out.add(v.a[1].a[1])
        else:
            for x in v.a:
                atoms(x, out)
    elif isinstance(v, tuple):
        for x in v:
            atoms(x, out)
    return out


class Ser:
    def __call__(self, I_, st, ci, a):
        nm = ci.def_.rsplit("::", 1)[-1]
        if re.match(r"serialize_", nm) or nm in ("end", "skip_field", "collect_str", "collect_seq"):
            if nm not in ("end",):
                st.side["log"] = st.side.get("log", ()) + ((nm, tuple(I_.reify(st, x) for x in a[1:])),)
            return Ok(T("ser"))
        if nm in ("next_element", "next_element_seed"):
            i = st.side.get("next", 0)
            st.side["next"] = i + 1
            return Ok(Some(T("elem", I(i))))
        if nm in ("newtype_variant", "unit_variant", "struct_variant", "tuple_variant"):
            return DEFAULT
        return DEFAULT


def visit(cx, ty, what, loc):
    """methods of the type's visitor"""
    r = re.compile(rf"^<[^<]*<impl serde_core::de::Deserialize<'de> for {ty}>::deserialize::__{what}.*$")
    return [k for k in loc if r.match(k)]


def struct(cx, ty, adt, ser, loc):
    flds = adt["variants"][0]["fields"]
    n = len(flds)
    v = Adt(ty, adt["variants"][0]["name"], tuple(T("field", I(i)) for i in range(n)))
    it, res = cx.run(ser, [v, T("serializer")], on_call=Ser())
    ok = len(res) == 1 and res[0].kind == "ret"
    written = []
    for o in res:
        for c, args in o.st.side.get("log", ()):
            if c in ("serialize_field", "serialize_newtype_struct", "serialize_element"):
                written.append(atoms(args[-1], set()))
    cx.check("every field is written", ty, ok and sorted(map(sorted, written)) == [[i] for i in range(n)], f"{written} of {n} fields, {bad(it, res)}")
    ks = [k for k in visit(cx, ty, "Visitor", loc) if re.search(r"::visit_seq::<__A>$", k)]
    if not ks:
        return cx.fail("every field is read from where it was written", ty, "no visitor found")
    it, res = cx.run(ks[0], [T("visitor"), T("seq")], on_call=Ser())
    got = [okv(it, o) for o in res]
    # a field that is absent is an error
    vals = [g for g in got if g is not None]
    exp = [sorted(written.index({i}) for _ in (0,)) for i in range(n)] if ok and all({i} in written for i in range(n)) else None
    cx.check("every field is read from where it was written", ty, bool(vals) and exp is not None and all(g.k == "adt" and g.a[0] == ty and [sorted(atoms(x, set())) for x in g.a[2]] == exp for g in vals) and len(vals) == len(got),
             f"{[show(g)[:200] for g in vals]} written in the order {written}, outcomes {bad(it, res)}")


def enum(cx, ty, adt, ser, loc):
    for vi, var in enumerate(adt["variants"]):
        v = Adt(ty, var["name"], tuple(T("field", I(i)) for i in range(len(var["fields"]))))
        it, res = cx.run(ser, [v, T("serializer")], on_call=Ser())
        logs = [c for o in res for c in o.st.side.get("log", ())]
        head = [c for c in logs if c[0].endswith("_variant")]
        n = len(var["fields"])
        if len(res) != 1 or len(head) != 1:
            cx.fail("every variant is written", f"{ty} {var['name']}", f"{logs} {bad(it, res)}")
            continue
        kind, args = head[0]
        written = [atoms(args[-1], set())] if kind == "serialize_newtype_variant" else [atoms(c[1][-1], set()) for c in logs if c[0] == "serialize_field"]
        cx.check("every field is written", f"{ty} {var['name']}", sorted(map(sorted, written)) == [[i] for i in range(n)], f"{written} of {n}")
        idx, name = args[1], args[2]
        # both names of the variant select the same one on reading
        sel = []
        for meth, x in (("visit_u64", idx), ("visit_str", name)):
            ks = [k for k in visit(cx, ty, "FieldVisitor", loc) if re.search(rf"::{meth}::<__E>$", k) and "visit_enum" not in k]
            it, res = cx.run(ks[0], [T("visitor"), x]) if ks else (None, [])
            got = {show(okv(it, o)) for o in res if okv(it, o) is not None}
            sel.append(got)
        cx.check("a variant is read under the name it was written with", f"{ty} {var['name']}", sel[0] == sel[1] and len(sel[0]) == 1 and re.search(rf"__field{vi}\b", str(sel[0])) is not None, f"{sel}")
        ks = [k for k in visit(cx, ty, "Visitor", loc) if re.search(r"::visit_enum::<__A>$", k)]

        def model(I_, st, ci, a):
            nm = ci.def_.rsplit("::", 1)[-1]
            if nm == "variant":
                return Ok(Tup(Adt("vp::Field", "Field", (I(vi),)), T("access")))
            if nm in ("newtype_variant",):
                return Ok(T("elem", I(0)))
            if nm in ("unit_variant",):
                return Ok(UNIT)
            if nm in ("struct_variant", "tuple_variant"):
                # the visitor of the variant's contents
                v = I_.reify(st, a[-1])
                st.side["visitor"] = v
                return Ok(T("variantvalue", a[-1]))
            return Ser()(I_, st, ci, a)
        cx.assume("serde's derived field identifiers are numbered in the order of the variants")
        # contents of the variant
        seqs = [k for k in loc if re.match(rf"^<<[^<]*<impl serde_core::de::Deserialize<'de> for {ty}>::deserialize::__Visitor", k) and k.endswith("::visit_seq::<__A>")]
        if kind == "serialize_struct_variant" or kind == "serialize_tuple_variant":
            good = 0
            for k in seqs:
                it, res = cx.run(k, [T("visitor"), T("seq")], on_call=Ser())
                for o in res:
                    g = okv(it, o)
                    if g is not None and g.k == "adt" and g.a[0] == ty and g.a[1] == var["name"]:
                        good += 1
                        exp = [[written.index({i})] for i in range(n)]
                        cx.check("every field is read from where it was written", f"{ty} {var['name']}", [sorted(atoms(x, set())) for x in g.a[2]] == exp, f"{show(g)[:300]} written {written}")
            if not good:
                cx.assume(f"the reader of the fields of {var['name']} has the same compiler name as that of another variant and is not examined")
