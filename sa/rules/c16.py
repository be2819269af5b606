"""C16: typestate of the program's entry point.  Every function of the three crates that can reach a call of
`set_entrypoint` on a program it borrows mutably is executed abstractly on all its paths (everything that cannot reach such a
call is skipped); on each path that returns normally the entry point in force at the end is compared with the entry point the
function was called with.  Functions that are themselves entries (pass `run` methods, functions nobody in the crates calls)
are judged; helpers they call are inlined, so that a move and its restoration may live in different functions."""
import re
from interp import T, UNIT, DEFAULT, show, subterms
from stages import object_of, is_err

KEY = re.compile(r'"key": ?"((?:[^"\\]|\\.)*)"')


def call_graph(P):
    """key -> callee keys, over the functions of the crates (closures belong to their parent's callees by reference)"""
    local = set(P.local_keys())
    g = {}
    direct = set()
    for k in local:
        line = P.raw[k][1]
        g[k] = {c.replace('\\"', '"') for c in KEY.findall(line)} & local
        if "set_entrypoint" in line:
            direct.add(k)
    for k in local:  # closures are reached through their parent
        if "::{closure#" in k:
            par = k.split("::{closure#")[0]
            if par in g:
                g[par].add(k)
    return g, direct


def hook(I_, st, ci, a):
    d = ci.def_
    nm = d.rsplit("::", 1)[-1]
    if nm == "set_entrypoint" and "hugr" in d:
        r, v = object_of(I_.reify(st, a[0])), I_.reify(st, a[1])
        I_.log(st, "vp::set_entry", [r, v], UNIT, ci, ci.where, ci.raw)
        st.side["ep"] = st.side.get("ep", ()) + ((r, v),)
        return UNIT
    if nm == "entrypoint" and "hugr" in d:
        return current(st, object_of(I_.reify(st, a[0])))
    return DEFAULT


def current(st, r):
    for rr, v in reversed(st.side.get("ep", ())):
        if rr == r:
            return v
    return T("entry0", r)


def run(cx):
    P = cx.P
    g, direct = call_graph(P)
    reach = set(direct)
    again = True
    while again:
        again = False
        for k, cs in g.items():
            if k not in reach and cs & reach:
                reach.add(k)
                again = True
    callers = {}
    for k, cs in g.items():
        for c in cs:
            callers.setdefault(c, set()).add(k)
    roots, owned = [], []
    for k in sorted(reach):
        f = P.get(k)
        if "::{closure#" in k or f is None:
            continue
        if not any(re.match(r"&('\w+ )?mut ", t) for t in f["tys"][1:f["argc"] + 1]):
            owned.append(k)
            continue
        is_pass = "ComposablePass" in k and k.endswith("::run")
        outside = [c for c in callers.get(k, ()) if c not in reach]
        if is_pass or not callers.get(k) or f.get("vis") == "pub":
            roots.append(k)
    n = npaths = 0
    names = set()
    rootset = set(roots)
    for k in roots:
        key = re.sub(r"::<[^<>]*(<[^<>]*>)?[^<>]*>$", "", k)

        def inl(kk, me=k):
            # inside: only what can move the entry point; entries other than this one keep it (judged on their own)
            return kk in reach and (kk == me or kk not in rootset)

        def go():
            nonlocal n, npaths
            it, outs = cx.run(k, on_call=hook, inline=inl, loop_decisions=2, max_paths=20000)
            for o in outs:
                if o.kind == "panic":
                    continue
                if o.kind != "ret":
                    if "loop" not in str(o.st.cutreason):
                        cx.fail("entry point restored", key, f"path not analysed: {o.st.cutreason}")
                    continue
                v = it.reify(o.st, o.value)
                if is_err(v):
                    continue
                npaths += 1
                for r in {a for a, _ in o.st.side.get("ep", ())}:
                    names.add(key)
                    end = current(o.st, r)
                    e0 = T("entry0", r)
                    ok = end == e0
                    if not ok and e0 in set(subterms(end)):
                        # a module has no entry point of its own: the function found in it takes its place
                        mod = any(f[0] == "b" and v is True and "is_module" in show(f[1])
                                  for f, v in o.facts.items() if isinstance(f, tuple) and len(f) > 1)
                        ok = mod and end != e0 and "children" in show(end) and "module_root" not in show(end)
                    last = [e for e in o.events if e.fn == "vp::set_entry"][-1]
                    cx.check("entry point restored", key, ok,
                             f"{k} returns normally with the entry point at {show(end)[:200]} instead of the one it was given "
                             f"(last moved at {last.where} line {last.line})")
        cx.guard("entry point restored", key, go)
        n += 1
    cx.floor("coverage", "functions that move a borrowed program's entry point", len(names), 1)
    cx.floor("coverage", "normal paths", npaths, 20)
    cx.assume("passes of the hugr-passes crate keep the entry point of the program they are given")
