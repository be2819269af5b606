"""Every extension builder of the libraries is executed abstractly and the definition it constructs (name, version,
types with parameters and bound, operations with signature, and attached commutation facts) is compared with the
published JSON file of that extension, in both directions."""
import glob, json, os
from interp import Incomplete
import exts

DATA = "/repo/tket-exts/src/tket_exts/data"
# extensions that are deliberately not published to Python users (internal wrapping of legacy operations and barriers)
INTERNAL = {"TKET1", "__tket.barrier.temp"}


def norm(x):
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items() if not (k == "tp" and False)}
    if isinstance(x, list):
        return [norm(v) for v in x]
    return x


def run(cx):
    X = exts.Exts(cx)
    pub = {}
    for f in sorted(glob.glob(DATA + "/**/*.json", recursive=True)):
        d = json.load(open(f))
        rel = os.path.relpath(f, DATA)
        cx.check("published", f"{rel}: file name", rel[:-5].replace("/", ".") == d.get("name"),
                 f"the file holds the definition of {d.get('name')}")
        pub[d["name"]] = d
    cx.floor("published", "published definition files", len(pub), 10)
    found = {}
    for key, name, ver, clos in X.statics():
        d = cx.guard("builder", name, X.load, key, name, ver, clos)
        if d:
            if name in found:
                cx.fail("builder", name, "two extensions with this name")
            found[name] = d
    cx.floor("builder", "extension builders", len(found), 12)
    for name, d in sorted(found.items()):
        if name in INTERNAL and name not in pub:
            continue
        if not cx.check("extension", f"{name} is published", name in pub, f"no published file defines extension {name}, which the libraries implement"):
            continue
        p = pub[name]
        cx.check("version", name, p.get("version") == d["version"],
                 f"published version {p.get('version')}, implemented version {d['version']}")
        for what, mine, theirs in (("type", d["types"], p["types"]), ("operation", d["operations"], p["operations"])):
            for n in sorted(set(mine) | set(theirs)):
                k = f"{name}.{n}"
                if not cx.check(what, f"{k} listed on both sides", n in mine and n in theirs,
                                f"{what} {k} is " + ("implemented but not published" if n in mine else "published but not implemented")):
                    continue
                a, b = mine[n], theirs[n]
                cx.check(what, f"{k} published name", b.get("name") == n and b.get("extension") == name,
                         f"entry says {b.get('extension')}.{b.get('name')}")
                if what == "type":
                    cx.check(what, f"{k} parameters", norm(a["params"]) == norm(b["params"]), f"implemented {a['params']}, published {b['params']}")
                    cx.check(what, f"{k} bound", a["bound"] == b["bound"], f"implemented {a['bound']}, published {b['bound']}")
                else:
                    cx.check(what, f"{k} computed by code", bool(b.get("binary")) == a["binary"], f"implemented {a['binary']}, published {b.get('binary')}")
                    if not a["binary"]:
                        cx.check(what, f"{k} signature", norm(a["signature"]) == norm(b["signature"]),
                                 f"implemented {json.dumps(a['signature'])[:500]}\n  published {json.dumps(b['signature'])[:500]}")
                    cx.check(what, f"{k} attached facts", norm(a["misc"]) == norm(b.get("misc") or {}),
                             f"implemented {a['misc']}, published {b.get('misc')}")
    for name in sorted(set(pub) - set(found)):
        cx.fail("extension", f"{name} is implemented", f"published file defines extension {name}, which no library builds")
    cx.assume("hugr's Extension::add_op/add_type/MakeOpDef::load_all_ops record what they are given; EnumIter visits every variant; "
              "a definition's textual description is not part of the property")
