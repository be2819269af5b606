"""C29: the pytket encoder is executed abstractly on families of concrete regions (every mix of translatable and opaque types,
supported and unsupported operations, shared bits, permuted outputs, allocation, release, register names recorded in the metadata).
The emitted commands are run on symbolic registers and compared with the region: same operations on the same values, every output
found in the register recorded for it, the final permutation a permutation."""
import random
from interp import I, S, Seq, Incomplete, show
import region, enc, pytk
from enc import Q, BIT, ANGLE, A, PAIR
from rules.c28 import describe, whole

FAMILIES = {
    "gates": (enc.TKOPS, 1),
    "gates and bit operations": (enc.TKOPS + enc.BOPS, 2),
    "gates and unsupported operations": (enc.TKOPS + enc.BOPS + enc.UOPS, 4),
    "unsupported operations": (enc.UOPS, 2),
    "unsupported operations without registers": (enc.TKOPS + enc.UOPS + enc.POPS * 3, 1),
}
TOPICS = [("a command uses", "commands use declared registers"), ("a register is", "registers are declared once"), ("the final permutation", "final permutation"),
          ("different operations", "same operations on the same values"), ("an operation is applied", "same operations on the same values"),
          ("output", "outputs are where the record says"), ("an input", "every input has its register")]


def sample(rng, ops):
    g = region.circuit(rng, [rng.choice([Q, Q, BIT, BIT, ANGLE, A, PAIR]) for _ in range(rng.randint(1, 6))], rng.randint(1, 8), allowed=["e." + x[0] for x in ops])
    meta = {}
    if rng.random() < 0.4:
        names = [enc.elem(r, i) for r in ("a", "q") for i in (0, 2, 3)]
        rng.shuffle(names)
        meta[".qubit_registers"] = Seq(names[:rng.randint(0, 6)])
    if rng.random() < 0.4:
        names = [enc.elem(r, i) for r in ("b", "c") for i in (0, 1, 4)]
        rng.shuffle(names)
        meta[".bit_registers"] = Seq(names[:rng.randint(0, 6)])
    if rng.random() < 0.4:
        names = [S(x) for x in ("f0", "alpha", "f2")]
        rng.shuffle(names)
        meta[".input_parameters"] = Seq(names[:rng.randint(0, 3)])
    return g, meta


def run(cx):
    n = 60 if cx.thorough else 10
    jobs = []
    rng = random.Random(29)
    for fam, (ops, w) in FAMILIES.items():
        for i in range(n * 40 * w):
            jobs.append((fam, i) + sample(rng, ops) + (("first", "any")[i % 2],))

    def job(j):
        st = {}
        cx.guard("coverage", f"{j[0]} {j[1]}", one, cx, j, st)
        return st
    res = cx.spread(jobs, job)
    tot = {}
    for st in res:
        for k, v in st.items():
            tot[k] = tot.get(k, 0) + v
    cx.floor("coverage", "regions encoded and compared", tot.get("ok", 0), 3500)
    cx.floor("coverage", "commands compared", tot.get("commands", 0), 8000)
    cx.floor("coverage", "stored subgraphs compared", tot.get("subgraphs", 0), 2000)
    cx.floor("coverage", "regions with permuted qubits", tot.get("permuted", 0), 500)
    cx.floor("coverage", "regions with registers from the metadata", tot.get("named", 0), 1000)


def one(cx, j, st):
    fam, i, g, meta, pick = j
    lb = f"{fam}: region {i}"
    d = describe(g, whole(g)[0])
    m = enc.Enc(cx, meta)
    r2 = random.Random(i)
    m.pick = {"first": lambda l: l[0], "any": lambda l: r2.choice(l)}[pick]
    v, e = enc.encode(cx, m, g)
    if v is None:
        return cx.fail("the encoder ends without panic", lb, f"{e} in {d}"[:900])
    if v.a[1] != "Ok":
        fine = "UnsupportedSubgraphHasNoRegisters" in show(v) and registerless(g)
        st["refused"] = 1
        return cx.check("regions are refused only for subgraphs without registers", lb, fine, f"{show(v)[:300]} in {d}"[:900])
    r = enc.compare(g, v.a[2][0])
    by = {}
    for x in r:
        by.setdefault(next((t for p, t in TOPICS if x.startswith(p)), "stored subgraphs get and return their values"), []).append(x)
    for t in sorted({t for _, t in TOPICS} | {"stored subgraphs get and return their values"}):
        cx.check(t, lb, t not in by, f"{by.get(t, [])[:2]}; region {d}; commands {enc.commands(v.a[2][0])}"[:1100])
    if not r:
        info, subs = v.a[2][0].a[0]
        ser = info.a[2][0]
        st["ok"] = 1
        st["commands"] = len(pytk.field(ser, "commands").a[0])
        st["subgraphs"] = len(subs.a[2][2].a[1])
        st["permuted"] = int(any(enc.reg(x.a[2][0]) != enc.reg(x.a[2][1]) for x in pytk.field(ser, "implicit_permutation").a[0]))
        st["named"] = int(bool(meta))


def registerless(g):
    """some unsupported operations together exchange no register with the rest"""
    us = [n for n, x in g.nodes.items() if x.op.a[1].startswith("e.u.")]
    regs = lambda t: enc.COUNTS.get(t, (0, 0, 0))[:2] != (0, 0)
    es = [(e[0], e[2]) for e in g.edges if e[1] < len(g.nodes[e[0]].outs) and regs(g.nodes[e[0]].outs[e[1]])]
    for b in range(1, 1 << len(us)):
        s = {n for i, n in enumerate(us) if b >> i & 1}
        if not any((x in s) != (y in s) for x, y in es):
            return True
    return False
