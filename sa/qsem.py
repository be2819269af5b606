"""Gate semantics oracle and the evaluation of extracted circuits.

Matrices are the published definitions of the gates (pytket/HUGR documentation); qubit 0 of a gate is the most
significant bit.  Parameters are in radians unless stated.  Extracted circuits are trigonometric polynomials in their
angles of known low degree, so agreement at more points than twice the degree is agreement everywhere."""
import cmath, math
from interp import Incomplete, is_t, is_c, show

pi = math.pi
r2 = 1 / math.sqrt(2)


def mm(a, b):
    n, m, p = len(a), len(b), len(b[0])
    return [[sum(a[i][k] * b[k][j] for k in range(m)) for j in range(p)] for i in range(n)]


def dag(a):
    return [[a[j][i].conjugate() if isinstance(a[j][i], complex) else a[j][i] for j in range(len(a))] for i in range(len(a[0]))]


def eye(n):
    return [[1 if i == j else 0 for j in range(n)] for i in range(n)]


def rx(t):
    c, s = math.cos(t / 2), math.sin(t / 2)
    return [[c, -1j * s], [-1j * s, c]]


def ry(t):
    c, s = math.cos(t / 2), math.sin(t / 2)
    return [[c, -s], [s, c]]


def rz(t):
    return [[cmath.exp(-0.5j * t), 0], [0, cmath.exp(0.5j * t)]]


def phasedx(t, f):
    return mm(rz(f), mm(rx(t), rz(-f)))


def zzphase(t):
    a, b = cmath.exp(-0.5j * t), cmath.exp(0.5j * t)
    return [[a, 0, 0, 0], [0, b, 0, 0], [0, 0, b, 0], [0, 0, 0, a]]


def xxphase(t):
    c, s = math.cos(t / 2), -1j * math.sin(t / 2)
    return [[c, 0, 0, s], [0, c, s, 0], [0, s, c, 0], [s, 0, 0, c]]


def yyphase(t):
    c, s = math.cos(t / 2), -1j * math.sin(t / 2)
    return [[c, 0, 0, -s], [0, c, s, 0], [0, s, c, 0], [-s, 0, 0, c]]


def ctrl(u, n=1):
    """n-controlled u, controls first"""
    d = len(u)
    m = eye(d << n)
    o = len(m) - d
    for i in range(d):
        for j in range(d):
            m[o + i][o + j] = u[i][j]
    return m


def phase(p):
    return cmath.exp(1j * p)


def scal(c, u):
    return [[c * x for x in row] for row in u]


X = [[0, 1], [1, 0]]
Y = [[0, -1j], [1j, 0]]
Z = [[1, 0], [0, -1]]
I1 = [[1, 0], [0, 1]]
H = [[r2, r2], [r2, -r2]]
S = [[1, 0], [0, 1j]]
SDG = [[1, 0], [0, -1j]]
TG = [[1, 0], [0, phase(pi / 4)]]
TDG = [[1, 0], [0, phase(-pi / 4)]]
V = rx(pi / 2)
VDG = rx(-pi / 2)
SX = scal(phase(pi / 4), V)
SXDG = scal(phase(-pi / 4), VDG)
SWAP = [[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]]


def u3(t, p, l):
    """pytket U3 (radians): e^{i(p+l)/2} Rz(p) Ry(t) Rz(l)"""
    return scal(phase((p + l) / 2), mm(rz(p), mm(ry(t), rz(l))))


def tk1(a, b, c):
    return mm(rz(a), mm(rx(b), rz(c)))


# core gates (tket.quantum): name -> (qubits, parameters, matrix of radians)
CORE = {
    "H": (1, 0, lambda: H), "CX": (2, 0, lambda: ctrl(X)), "CY": (2, 0, lambda: ctrl(Y)), "CZ": (2, 0, lambda: ctrl(Z)),
    "CRz": (2, 1, lambda a: ctrl(rz(a))), "T": (1, 0, lambda: TG), "Tdg": (1, 0, lambda: TDG), "S": (1, 0, lambda: S),
    "Sdg": (1, 0, lambda: SDG), "X": (1, 0, lambda: X), "Y": (1, 0, lambda: Y), "Z": (1, 0, lambda: Z),
    "Rx": (1, 1, rx), "Ry": (1, 1, ry), "Rz": (1, 1, rz), "Toffoli": (3, 0, lambda: ctrl(X, 2)),
    "V": (1, 0, lambda: V), "Vdg": (1, 0, lambda: VDG),
}
# non-unitary core operations: (qubits in, qubits out, bits out)
CORE_OTHER = {"Measure": (1, 1, 1), "MeasureFree": (1, 0, 1), "QAlloc": (0, 1, 0), "TryQAlloc": (0, None, 0),
              "QFree": (1, 0, 0), "Reset": (1, 1, 0)}
ARITY = {k: v[0] + v[1] for k, v in CORE.items()}
ARITY.update({k: v[0] for k, v in CORE_OTHER.items()})
DEVICE = {"PhasedX": (1, 2, phasedx), "ZZPhase": (2, 1, zzphase), "Rz": (1, 1, rz)}

# generic angles (radians); far more than twice the degree of any circuit considered
ANGLES = [0.0, 0.37, 1.1, math.pi / 2, 2.13, math.pi, 3.7, -0.9, -2.2, 4.9, 5.8, 7.3, -5.1, 2 * math.pi, 9.1, 11.7, -7.7]


def apply(state, u, qs, n):
    """state: list of 2^n amplitudes; u on qubits qs (qs[0] most significant)"""
    k = len(qs)
    out = list(state)
    pos = [n - 1 - q for q in qs]
    mask = sum(1 << p for p in pos)
    for base in range(1 << n):
        if base & mask:
            continue
        idx = []
        for j in range(1 << k):
            x = base
            for b in range(k):
                if j >> (k - 1 - b) & 1:
                    x |= 1 << pos[b]
            idx.append(x)
        vec = [state[x] for x in idx]
        for r in range(1 << k):
            out[idx[r]] = sum(u[r][c] * vec[c] for c in range(1 << k))
    return out


def unitary(prog, n):
    """prog: list of (matrix, qubits); columns are images of basis states"""
    cols = []
    for b in range(1 << n):
        st = [0j] * (1 << n)
        st[b] = 1
        for u, qs in prog:
            st = apply(st, u, qs, n)
        cols.append(st)
    return [[cols[j][i] for j in range(1 << n)] for i in range(1 << n)]


def same(a, b, up_to_phase=True, tol=1e-9):
    if len(a) != len(b):
        return False
    ph = 1
    if up_to_phase:
        ph = None
        for i in range(len(a)):
            for j in range(len(a)):
                if abs(b[i][j]) > 0.3 / len(a) and abs(a[i][j]) > 1e-6:
                    ph = a[i][j] / b[i][j]
                    break
            if ph:
                break
        if ph is None or abs(abs(ph) - 1) > 1e-6:
            return False
    return all(abs(a[i][j] - ph * b[i][j]) < tol for i in range(len(a)) for j in range(len(a)))


def permute(u, perm, n):
    """apply a qubit permutation to outputs: output position j holds qubit perm[j]"""
    P = [[0] * (1 << n) for _ in range(1 << n)]
    for b in range(1 << n):
        bits = [(b >> (n - 1 - q)) & 1 for q in range(n)]
        o = 0
        for j in range(n):
            o |= bits[perm[j]] << (n - 1 - j)
        P[o][b] = 1
    return mm(P, u)


# ------------------------------------------------------------------ extracted circuits
class Shape(Exception):
    """the extracted circuit is malformed (linear wire misused, unknown operation ...)"""


OPS = {
    "tket_qsystem::extension::qsystem::QSystemOp": (DEVICE, "rad"),
    "tket::ops::TketOp": (CORE, "half"),
}


class Circ:
    """evaluation of wires to numbers / qubits. env: list of values of the input wires; qubit inputs are ('q', i)"""

    def __init__(self, env, bits=None):
        self.env = env
        self.prog = []
        self.memo = {}
        self.used = {}
        self.bits = bits or {}
        self.n = sum(1 for e in env if isinstance(e, tuple) and e[0] == "q")
        self.alloc = 0
        self.names = []

    def num(self, w):
        v = self.value(w)
        if isinstance(v, (int, float)):
            return v
        raise Shape(f"not a number: {show(w)} = {v}")

    def value(self, w):
        if is_t(w, "inw"):
            return self.env[w.a[1].a[1]]
        if is_t(w, "cst"):
            return constval(w.a[1])
        if is_t(w, "wire"):
            outs = self.node(w.a[1])
            i = w.a[2]
            if not is_c(i, "int") or i.a[1] >= len(outs):
                raise Shape(f"output port {show(i)} of {show(w.a[1])[:80]}")
            return outs[i.a[1]]
        if is_t(w, "cin"):
            case, i = w.a[1], w.a[2].a[1]
            vals = self.case_inputs(case)
            if i >= len(vals):
                raise Shape("case input out of range")
            return vals[i]
        raise Shape(f"unknown wire {show(w)[:200]}")

    def case_inputs(self, case):
        v = self.memo.get(("casein", case))
        if v is None:
            raise Shape("case evaluated out of context")
        return v

    def qubit(self, w):
        if w in self.used:
            raise Shape(f"qubit wire used twice: {show(w)[:160]}")
        v = self.value(w)
        if not (isinstance(v, tuple) and v[0] == "q"):
            raise Shape(f"not a qubit: {show(w)[:160]}")
        self.used[w] = True
        return v[1]

    def node(self, nd):
        r = self.memo.get(nd)
        if r is None:
            r = self.eval_node(nd)
            self.memo[nd] = r
        return r

    def eval_node(self, nd):
        if is_t(nd, "condnode"):
            return self.eval_cond(nd)
        if not is_t(nd, "node"):
            raise Shape(f"unknown node {show(nd)[:160]}")
        op, ins = nd.a[1], nd.a[2]
        if ins.k != "seq":
            raise Shape(f"inputs of {show(op)} not enumerable")
        ins = ins.a[0]
        if op.k == "adt":
            fam = OPS.get(op.a[0])
            if fam and op.a[1] in fam[0]:
                nq, npar, f = fam[0][op.a[1]]
                if len(ins) != nq + npar:
                    raise Shape(f"{op.a[1]} used with {len(ins)} inputs")
                # parameters first (pure), then qubits
                ps = [self.num(w) for w in ins[nq:]]
                qs = [self.qubit(w) for w in ins[:nq]]
                if len(set(qs)) != len(qs):
                    raise Shape("repeated qubit")
                if fam[1] == "half":
                    ps = [p * pi for p in ps]
                self.prog.append((f(*ps), qs))
                self.names.append((op.a[1], qs, ps))
                return [("q", q) for q in qs]
            return self.other_op(op, ins)
        if is_t(op):
            return self.other_op(op, ins)
        raise Shape(f"unknown operation {show(op)}")

    def other_op(self, op, ins):
        nm = op.a[1] if op.k == "adt" else op.a[0]
        path = op.a[0] if op.k == "adt" else ""
        if path.endswith("FloatOps"):
            x = [self.num(w) for w in ins]
            if nm == "fneg":
                return [-x[0]]
            if nm == "fdiv":
                return [x[0] / x[1]]
            if nm == "fmul":
                return [x[0] * x[1]]
            if nm == "fadd":
                return [x[0] + x[1]]
            if nm == "fsub":
                return [x[0] - x[1]]
            f = {"fpow": lambda a, b: a ** b, "fmax": max, "fmin": min, "fabs": abs, "ffloor": lambda a: float(math.floor(a)),
                 "fceil": lambda a: float(math.ceil(a)), "fround": lambda a: float(round(a))}.get(nm)
            if f and len(x) == (2 if nm in ("fpow", "fmax", "fmin") else 1):
                return [f(*x)]
        if path.endswith("RotationOp"):
            x = [self.num(w) for w in ins]
            if nm in ("to_halfturns", "from_halfturns_unchecked"):
                return [x[0]]
            if nm == "radd":
                return [x[0] + x[1]]
        if path.endswith("GlobalPhase"):
            self.prog.append(([[cmath.exp(1j * pi * self.num(ins[0]))]], []))
            self.names.append(("GlobalPhase", [], [self.num(ins[0])]))
            return []
        if path.endswith("BoolOp"):
            x = [self.value(w) for w in ins]
            if nm in ("read", "make_opaque"):
                return [x[0]]
            if nm == "not":
                return [("b", not x[0][1])]
        if path.endswith("QSystemOp") or path.endswith("TketOp"):
            r = self.nonunitary(path, nm, ins)
            if r is not None:
                return r
        raise Shape(f"operation {show(op)} not known to the oracle")

    def nonunitary(self, path, nm, ins):
        dev = path.endswith("QSystemOp")
        if nm == "Reset":
            q = self.qubit(ins[0])
            self.prog.append(("reset", q))
            return [("q", q)]
        if nm in ("MeasureReset", "LazyMeasureReset") and dev:
            q = self.qubit(ins[0])
            self.prog.append(("measure_reset", q))
            return [("q", q), ("b", self.outcome(q))]
        if nm in ("Measure", "LazyMeasure") and dev or nm == "MeasureFree" and not dev:
            q = self.qubit(ins[0])
            self.prog.append(("measure_free", q))
            return [("b", self.outcome(q))]
        if nm == "Measure" and not dev:
            q = self.qubit(ins[0])
            self.prog.append(("measure", q))
            return [("q", q), ("b", self.outcome(q))]
        if nm == "QFree":
            q = self.qubit(ins[0])
            self.prog.append(("free", q))
            return []
        return None

    def outcome(self, q):
        if q not in self.bits:
            raise Shape("unexpected measurement")
        return self.bits[q]

    def eval_cond(self, nd):
        cond = nd.a[1]
        cases = nd.a[2:]
        w, others = cond.a[2], cond.a[3]
        v = self.value(w)
        if not (isinstance(v, tuple) and v[0] == "b"):
            raise Shape(f"branch on {show(w)[:160]}")
        sel = int(v[1])
        if sel >= len(cases):
            raise Shape("missing case")
        ins = []
        for o in others.a[0]:
            x = o.a[0][1] if o.k == "tup" else o
            v = self.value(x)
            if isinstance(v, tuple) and v[0] == "q":
                self.qubit(x)
            ins.append(v)
        outs = cases[sel]
        from interp import T, I
        self.memo[("casein", T("case", cond, I(sel)))] = ins
        res = []
        for o in outs.a[0]:
            v = self.value(o)
            if isinstance(v, tuple) and v[0] == "q":
                self.qubit(o)
            res.append(v)
        return res

    def finish(self, outs):
        res = []
        for o in outs:
            v = self.value(o)
            if isinstance(v, tuple) and v[0] == "q":
                self.qubit(o)
            res.append(v)
        return res


def constval(t):
    """number denoted by a constant term"""
    if is_c(t, "flt"):
        return t.a[1]
    if is_c(t, "int"):
        return t.a[1]
    if t.k == "adt" and len(t.a[2]) == 1:
        return constval(t.a[2][0])
    if is_t(t):
        nm = t.a[0]
        args = [x for x in t.a[1:] if hasattr(x, "k")]
        if nm in ("ok", "some") or nm.endswith("::new") or nm.endswith("::extension") or nm.startswith("into:") or nm.endswith("::from"):
            if len(args) == 1:
                return constval(args[0])
    raise Shape(f"constant {show(t)[:160]}")
