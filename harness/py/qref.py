"""Dense reference semantics in numpy, independent of the code under test. Qubit 0 is the least significant."""
import cmath, math
import numpy as np

S2 = 1 / math.sqrt(2)


def u3(t, p, l):
    c, s = math.cos(t / 2), math.sin(t / 2)
    return np.array([[c, -cmath.exp(1j * l) * s], [cmath.exp(1j * p) * s, cmath.exp(1j * (p + l)) * c]])


def _rot(P, t):
    return math.cos(t / 2) * np.eye(len(P)) - 1j * math.sin(t / 2) * P


X = np.array([[0, 1], [1, 0]], complex)
Y = np.array([[0, -1j], [1j, 0]])
Z = np.diag([1, -1]).astype(complex)
SX = 0.5 * np.array([[1 + 1j, 1 - 1j], [1 - 1j, 1 + 1j]])
V = S2 * np.array([[1, -1j], [-1j, 1]])
H = S2 * np.array([[1, 1], [1, -1]], complex)
I2 = np.eye(2, dtype=complex)
ISW = np.array([[1, 0, 0, 0], [0, 0, 1j, 0], [0, 1j, 0, 0], [0, 0, 0, 1]])
# two-qubit matrices: first target is the more significant index
CX2 = np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]], complex)
XC2 = np.array([[1, 0, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0], [0, 1, 0, 0]], complex)
PERES = np.kron(X, I2) @ CX2


def xxpm(t, b, minus):
    c, s = math.cos(t / 2), math.sin(t / 2)
    m = np.eye(4, dtype=complex)
    i, j = (0, 3) if minus else (1, 2)
    m[i, i] = m[j, j] = c
    if minus:
        m[i, j], m[j, i] = -1j * s * cmath.exp(-1j * b), -1j * s * cmath.exp(1j * b)
    else:
        m[i, j], m[j, i] = -1j * s * cmath.exp(1j * b), -1j * s * cmath.exp(-1j * b)
    return m


def dg(f):
    return lambda *a: f(*a).conj().T


GATES = {
    # name: (targets, params, matrix)
    "i": (1, 0, lambda: I2), "x": (1, 0, lambda: X), "y": (1, 0, lambda: Y), "z": (1, 0, lambda: Z), "h": (1, 0, lambda: H),
    "s": (1, 0, lambda: np.diag([1, 1j])), "sdg": (1, 0, lambda: np.diag([1, -1j])),
    "t": (1, 0, lambda: np.diag([1, cmath.exp(1j * math.pi / 4)])), "tdg": (1, 0, lambda: np.diag([1, cmath.exp(-1j * math.pi / 4)])),
    "v": (1, 0, lambda: V), "vdg": (1, 0, dg(lambda: V)), "sx": (1, 0, lambda: SX), "sxdg": (1, 0, dg(lambda: SX)),
    "rx": (1, 1, lambda t: _rot(X, t)), "ry": (1, 1, lambda t: _rot(Y, t)), "rz": (1, 1, lambda t: _rot(Z, t)),
    "p": (1, 1, lambda t: np.diag([1, cmath.exp(1j * t)])), "u2": (1, 2, lambda p, l: u3(math.pi / 2, p, l)), "u": (1, 3, u3),
    "swap": (2, 0, lambda: np.eye(4)[[0, 2, 1, 3]].astype(complex)), "iswap": (2, 0, lambda: ISW), "iswapdg": (2, 0, dg(lambda: ISW)),
    "peres": (2, 0, lambda: PERES), "peresdg": (2, 0, dg(lambda: PERES)),
    "dcx": (2, 0, lambda: XC2 @ CX2),
    "ecr": (2, 0, lambda: np.kron(X, I2) @ _rot(np.kron(Z, X), math.pi / 2)),
    "rxx": (2, 1, lambda t: _rot(np.kron(X, X), t)), "ryy": (2, 1, lambda t: _rot(np.kron(Y, Y), t)),
    "rzz": (2, 1, lambda t: _rot(np.kron(Z, Z), t)), "rzx": (2, 1, lambda t: _rot(np.kron(Z, X), t)),
    "xx_minus_yy": (2, 2, lambda t, b: xxpm(t, b, True)), "xx_plus_yy": (2, 2, lambda t, b: xxpm(t, b, False)),
}


def apply(m, targets, state, n, controls=()):
    """state: array (2**n, ...); targets: most significant first; controls: (qubit, positive)"""
    idx = np.arange(2**n)
    sel = np.ones(2**n, bool)
    for q, pos in controls:
        sel &= ((idx >> q) & 1) == (1 if pos else 0)
    base = sel.copy()
    for t in targets:
        base &= ((idx >> t) & 1) == 0
    base = idx[base]
    k = len(targets)
    offs = [sum(((j >> (k - 1 - b)) & 1) << targets[b] for b in range(k)) for j in range(2**k)]
    out = state.copy()
    for r in range(2**k):
        acc = 0
        for c in range(2**k):
            if m[r, c] != 0:
                acc = acc + m[r, c] * state[base + offs[c]]
        out[base + offs[r]] = acc
    return out


def opname(op):
    return op.type_.name


def dist(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return 1e9
    return float(np.max(np.abs(a - b))) if a.size else 0.0


def dist_phase(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return 1e9
    ip = np.vdot(a, b)
    return dist(a * (ip / abs(ip)), b) if abs(ip) > 1e-12 else dist(a, b)


class Branches:
    """all outcome branches of a circuit on a pure input: classical bits -> density matrix"""

    def __init__(self, psi, nbits, n):
        self.n = n
        self.b = {(0,) * nbits: [psi]}

    def unitary(self, m, targets, controls=()):
        self.b = {k: [apply(m, targets, v, self.n, controls) for v in vs] for k, vs in self.b.items()}

    def phase(self, a):
        self.b = {k: [v * cmath.exp(1j * a) for v in vs] for k, vs in self.b.items()}

    def project(self, q, val, v):
        idx = np.arange(2**self.n)
        return np.where(((idx >> q) & 1) == val, v, 0)

    def measure(self, q, bit):
        nb = {}
        for k, vs in self.b.items():
            for val in (0, 1):
                kk = k[:bit] + (val,) + k[bit + 1:]
                for v in vs:
                    w = self.project(q, val, v)
                    if np.vdot(w, w).real > 1e-14:
                        nb.setdefault(kk, []).append(w)
        self.b = nb

    def reset(self, q):
        nb = {}
        for k, vs in self.b.items():
            for v in vs:
                for val in (0, 1):
                    w = self.project(q, val, v)
                    if np.vdot(w, w).real > 1e-14:
                        nb.setdefault(k, []).append(apply(X, [q], w, self.n) if val else w)
        self.b = nb

    def cond(self, pred, f):
        """apply f (a function on a Branches) where pred(bits)"""
        yes = Branches(None, 0, self.n)
        yes.b = {k: vs for k, vs in self.b.items() if pred(k)}
        no = {k: vs for k, vs in self.b.items() if not pred(k)}
        f(yes)
        for k, vs in yes.b.items():
            no.setdefault(k, []).extend(vs)
        self.b = no

    def rho(self):
        return {k: sum(np.outer(v, v.conj()) for v in vs) for k, vs in self.b.items()}

    def distance(self, other):
        a, b = self.rho(), other.rho()
        z = np.zeros((2**self.n, 2**self.n))
        return max((dist(a.get(k, z), b.get(k, z)) for k in set(a) | set(b)), default=0.0)


def run_op(op, st, cond=None):
    """execute an operation of a toolkit circuit (Python objects) on Branches"""
    name = opname(op)
    if op.is_compound_operation():
        for o in op:
            run_op(o, st)
    elif op.is_classic_controlled_operation():
        reg, bit, want, cmp = op.control_register, op.control_bit, op.expected_value, op.comparison_kind.name

        def pred(k):
            v = k[bit] if reg is None else sum(k[reg.start + i] << i for i in range(reg.size))
            return {"eq": v == want, "neq": v != want, "lt": v < want, "leq": v <= want, "gt": v > want, "geq": v >= want}[cmp]
        st.cond(pred, lambda s: run_op(op.operation, s))
    elif name == "measure":
        for q, c in zip(op.targets, op.classics):
            st.measure(q, c)
    elif name == "reset":
        for q in op.targets:
            st.reset(q)
    elif name == "barrier":
        pass
    elif name == "gphase":
        if op.controls:
            cs = [(c.qubit, bool(c.type_)) for c in op.controls]
            (q, pos) = cs[0]
            e = cmath.exp(1j * op.parameter[0])
            st.unitary(np.diag([1, e]) if pos else np.diag([e, 1]), [q], cs[1:])
        else:
            st.phase(op.parameter[0])
    else:
        nt, npar, f = GATES[name]
        assert len(op.targets) == nt, (name, op.targets)
        st.unitary(f(*op.parameter[:npar]), op.targets, [(c.qubit, bool(c.type_)) for c in op.controls])


def has_nonunitary(ops):
    for o in ops:
        if o.is_compound_operation():
            if has_nonunitary(o):
                return True
        elif o.is_classic_controlled_operation() or opname(o) in ("measure", "reset"):
            return True
    return False


def mqt_unitary(qc):
    """columns are the images of the basis states under the operations (no layouts)"""
    st = Branches(np.eye(2**qc.num_qubits, dtype=complex), 0, qc.num_qubits)
    for op in qc:
        run_op(op, st)
    st.phase(qc.global_phase)
    return st.b[()][0]


def mqt_branches(qc, psi):
    st = Branches(psi, qc.num_classical_bits, qc.num_qubits)
    for op in qc:
        run_op(op, st)
    return st
