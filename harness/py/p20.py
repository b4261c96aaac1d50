"""P20: Qiskit circuits and toolkit circuits convert into each other faithfully."""
import cmath, math, sys, warnings
import numpy as np
import vf
from vf import Skip, Suite
import qref
from qref import Branches, dist
from qiskit import transpile
from qiskit.circuit import AncillaRegister, Barrier, ClassicalRegister, ControlledGate, Gate, Instruction, Measure, Parameter, ParameterExpression, QuantumCircuit, QuantumRegister, Reset
from qiskit.circuit import library as L
from qiskit.quantum_info import Operator
from mqt.core import load
from mqt.core.ir import QuantumComputation, Permutation
from mqt.core.ir.operations import (ClassicControlledOperation, CompoundOperation, Control, NonUnitaryOperation, OpType, StandardOperation,
                                    SymbolicOperation)
from mqt.core.ir.symbolic import Expression, Term, Variable
from mqt.core.plugins.qiskit import mqt_to_qiskit, qiskit_to_mqt

warnings.simplefilter("ignore")
PI = math.pi


def angle(r):
    k = r.random()
    if k < 0.35:
        return r.choice([0.0, PI, -PI, PI / 2, -PI / 2, PI / 4, -PI / 4, 2 * PI, 3 * PI / 2, 4 * PI, -2 * PI, 3 * PI])
    if k < 0.4:
        return r.choice([1, 2, 0, -1, 3])  # integers
    if k < 0.45:
        return r.uniform(-1, 1) * 10.0 ** r.randint(-9, -3)
    return r.uniform(-7, 7)


# standard gates: constructor, number of parameters, number of qubits
STD = [(L.IGate, 0, 1), (L.XGate, 0, 1), (L.YGate, 0, 1), (L.ZGate, 0, 1), (L.HGate, 0, 1), (L.SGate, 0, 1), (L.SdgGate, 0, 1), (L.TGate, 0, 1),
       (L.TdgGate, 0, 1), (L.SXGate, 0, 1), (L.SXdgGate, 0, 1), (L.RXGate, 1, 1), (L.RYGate, 1, 1), (L.RZGate, 1, 1), (L.PhaseGate, 1, 1),
       (L.U1Gate, 1, 1), (L.U2Gate, 2, 1), (L.U3Gate, 3, 1), (L.UGate, 3, 1), (L.RGate, 2, 1),
       (L.CXGate, 0, 2), (L.CYGate, 0, 2), (L.CZGate, 0, 2), (L.CHGate, 0, 2), (L.CSGate, 0, 2), (L.CSdgGate, 0, 2), (L.CSXGate, 0, 2),
       (L.CPhaseGate, 1, 2), (L.CU1Gate, 1, 2), (L.CRXGate, 1, 2), (L.CRYGate, 1, 2), (L.CRZGate, 1, 2), (L.CU3Gate, 3, 2), (L.CUGate, 4, 2),
       (L.SwapGate, 0, 2), (L.iSwapGate, 0, 2), (L.DCXGate, 0, 2), (L.ECRGate, 0, 2), (L.RXXGate, 1, 2), (L.RYYGate, 1, 2), (L.RZZGate, 1, 2),
       (L.RZXGate, 1, 2), (L.XXMinusYYGate, 2, 2), (L.XXPlusYYGate, 2, 2),
       (L.CCXGate, 0, 3), (L.CCZGate, 0, 3), (L.CSwapGate, 0, 3), (L.RCCXGate, 0, 3), (L.RC3XGate, 0, 4), (L.C3XGate, 0, 4), (L.C3SXGate, 0, 4), (L.C4XGate, 0, 5)]
CONTROLLABLE = [g for g in STD if g[0] in (L.XGate, L.YGate, L.ZGate, L.HGate, L.SGate, L.SdgGate, L.TGate, L.TdgGate, L.SXGate, L.SXdgGate, L.RXGate, L.RYGate,
                                           L.RZGate, L.PhaseGate, L.U2Gate, L.UGate, L.U3Gate, L.SwapGate, L.iSwapGate, L.DCXGate, L.ECRGate, L.RXXGate, L.RZZGate,
                                           L.RZXGate, L.XXMinusYYGate, L.XXPlusYYGate, L.CXGate, L.CPhaseGate, L.CRYGate, L.CSwapGate)]


def controlled(g, nc, st):
    try:
        return g.control(nc, ctrl_state=st, annotated=False)
    except Exception:
        return g


def composite(op):
    """a user-defined block: its name says nothing about what it does"""
    return type(op) in (Gate, Instruction, ControlledGate) and op.definition is not None


def gate(r, n, sym=None):
    """a random gate on at most n qubits; sym: parameters to draw from"""
    k = r.random()

    def params(m):
        return [sym(r) if sym and r.random() < 0.7 else angle(r) for _ in range(m)]
    if k < 0.62:
        c, m, q = r.choice([g for g in STD if g[2] <= n])
        return c(*params(m))
    if k < 0.85 and n >= 2:
        c, m, q = r.choice([g for g in CONTROLLABLE if g[2] < n])
        nc = r.randint(1, min(3, n - q))
        return controlled(c(*params(m)), nc, r.choice([None, r.randrange(2 ** nc), r.randrange(2 ** nc)]))
    if k < 0.90 and n >= 2:
        nc = r.randint(1, min(4, n - 1))
        st = r.choice([None, r.randrange(2 ** nc)])
        return r.choice([lambda: L.MCXGate(nc, ctrl_state=st), lambda: L.MCPhaseGate(params(1)[0], nc, ctrl_state=st)])()
    if k < 0.94 and n >= 3:
        # several controls with ancillas: the ancillas are not needed by the toolkit
        nc = r.randint(2, 4)
        c = r.choice([L.MCXRecursive, L.MCXVChain, L.MCXGrayCode])
        g = c(nc)
        if g.num_qubits <= n:
            return g
        return L.HGate()
    if sym is None:
        # composite gates
        m = r.randint(1, min(3, n))
        qc = QuantumCircuit(m, name=r.choice(["blk", "my_gate", "foo", "h", "x", "cx", "u", "swap", "barrier", "measure", "sxdg", "rx"]), global_phase=r.choice([0, 0, angle(r)]))
        for _ in range(r.randint(1, 4)):
            g = gate(r, m)
            qc.append(g, r.sample(range(m), g.num_qubits))
        g = qc.to_gate() if r.random() < 0.7 and all(isinstance(i.operation, Gate) for i in qc.data) else qc.to_instruction()
        if isinstance(g, Gate) and m < n and r.random() < 0.5:
            return controlled(g, r.randint(1, min(2, n - m)), 0 if r.random() < 0.3 else None)
        if r.random() < 0.2:
            g = g.inverse()
        return g
    return L.HGate()


def run_qiskit(circ, st, qubits=None, clbits=None, binding=None):
    """independent execution of a Qiskit circuit; gates by the matrices Qiskit itself defines"""
    qm = {q: (i if qubits is None else qubits[i]) for i, q in enumerate(circ.qubits)}
    cm = {c: (i if clbits is None else clbits[i]) for i, c in enumerate(circ.clbits)}
    for ins in circ.data:
        op = ins.operation
        q = [qm[x] for x in ins.qubits]
        c = [cm[x] for x in ins.clbits]
        if isinstance(op, Measure):
            st.measure(q[0], c[0])
        elif isinstance(op, Reset):
            st.reset(q[0])
        elif isinstance(op, Barrier):
            pass
        elif isinstance(op, Gate):
            m = Operator(op).data
            st.unitary(m, q[::-1])  # Qiskit: first qubit least significant
        else:
            run_qiskit(op.definition, st, q, c)
    if circ.global_phase != 0:
        st.phase(float(circ.global_phase))


def pure(circ):
    return all((isinstance(i.operation, (Gate, Barrier)) or
                (not isinstance(i.operation, (Measure, Reset)) and i.operation.definition is not None and pure(i.operation.definition))) for i in circ.data)


def rand_state(r, n):
    g = np.random.default_rng(r.getrandbits(63))
    v = g.normal(size=2**n) + 1j * g.normal(size=2**n)
    return v / np.linalg.norm(v)


def describe(circ):
    out = []
    for reg in circ.qregs + circ.cregs:
        out.append(f"{type(reg).__name__}({reg.size},{reg.name!r})")
    if circ.global_phase != 0:
        out.append(f"phase {circ.global_phase}")
    for i in circ.data:
        o = i.operation
        cs = f" ctrl_state={o.ctrl_state}/{o.num_ctrl_qubits}" if hasattr(o, "ctrl_state") else ""
        d = ""
        if getattr(o, "definition", None) is not None and (not isinstance(o, Gate) or composite(o)) and len(out) < 60:
            d = " {" + describe(o.definition) + "}"
        out.append(f"{o.name}{[str(p) for p in o.params] if o.params else ''}{cs} q{[circ.find_bit(q).index for q in i.qubits]}"
                   + (f" c{[circ.find_bit(q).index for q in i.clbits]}" if i.clbits else "") + d)
    return "; ".join(out)


def registers(r, n, nc, anc=True):
    qc = QuantumCircuit()
    anc_only = False
    names = ["q", "b", "a", "reg", "x1", "z"]
    r.shuffle(names)
    left = n
    while left > 0:
        s = left if r.random() < 0.4 else r.randint(1, left)
        nm = names.pop() if len(names) > 1 else None
        if nm is None:
            s, nm = left, names.pop()
        # the toolkit keeps ancillary registers behind all others
        anc_only = anc_only or (anc and r.random() < 0.15)
        qc.add_register(AncillaRegister(s, nm) if anc_only else QuantumRegister(s, nm))
        left -= s
    cn = ["c", "m", "meas", "d"]
    r.shuffle(cn)
    left = nc
    while left > 0:
        s = left if r.random() < 0.5 or len(cn) == 1 else r.randint(1, left)
        qc.add_register(ClassicalRegister(s, cn.pop()))
        left -= s
    return qc


def fill(r, qc, k, dynamic, sym=None):
    n = qc.num_qubits
    for _ in range(k):
        u = r.random()
        if dynamic and u < 0.12 and qc.num_clbits:
            qc.measure(r.randrange(n), r.randrange(qc.num_clbits))
        elif dynamic and u < 0.2:
            qc.reset(r.randrange(n))
        elif u < 0.25:
            qc.barrier(r.sample(range(n), r.randint(1, n)))
        elif dynamic and u < 0.29 and qc.num_clbits:
            # a composite instruction with a measurement inside
            m = r.randint(1, min(2, n))
            sub = QuantumCircuit(m, 1, name="sub")
            for _ in range(2):
                g = gate(r, m)
                sub.append(g, r.sample(range(m), g.num_qubits))
            sub.measure(r.randrange(m), 0)
            if r.random() < 0.3:
                sub.reset(r.randrange(m))
            qc.append(sub.to_instruction(), r.sample(range(n), m), [r.randrange(qc.num_clbits)])
        else:
            g = gate(r, n, sym)
            qc.append(g, r.sample(range(n), g.num_qubits))


def check_ancilla_gates(circ):
    """MCX variants with ancillas act as plain MCX only; the ancilla must be in zero for the V-chain"""
    return any(i.operation.name in ("mcx_vchain",) for i in circ.data)


def import_case(c, n, dynamic):
    r = c.rng
    nc = r.randint(1, 3) if dynamic else r.choice([0, 0, 1])
    circ = registers(r, n, nc)
    fill(r, circ, r.randint(1, 10 if n < 4 else 7), dynamic)
    if r.random() < 0.4:
        circ.global_phase = angle(r)
    c.announce(describe(circ))
    q = load(circ) if r.random() < 0.3 else qiskit_to_mqt(circ)
    compare_import(c, circ, q, r)


def compare_registers(c, circ, q):
    qs = {x.name: x for x in circ.qregs}
    got = {**q.qregs, **q.ancregs}
    c.check(set(got) == set(qs), "registers", lambda: f"{sorted(got)} instead of {sorted(qs)}")
    for nm, x in qs.items():
        if nm in got:
            c.check(got[nm].size == x.size and got[nm].start == circ.find_bit(x[0]).index, "registers", lambda: f"{nm}: {got[nm]}")
            c.check((nm in q.ancregs) == isinstance(x, AncillaRegister), "ancillary-registers", nm)
    for x in circ.cregs:
        c.check(x.name in q.cregs and q.cregs[x.name].size == x.size and q.cregs[x.name].start == circ.find_bit(x[0]).index, "classical-registers", x.name)
    c.check(len(q.cregs) == len(circ.cregs), "classical-registers", lambda: str(list(q.cregs)))
    c.check(q.num_qubits == circ.num_qubits and q.num_classical_bits == circ.num_clbits, "bit-counts", lambda: repr(q))


def count_ops(circ, name):
    return sum(count_ops(i.operation.definition, name) if composite(i.operation) else i.operation.name == name for i in circ.data)


def count_mqt(ops, name):
    return sum(count_mqt(o, name) if o.is_compound_operation() else (qref.opname(o) == name) for o in ops)


def compare_import(c, circ, q, r):
    compare_registers(c, circ, q)
    n = circ.num_qubits
    c.check(count_mqt(q, "barrier") == count_ops(circ, "barrier"), "barriers", lambda: f"{count_mqt(q, 'barrier')} instead of {count_ops(circ, 'barrier')}")
    if pure(circ):
        a = Branches(np.eye(2**n, dtype=complex), 0, n)
        run_qiskit(circ, a)
        a = a.b[()][0]
        b = qref.mqt_unitary(q)
        if check_ancilla_gates(circ):
            raise Skip
        d = dist(a, b)
        c.count("unitaries compared")
        c.check(d < 1e-7, "computation" if qref.dist_phase(a, b) > 1e-7 else "global-phase", lambda: f"unitaries differ by {d}")
    else:
        psi = rand_state(r, n)
        a = Branches(psi, circ.num_clbits, n)
        run_qiskit(circ, a)
        b = qref.mqt_branches(q, psi)
        d = a.distance(b)
        c.count("outcome ensembles compared")
        c.count("outcomes", len(a.b))
        c.check(d < 1e-7, "computation", lambda: f"ensembles differ by {d}")


def import_unitary(c):
    import_case(c, c.rng.choice([1, 2, 2, 3, 3, 4, 5]), False)


def import_dynamic(c):
    import_case(c, c.rng.choice([1, 2, 2, 3, 3, 4]), True)


def single_gates(c):
    """every standard gate, every control pattern and qubit order once, in turn"""
    r = c.rng
    i = c.local
    if i < 3 * len(STD):
        g, m, q = STD[i % len(STD)]
        op = g(*[angle(r) for _ in range(m)])
    else:
        g, m, q = CONTROLLABLE[i % len(CONTROLLABLE)]
        nc = 1 + (i // len(CONTROLLABLE)) % 3
        op = controlled(g(*[angle(r) for _ in range(m)]), nc, (i // 7) % 2 ** nc)
    n = min(6, op.num_qubits + r.randint(0, 1))
    if op.num_qubits > n:
        raise Skip
    circ = QuantumCircuit(n)
    if r.random() < 0.3 and not (hasattr(op, "ctrl_state") and op.ctrl_state != 2**op.num_ctrl_qubits - 1):
        op = op.inverse()
    circ.append(op, r.sample(range(n), op.num_qubits))
    c.announce(describe(circ))
    q = qiskit_to_mqt(circ)
    compare_import(c, circ, q, r)
    # and back
    try:
        back = mqt_to_qiskit(q)
    except (TypeError, NotImplementedError):
        c.count("exports refused")
        return
    compare_export(c, q, back, r)


def vchain(c):
    """multi-controlled gates with ancilla qubits: same computation for ancillas in the ground state"""
    r = c.rng
    nc = r.randint(1, 5)
    g = r.choice([L.MCXVChain, L.MCXRecursive, L.MCXGrayCode])(nc)
    n = g.num_qubits
    circ = QuantumCircuit(n)
    for q in range(nc + 1):
        k = r.random()
        if k < 0.2:
            circ.x(q)
        elif k < 0.4:
            circ.h(q)
        elif k < 0.9:
            circ.ry(r.uniform(0.5, 2.5), q)
    circ.append(g, range(n))
    c.announce(describe(circ))
    m = qiskit_to_mqt(circ)
    psi = np.zeros(2**n, complex)
    psi[0] = 1
    a = Branches(psi, 0, n)
    run_qiskit(circ, a)
    b = Branches(psi, 0, n)
    for op in m:
        qref.run_op(op, b)
    d = dist(a.b[()][0], b.b[()][0])
    c.check(d < 1e-7, "computation:ancilla-controlled", lambda: f"states differ by {d}")


def linear(circ):
    for i in circ.data:
        o = i.operation
        for p in o.params:
            if isinstance(p, ParameterExpression):
                for v in p.parameters:
                    g = p.gradient(v)
                    if isinstance(g, ParameterExpression) and g.parameters:
                        return False
        if getattr(o, "definition", None) is not None and not linear(o.definition):
            return False
    return True


def symbolic(c):
    r = c.rng
    n = r.choice([1, 2, 3])
    names = r.sample(["theta", "phi", "x", "a_1", "alpha", "β", "t[0]", "y2"], r.randint(1, 3))
    ps = [Parameter(x) for x in names]

    def lin(r):
        e = r.choice(ps)
        k = r.random()
        if k < 0.25:
            return e
        if k < 0.35:
            return -e
        e = r.choice([e * r.choice([2, 0.5, -1, 3.25, -2, 1e-5, 1e6, 2.5e-7]), e / r.choice([2, 4, -2, 3.0])])
        for _ in range(r.randint(0, 2)):
            k = r.random()
            if k < 0.4:
                e = e + r.choice([1, 0.5, -1, -0.25, PI, -PI / 2, 1e-6, -2.5e-5, 1.5e9, 3])
            elif k < 0.7:
                e = e + r.choice(ps) * r.choice([1, 2, -1, 0.125])
            else:
                e = r.choice([1, -2.5, 0.75]) - e
        if r.random() < 0.1:
            e = e * 2
        return e
    circ = QuantumCircuit(n)
    if r.random() < 0.3:
        circ.global_phase = angle(r)
    for _ in range(r.randint(1, 6)):
        g = gate(r, n, lin)
        circ.append(g, r.sample(range(n), g.num_qubits))
    if r.random() < 0.3:
        # the same inside a composite
        outer = QuantumCircuit(n)
        outer.append(circ.to_instruction(), range(n))
        circ = outer
    c.announce(describe(circ))
    if check_ancilla_gates(circ):
        raise Skip
    try:
        q = qiskit_to_mqt(circ)
    except NotImplementedError as e:
        # e.g. Qiskit defines some controlled gates with non-linear expressions
        c.check(not linear(circ), "linear-expression-refused", lambda: f"{e} from {e.__cause__!r}")
        c.count("symbolic circuits refused")
        c.fingerprint = "refused"
        c.nontrivial = False
        return
    val = {p: r.uniform(-3, 3) for p in ps}
    used = set(circ.parameters)
    bound = circ.assign_parameters({p: val[p] for p in ps if p in used})
    a = Branches(np.eye(2**n, dtype=complex), 0, n)
    run_qiskit(bound, a)
    a = a.b[()][0]
    c.check(not q.is_variable_free() or not q_params(circ), "variables-lost", "the imported circuit has no variables")
    asg = {Variable(p.name): val[p] for p in ps}
    c.check({v.name for v in q.variables} <= set(names), "variables", lambda: str({v.name for v in q.variables}))
    if r.random() < 0.5:
        inst = q.instantiate(asg)
    else:
        q.instantiate_inplace(asg)
        inst = q
    c.check(inst.is_variable_free(), "variables-left", lambda: repr(inst))
    b = qref.mqt_unitary(inst)
    d = dist(a, b)
    c.count("instantiations compared")
    c.check(d < 1e-6, "symbolic-computation" if qref.dist_phase(a, b) > 1e-6 else "symbolic-global-phase", lambda: f"unitaries differ by {d} at {val}")


def q_params(circ):
    return any(len(getattr(p, "parameters", ())) > 0 for i in circ.data for p in i.operation.params)


def compare_export(c, q, circ, r, exact=True):
    n = q.num_qubits
    c.check(circ.num_qubits == n and circ.num_clbits == q.num_classical_bits, "export-bit-counts", lambda: describe(circ))
    if circ.num_qubits != n:
        return
    regs = {**q.qregs, **q.ancregs}
    c.check([x.name for x in circ.qregs] == [x.name for x in sorted(regs.values(), key=lambda x: x.start)], "export-registers", lambda: describe(circ))
    for x in circ.qregs:
        c.check(x.name in regs and x.size == regs[x.name].size and isinstance(x, AncillaRegister) == (x.name in q.ancregs), "export-registers", lambda: x.name)
    for x in circ.cregs:
        c.check(x.name in q.cregs and x.size == q.cregs[x.name].size and circ.find_bit(x[0]).index == q.cregs[x.name].start, "export-classical-registers", lambda: x.name)
    if not qref.has_nonunitary(q):
        a = Branches(np.eye(2**n, dtype=complex), 0, n)
        run_qiskit(circ, a)
        a = a.b[()][0]
        b = qref.mqt_unitary(q)
        d = dist(a, b)
        c.count("exported unitaries compared")
        c.check(d < 1e-7, "export-computation" if qref.dist_phase(a, b) > 1e-7 else "export-global-phase", lambda: f"unitaries differ by {d}: {describe(circ)}")
    else:
        psi = rand_state(r, n)
        a = Branches(psi, circ.num_clbits, n)
        run_qiskit(circ, a)
        b = qref.mqt_branches(q, psi)
        d = a.distance(b)
        c.count("exported ensembles compared")
        c.check(d < 1e-7, "export-computation", lambda: f"ensembles differ by {d}: {describe(circ)}")


EXPORTABLE = [g for g in qref.GATES if g not in ("iswapdg", "peres", "peresdg")]
OTHER = ["iswapdg", "peres", "peresdg"]


def mqt_op(r, n, nc, depth, dynamic, other):
    u = r.random()
    if depth > 0 and u < 0.08:
        return CompoundOperation([mqt_op(r, n, nc, depth - 1, dynamic, other) for _ in range(r.randint(1, 4))])
    if dynamic and u < 0.2 and nc:
        k = r.randint(1, min(n, nc, 2))
        return NonUnitaryOperation(r.sample(range(n), k), r.sample(range(nc), k))
    if dynamic and u < 0.27:
        return NonUnitaryOperation(r.sample(range(n), r.randint(1, n)))
    if u < 0.3:
        return StandardOperation(r.sample(range(n), r.randint(1, n)), OpType.barrier)
    pool = OTHER if other and n > 1 and r.random() < 0.2 else EXPORTABLE
    g = r.choice([g for g in pool if qref.GATES[g][0] <= n])
    nt, npar, _ = qref.GATES[g]
    qs = r.sample(range(n), n)
    k = 0 if r.random() < 0.5 else r.randint(0, min(3, n - nt))
    ctl = {Control(x, r.choice([Control.Type.Pos, Control.Type.Pos, Control.Type.Neg])) for x in qs[nt:nt + k]}
    return StandardOperation(ctl, qs[:nt], getattr(OpType, g), [float(angle(r)) for _ in range(npar)])


def mqt_circuit(r, n, nc, dynamic, other, k=None):
    q = QuantumComputation()
    left, names = n, ["q", "b", "a", "reg", "x1", "z"]
    r.shuffle(names)
    while left > 0:
        s = left if r.random() < 0.4 or len(names) == 1 else r.randint(1, left)
        if r.random() < 0.15:
            q.add_ancillary_register(s, names.pop())
        else:
            if q.num_ancilla_qubits:
                s = left
                q.add_ancillary_register(s, names.pop())
            else:
                q.add_qubit_register(s, names.pop())
        left -= s
    left, names = nc, ["c", "m", "meas", "d"]
    r.shuffle(names)
    while left > 0:
        s = left if r.random() < 0.5 or len(names) == 1 else r.randint(1, left)
        q.add_classical_register(s, names.pop())
        left -= s
    for _ in range(r.randint(1, 9) if k is None else k):
        q.append(mqt_op(r, n, nc, 2, dynamic, other))
    if r.random() < 0.4:
        q.gphase(angle(r))
    if r.random() < 0.3:
        q.name = r.choice(["circ", "my circuit", "x-1"])
    return q


def has_other(ops):
    return any(has_other(o) if o.is_compound_operation() else qref.opname(o) in OTHER + ["gphase"] for o in ops)


def export(c):
    r = c.rng
    n = r.choice([1, 2, 2, 3, 3, 4])
    dynamic = r.random() < 0.4
    q = mqt_circuit(r, n, r.randint(1, 3) if dynamic else r.choice([0, 2]), dynamic, r.random() < 0.2)
    c.announce(str(q) + q.qasm3_str())
    try:
        circ = mqt_to_qiskit(q)
    except (TypeError, NotImplementedError) as e:
        c.check(has_other(q), "export-refused", lambda: f"{type(e).__name__}: {e}")
        c.count("exports refused")
        return
    c.check(circ.name == q.name or not q.name, "export-name", lambda: circ.name)
    compare_export(c, q, circ, r)
    # and back again: importing the exported circuit gives the same computation and structure
    back = qiskit_to_mqt(circ)
    compare_registers(c, circ, back)
    if not qref.has_nonunitary(q):
        d = dist(qref.mqt_unitary(q), qref.mqt_unitary(back))
        c.check(d < 1e-7, "round-trip", lambda: f"unitaries differ by {d}")
    else:
        psi = rand_state(r, n)
        d = qref.mqt_branches(q, psi).distance(qref.mqt_branches(back, psi))
        c.check(d < 1e-7, "round-trip", lambda: f"ensembles differ by {d}")


def refused(c):
    """what cannot be represented must be an error"""
    r = c.rng
    n = r.randint(1, 3)
    q = mqt_circuit(r, n, 2, True, False, r.randint(0, 4))
    k = r.randrange(3)
    if k == 0:
        op = ClassicControlledOperation(StandardOperation(r.randrange(n), OpType.x), r.randrange(2), r.randrange(2))
    elif k == 1:
        op = SymbolicOperation(r.randrange(n), OpType.rx, [Expression([Term(Variable("x"), 2.0)], 1.0)])
    else:
        op = StandardOperation(set(), [], OpType.gphase, [0.5])
        op = ClassicControlledOperation(StandardOperation(r.randrange(n), OpType.x), q.cregs[list(q.cregs)[0]], 1)
    if r.random() < 0.3:
        op = CompoundOperation([StandardOperation(0, OpType.h), op])
    q.append(op)
    c.announce(str(q))
    c.raises(lambda: mqt_to_qiskit(q), "export-drops-operation", (NotImplementedError, TypeError))


def refused_import(c):
    """control flow, delays, unitaries and initializations: the same computation or an error"""
    r = c.rng
    n = r.randint(1, 3)
    circ = registers(r, n, 2, False)
    fill(r, circ, r.randint(0, 3), True)
    k = r.randrange(8)
    qs = r.sample(range(n), n)
    exact = None
    if k == 0:
        with circ.if_test((circ.clbits[0], 1)):
            circ.x(qs[0])
    elif k == 1:
        with circ.for_loop(range(2)):
            circ.h(qs[0])
    elif k == 2:
        with circ.while_loop((circ.clbits[0], 1)):
            circ.h(qs[0])
            circ.measure(qs[0], 0)
    elif k == 3:
        with circ.switch(circ.clbits[0]) as case:
            with case(0):
                circ.x(qs[0])
    elif k == 4:
        circ.delay(100, qs[0], "ns")
        exact = True
    elif k == 5:
        m = np.linalg.qr(np.random.default_rng(r.getrandbits(40)).normal(size=(2, 2)))[0]
        circ.unitary(m, [qs[0]])
        exact = True
    elif k == 6:
        circ.initialize([1 / math.sqrt(2), 1j / math.sqrt(2)], qs[0])
        exact = True
    else:
        circ.append(L.QFT(n).to_instruction(), range(n))
        exact = True
    fill(r, circ, r.randint(0, 2), False)
    c.announce(describe(circ) if k not in (1, 2, 3) else f"control flow {k} on {n} qubits")
    c.fingerprint = c.desc + str(c.local)
    try:
        q = qiskit_to_mqt(circ)
    except Exception as e:
        c.check(isinstance(e, (NotImplementedError, TypeError, ValueError)), "import-error-kind", lambda: f"{type(e).__name__}: {e}")
        c.count("imports refused")
        c.check(exact is None or k == 4, "import-refused", lambda: f"{type(e).__name__}: {e}: {e.__cause__!r}")
        return
    if k < 4:
        c.fail("import-drops-control-flow", str(q))
        return
    if k == 4:
        return
    psi = rand_state(r, n)
    a = Branches(psi, circ.num_clbits, n)
    run_qiskit(circ, a)
    d = a.distance(qref.mqt_branches(q, psi))
    c.check(d < 1e-7, "computation", lambda: f"ensembles differ by {d}")


def layouts(c):
    """transpiled circuits: the functionality with respect to the layouts is that of the original circuit"""
    r = c.rng
    n = r.choice([1, 2, 3, 3, 4])
    dev = r.randint(n, 5)
    circ = registers(r, n, 0, False)
    for _ in range(r.randint(1, 6)):
        g, m, k = r.choice([x for x in STD if x[2] <= min(n, 2)])
        circ.append(g(*[angle(r) for _ in range(m)]), r.sample(range(n), k))
    edges = [[i, i + 1] for i in range(dev - 1)] + [[i + 1, i] for i in range(dev - 1)]
    if dev > 2 and r.random() < 0.3:
        edges += [[0, dev - 1], [dev - 1, 0]]
    opts = dict(basis_gates=["u3", "cx", "id"] if r.random() < 0.5 else ["rz", "sx", "x", "cx"], optimization_level=r.choice([0, 1, 2]), seed_transpiler=r.randrange(10**6))
    lay = r.random() < 0.7
    if lay:
        opts["initial_layout"] = r.sample(range(dev), n)
    t = transpile(circ, coupling_map=edges if dev > 1 else None, **opts)
    if t.layout is None or t.num_qubits != dev:
        raise Skip
    c.announce(f"initial {opts.get('initial_layout')} device {dev}: " + describe(circ) + " => " + describe(t))
    q = qiskit_to_mqt(t)
    check_layout(c, circ, q, n, dev)
    init = t.layout.initial_index_layout()
    fin = t.layout.final_index_layout()
    c.check(dict(q.initial_layout.items()) == {p: v for v, p in enumerate(init)}, "initial-layout", lambda: f"{q.initial_layout} for {init}")
    c.check(all(q.output_permutation[fin[v]] == v for v in range(n) if fin[v] in dict(q.output_permutation.items())) and
            all(fin[v] in dict(q.output_permutation.items()) for v in range(n)), "final-layout", lambda: f"{q.output_permutation} for {fin}")
    c.check(q.num_qubits == dev, "bit-counts", lambda: repr(q))
    # export with layouts and import again
    e = mqt_to_qiskit(q, set_layout=True)
    c.check(e.layout is not None and e.layout.initial_index_layout() == init, "export-initial-layout", lambda: f"{e.layout.initial_index_layout()} instead of {init}")
    c.check(e.layout is not None and list(e.layout.final_index_layout())[:n] == list(fin)[:n], "export-final-layout", lambda: f"{e.layout.final_index_layout()} instead of {fin}")
    back = qiskit_to_mqt(e)
    c.check(back.initial_layout == q.initial_layout, "round-trip-initial-layout", lambda: f"{back.initial_layout} instead of {q.initial_layout}")
    # (what garbage qubits end up as is not pinned)
    bo = dict(back.output_permutation.items())
    c.check(all(bo.get(p) == v for p, v in q.output_permutation.items()), "round-trip-final-layout", lambda: f"{back.output_permutation} instead of {q.output_permutation}")
    d = dist(qref.mqt_unitary(q), qref.mqt_unitary(back))
    c.check(d < 1e-7, "round-trip", lambda: f"unitaries differ by {d}")


def check_layout(c, circ, q, n, dev):
    """q on dev physical qubits implements circ on n logical ones"""
    orig = Branches(np.eye(2**n, dtype=complex), 0, n)
    run_qiskit(circ, orig)
    orig = orig.b[()][0]
    u = qref.mqt_unitary(q)
    init, out = dict(q.initial_layout.items()), dict(q.output_permutation.items())
    l2p, o2p = {v: p for p, v in init.items()}, {v: p for p, v in out.items()}
    if set(range(n)) - set(l2p) or set(range(n)) - set(o2p):
        c.fail("layout-incomplete", f"{init} {out}")
        return
    cols = [sum(((x >> v) & 1) << l2p[v] for v in range(n)) for x in range(2**n)]
    sub = u[:, cols]
    rows = [sum(((x >> v) & 1) << o2p[v] for v in range(n)) for x in range(2**n)]
    # all the weight must be where the other qubits are zero (routing permutes ground-state qubits)
    got = sub[rows, :]
    d = qref.dist_phase(orig, got)
    c.count("routed circuits compared")
    c.check(d < 1e-6, "layout-computation", lambda: f"the routed circuit differs from the original by {d}; layouts {init} {out}")


def layout_export(c):
    """arbitrary layouts of toolkit circuits"""
    r = c.rng
    n = r.randint(1, 4)
    q = QuantumComputation(n)
    for _ in range(r.randint(0, 5)):
        q.append(mqt_op(r, n, 0, 0, False, False))
    p, o = r.sample(range(n), n), r.sample(range(n), n)
    q.initial_layout = Permutation({i: p[i] for i in range(n)})
    q.output_permutation = Permutation({i: o[i] for i in range(n)})
    c.announce(str(q) + f" layout {p} output {o}")
    e = mqt_to_qiskit(q, set_layout=True)
    compare_export(c, q, e, r)
    init = [p.index(v) for v in range(n)]
    fin = [o.index(v) for v in range(n)]
    c.check(e.layout.initial_index_layout() == init, "export-initial-layout", lambda: f"{e.layout.initial_index_layout()} instead of {init}")
    c.check(list(e.layout.final_index_layout()) == fin, "export-final-layout", lambda: f"{e.layout.final_index_layout()} instead of {fin}")
    back = qiskit_to_mqt(e)
    c.check(back.initial_layout == q.initial_layout, "round-trip-initial-layout", lambda: f"{back.initial_layout} instead of {q.initial_layout}")
    c.check(back.output_permutation == q.output_permutation, "round-trip-final-layout", lambda: f"{back.output_permutation} instead of {q.output_permutation}")


if __name__ == "__main__":
    vf.main("P20", [
        Suite("gates", 1500, 20000, single_gates),
        Suite("import", 1000, 40000, import_unitary),
        Suite("import-dynamic", 600, 25000, import_dynamic),
        Suite("ancilla-gates", 250, 2500, vchain),
        Suite("symbolic", 1000, 20000, symbolic),
        Suite("export", 1500, 40000, export),
        Suite("refused", 300, 3000, refused),
        Suite("refused-import", 400, 4000, refused_import),
        Suite("layouts", 300, 8000, layouts),
        Suite("layout-export", 500, 8000, layout_export),
    ])
