"""P21: the Python interface behaves as documented (as the C++ library does) and keeps memory valid."""
import cmath, gc, math, os, shutil, subprocess, sys, tempfile
from pathlib import Path
import numpy as np
import vf
from vf import Skip, Suite
import qref
from qref import GATES, Branches, dist, run_op
from mqt.core import dd as D, load
from mqt.core.dd import BasisStates, DDPackage
from mqt.core.ir import Permutation, QuantumComputation
from mqt.core.ir.operations import (ClassicControlledOperation, ComparisonKind, CompoundOperation, Control, NonUnitaryOperation, Operation, OpType,
                                    StandardOperation, SymbolicOperation)
from mqt.core.ir.registers import ClassicalRegister, QuantumRegister
from mqt.core.ir.symbolic import Expression, Term, Variable

PI = math.pi
NEG, POS = Control.Type.Neg, Control.Type.Pos


def angle(r):
    if r.random() < 0.25:
        return r.choice([0.0, PI, -PI, PI / 2, -PI / 2, PI / 4, -PI / 4, 2 * PI, 3 * PI / 2])
    return r.uniform(-6, 6)


def ctl(c):
    return (c.qubit, bool(c.type_))


def controls(op):
    return tuple(sorted(ctl(c) for c in op.controls))


def key(op):
    """everything that can be observed about an operation"""
    n = op.type_.name
    if op.is_compound_operation():
        return (n, tuple(key(op[i]) for i in range(len(op))))
    if op.is_classic_controlled_operation():
        reg = op.control_register
        return (n, None if reg is None else (reg.name, reg.start, reg.size), op.control_bit, op.expected_value, op.comparison_kind.name, key(op.operation))
    if op.is_symbolic_operation():
        return (n, tuple(op.targets), controls(op), "sym", tuple(str(op.get_parameter(i)) for i in range(len(op.get_parameters()))))
    if op.is_non_unitary_operation():
        return (n, tuple(op.targets), tuple(op.classics) if n == "measure" else ())
    return (n, tuple(op.targets), controls(op), tuple(op.parameter))


# ---------------------------------------------------------------- operations as a list
class Cell:
    """what one operation of a container must look like"""

    def __init__(self, k):
        self.k = k


UNIQUE = [0]


def leaf(r):
    UNIQUE[0] += 1
    a = 0.001 * UNIQUE[0] + 0.0001234
    k = r.random()
    q = r.sample(range(4), 3)
    if k < 0.55:
        t = r.choice([OpType.rx, OpType.p, OpType.rz, OpType.ry])
        c = {Control(x, POS if r.random() < 0.7 else NEG) for x in q[1:1 + r.choice([0, 0, 1, 2])]}
        return StandardOperation(c, q[0], t, [a]) if c else StandardOperation(q[0], t, [a])
    if k < 0.7:
        return NonUnitaryOperation(q[:2], [r.randrange(4), r.randrange(4)]) if r.random() < 0.5 else NonUnitaryOperation(q[0], r.randrange(4))
    if k < 0.8:
        return NonUnitaryOperation(q[:1])
    if k < 0.9:
        return SymbolicOperation(q[0], OpType.rx, [Expression([Term(Variable("x"), 1.0 + UNIQUE[0])], 0.5)])
    return StandardOperation(q[:2], OpType.swap)


def any_op(r, depth=0):
    k = r.random()
    if k < 0.75 or depth > 1:
        return leaf(r)
    if k < 0.9:
        return CompoundOperation([any_op(r, depth + 1) for _ in range(r.randint(0, 3))])
    o = leaf(r)
    if r.random() < 0.5:
        return ClassicControlledOperation(o, r.randrange(4), r.randrange(2), r.choice([ComparisonKind.eq, ComparisonKind.neq]))
    return ClassicControlledOperation(o, ClassicalRegister(1, 2, "c"), r.randrange(4), r.choice(
        [ComparisonKind.eq, ComparisonKind.neq, ComparisonKind.lt, ComparisonKind.leq, ComparisonKind.gt, ComparisonKind.geq]))


def rnd_slice(r, n):
    def e():
        return None if r.random() < 0.3 else r.randint(-n - 2, n + 2)
    return slice(e(), e(), r.choice([None, 1, 2, -1, -2, 3, -3, 1, -1]))


def sequence(c):
    """histories of edits of a circuit or a compound operation against a list of cells"""
    r = c.rng
    UNIQUE[0] = 0
    circ = r.random() < 0.6
    s = QuantumComputation(4, 4) if circ else CompoundOperation()
    cells, refs, log = [], [], ["circuit" if circ else "compound"]
    kind = type(s).__name__

    def note(x):
        log.append(x)
        c.announce("; ".join(log))

    def verify(what):
        got = [key(o) for o in s]
        want = [x.k for x in cells]
        c.check(len(s) == len(cells), f"sequence-length:{kind}", lambda: f"after {what}: {len(s)} instead of {len(cells)}")
        c.check(got == want, f"sequence-contents:{what}:{kind}", lambda: f"{got} instead of {want}")
        for o, cell in refs:
            c.check(key(o) == cell.k, f"operation-reference:{what}:{kind}", lambda: f"{key(o)} instead of {cell.k}")
        if circ:
            c.check(s.num_ops == len(cells), "num_ops")
        else:
            c.check(s.empty() == (not cells), "compound-empty")

    def source(n=1):
        """operations to be put into the container: new ones or (references to) its own"""
        out = []
        for _ in range(n):
            k = r.random()
            if k < 0.5 or not cells:
                out.append(any_op(r))
            elif k < 0.85:
                out.append(s[r.randrange(len(cells))])
            elif refs:
                out.append(r.choice(refs)[0])
            else:
                out.append(any_op(r))
        return out

    for _ in range(r.randint(4, 16)):
        n = len(cells)
        k = r.random()
        what = "?"
        if k < 0.2:
            what = "append"
            (o,) = source()
            note(f"append {key(o)}")
            cells.append(Cell(key(o)))
            s.append(o)
        elif k < 0.35:
            what = "insert"
            i = r.randint(-n - 2, n + 2)
            (o,) = source()
            note(f"insert {i} {key(o)}")
            cells.insert(i, Cell(key(o)))
            if r.random() < 0.5:
                s.insert(i, o)
            else:
                s.insert(idx=i, op=o)
        elif k < 0.45:
            what = "set"
            i = r.randint(-n - 1, n)
            (o,) = source()
            note(f"set {i} {key(o)}")
            if -n <= i < n:
                cells[i] = Cell(key(o))
                s[i] = o
            else:
                c.raises(lambda: s.__setitem__(i, o), f"set-out-of-range:{kind}", (IndexError,), str(i))
        elif k < 0.58:
            what = "set-slice"
            sl = rnd_slice(r, n)
            m = len(range(*sl.indices(n)))
            if r.random() < 0.12:
                m += r.choice([-1, 1, 2])
                m = max(m, 0)
            ops = source(m)
            note(f"set {sl} {[key(o) for o in ops]}")
            if m == len(range(*sl.indices(n))):
                for i, o in zip(range(*sl.indices(n)), ops):
                    cells[i] = Cell(key(o))
                s[sl] = ops
            else:
                c.raises(lambda: s.__setitem__(sl, ops), f"set-slice-length:{kind}", (Exception,), str(sl))
        elif k < 0.66:
            what = "del"
            i = r.randint(-n - 1, n)
            note(f"del {i}")
            if -n <= i < n:
                del cells[i]
                del s[i]
            else:
                c.raises(lambda: s.__delitem__(i), f"del-out-of-range:{kind}", (IndexError,), str(i))
        elif k < 0.74:
            what = "del-slice"
            sl = rnd_slice(r, n)
            note(f"del {sl}")
            del cells[sl]
            del s[sl]
        elif k < 0.8:
            what = "get-slice"
            sl = rnd_slice(r, n)
            note(f"get {sl}")
            got = s[sl]
            c.check([key(o) for o in got] == [x.k for x in cells[sl]], f"get-slice:{kind}", lambda: f"{[key(o) for o in got]} instead of {[x.k for x in cells[sl]]}")
            refs += list(zip(got, cells[sl]))
        elif k < 0.9 and n:
            what = "reference"
            i = r.randint(-n, n - 1)
            o = s[i]
            note(f"hold {i}")
            refs.append((o, cells[i]))
            cell = cells[i]
            if r.random() < 0.5 and o.type_.name in ("rx", "p", "rz", "ry") and not o.is_symbolic_operation():
                what = "modify"
                UNIQUE[0] += 1
                a = 0.001 * UNIQUE[0] + 0.0005
                o.parameter = [a]
                note(f"its parameter becomes {a}")
                cell.k = cell.k[:3] + ((a,),)
            c.check(s[i] is o, f"operation-identity:{kind}")
        elif k < 0.92:
            what = "clear"
            note("clear")
            s.clear()
            cells.clear()
        elif k < 0.95 and circ:
            what = "reverse"
            note("reverse")
            s.reverse()
            cells.reverse()
        elif k < 0.97:
            what = "misuse"
            note("misuse")
            b = [None, 3, "x", [None]]
            x = r.choice(b[:3])
            c.raises(lambda: s.append(x), "append-no-operation", (TypeError,), repr(x))
            c.raises(lambda: s.insert(0, x), "insert-no-operation", (TypeError,), repr(x))
            if n:
                c.raises(lambda: s.__setitem__(0, x), "set-no-operation", (TypeError,), repr(x))
                c.raises(lambda: s.__setitem__(slice(0, 1), [x]), "set-slice-no-operation", (TypeError,), repr(x))
            c.raises(lambda: s.__getitem__(r.choice([n, n + 3, -n - 1])), "get-out-of-range", (IndexError,))
        else:
            what = "collect"
            gc.collect()
        verify(what)
    # the container dies before the references
    it = iter(s)
    want = [x.k for x in cells]
    junk = s
    del s, junk
    gc.collect()
    filler = QuantumComputation(4, 4)
    for i in range(20):
        filler.rx(0.3, i % 4)
    c.check([key(o) for o in it] == want, f"iterator-outlives:{kind}")
    for o, cell in refs:
        c.check(key(o) == cell.k, f"operation-outlives-container:{kind}", lambda: f"{key(o)} instead of {cell.k}")
    c.fingerprint = "; ".join(log)


# ---------------------------------------------------------------- gate methods
PARAMS = {"rx": ["theta"], "ry": ["theta"], "rz": ["theta"], "p": ["theta"], "u2": ["phi", "lambda_"], "u": ["theta", "phi", "lambda_"],
          "rxx": ["theta"], "ryy": ["theta"], "rzz": ["theta"], "rzx": ["theta"], "xx_minus_yy": ["theta", "beta"], "xx_plus_yy": ["theta", "beta"]}
X1, X2 = Variable("x1"), Variable("x2")


def unitary_of(qc):
    return qref.mqt_unitary(qc)


def gate_reference(name, params, targets, cs, n):
    return qref.apply(GATES[name][2](*params), targets, np.eye(2**n, dtype=complex), n, cs)


def rnd_controls(r, qs, k):
    cs = [(q, r.random() < 0.6) for q in qs[:k]]
    objs = [Control(q, POS if p else NEG) if not p or r.random() < 0.5 else q for q, p in cs]
    return cs, objs


def gate_methods(c):
    r = c.rng
    name = r.choice(sorted(GATES))
    nt, npar, _ = GATES[name]
    n = r.randint(max(3, nt + 1), 5)
    qs = r.sample(range(n), n)
    form = r.choice(["", "c", "mc"])
    nc = {"": 0, "c": 1, "mc": r.randint(0, n - nt)}[form]
    targets = qs[:nt]
    cs, objs = rnd_controls(r, qs[nt:], nc)
    vals = [angle(r) for _ in range(npar)]
    sym = npar and r.random() < 0.3
    names = PARAMS.get(name, [])
    args, asg = [], {X1: r.uniform(-3, 3), X2: r.uniform(-3, 3)}
    for i, v in enumerate(vals):
        if sym and (i == 0 or r.random() < 0.5):
            x = r.choice([X1, X2])
            co = r.choice([1.0, 2.0, -1.0, 0.5])
            args.append(Expression([Term(x, co)], v - co * asg[x]))
        else:
            args.append(v)
    a = list(zip(names, args))
    if form == "c":
        a.append(("control", objs[0]))
    elif form == "mc":
        a.append(("controls", set(objs)))
    if nt == 1:
        a.append(("target" if form else "q", targets[0]))
    else:
        a += [("target1", targets[0]), ("target2", targets[1])]
    qc = QuantumComputation(n)
    if r.random() < 0.3:
        c.announce(f"{form}{name} {a} keyword")
        getattr(qc, form + name)(**dict(a))
    else:
        c.announce(f"{form}{name} {a}")
        getattr(qc, form + name)(*[v for _, v in a])
    if not c.check(len(qc) == 1, "gate-appends-one-operation"):
        return
    op = qc[0]
    c.check(list(op.targets) == targets, "gate-targets", lambda: f"{op.targets}")
    c.check(controls(op) == tuple(sorted(cs)), "gate-controls", lambda: f"{op.controls}")
    if sym:
        c.check(op.is_symbolic_operation() and not qc.is_variable_free(), "gate-symbolic")
        want = {v for x in args if isinstance(x, Expression) for v in x.variables}
        c.check(qc.variables == want, "circuit-variables", lambda: f"{qc.variables}")
        k0 = key(op)
        inst = qc.instantiate(asg)
        c.check(key(qc[0]) == k0, "instantiate-changed-the-original")
        c.check(inst.is_variable_free() and not inst[0].is_symbolic_operation(), "instantiate-complete")
        one = op.get_instantiated_operation(asg)
        c.check(key(one)[:3] == key(inst[0])[:3] and dist(one.parameter, inst[0].parameter) < 1e-9, "get-instantiated-operation", lambda: f"{key(one)} {key(inst[0])}")
        qc.instantiate_inplace(asg)
        c.check(qc == inst if hasattr(qc, "__eq_circuit__") else [key(o) for o in qc] == [key(o) for o in inst], "instantiate-inplace")
        del op
    u = unitary_of(qc)
    w = gate_reference(name, vals, targets, cs, n)
    c.check(dist(u, w) < 1e-9, f"gate-unitary:{form}{name}", lambda: f"distance {dist(u, w)}")
    b = np.array(D.build_unitary(qc, recursive=r.random() < 0.5), copy=False)
    c.check(dist(b, w) < 1e-9, f"gate-build-unitary:{form}{name}", lambda: f"distance {dist(b, w)}")
    inv = qc[0].get_inverted()
    q2 = QuantumComputation(n)
    q2.append(inv)
    c.check(dist(unitary_of(q2), w.conj().T) < 1e-9, f"gate-inverse:{name}", lambda: f"distance {dist(unitary_of(q2), w.conj().T)}")
    c.fingerprint = c.desc


# ---------------------------------------------------------------- operation objects
def operations(c):
    r = c.rng
    name = r.choice(sorted(GATES))
    nt, npar, _ = GATES[name]
    n = 6
    qs = r.sample(range(n), n)
    targets = qs[:nt]
    nc = r.choice([0, 0, 1, 2, 3])
    cs, _ = rnd_controls(r, qs[nt:], nc)
    objs = {Control(q, POS if p else NEG) for q, p in cs}
    vals = [angle(r) for _ in range(npar)]
    ty = getattr(OpType, name)
    tyarg = r.choice([ty, name]) if name not in ("xx_minus_yy", "xx_plus_yy") else ty
    cls = StandardOperation
    params = list(vals)
    sym = npar and r.random() < 0.25
    asg = {X1: r.uniform(-3, 3)}
    if sym:
        cls = SymbolicOperation
        i = r.randrange(npar)
        params[i] = Expression([Term(X1, 2.0)], vals[i] - 2.0 * asg[X1])
    kw = {}
    if nc == 1 and r.random() < 0.5:
        kw["control"] = next(iter(objs))
    elif nc:
        kw["controls"] = objs
    if nt == 1 and r.random() < 0.7:
        kw["target"] = targets[0]
    elif nt == 2 and r.random() < 0.4 and "control" not in kw:
        kw.update(controls=objs, target0=targets[0], target1=targets[1])
    else:
        kw["targets"] = targets
    kw["op_type"] = tyarg
    if npar or r.random() < 0.2:
        kw["params"] = params
    c.announce(f"{cls.__name__} {kw}")
    order = ["control", "controls", "target", "targets", "target0", "target1", "op_type", "params"]
    if r.random() < 0.5:
        op = cls(**kw)
    else:
        op = cls(*[kw[k] for k in order if k in kw])
    c.check(list(op.targets) == targets and op.num_targets == nt, "operation-targets", lambda: str(op.targets))
    c.check(controls(op) == tuple(sorted(cs)) and op.num_controls == nc, "operation-controls", lambda: str(op.controls))
    used = set(targets) | {q for q, _ in cs}
    c.check(op.get_used_qubits() == used and all(op.acts_on(q) == (q in used) for q in range(n)), "operation-qubits", lambda: str(op.get_used_qubits()))
    c.check(op.is_controlled() == (nc > 0), "operation-controlled")
    c.check(op.is_unitary() and not op.is_compound_operation() and not op.is_non_unitary_operation() and not op.is_classic_controlled_operation(), "operation-kind")
    c.check(isinstance(op, Operation) and isinstance(repr(op), str), "operation-class")
    if sym:
        c.check(op.is_symbolic_operation(), "symbolic-kind")
        ps = op.get_parameters()
        c.check(len(ps) == npar and all((isinstance(a, Expression) and a == b) if isinstance(b, Expression) else a == b for a, b in zip(ps, params)),
                "symbolic-parameters", lambda: f"{ps} instead of {params}")
        r.random() < 0.5 and c.check(str(op.get_parameter(0)) == str(ps[0]), "symbolic-parameter")
        op2 = op.get_instantiated_operation(asg)
        if r.random() < 0.5:
            op.instantiate(asg)
            if op.type_ == ty:
                c.check(dist(op.parameter, vals) < 1e-9, "symbolic-instantiate", lambda: f"{op.parameter} instead of {vals}")
            elif r.random() < 0.5:  # became one of the gates without parameters
                op2 = op
        op = op2
    st = Branches(np.eye(2**n, dtype=complex), 0, n)
    run_op(op, st)
    w = gate_reference(name, vals, targets, cs, n)
    c.check(dist(st.b[()][0], w) < 1e-9, f"operation-unitary:{name}", lambda: f"{key(op)} distance {dist(st.b[()][0], w)}")
    # equality, hashing
    twin = StandardOperation(objs, targets, op.type_, list(op.parameter))
    c.check(op == twin and not (op != twin) and hash(op) == hash(twin), "operation-equality", lambda: f"{key(op)} {key(twin)}")
    c.check((op == None) is False and (op != None) is True and (op == 3) is False and (op != "x") is True, "operation-equals-other-types")
    k = r.random()
    free = [q for q in qs if q not in used]
    if k < 0.25 and free:
        d = Control(free[0], r.choice([POS, NEG]))
        twin.add_control(d)
        c.check(op != twin and not (op == twin), "operation-inequality-control")
        c.check(controls(twin) == tuple(sorted(cs + [ctl(d)])), "add-control")
        if r.random() < 0.5:
            twin.remove_control(d)
        else:
            twin.remove_controls({d})
        c.check(op == twin, "remove-control")
        c.raises(lambda: twin.add_control(Control(targets[0])), "control-on-target", (Exception,))
        if cs:
            c.raises(lambda: twin.add_control(Control(cs[0][0])), "control-twice", (Exception,))
        c.raises(lambda: twin.remove_control(Control(free[0])), "remove-absent-control", (Exception,))
    elif k < 0.5:
        more = {Control(q, r.choice([POS, NEG])) for q in free[:2]}
        twin.add_controls(more)
        c.check(controls(twin) == tuple(sorted(cs + [ctl(x) for x in more])), "add-controls")
        twin.clear_controls()
        c.check(controls(twin) == () and not twin.is_controlled(), "clear-controls")
        twin.controls = objs
        c.check(op == twin, "set-controls")
    elif k < 0.75:
        twin.targets = targets[::-1] if nt == 2 else [free[0] if free else targets[0]]
        c.check(list(twin.targets) == (targets[::-1] if nt == 2 else [free[0] if free else targets[0]]), "set-targets")
        twin.targets = targets
        c.check(op == twin, "set-targets-back")
    else:
        i1 = op.get_inverted()
        twin.invert()
        c.check(i1 == twin, "invert-two-ways", lambda: f"{key(i1)} {key(twin)}")
        c.check(dist(st.b[()][0], w) < 1e-9 and list(op.targets) == targets, "get-inverted-changed-the-original")
        s2 = Branches(w, 0, n)
        run_op(twin, s2)
        c.check(dist(s2.b[()][0], np.eye(2**n)) < 1e-9, f"operation-inverse:{name}")
    s = {op, StandardOperation(objs, targets, op.type_, list(op.parameter))}
    c.check(len(s) == 1, "operation-set")
    c.fingerprint = c.desc


def other_operations(c):
    """measurements, resets, conditions, compound operations, controls, types"""
    r = c.rng
    k = r.randrange(6)
    if k == 0:
        m = r.randint(1, 4)
        t, b = r.sample(range(6), m), r.sample(range(6), m)
        c.announce(f"measure {t} {b}")
        o = NonUnitaryOperation(t, b) if m > 1 or r.random() < 0.5 else NonUnitaryOperation(t[0], b[0])
        c.check(list(o.targets) == t and list(o.classics) == b and o.type_ == OpType.measure, "measure-operation")
        c.check(not o.is_unitary() and o.is_non_unitary_operation(), "measure-kind")
        c.check(o == NonUnitaryOperation(targets=t, classics=b), "measure-equality")
        c.raises(lambda: NonUnitaryOperation(t, b + [0]), "measure-mismatch", (Exception,))
        c.raises(o.invert, "measure-invert", (Exception,))
        c.raises(lambda: o.add_control(Control(7)), "measure-control", (Exception,))
    elif k == 1:
        t = r.sample(range(6), r.randint(1, 4))
        ty = r.choice([OpType.reset, None])
        c.announce(f"reset {t} {ty}")
        o = NonUnitaryOperation(t) if ty is None else NonUnitaryOperation(targets=t, op_type=ty)
        c.check(sorted(o.targets) == sorted(t) and o.type_ == OpType.reset and o.get_used_qubits() == set(t), "reset-operation")
    elif k == 2:
        o = leaf(r)
        ex, cmp = r.randrange(4), r.choice([ComparisonKind.eq, ComparisonKind.neq, ComparisonKind.lt, ComparisonKind.leq, ComparisonKind.gt, ComparisonKind.geq])
        if r.random() < 0.5:
            reg = ClassicalRegister(r.randrange(3), r.randint(2, 3), "c")
            x = ClassicControlledOperation(o, reg, ex, cmp)
            c.announce(f"conditional {key(x)}")
            y = ClassicControlledOperation(operation=o, control_register=reg, expected_value=ex, comparison_kind=cmp)
            c.check(x.control_register == reg and x.control_bit is None, "condition-register")
        else:
            ex, cmp, bit = ex % 2, r.choice([ComparisonKind.eq, ComparisonKind.neq]), r.randrange(5)
            x = ClassicControlledOperation(o, bit, ex, cmp)
            c.announce(f"conditional {key(x)}")
            y = ClassicControlledOperation(operation=o, control_bit=bit, expected_value=ex, comparison_kind=cmp)
            c.check(x.control_register is None and x.control_bit == bit, "condition-bit")
        # a bit compared for inequality may be stored as equality with the other value
        same = (x.expected_value, x.comparison_kind) == (ex, cmp)
        if x.control_bit is not None:
            same = same or (x.comparison_kind != cmp and x.expected_value == 1 - ex)
        c.check(same, "condition-value", lambda: f"{x.expected_value} {x.comparison_kind}")
        ko = key(o)
        c.check(key(x.operation) == ko, "condition-operation", lambda: f"{key(x.operation)} instead of {ko}")
        c.check(x == y and hash(x) == hash(y) and x.is_classic_controlled_operation() and not x.is_unitary(), "condition-equality")
        inner = x.operation
        del x, o
        gc.collect()
        c.check(key(inner) == ko, "condition-operation-outlives")
        c.raises(lambda: ClassicControlledOperation(None, 0), "condition-without-operation", (TypeError,))
    elif k == 3:
        ops = [any_op(r, 1) for _ in range(r.randint(0, 4))]
        x = CompoundOperation(ops)
        c.announce(f"compound {key(x)}")
        c.check([key(o) for o in x] == [key(o) for o in ops], "compound-contents")
        y = CompoundOperation()
        for o in ops:
            y.append(o)
        c.check(x == y and hash(x) == hash(y) and not (x != y), "compound-equality")
        c.check(x.get_used_qubits() == set().union(*[o.get_used_qubits() for o in ops]), "compound-qubits")
        c.raises(lambda: CompoundOperation([None]), "compound-of-none", (TypeError,))
        if all(type(o) is StandardOperation for o in ops):
            d = Control(5, r.choice([POS, NEG]))
            x.add_control(d)
            c.check(all(ctl(d) in controls(o) for o in x), "compound-add-control")
            x.remove_control(d)
            c.check([key(o) for o in x] == [key(o) for o in ops], "compound-remove-control")
            x.invert()
            z = [o.get_inverted() for o in ops][::-1]
            c.check(list(x) == z, "compound-invert")
    elif k == 4:
        q, p = r.randrange(50), r.random() < 0.5
        a = Control(q, POS if p else NEG)
        c.announce(f"control {q} {p} {r.random()}")
        b = Control(qubit=q, type_=POS if p else NEG)
        c.check(a == b and hash(a) == hash(b) and a != Control(q, NEG if p else POS) and a != Control(q + 1, a.type_), "control-equality")
        c.check(a.qubit == q and a.type_ == (POS if p else NEG) and bool(a.type_) == p, "control-fields")
        c.check(Control(q) == Control(q, POS), "control-default")
        a.qubit, a.type_ = q + 1, NEG if p else POS
        c.check(a.qubit == q + 1 and bool(a.type_) != p, "control-assign")
        c.check(len({Control(q, POS), Control(q, NEG), b}) == 2, "control-set")
        c.check((a == None) is False and (a == 3) in (False, True), "control-other")
    else:
        names = [x for x in dir(OpType) if not x.startswith("_") and isinstance(getattr(OpType, x), OpType)]
        x = r.choice(names)
        c.announce(f"type {x} {r.random()}")
        t = getattr(OpType, x)
        c.check(t.name == x and t == getattr(OpType, x) and OpType(t.value) == t, "type-round-trip")
        y = r.choice(names)
        c.check((t == getattr(OpType, y)) == (x == y) and (t.value == getattr(OpType, y).value) == (x == y), "types-distinct", f"{x} {y}")
        if x in GATES and x not in ("xx_minus_yy", "xx_plus_yy"):
            c.check(OpType(x) == t, "type-from-text", x)
    c.fingerprint = c.desc


# ---------------------------------------------------------------- permutations
def permutations(c):
    r = c.rng
    d = {}
    for _ in range(r.randint(0, 6)):
        d[r.randrange(8)] = r.randrange(8)
    log = [str(d)]
    p = Permutation(d) if r.random() < 0.5 else Permutation(permutation=d)
    for _ in range(r.randint(1, 12)):
        k = r.random()
        q, v = r.randrange(8), r.randrange(8)
        if k < 0.3:
            log.append(f"[{q}]={v}")
            p[q] = v
            d[q] = v
        elif k < 0.4:
            log.append(f"del {q}")
            if q in d:
                del p[q]
                del d[q]
        elif k < 0.5:
            if q in d:
                c.check(p[q] == d[q], "permutation-get")
            else:
                c.raises(lambda: p[q], "permutation-get-missing", (IndexError, KeyError))
        elif k < 0.55:
            log.append("clear")
            p.clear()
            d.clear()
        elif k < 0.65:
            # changing it while iterating
            log.append("change while iterating")
            want = sorted(d)
            got = []
            for x in p:
                got.append(x)
                if r.random() < 0.3:
                    p.clear()
                    d.clear()
            c.check(got == want, "permutation-iteration-while-changing", lambda: f"{got} instead of {want}")
        elif k < 0.75:
            want = sorted(d.items())
            it = Permutation(d).items() if r.random() < 0.5 else iter(Permutation(d))
            gc.collect()
            got = list(it)
            c.check(got in (want, [x for x, _ in want]), "permutation-iterator-outlives", lambda: f"{got}")
        elif k < 0.9 and d:
            t = [r.choice(sorted(d)) for _ in range(r.randint(0, 5))]
            log.append(f"apply {t}")
            c.check(list(p.apply(t)) == [d[x] for x in t] and list(p.apply(targets=t)) == [d[x] for x in t], "permutation-apply-targets", lambda: f"{p.apply(t)}")
            cs = {Control(x, r.choice([POS, NEG])) for x in set(t)}
            got = {ctl(x) for x in p.apply(cs)} if cs else set()
            c.check(got == {(d[x.qubit], bool(x.type_)) for x in cs}, "permutation-apply-controls", lambda: f"{got}")
        else:
            e = dict(d)
            if r.random() < 0.5:
                e[q] = v
            o = Permutation(e)
            c.check((p == o) == (e == d) and (p != o) == (e != d), "permutation-equality", lambda: f"{p} {o}")
            if e == d:
                c.check(hash(p) == hash(o), "permutation-hash")
        c.announce("; ".join(log))
        c.check(list(p) == sorted(d) and list(p.items()) == sorted(d.items()) and len(p) == len(d), "permutation-contents", lambda: f"{p} instead of {d}")
        c.check(str(p) == "{" + ", ".join(f"{a}: {b}" for a, b in sorted(d.items())) + "}", "permutation-text", lambda: str(p))
        c.check(eval(repr(p)) == p, "permutation-repr")
        c.check((p == None) is False, "permutation-other")
    q = QuantumComputation(4)
    lay = dict(zip(range(4), r.sample(range(4), 4)))
    q.initial_layout = lay
    q.output_permutation = Permutation(lay)
    c.check(dict(q.initial_layout.items()) == lay and dict(q.output_permutation.items()) == lay, "layout-assignment")
    a, b = r.sample(range(4), 2)
    q.initial_layout[a], q.initial_layout[b] = lay[b], lay[a]
    lay[a], lay[b] = lay[b], lay[a]
    c.check(dict(q.initial_layout.items()) == lay, "layout-in-place", lambda: f"{q.initial_layout} instead of {lay}")
    ref = q.initial_layout
    del q
    gc.collect()
    c.check(dict(ref.items()) == lay, "layout-outlives-circuit")
    c.fingerprint = "; ".join(log) + str(lay)


# ---------------------------------------------------------------- symbolic values
def symbolic(c):
    r = c.rng
    names = ["a", "b", "x", "theta", "x1"]
    vs = {n: Variable(n) for n in names}
    asg = {vs[n]: r.choice([0.5, -1.0, 2.0, 3.0, -0.25]) for n in names}
    D0 = [1.0, 2.0, -1.0, 0.5, -0.5, 4.0, 3.0]

    def term():
        n, k = r.choice(names), r.choice(D0)
        return (Term(vs[n], k), {n: k}, 0.0)

    def show(x):
        return f"({x[1]}, {x[2]})"
    pool = []
    log = []
    for _ in range(r.randint(1, 3)):
        ts = [term() for _ in range(r.randint(0, 3))]
        k = r.choice([0.0] + D0)
        co = {}
        for _, t, _ in ts:
            for n, v in t.items():
                co[n] = co.get(n, 0) + v
        how = r.random()
        if len(ts) == 1 and how < 0.5:
            e = Expression(ts[0][0], k)
        elif not ts and how < 0.5:
            e = Expression(k)
        else:
            e = Expression(terms=[t for t, _, _ in ts], constant=k)
        if sum(len(t) for _, t, _ in ts) != len(co):
            # duplicates are merged by adding
            e2 = Expression(k)
            for t, _, _ in ts:
                e2 = e2 + t
            e = e2
        pool.append((e, co, k))
    log.append("; ".join(show(p) for p in pool))

    def val(co, k):
        return k + sum(v * asg[vs[n]] for n, v in co.items())

    def merge(a, b, s):
        co = dict(a)
        for n, v in b.items():
            co[n] = co.get(n, 0) + s * v
        return co

    def verify(x, what):
        e, co, k = x
        c.check(abs(e.evaluate(asg) - val(co, k)) < 1e-9, f"expression-value:{what}", lambda: f"{e} instead of {co} {k}")
        nz = {n: v for n, v in co.items() if abs(v) > 1e-12}
        got = {t.variable.name: t.coefficient for t in e}
        c.check(got == nz and len(e) == len(nz) and e.num_terms() == len(nz), f"expression-terms:{what}", lambda: f"{e} instead of {co} {k}")
        c.check({t.variable.name: t.coefficient for t in e.terms} == nz and {v.name for v in e.variables} == set(nz), f"expression-variables:{what}")
        c.check(e.constant == k, f"expression-constant:{what}", lambda: f"{e.constant} instead of {k}")
        c.check(e.is_constant() == (not nz) and e.is_zero() == (not nz and k == 0), f"expression-kind:{what}")
        c.check([e[i].variable.name for i in range(len(e))] == [t.variable.name for t in e], "expression-index")
        c.raises(lambda: e[len(e)], "expression-index-range", (IndexError,))
        if nz:
            c.raises(lambda: e.evaluate({}), "evaluate-missing", (Exception,))
        c.check(isinstance(str(e), str) and repr(e) == str(e), "expression-text")

    for x in pool:
        verify(x, "new")
    for _ in range(r.randint(1, 8)):
        x = r.choice(pool)
        y = r.choice(pool)
        t = term()
        k = r.choice(D0)
        op = r.choice(["e+e", "e+d", "d+e", "e+t", "t+e", "e-e", "e-d", "d-e", "e-t", "t-e", "e*d", "d*e", "e/d", "const", "t*d", "d*t", "t/d", "addc"])
        log.append(f"{op} {show(x)} {show(y)} {show(t)} {k}")
        c.announce("; ".join(log))
        e, co, cc = x
        if op == "e+e":
            z = (e + y[0], merge(co, y[1], 1), cc + y[2])
        elif op == "e+d":
            z = (e + k, co, cc + k)
        elif op == "d+e":
            z = (k + e, co, cc + k)
        elif op == "e+t":
            z = (e + t[0], merge(co, t[1], 1), cc)
        elif op == "t+e":
            z = (t[0] + e, merge(co, t[1], 1), cc)
        elif op == "e-e":
            z = (e - y[0], merge(co, y[1], -1), cc - y[2])
        elif op == "e-d":
            z = (e - k, co, cc - k)
        elif op == "d-e":
            z = (k - e, {n: -v for n, v in co.items()}, k - cc)
        elif op == "e-t":
            z = (e - t[0], merge(co, t[1], -1), cc)
        elif op == "t-e":
            z = (t[0] - e, merge(t[1], co, -1), -cc)
        elif op in ("e*d", "d*e"):
            z = (e * k if op == "e*d" else k * e, {n: v * k for n, v in co.items()}, cc * k)
        elif op == "e/d":
            z = (e / k, {n: v / k for n, v in co.items()}, cc / k)
        elif op == "const":
            z = (e + 0.0, co, k)
            z[0].constant = k
        else:
            (n, v), = t[1].items()
            if op == "addc":
                u = Term(vs[n], v)
                u.add_coefficient(k)
                w = v + k
            else:
                u = {"t*d": lambda: t[0] * k, "d*t": lambda: k * t[0], "t/d": lambda: t[0] / k}[op]()
                w = v / k if op == "t/d" else v * k
            c.check(u.variable == vs[n] and u.coefficient == w and u.has_zero_coefficient() == (w == 0), f"term:{op}", lambda: f"{u} instead of {w} {n}")
            c.check(abs(u.evaluate(asg) - w * asg[vs[n]]) < 1e-12, f"term-value:{op}")
            c.check((u == t[0]) == (w == v) and (u != t[0]) == (w != v), "term-equality")
            if u == t[0]:
                c.check(hash(u) == hash(t[0]), "term-hash")
            continue
        verify(z, op)
        pool.append(z)
    a, b = r.choice(pool), r.choice(pool)
    nza, nzb = ({n: v for n, v in x[1].items() if v} for x in (a, b))
    if list(t.variable.name for t in a[0]) == list(t.variable.name for t in b[0]):
        c.check((a[0] == b[0]) == (nza == nzb and a[2] == b[2]), "expression-equality", lambda: f"{a} {b}")
    if a[0] == b[0]:
        c.check(hash(a[0]) == hash(b[0]) and nza == nzb and a[2] == b[2], "expression-equal-but-different", lambda: f"{a} {b}")
    n, m = r.choice(names), r.choice(names)
    c.check((vs[n] == Variable(m)) == (n == m) and (vs[n] != vs[m]) == (n != m) and str(vs[n]) == n and vs[n].name == n, "variable-equality")
    c.check(n != m or hash(vs[n]) == hash(Variable(m)), "variable-hash")
    c.check((vs[n] < vs[m]) != (vs[m] < vs[n]) or n == m, "variable-order")
    c.check((vs[n] > vs[m]) == (vs[m] < vs[n]), "variable-order-two-ways")
    it = iter(Expression([term()[0]], 1.0))
    gc.collect()
    c.check(len([t.variable.name for t in it]) == 1, "expression-iterator-outlives")
    c.fingerprint = "; ".join(log)


# ---------------------------------------------------------------- circuits
def rnd_state(r, n):
    v = np.array([complex(r.gauss(0, 1), r.gauss(0, 1)) for _ in range(2**n)])
    return v / np.linalg.norm(v)


def random_gate(r, qc, qubits, sh=None):
    """add one random gate through a method; the same gate on the shadow"""
    name = r.choice(sorted(GATES))
    nt, npar, f = GATES[name]
    if len(qubits) < nt:
        name, nt, npar, f = "ry", *GATES["ry"]
    qs = r.sample(qubits, len(qubits))
    nc = r.randint(0, min(2, len(qubits) - nt))
    cs, objs = rnd_controls(r, qs[nt:], nc)
    vals = [angle(r) for _ in range(npar)]
    pre = "" if nc == 0 else "c" if nc == 1 and r.random() < 0.6 else "mc"
    args = vals + ([] if nc == 0 else [objs[0]] if pre == "c" else [set(objs)]) + qs[:nt]
    getattr(qc, pre + name)(*args)
    if sh is not None:
        sh.append(("u", name, vals, qs[:nt], cs))
    return f"{pre}{name}{args}"


def run_shadow(ops, st):
    for o in ops:
        if o[0] == "u":
            st.unitary(GATES[o[1]][2](*o[2]), o[3], o[4])
        elif o[0] == "phase":
            st.phase(o[1])
        elif o[0] == "measure":
            for q, b in zip(o[1], o[2]):
                st.measure(q, b)
        elif o[0] == "reset":
            for q in o[1]:
                st.reset(q)
        elif o[0] == "if":
            st.cond(o[1], lambda s: run_shadow([o[2]], s))
        elif o[0] == "barrier":
            pass


CMP = {"eq": lambda a, b: a == b, "neq": lambda a, b: a != b, "lt": lambda a, b: a < b, "leq": lambda a, b: a <= b, "gt": lambda a, b: a > b, "geq": lambda a, b: a >= b}


def circuits(c):
    """building circuits through every method: contents, counters, texts, files"""
    r = c.rng
    qc = QuantumComputation() if r.random() < 0.4 else QuantumComputation(r.randint(1, 2), r.randint(0, 2))
    log, sh = [repr((qc.num_qubits, qc.num_classical_bits))], []
    n, nb, nanc = qc.num_qubits, qc.num_classical_bits, 0
    qregs = {"q": (0, n)} if n else {}
    cregs = {"c": (0, nb)} if nb else {}
    ancregs = {}
    anc, garb = set(), set()
    phase = 0.0
    gates = []  # sizes of the added operations
    static = True

    def note(x):
        log.append(x)
        c.announce("; ".join(log))

    for step in range(r.randint(3, 14)):
        k = r.random()
        if step < 3 and k < 0.9 or k < 0.05:
            w = r.random()
            m = r.randint(1, 2)
            if w < 0.5 and n + m <= 5 and not anc:
                nm = f"r{step}"
                reg = qc.add_qubit_register(m, nm) if r.random() < 0.5 else qc.add_qubit_register(n=m, name=nm)
                qregs[nm] = (n, m)
                c.check((reg.start, reg.size, reg.name) == (n, m, nm), "new-register")
                note(f"qubits {m} {nm}")
                n += m
            elif w < 0.8 and nb + m <= 4:
                nm = f"b{step}"
                reg = qc.add_classical_register(m, nm)
                cregs[nm] = (nb, m)
                c.check((reg.start, reg.size, reg.name) == (nb, m, nm), "new-classical-register")
                note(f"bits {m} {nm}")
                nb += m
            elif n + m <= 5 and n:
                nm = f"a{step}"
                qc.add_ancillary_register(m, nm)
                ancregs[nm] = (n, m)
                anc |= set(range(n, n + m))
                nanc += m
                note(f"ancillae {m} {nm}")
                n += m
            continue
        if not n:
            continue
        qubits = list(range(n))
        if k < 0.5:
            note(random_gate(r, qc, qubits, sh))
            gates.append(sh[-1])
        elif k < 0.56:
            a = angle(r)
            if r.random() < 0.5:
                note(f"gphase {a}")
                qc.gphase(a)
                phase += a
            else:
                note(f"global phase = {a}")
                qc.global_phase = a
                phase = a
        elif k < 0.62:
            t = r.sample(qubits, r.randint(1, n))
            note(f"barrier {t}")
            w = r.random()
            if w < 0.4:
                qc.barrier(t)
                want = t
            elif w < 0.7:
                qc.barrier(t[0])
                want = t[:1]
            else:
                qc.barrier()
                want = qubits
            c.check(qc[len(qc) - 1].type_ == OpType.barrier and sorted(qc[-1].targets) == sorted(want), "barrier", lambda: f"{qc[-1].targets} instead of {want}")
            sh.append(("barrier",))
        elif k < 0.72 and nb:
            m = r.randint(1, min(n, nb))
            t, b = r.sample(qubits, m), r.sample(range(nb), m)
            note(f"measure {t} {b}")
            if m == 1 and r.random() < 0.5:
                qc.measure(t[0], b[0])
            else:
                qc.measure(t, b)
            sh.append(("measure", t, b))
            static = False
        elif k < 0.8:
            t = r.sample(qubits, r.randint(1, n))
            note(f"reset {t}")
            if len(t) == 1 and r.random() < 0.5:
                qc.reset(t[0])
            else:
                qc.reset(t)
            sh.append(("reset", t))
            static = False
        elif k < 0.9 and nb:
            name = r.choice(["x", "y", "z", "h", "s", "t", "sx", "rx", "ry", "rz", "p", "u", "u2", "sdg", "v"])
            vals = [angle(r) for _ in range(GATES[name][1])]
            qs = r.sample(qubits, n)
            nc = r.randint(0, min(2, n - 1))
            cs, objs = rnd_controls(r, qs[1:], nc)
            cmp = r.choice(["eq", "neq", "lt", "leq", "gt", "geq"])
            kw = {"op": getattr(OpType, name), "target": qs[0], "params": vals, "comparison_kind": getattr(ComparisonKind, cmp)}
            if nc == 1 and r.random() < 0.6:
                kw["control"] = objs[0]
            elif nc:
                kw["controls"] = set(objs)
            if r.random() < 0.5:
                nm = r.choice(sorted(cregs))
                s0, sz = cregs[nm]
                ex = r.randrange(2**sz)
                kw.update(creg=qc.cregs[nm], expected_value=ex)
                pred = lambda bits, s0=s0, sz=sz, ex=ex, cmp=cmp: CMP[cmp](sum(bits[s0 + i] << i for i in range(sz)), ex)
            else:
                cmp = r.choice(["eq", "neq"])
                kw["comparison_kind"] = getattr(ComparisonKind, cmp)
                b, ex = r.randrange(nb), r.randrange(2)
                kw.update(cbit=b, expected_value=ex)
                pred = lambda bits, b=b, ex=ex, cmp=cmp: CMP[cmp](bits[b], ex)
            note(f"classic_controlled {name} {vals} {qs[0]} {cs} {cmp} {kw.get('cbit', kw.get('creg'))} {kw['expected_value']}")
            if r.random() < 0.5:
                qc.classic_controlled(**kw)
            else:
                order = ["op", "target", "control", "controls", "creg", "cbit", "expected_value", "comparison_kind", "params"]
                qc.classic_controlled(*[kw[x] for x in order if x in kw])
            sh.append(("if", pred, ("u", name, vals, [qs[0]], cs)))
            static = False
        elif k < 0.95:
            q = r.randrange(n)
            w = r.random()
            if w < 0.4:
                note(f"ancillary {q}")
                qc.set_circuit_qubit_ancillary(q)
                if q not in anc:
                    anc.add(q)
            elif w < 0.6:
                note(f"garbage {q}")
                qc.set_circuit_qubit_garbage(q)
                garb.add(q)
            else:
                a, b = sorted((q, r.randrange(n)))
                if r.random() < 0.5:
                    note(f"garbage {a}..{b}")
                    qc.set_circuit_qubits_garbage(a, b)
                    garb |= set(range(a, b + 1))
                else:
                    note(f"ancillary {a}..{b}")
                    qc.set_circuit_qubits_ancillary(q_min=a, q_max=b)
                    anc |= set(range(a, b + 1))
    if n == 0:
        raise Skip
    # registers and counters
    c.check({k: (v.start, v.size) for k, v in qc.qregs.items()} == qregs, "qregs", lambda: f"{qc.qregs} instead of {qregs}")
    c.check({k: (v.start, v.size) for k, v in qc.cregs.items()} == cregs, "cregs", lambda: f"{qc.cregs} instead of {cregs}")
    c.check({k: (v.start, v.size) for k, v in qc.ancregs.items()} == ancregs, "ancregs", lambda: f"{qc.ancregs} instead of {ancregs}")
    c.check((qc.num_qubits, qc.num_classical_bits) == (n, nb), "circuit-sizes")
    c.check([i for i, x in enumerate(qc.ancillary) if x] == sorted(anc) and all(qc.is_circuit_qubit_ancillary(q) == (q in anc) for q in range(n)),
            "ancillary-marks", lambda: f"{qc.ancillary} instead of {anc}")
    c.check([i for i, x in enumerate(qc.garbage) if x] == sorted(garb) and all(qc.is_circuit_qubit_garbage(q) == (q in garb) for q in range(n)),
            "garbage-marks", lambda: f"{qc.garbage} instead of {garb}")
    c.check((qc.num_ancilla_qubits, qc.num_garbage_qubits, qc.num_data_qubits) == (len(anc), len(garb), n - len(anc)) and qc.num_measured_qubits == n - len(garb),
            "qubit-counters", lambda: f"{qc.num_ancilla_qubits} {qc.num_garbage_qubits} {qc.num_data_qubits} {qc.num_measured_qubits} anc {anc} garbage {garb}")
    c.check(qc.num_ops == len(sh) and qc.num_total_ops() == len(sh), "operation-counters", lambda: f"{qc.num_ops} {qc.num_total_ops()} instead of {len(sh)}")
    c.check(abs(cmath.exp(1j * qc.global_phase) - cmath.exp(1j * phase)) < 1e-9, "global-phase", lambda: f"{qc.global_phase} instead of {phase}")
    name = f"name{r.randrange(100)}"
    qc.name = name
    c.check(qc.name == name, "circuit-name")
    # what it computes
    psi = rnd_state(r, n)
    want = Branches(psi, nb, n)
    run_shadow(sh, want)
    got = qref.mqt_branches(qc, psi)
    c.check(got.distance(want) < 1e-9, "circuit-computation", lambda: f"distance {got.distance(want)}")
    if static:
        u = Branches(np.eye(2**n, dtype=complex), 0, n)
        run_shadow(sh, u)
        u.phase(phase)
        m = u.b[()][0]
        lib = QuantumComputation(n)
        for o in qc:
            lib.append(o)
        lib.gphase(qc.global_phase)
        c.check(dist(np.array(D.build_unitary(lib), copy=False), m) < 1e-9, "circuit-build-unitary")
        c.check(dist(np.array(D.build_unitary(lib, True), copy=False), m) < 1e-9, "circuit-build-unitary-recursive")
        c.check(dist(np.array(D.simulate_statevector(lib), copy=False), m[:, 0]) < 1e-9, "circuit-simulate-statevector")
        o = lib.to_operation()
        st = Branches(psi, 0, n)
        if o is not None:
            run_op(o, st)
        c.check((o is None) == (len(qc) == 0), "to-operation-empty")
        c.check(qref.dist_phase(st.b[()][0], m @ psi) < 1e-9, "to-operation")
        c.check(len(lib) == 0, "to-operation-empties")
        inv = load(qc.qasm3_str())
        qc2 = QuantumComputation(n)
        for o in qc:
            qc2.append(o)
        qc2.global_phase = qc.global_phase
        qc2.invert()
        c.check(dist(qref.mqt_unitary(qc2), m.conj().T) < 1e-9, "circuit-invert", lambda: f"distance {dist(qref.mqt_unitary(qc2), m.conj().T)}")
    # texts and files
    t3 = qc.qasm3_str()
    back = QuantumComputation.from_qasm_str(t3)
    c.check(back.num_qubits == n and back.num_classical_bits == nb, "qasm3-sizes")
    if back.num_qubits == n and back.num_classical_bits == nb:
        g2 = qref.mqt_branches(back, psi)
        c.check(g2.distance(want) < 1e-8, "qasm3-computation", lambda: f"distance {g2.distance(want)}\n{t3}")
    d = tempfile.mkdtemp(prefix="vf-p21-")
    try:
        f = os.path.join(d, "c.qasm")
        qc.qasm3(f if r.random() < 0.5 else Path(f))
        c.check(open(f).read() == t3, "qasm3-file")
        l2 = load(f if r.random() < 0.5 else Path(f))
        c.check(l2.qasm3_str() == QuantumComputation.from_qasm(f).qasm3_str() and [key(o) for o in l2] == [key(o) for o in back], "load-file")
        l3 = load(t3)
        c.check([key(o) for o in l3] == [key(o) for o in back], "load-text")
        c.check(load(qc) is qc, "load-circuit")
        c.raises(lambda: load(os.path.join(d, "none.qasm")), "load-missing", (FileNotFoundError,))
        c.raises(lambda: load(Path(d) / "none.qasm"), "load-missing-path", (FileNotFoundError,))
        if all(o[0] == "u" for o in sh):
            f2 = os.path.join(d, "c2.qasm")
            qc.qasm2(Path(f2) if r.random() < 0.5 else f2)
            c.check(open(f2).read() == qc.qasm2_str(), "qasm2-file")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    c.check(f"num_qubits={n}, num_bits={nb}, num_ops={len(sh)}" in repr(qc) and isinstance(str(qc), str), "circuit-repr")
    # misuse
    for f, what in ((lambda: qc.x(n + 3), "gate-out-of-range"), (lambda: qc.measure(0, nb + 5), "measure-out-of-range"),
                    (lambda: qc.mcx({n + 1}, 0), "control-out-of-range"), (lambda: qc.x(-1), "negative-qubit"), (lambda: qc.reset(n), "reset-out-of-range"),
                    (lambda: qc.measure([0], []), "measure-mismatch"), (lambda: qc.x("q"), "gate-wrong-type")):
        c.raises(f, what, (Exception,))
    c.check(qc.num_ops == len(sh), "misuse-changed-the-circuit", lambda: f"{qc.num_ops} instead of {len(sh)}")
    c.fingerprint = "; ".join(log)


def measure_all_and_registers(c):
    r = c.rng
    n, nb = r.randint(1, 4), r.randint(0, 5)
    qc = QuantumComputation(n, nb)
    add = r.random() < 0.5
    c.announce(f"measure_all {n} {nb} {add} {r.random()}")
    for q in range(n):
        qc.ry(r.uniform(0.2, 2.5), q)
    if add:
        if r.random() < 0.5:
            qc.measure_all()
        else:
            qc.measure_all(add_bits=True)
        c.check(qc.num_classical_bits == nb + n, "measure-all-bits", lambda: str(qc.num_classical_bits))
        off = nb
        c.check(qc.cregs["meas"].start == nb and qc.cregs["meas"].size == n, "measure-all-register")
    elif nb >= n:
        qc.measure_all(add_bits=False)
        off = 0
        c.check(qc.num_classical_bits == nb, "measure-all-no-bits")
    else:
        c.raises(lambda: qc.measure_all(add_bits=False), "measure-all-too-few-bits", (Exception,))
        return
    got = {}
    for o in qc:
        if o.type_ == OpType.measure:
            got.update(dict(zip(o.targets, o.classics)))
    c.check(got == {q: off + q for q in range(n)}, "measure-all-pairs", lambda: str(got))
    shots = r.choice([1, 7, 100])
    s = D.sample(qc, shots=shots, seed=r.randrange(5))
    c.check(sum(s.values()) == shots and all(len(k) == (qc.num_classical_bits) for k in s), "sample-shots", lambda: f"{s}")
    # registers as values
    a, z, nm = r.randrange(5), r.randint(1, 6), r.choice(["a", "b"])
    for cls in (QuantumRegister, ClassicalRegister):
        x = cls(a, z, nm) if r.random() < 0.5 else cls(start=a, size=z, name=nm)
        c.check((x.start, x.size, x.name, x.end) == (a, z, nm, a + z - 1), "register-fields", lambda: repr(x))
        c.check([x[i] for i in range(z)] == list(range(a, a + z)), "register-index")
        c.raises(lambda: x[z], "register-index-range", (IndexError,))
        c.check(all((q in x) == (a <= q < a + z) for q in range(14)), "register-contains")
        c.check(x == cls(a, z, nm) and hash(x) == hash(cls(a, z, nm)) and x != cls(a, z, nm + "x") and x != cls(a + 1, z, nm) and x != cls(a, z + 1, nm), "register-equality")
        x.start, x.size = a + 2, z + 1
        c.check((x.start, x.size, x.end) == (a + 2, z + 1, a + z + 2), "register-assign")
        c.check((x == None) is False, "register-other")
    if r.random() < 0.5:
        u = QuantumComputation()
        sizes = [r.randint(1, 2) for _ in range(r.randint(1, 3))]
        for i, m in enumerate(sizes):
            u.add_qubit_register(m, f"r{i}")
        reg = u.unify_quantum_registers("all")
        c.check(set(u.qregs) == {"all"} and (reg.start, reg.size) == (0, sum(sizes)) and u.num_qubits == sum(sizes), "unify-registers")
    # output permutation from measurements
    m = QuantumComputation(3, 3)
    p = r.sample(range(3), 3)
    for q in range(3):
        m.measure(q, p[q])
    m.initialize_io_mapping()
    c.check(dict(m.output_permutation.items()) == dict(enumerate(p)), "initialize-io-mapping", lambda: f"{m.output_permutation} instead of {p}")
    c.fingerprint = c.desc


# ---------------------------------------------------------------- decision diagrams
BASIS = {BasisStates.zero: [1, 0], BasisStates.one: [0, 1], BasisStates.plus: [qref.S2, qref.S2], BasisStates.minus: [qref.S2, -qref.S2],
         BasisStates.right: [qref.S2, 1j * qref.S2], BasisStates.left: [qref.S2, -1j * qref.S2]}


def rnd_matrix(r, d):
    k = r.random()
    m = np.array([[complex(r.gauss(0, 1), r.gauss(0, 1)) for _ in range(d)] for _ in range(d)])
    if k < 0.3:
        m[np.abs(m) < 1.0] = 0
    elif k < 0.4:
        m = np.diag(np.diag(m))
    elif k < 0.5:
        m = np.round(m)
    return m


def rnd_unitary(r, d):
    q, _ = np.linalg.qr(np.array([[complex(r.gauss(0, 1), r.gauss(0, 1)) for _ in range(d)] for _ in range(d)]))
    return q


def V(v):
    return np.array(v.get_vector(), copy=False)


def M(m, n):
    return np.array(m.get_matrix(n), copy=False)


def embed(m, targets, n, cs=()):
    return qref.apply(m, targets, np.eye(2**n, dtype=complex), n, cs)


def trace_out(m, n, elim):
    keep = [q for q in range(n) if not elim[q]]
    out = np.zeros((2**len(keep), 2**len(keep)), complex)
    for i in range(2**n):
        for j in range(2**n):
            if all(((i >> q) & 1) == ((j >> q) & 1) for q in range(n) if elim[q]):
                a = sum(((i >> q) & 1) << t for t, q in enumerate(keep))
                b = sum(((j >> q) & 1) << t for t, q in enumerate(keep))
                out[a, b] += m[i, j]
    return out


def diagrams(c):
    """histories of package functions against numpy, with garbage collections; everything held stays what it was"""
    r = c.rng
    n = r.randint(1, 4)
    N = 2**n
    vf.rnd_gc_limit(r)
    p = DDPackage(n) if r.random() < 0.5 else DDPackage(num_qubits=n)
    if r.random() < 0.2:
        p = DDPackage(1)
        p.resize(n)
    c.check(p.max_qubits == n, "max-qubits")
    vs, ms, log = [], [], [f"n={n}"]
    stats = [0]

    def note(x):
        log.append(x)
        c.announce("; ".join(log))

    def newv(v, ref, inc, what):
        if np.abs(ref).max() < 1e-12:  # the zero diagram is a terminal and has no number of qubits
            c.check(np.abs(V(v)).max() < 1e-9, f"vector:{what}")
            return
        if inc:
            p.inc_ref_vec(v)
        vs.append((v, ref))
        d = dist(V(v), ref)
        c.check(d < 1e-7 * max(1, np.abs(ref).max()), f"vector:{what}", lambda: f"distance {d}: {V(v)} instead of {ref}")

    def newm(m, ref, what):
        p.inc_ref_mat(m)
        ms.append((m, ref))
        d = dist(M(m, n), ref)
        c.check(d < 1e-7 * max(1, np.abs(ref).max()), f"matrix:{what}", lambda: f"distance {d}")

    for _ in range(r.randint(4, 14)):
        k = r.randrange(28)
        if k == 0:
            note("zero")
            e = np.zeros(N, complex)
            e[0] = 1
            newv(p.zero_state(n), e, False, "zero_state")
        elif k == 1:
            b = [r.random() < 0.5 for _ in range(n)]
            note(f"basis {b}")
            e = np.zeros(N, complex)
            e[sum(1 << i for i, x in enumerate(b) if x)] = 1
            newv(p.computational_basis_state(n, b), e, False, "computational_basis_state")
        elif k == 2:
            b = [r.choice(list(BASIS)) for _ in range(n)]
            note(f"basis {[x.name for x in b]}")
            e = np.ones(1, complex)
            for x in b:
                e = np.kron(np.array(BASIS[x], complex), e)
            newv(p.basis_state(n, b), e, False, "basis_state")
        elif k == 3:
            note("ghz")
            e = np.zeros(N, complex)
            e[0] += qref.S2
            e[-1] += qref.S2
            newv(p.ghz_state(n), e, False, "ghz_state")
        elif k == 4:
            note("w")
            e = np.zeros(N, complex)
            for q in range(n):
                e[1 << q] = 1 / math.sqrt(n)
            newv(p.w_state(n), e, False, "w_state")
        elif k in (5, 6):
            e = rnd_state(r, n)
            if r.random() < 0.3:
                e = np.where(np.abs(e) < np.median(np.abs(e)), 0, e)
                e = e / np.linalg.norm(e)
            note(f"from_vector {e[:2]}")
            how = r.random()
            a = e if how < 0.5 else np.repeat(e, 2)[::2] if how < 0.8 else list(e)
            newv(p.from_vector(a), e, False, "from_vector")
        elif k in (7, 8):
            e = rnd_matrix(r, N)
            note(f"from_matrix {e[0, :2]}")
            how = r.random()
            a = e if how < 0.5 else np.asfortranarray(e) if how < 0.8 else np.repeat(e, 2, axis=1)[:, ::2]
            newm(p.from_matrix(a), e, "from_matrix")
        elif k in (9, 10):
            nt = r.choice([1, 1, 2]) if n > 1 else 1
            qs = r.sample(range(n), n)
            u = rnd_matrix(r, 2**nt) if r.random() < 0.5 else rnd_unitary(r, 2**nt)
            nc = r.randint(0, n - nt)
            cs, objs = rnd_controls(r, qs[nt:], nc)
            objs = [Control(o) if isinstance(o, int) else o for o in objs] if r.random() < 0.5 else objs
            note(f"gate {nt} {qs[:nt]} {cs}")
            nm = {1: "single_qubit_gate", 2: "two_qubit_gate"}[nt]
            a = np.asfortranarray(u) if r.random() < 0.3 else u
            if nc == 0:
                g = getattr(p, nm)(a, *qs[:nt])
            elif nc == 1 and r.random() < 0.6:
                g = getattr(p, "controlled_" + nm)(a, objs[0], *qs[:nt])
            else:
                g = getattr(p, "multi_controlled_" + nm)(a, set(objs), *qs[:nt])
            newm(g, embed(u, qs[:nt], n, cs), nm)
        elif k == 11:
            q = QuantumComputation(n)
            note("from_operation " + random_gate(r, q, list(range(n))))
            inv = r.random() < 0.4
            ref = qref.mqt_unitary(q)
            newm(p.from_operation(q[0], invert=inv), ref.conj().T if inv else ref, "from_operation")
        elif k == 12:
            m = DDPackage.identity() if r.random() < 0.5 else p.identity()
            note("identity")
            newm(m, np.eye(N, dtype=complex), "identity")
        elif k == 13 and vs:
            (a, x), (b, y) = r.choice(vs), r.choice(vs)
            note("vector_add")
            newv(p.vector_add(a, b), x + y, True, "vector_add")
        elif k == 14 and ms:
            (a, x), (b, y) = r.choice(ms), r.choice(ms)
            note("matrix_add")
            newm(p.matrix_add(lhs=a, rhs=b), x + y, "matrix_add")
        elif k == 15 and vs:
            a, x = r.choice(vs)
            note("conjugate")
            newv(p.conjugate(a), x.conj(), True, "conjugate")
        elif k == 16 and ms:
            a, x = r.choice(ms)
            note("conjugate_transpose")
            newm(p.conjugate_transpose(a), x.conj().T, "conjugate_transpose")
        elif k == 17 and ms and vs:
            (a, x), (b, y) = r.choice(ms), r.choice(vs)
            note("matrix_vector")
            newv(p.matrix_vector_multiply(a, b), x @ y, True, "matrix_vector_multiply")
        elif k == 18 and ms:
            (a, x), (b, y) = r.choice(ms), r.choice(ms)
            if np.abs(x @ y).max() > 1e4:
                continue
            note("matrix_multiply")
            newm(p.matrix_multiply(a, b), x @ y, "matrix_multiply")
        elif k == 19 and vs:
            (a, x), (b, y) = r.choice(vs), r.choice(vs)
            note("inner_product")
            z, f = p.inner_product(a, b), p.fidelity(a, b)
            sc = max(1, np.linalg.norm(x) * np.linalg.norm(y))
            c.check(abs(z - np.vdot(x, y)) < 1e-7 * sc, "inner_product", lambda: f"{z} instead of {np.vdot(x, y)}")
            c.check(abs(f - abs(np.vdot(x, y))**2) < 1e-6 * sc**2, "fidelity", lambda: f"{f} instead of {abs(np.vdot(x, y))**2}")
        elif k == 20 and vs and ms:
            (a, x) = r.choice(vs)
            h = rnd_matrix(r, N)
            h = h + h.conj().T
            m = p.from_matrix(h)
            note("expectation_value")
            z, w = p.expectation_value(m, a), np.vdot(x, h @ x)
            c.check(abs(z - w) < 1e-6 * max(1, abs(w)), "expectation_value", lambda: f"{z} instead of {w}")
        elif k == 21 and n > 1:
            nb = r.randint(1, n - 1)
            x, y = rnd_state(r, n - nb), rnd_state(r, nb)
            a, b = p.from_vector(x), p.from_vector(y)
            note(f"vector_kronecker {nb}")
            newv(p.vector_kronecker(a, b, nb), np.kron(x, y), True, "vector_kronecker")
            p.dec_ref_vec(a)
            p.dec_ref_vec(b)
        elif k == 22 and n > 1:
            nb = r.randint(1, n - 1)
            x, y = rnd_matrix(r, 2**(n - nb)), rnd_matrix(r, 2**nb)
            note(f"matrix_kronecker {nb}")
            newm(p.matrix_kronecker(p.from_matrix(x), p.from_matrix(y), nb), np.kron(x, y), "matrix_kronecker")
        elif k == 23 and ms:
            a, x = r.choice(ms)
            t = p.trace(a, n)
            c.check(abs(t * N - np.trace(x)) < 1e-6 * max(1, np.abs(x).max()) or abs(t - np.trace(x)) < 1e-6 * max(1, np.abs(x).max()), "trace", lambda: f"{t} instead of {np.trace(x)}")
            el = [r.random() < 0.5 for _ in range(n)]
            note(f"partial_trace {el}")
            g = p.partial_trace(a, el)
            kq = n - sum(el)
            ref = trace_out(x, n, el)
            got = M(g, kq)
            sc = 2.0**sum(el)
            d = dist(got * sc, ref)
            c.check(d < 1e-6 * max(1, np.abs(ref).max()), "partial_trace", lambda: f"distance {d}: {got} instead of {ref}")
        elif k == 24 and vs:
            i = r.randrange(len(vs))
            note(f"drop vector {i}")
            p.dec_ref_vec(vs.pop(i)[0])
        elif k == 25 and ms:
            i = r.randrange(len(ms))
            note(f"drop matrix {i}")
            p.dec_ref_mat(ms.pop(i)[0])
        elif k == 26:
            note("collect")
            p.garbage_collect(force=True)
            stats[0] += 1
        elif vs:
            v, x = r.choice(vs)
            i = r.randrange(N)
            c.check(abs(v[i] - x[i]) < 1e-7 * max(1, np.abs(x).max()), "vector-index", lambda: f"{v[i]} instead of {x[i]}")
            bits = "".join(str((i >> q) & 1) for q in range(n))
            c.check(abs(v.get_amplitude(n, bits) - x[i]) < 1e-7 * max(1, np.abs(x).max()), "get_amplitude")
            if not v.is_zero_terminal():
                c.raises(lambda: v[N + r.randrange(5)], "vector-index-range", (IndexError,))
            c.check(isinstance(v.to_dot(), str) and v.size() >= 1 and v.is_terminal() == v.is_zero_terminal(), "vector-shape")
            if ms:
                m, y = r.choice(ms)
                j = r.randrange(N)
                c.check(abs(m.get_entry(n, i, j) - y[i, j]) < 1e-7 * max(1, np.abs(y).max()), "get_entry")
                path = "".join(str(2 * ((i >> q) & 1) + ((j >> q) & 1)) for q in range(n))
                c.check(abs(m.get_entry_by_path(n, path) - y[i, j]) < 1e-7 * max(1, np.abs(y).max()), "get_entry_by_path")
                ident = dist(y, np.eye(N)) < 1e-12
                if ident or dist(y, np.eye(N)) > 1e-3:
                    c.check(m.is_identity(False) == ident, "is_identity", lambda: f"{m.is_identity(False)}")
                c.check(isinstance(m.to_dot(), str) and m.size() >= 1, "matrix-shape")
    p.garbage_collect(True)
    keep = [("v", v, x, v.get_vector()) for v, x in vs] + [("m", m, x, m.get_matrix(n)) for m, x in ms]
    single = bool(keep) and r.random() < 0.6
    if single:
        # a single diagram has to keep its package alive
        keep = [r.choice(keep)]
    # only the diagrams keep the package alive now
    vs.clear()
    ms.clear()
    a = b = v = m = g = None
    del p, newv, newm
    c.count("packages held by one diagram", int(single))
    gc.collect()
    for kind, o, x, buf in keep:
        d = dist(V(o) if kind == "v" else M(o, n), x)
        c.check(d < 1e-7 * max(1, np.abs(x).max()), f"held-diagram:{kind}", lambda: f"distance {d}")
        arr = np.array(buf, copy=False)
        del buf
        c.check(dist(arr, x) < 1e-7 * max(1, np.abs(x).max()), f"held-buffer:{kind}")
    c.count("held diagrams", len(keep))
    c.count("forced collections", stats[0])
    c.fingerprint = "; ".join(log)


def dd_operations(c):
    """operations on states: gates, measurements, resets, conditions, with permutations; the package dies early"""
    r = c.rng
    n = r.randint(1, 4)
    vf.rnd_gc_limit(r)
    p = DDPackage(n)
    x = rnd_state(r, n)
    v = p.from_vector(x)
    bits = [r.random() < 0.5 for _ in range(4)]
    log = []
    for _ in range(r.randint(1, 7)):
        if r.random() < 0.15:
            p.garbage_collect(True)
        perm = None
        mp = list(range(n))
        if r.random() < 0.4:
            mp = r.sample(range(n), n)
            perm = Permutation(dict(enumerate(mp)))
        kw = {} if perm is None else {"permutation": perm}
        k = r.random()
        if k < 0.4:
            q = QuantumComputation(n)
            log.append(random_gate(r, q, list(range(n))) + str(mp))
            c.announce("; ".join(log))
            op = q[0]
            old, before = v, x
            p.inc_ref_vec(v)
            v = p.apply_unitary_operation(v, op, **kw)
            x = qref.apply(GATES[op.type_.name][2](*op.parameter[:GATES[op.type_.name][1]]), [mp[t] for t in op.targets], x, n, [(mp[a], b) for a, b in controls(op)])
            p.garbage_collect(True)
            c.check(dist(V(old), before) < 1e-8, "input-state-changed")
            p.dec_ref_vec(old)
        elif k < 0.55:
            m = r.randint(1, min(n, 3))
            qs, bs = r.sample(range(n), m), r.sample(range(4), m)
            log.append(f"measure {qs} {bs} {mp}")
            c.announce("; ".join(log))
            old = list(bits)
            v, got = p.apply_measurement(v, NonUnitaryOperation(qs, bs), bits, **kw)
            c.check(bits == old, "measurement-changed-the-input-bits")
            c.check(len(got) == 4 and all(got[i] == old[i] for i in range(4) if i not in bs), "measurement-bits", lambda: f"{got}")
            for a, b in zip(qs, bs):
                x = np.where(((np.arange(2**n) >> mp[a]) & 1) == int(got[b]), x, 0)
            w = np.linalg.norm(x)
            if not c.check(w > 1e-7, "impossible-outcome", lambda: f"{got}"):
                return
            x = x / w
            bits = got
            # the collapsed state is fixed up to a phase
            y = V(v)
            ip = np.vdot(x, y)
            c.check(abs(abs(ip) - 1) < 1e-7, "measured-state", lambda: f"{y} instead of {x}")
            x = x * ip / max(abs(ip), 1e-9)
        elif k < 0.65:
            q = r.randrange(n)
            log.append(f"reset {q} {mp}")
            c.announce("; ".join(log))
            v = p.apply_reset(v, NonUnitaryOperation([q]), **kw)
            idx = np.arange(2**n)
            t = mp[q]
            y = V(v)
            ok = False
            for val in (0, 1):
                w = np.where(((idx >> t) & 1) == val, x, 0)
                nw = np.linalg.norm(w)
                if nw > 1e-7:
                    z = qref.apply(qref.X, [t], w / nw, n) if val else w / nw
                    ip = np.vdot(z, y)
                    if abs(abs(ip) - 1) < 1e-7:
                        ok, nx = True, z * ip / abs(ip)
            if not c.check(ok, "reset-state", lambda: f"{y} from {x}"):
                return
            x = nx
        elif k < 0.8:
            q = QuantumComputation(n, 4)
            g = random_gate(r, q, list(range(n)))
            op = q[0]
            if r.random() < 0.5:
                b, e, cmp = r.randrange(4), r.randrange(2), r.choice(["eq", "neq"])
                cop, val = ClassicControlledOperation(op, b, e, getattr(ComparisonKind, cmp)), int(bits[b])
            else:
                s0, e, cmp = r.randrange(3), r.randrange(4), r.choice(sorted(CMP))
                cop, val = ClassicControlledOperation(op, ClassicalRegister(s0, 2, "c"), e, getattr(ComparisonKind, cmp)), int(bits[s0]) + 2 * int(bits[s0 + 1])
            log.append(f"if {val} {cmp} {e}: {g} {mp}")
            c.announce("; ".join(log))
            v = p.apply_classic_controlled_operation(v, cop, bits, **kw)
            if CMP[cmp](val, e):
                x = qref.apply(GATES[op.type_.name][2](*op.parameter[:GATES[op.type_.name][1]]), [mp[t] for t in op.targets], x, n, [(mp[a], b) for a, b in controls(op)])
            c.raises(lambda: p.apply_classic_controlled_operation(v, ClassicControlledOperation(op, 3), bits[:2]), "condition-on-missing-bit", (Exception,))
        elif k < 0.9:
            q = r.randrange(n)
            log.append(f"measure_collapsing {q}")
            c.announce("; ".join(log))
            o = p.measure_collapsing(v, q)
            c.check(o in ("0", "1"), "measure_collapsing-outcome", lambda: repr(o))
            x = np.where(((np.arange(2**n) >> q) & 1) == int(o), x, 0)
            if not c.check(np.linalg.norm(x) > 1e-7, "impossible-outcome"):
                return
            x = x / np.linalg.norm(x)
            ip = np.vdot(x, V(v))
            c.check(abs(abs(ip) - 1) < 1e-7, "collapsed-state", lambda: f"{V(v)} instead of {x}")
            x = x * ip / max(abs(ip), 1e-9)
            c.raises(lambda: p.measure_collapsing(v, n + r.randrange(3)), "measure_collapsing-range", (Exception,))
        else:
            col = r.random() < 0.5
            log.append(f"measure_all {col}")
            c.announce("; ".join(log))
            o = p.measure_all(v, col)
            c.check(len(o) == n and set(o) <= {"0", "1"} and abs(x[int(o, 2)]) > 1e-7, "measure_all-outcome", lambda: f"{o} on {x}")
            if col:
                x = np.zeros(2**n, complex)
                x[int(o, 2)] = 1
                ip = np.vdot(x, V(v))
                c.check(abs(abs(ip) - 1) < 1e-7, "measure_all-state", lambda: f"{V(v)} instead of {o}")
                x = x * ip / max(abs(ip), 1e-9)
        d = dist(V(v), x)
        c.check(d < 1e-6, "state-after-operation", lambda: f"distance {d}: {V(v)} instead of {x}")
    del p
    gc.collect()
    c.check(dist(V(v), x) < 1e-6, "state-outlives-package")
    c.fingerprint = "; ".join(log)


def dd_circuits(c):
    """simulate, build_functionality, sample: results, and that they outlive the package"""
    r = c.rng
    n = r.randint(1, 4)
    qc = QuantumComputation(n)
    g = [random_gate(r, qc, list(range(n))) for _ in range(r.randint(0, 7))]
    if r.random() < 0.3:
        qc.gphase(angle(r))
    c.announce(str(g))
    u = qref.mqt_unitary(qc)
    x = rnd_state(r, n)
    vf.rnd_gc_limit(r)
    p = DDPackage(n)
    v0 = p.from_vector(x)
    keep = r.random() < 0.5
    if keep:
        p.inc_ref_vec(v0)
    v = D.simulate(qc, v0, p) if r.random() < 0.5 else D.simulate(qc=qc, initial_state=v0, dd_package=p)
    m = D.build_functionality(qc, p, r.random() < 0.5)
    if keep:
        p.garbage_collect(True)
        c.check(dist(V(v0), x) < 1e-8, "initial-state-kept")
    del v0
    p.garbage_collect(True)
    if r.random() < 0.8:
        del p
        gc.collect()
    c.check(dist(V(v), u @ x) < 1e-7, "simulate", lambda: f"{V(v)} instead of {u @ x}")
    c.check(dist(M(m, n), u) < 1e-7, "build_functionality", lambda: f"distance {dist(M(m, n), u)}")
    c.check(dist(np.array(D.simulate_statevector(qc), copy=False), u[:, 0]) < 1e-8, "simulate_statevector")
    buf = D.build_unitary(qc, recursive=r.random() < 0.5)
    a = np.array(buf, copy=False)
    del buf
    gc.collect()
    c.check(a.shape == u.shape and dist(a, u) < 1e-8, "build_unitary")
    thr = r.choice([0.0, 0.1, 0.3])
    t = np.array(v.get_vector(threshold=thr), copy=False)
    y = u @ x
    w = np.abs(y)
    far = np.abs(w - thr) > 1e-6
    c.check(dist(t[far], np.where(w < thr, 0, y)[far]) < 1e-7, "get_vector-threshold")
    # sampling
    shots = 400
    s = D.sample(qc, shots, r.randrange(3))
    pr = np.abs(u[:, 0])**2
    c.check(sum(s.values()) == shots and all(len(k) == n for k in s), "sample-format", lambda: str(s))
    for i in range(2**n):
        f = s.get(format(i, f"0{n}b"), 0)
        sd = math.sqrt(max(shots * pr[i] * (1 - pr[i]), 0))
        c.check(abs(f - shots * pr[i]) <= 7 * sd + 1e-6 * shots, "sample-distribution", lambda: f"{i}: {f} of {shots}, probability {pr[i]}")
    c.check(s == D.sample(qc, shots=shots, seed=5) or True, "sample-keyword")
    c.check(D.sample(qc, 50, 7) == D.sample(qc, shots=50, seed=7), "sample-seed")
    c.fingerprint = c.desc


def misuse(c):
    """calls that cannot be answered raise exceptions and leave everything usable"""
    r = c.rng
    n = r.randint(1, 3)
    vf.rnd_gc_limit(r)
    p = DDPackage(n)
    big = 2**(n + r.randint(1, 2))
    v = p.zero_state(n)
    A = [
        ("from_vector-too-large", lambda: p.from_vector(np.ones(big) / math.sqrt(big))),
        ("from_vector-length", lambda: p.from_vector(np.ones(3))),
        ("from_vector-shape", lambda: p.from_vector(np.ones((2, 2)))),
        ("from_matrix-too-large", lambda: p.from_matrix(np.ones((big, big)))),
        ("from_matrix-not-square", lambda: p.from_matrix(np.ones((2, 4)))),
        ("from_matrix-size", lambda: p.from_matrix(np.ones((3, 3)))),
        ("from_matrix-shape", lambda: p.from_matrix(np.ones(4))),
        ("zero_state-too-large", lambda: p.zero_state(n + 1)),
        ("ghz_state-too-large", lambda: p.ghz_state(n + 1)),
        ("w_state-too-large", lambda: p.w_state(n + 1)),
        ("basis_state-too-large", lambda: p.basis_state(n + 1, [BasisStates.plus] * (n + 1))),
        ("basis_state-too-short", lambda: p.basis_state(n, [BasisStates.plus] * (n - 1))),
        ("computational_basis_state-too-large", lambda: p.computational_basis_state(n + 1, [True] * (n + 1))),
        ("computational_basis_state-too-short", lambda: p.computational_basis_state(n, [True] * (n - 1))),
        ("gate-matrix-shape", lambda: p.single_qubit_gate(np.eye(4), 0)),
        ("gate-matrix-shape2", lambda: p.two_qubit_gate(np.eye(2), 0, 1)),
        ("gate-out-of-range", lambda: p.single_qubit_gate(qref.X, n)),
        ("measure-out-of-range", lambda: p.measure_collapsing(v, n)),
        ("vector-index", lambda: v[2**n]),
        ("negative-index", lambda: v[-1]),
        ("package-size", lambda: DDPackage(-1)),
        ("no-diagram", lambda: p.vector_add(v, None)),
        ("wrong-diagram", lambda: p.matrix_multiply(v, v)),
        ("simulate-non-unitary", lambda: D.build_unitary(load("OPENQASM 2.0; include \"qelib1.inc\"; qreg q[1]; creg c[1]; measure q->c; h q;"))),
        ("control-negative", lambda: Control(-1)),
        ("type-unknown", lambda: OpType("nonsense")),
        ("permutation-negative", lambda: Permutation({-1: 0})),
        ("text-nonsense", lambda: load("no such file")),
        ("qasm-nonsense", lambda: QuantumComputation.from_qasm_str("OPENQASM 2.0; qreg q[")),
        ("file-missing", lambda: QuantumComputation.from_qasm("/nonexistent/x.qasm")),
        ("standard-none", lambda: StandardOperation(None, OpType.x)),
        ("symbolic-evaluate", lambda: Term(Variable("x"), 1.0).evaluate({})),
    ]
    todo = r.sample(A, r.randint(3, 8))
    c.announce(f"n={n} " + " ".join(k for k, _ in todo))
    for k, f in todo:
        c.raises(f, "not-refused:" + k, (Exception,))
        e = np.zeros(2**n)
        e[0] = 1
        c.check(dist(V(v), e) < 1e-12, "state-after-refusal:" + k)
    x = rnd_state(r, n)
    c.check(dist(V(p.from_vector(x)), x) < 1e-9, "package-after-refusals")
    c.fingerprint = c.desc


# ---------------------------------------------------------------- fixed inputs of known findings
INSTANTIATED = """
from mqt.core.ir import QuantumComputation
from mqt.core.ir.symbolic import Expression, Term, Variable
x = Variable("x1")
qc = QuantumComputation(1)
qc.rx(Expression([Term(x, 1.0)], 0.0), 0)
op = qc[0]
qc.instantiate_inplace({x: 0.5})
assert list(op.targets) == [0]
"""


def instantiated_reference(c):
    """a reference to a symbolic operation that instantiate_inplace replaces (in a process of its own: it dies)"""
    c.announce("op = qc[0] (symbolic); qc.instantiate_inplace({x: 0.5}); op.targets")
    r = subprocess.run([sys.executable, "-c", INSTANTIATED], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace")
    c.check(r.returncode == 0, "instantiated-reference", lambda: next((l for l in r.stderr.splitlines() if "SUMMARY" in l), r.stderr[-300:]))


def reciprocal(c):
    x = Expression([Term(X1, 2.0)], 0.0)
    c.announce("1.0 / Expression(2 x1): not linear, must be refused; 1.0 / Term(x1, 2)")
    for what, f in (("expression", lambda: 8.0 / x), ("term", lambda: 8.0 / Term(X1, 2.0))):
        try:
            got = f().evaluate({X1: 1.0})
        except Exception:
            continue
        # at x1 = 2 the quotient is 2
        c.check(abs(f().evaluate({X1: 2.0}) - 2.0) < 1e-9, f"reciprocal-{what}", f"8 / (2 x1) evaluates to {f().evaluate({X1: 2.0})} at x1 = 2")


if __name__ == "__main__":
    vf.main("P21", [
        Suite("sequence", 2500, 60000, sequence),
        Suite("gates", 1500, 40000, gate_methods),
        Suite("operations", 1500, 40000, operations),
        Suite("other-operations", 1500, 30000, other_operations),
        Suite("permutations", 700, 15000, permutations),
        Suite("symbolic", 900, 20000, symbolic),
        Suite("circuits", 1200, 30000, circuits),
        Suite("measure-all", 500, 10000, measure_all_and_registers),
        Suite("diagrams", 1000, 25000, diagrams),
        Suite("dd-operations", 900, 25000, dd_operations),
        Suite("dd-circuits", 500, 12000, dd_circuits),
        Suite("misuse", 400, 8000, misuse),
        Suite("instantiated-reference", 1, 1, instantiated_reference, True),
        Suite("reciprocal", 1, 1, reciprocal, True),
    ])
