"""What each check runs."""
import os, subprocess, sys
import vbuild
from vbuild import harness, ROOT, BUILD

CHECKS = {}

RULE = ("cases are generated from the run seed (a 64-bit case seed each, per suite); a case counts as distinct and "
        "non-trivial when its generated input differs from all others and the oracle compared at least one observation. ")


def cxx(prop, name, libs, rule, assumptions=(), extra=(), procs=8, **kw):
    harness(name, libs, extra)
    CHECKS[prop] = dict(jobs=[dict(bin=name, procs=procs)], rule=RULE + rule, assumptions=list(assumptions), **kw)


def python(prop, script, rule, assumptions=(), procs=8, **kw):
    """a monitor in Python, run by the interpreter and with the bindings built (instrumented) from the current tree"""
    cmd = [vbuild.PYTHON, os.path.join(ROOT, "harness", "py", script)]
    CHECKS[prop] = dict(jobs=[dict(cmd=cmd, procs=procs, prepare=vbuild.prepare_python)], rule=RULE + rule,
                        assumptions=list(assumptions), env=vbuild.python_env, **kw)


def command(job):
    if "bin" in job:
        return [os.path.join(BUILD, "bin", job["bin"])]
    return job["cmd"]


def prepare(spec):
    targets = ["bin/" + j["bin"] for j in spec["jobs"] if "bin" in j]
    ok, out = True, ""
    if targets:
        ok, out = vbuild.build(targets)
        if not ok:  # once more: an interrupted earlier build may have left something behind
            ok, out = vbuild.build(targets)
    for j in spec["jobs"]:
        if ok and "prepare" in j:
            ok, out = j["prepare"]()
    return ok, out


def setup():
    rc = 0
    targets = sorted({"bin/" + j["bin"] for s in CHECKS.values() for j in s["jobs"] if "bin" in j})
    ok, out = vbuild.build(targets, timeout=1700)
    if not ok:
        print(out[-5000:])
        rc = 2
    done = set()
    for s in CHECKS.values():
        for j in s["jobs"]:
            if "prepare" in j and j["prepare"] not in done:
                done.add(j["prepare"])
                ok, out = j["prepare"]()
                if not ok:
                    print(out[-3000:])
                    rc = 2
    return rc


DD = ["ir", "dd"]
FLOAT = "results are compared with tolerances between 1e-9 and 1e-6; deviations below that are not observed"
SMALL = "dense reference semantics bound most circuits to at most 10 qubits"

cxx("P01", "p01", DD,
    "Circuits over all 32 gate kinds with 0-9 positive/negative controls, compound operations, global phases, barriers, random "
    "layouts and output permutations, random basis/dense/sparse input states, random table sizes, plus every gate x target tuple "
    "x control pattern on 4 qubits; every final state is compared with an independent dense state-vector semantics. Circuits of up to 110 "
    "qubits whose states have at most a few dozen basis states are compared with a sparse semantics. Half of the cases run with collection limits "
    "lowered to 0-300 nodes.",
    [FLOAT, SMALL])
cxx("P02", "p02", DD,
    "Random circuits (1-5 qubits, 1-70 operations, all gates/controls/compounds/global phases), layouts, output permutations, "
    "ancillary and garbage markings; sequential and recursive construction compared with dense matrix products, and all "
    "single-operation diagrams (plain, inverse, permuted, applied from both sides). For circuits of up to 110 qubits selected columns are "
    "compared with a sparse semantics. Half of the cases run with collection limits lowered to 0-300 nodes.",
    [FLOAT, SMALL, "entries merged over garbage qubits are compared by magnitude only"])
cxx("P03", "p03", DD,
    "Histories of 10-45 operations on pools of vectors and matrices (1-4 qubits; dense, sparse, few-valued, identity-padded, gates) in "
    "packages with tiny tables; every result and all readers compared with a dense shadow. Garbage and ancilla reductions of arbitrary vectors "
    "and matrices (with references held, both garbage orientations, identity-padded) compared with dense sums of squares and zeroed columns.",
    [FLOAT, SMALL])
cxx("P04", "p04", DD,
    "Histories interleaved with forced and automatic collections, cache clearing, package resets and resizes; exactly representable "
    "circuits built along many paths (node identity); number-table histories around bucket borders.",
    [FLOAT, SMALL, "node identity is demanded for Clifford+T circuits on at most 4 qubits, where rounding stays far below the package tolerance"])
cxx("P05", "p05", DD,
    "States of 1-7 qubits (dense, sparse, reached by circuits): all marginal probabilities, both forced outcomes, measurement sequences; "
    "static and dynamic circuits (measurements, resets, conditions on bits and registers with all comparisons) sampled and judged "
    "against the exact outcome distribution (support, shot count, Chernoff bound at 1e-12 per outcome, reproducibility); circuits of up to 110 qubits and bits with registers of up "
    "to 64 bits; collection limits lowered to 0-300 nodes in a part of the cases.",
    [FLOAT, "frequency deviations below the Chernoff bound for a few hundred to two thousand shots per circuit are not observed"])
cxx("P06", "p06", DD,
    "Random and structured vectors (1-6 qubits, up to thousands of nodes) and matrices (1-4 qubits; dense, sparse, block-shared, unitary, "
    "scaled identities) written and read in both formats (streams, files), transferred to other packages and back; Graphviz exports in all "
    "option combinations are parsed, their graphs and weight labels compared with the diagram; formatted numbers are evaluated.",
    [FLOAT])
cxx("P07", "p07", DD,
    "Noisy circuits (1-5 qubits, all gates and controls, every order of amplitude damping, phase flip and depolarisation, probabilities "
    "from 0 to 1) in packages with small tables: density matrices, diagonal probabilities, collapse and measurement frequencies compared "
    "with dense Kraus-operator semantics; stochastic trajectories checked for reachability, norm and frequency (Bernstein bound at 1e-13).",
    [FLOAT, "frequency deviations below the Bernstein bound for 1500 trajectories per operation are not observed"])
QASM = ["ir", "qasm3"]
cxx("P08", "p08", QASM,
    "Circuits over several quantum, ancillary and classical registers (1-5 qubits; all gates, controls, compound operations, global phases, "
    "barriers, multi-target measurements and resets, conditions on bits and registers with simple and compound bodies; layouts; removed "
    "qubits) exported in both versions, imported and compared by dense semantics (unitaries, or classical-outcome ensembles of density "
    "matrices), registers, barriers and layouts; a second round trip for a part of them.",
    [FLOAT, SMALL])
cxx("P09", "p09", QASM,
    "OpenQASM 2/3 programs generated together with their meaning (declarations in all notations, constants, arithmetic with all operators, "
    "functions and literal forms, nested user-defined gates, all modifiers, broadcasting, measurements, resets, barriers, conditions with "
    "else branches, comments and free layout, interleaved declarations; strings, streams and files) and multi-controlled gates with ancillas; "
    "registers and the exact unitary or classical-outcome ensemble are compared with an evaluator that shares no code with the importer.",
    [FLOAT, SMALL])
cxx("P10", "p10", QASM,
    "Mutated (bytes, tokens, spliced) valid programs, grammar-shaped programs with ill-typed expressions and operands in every place, token "
    "soups, truncations, deep nestings and long inputs up to 30000 repetitions, and a list of hostile texts, run under address and undefined-"
    "behaviour sanitizers; accepted circuits are checked for well-formedness, generated programs with one appended defect must be rejected.",
    ["sizes of registers, hardware qubit indices and the expansion of nested gates stay small: resources a program demands are not bounded by the importer",
     "programs using constructs outside the importer's subset may be rejected or accepted"])
cxx("P11", "p11", DD,
    "Operations of all kinds (32 gates, 0-3 positive/negative controls, controlled global phases, compound operations) on 1-4 qubits and "
    "circuits with layouts: inverses compared with adjoint dense matrices and with inverse diagrams, inverse and commutation queries on "
    "near-inverse and near-equal pairs judged by dense products, non-unitary operations must be refused.",
    [FLOAT, SMALL])
cxx("P12", "p12", ["ir", "dd", "circuit_optimizer"],
    "Random and pattern-rich circuits (1-5 qubits; nested compound operations, all gates and controls, measurements, resets and conditions) "
    "through every pass and short sequences of passes; computation compared exactly by dense matrices or branch ensembles, removals with an "
    "independent model, permutation passes through tracked layouts; promised forms and refusals checked.",
    [FLOAT, SMALL, "deferring measurements is monitored where a measured qubit is afterwards only used diagonally or as a control"])
cxx("P14", "p14", ["ir"],
    "Histories of all expression operators and constructors on dyadic coefficients (exact shadow; evaluation, terms, equality, hashing, missing "
    "variables); symbolic operations and circuits (all parametric gates, mixed symbolic/numeric parameters around the special angles, nested in "
    "compound and conditional operations) instantiated and compared by dense matrices with the same circuit built from numbers; inversion, copies.",
    [FLOAT, SMALL])
cxx("P15", "p15", ["ir", "zx"],
    "Circuits over all convertible gates (controls of both signs, compounds, symbolic parameters, layouts, CNOT triples) against dense unitaries; the "
    "linear map of each diagram computed independently by variable elimination and compared up to a scalar after construction, after each "
    "simplification pass in random order (circuit diagrams and arbitrary random diagrams with phase gadgets), composition, adjoint, ancillas, added "
    "qubits; identity check; pi-rational arithmetic against exact rationals; diagram editing against a plain model; consistency of edges and counters.",
    [FLOAT, SMALL, "diagrams are compared up to a non-zero scalar, as the simplification rules do not track scalars"])
cxx("P16", "p16", ["ir", "dd", "circuit_optimizer", "algorithms"],
    "Every generator over sizes, inputs and seeds: states, exact outcome distributions and unitaries of the circuits against the defining formulas "
    "(hidden strings, phases on and off the grid, Fourier matrix on random inputs, optimal search probabilities, random/sparse/real/tiny amplitudes); "
    "sizes up to 60 qubits (300 rounds) through decision diagrams; seeds reproducible; Paulis map to Paulis and the whole one- and two-qubit Clifford "
    "group is reached.",
    [FLOAT, "generators are monitored from one qubit (the Fourier transforms from zero) up to 60 qubits"])
cxx("P17", "p17", ["ir", "na"],
    "Random schedules (1-6 atoms, orderly and disturbed moves, loads, stores, local and global gates) against an independent model: contents, tracked "
    "positions after every operation, verdict and named operation of the validation, printed text; order, hashing and distances of locations, zones, "
    "refused constructions.",
    ["schedules whose validity depends on loaded atoms that an operation leaves alone are not judged"])
cxx("P18", "p18", ["ir", "datastructures"],
    "Histories on directed, acyclic and undirected graphs, disjoint sets and symmetric matrices against plain set models (reachability, topological "
    "orders, degrees, refusals, printed text, copies); circuit layers executed in random maximal orders: nothing twice, nothing left, the executed "
    "order computes the same state, executable queries and interaction graphs exact, layers moved and copied under way.",
    [FLOAT, SMALL, "layers of circuits with classically controlled operations are not monitored (layers know no classical dependencies)"])
cxx("P19", "p19", ["ir", "mlir"],
    "Programs of the dialect (1-4 qubits in one or more registers, all gates with static, dynamic and mixed parameters and "
    "controls, measurements, branches with and without block arguments, critical edges, loops) run through the passes and "
    "pipelines of them; every program is executed before and after (all measurement outcomes) with linear use of qubits "
    "monitored; invalid operations for the verifiers; printing and parsing.",
    [FLOAT, "round-trip programs stay within the documented assumptions of that pass", "loops are followed until the remaining probability is below 1e-5 per path"])
cxx("P22", "p22", ["ir"],
    "Pairs of operations one or two mutations apart (type, targets, controls, signs, parameters, bits, conditions, nesting; numeric and symbolic): "
    "equality judged by dense semantics (unitary, or outcome ensembles for every value of the classical bits), compared with hashes, symmetry, "
    "transitivity, clones, relabelled operations; circuits built twice, copied, and changed in one respect.",
    [FLOAT, SMALL])
cxx("P13", "p13", DD,
    "Histories of 5-22 edits (registers, ancillae, operations, erasures, layouts, garbage/ancillary marks, stripping, removal and re-insertion "
    "of qubits, reordering, unification, global phases, clearing, copies, moves, measurement helpers, 19 kinds of misuse) on circuits of up to 6 "
    "qubits, with the complete observable state compared after each edit with a shadow; layouts derived from measurements; compound round trips.",
    [SMALL, "registers' names are not monitored after qubits have been removed from them, and unification is not used on circuits with removed qubits"])
python("P20", "p20.py",
    "Qiskit circuits (all supported gates, numeric and symbolic parameters, 0-4 extra controls of both signs, custom gates and nested "
    "definitions, phases, registers, measurements, resets, barriers) imported, toolkit circuits exported, and "
    "both round trips: unitaries, global phases, outcome distributions, registers, parameters and layouts compared with a dense reference "
    "(not Qiskit's own simulator); unsupported contents must be refused.",
    [FLOAT, SMALL, "circuits whose ancilla registers precede other registers are refused by the importer and not generated",
     "garbage marks do not survive export (the format has none)"])
python("P21", "p21.py",
    "the package mqt.core as imported by Python (extension modules instrumented with AddressSanitizer and UBSan): programs over circuits as "
    "sequences (indexing, slices with any step, insertion, replacement, deletion, references kept across all of that), every gate method with "
    "positional and keyword arguments, operation classes and their attributes, permutations, symbolic expressions, registers and layouts, "
    "texts and files, decision-diagram packages (states, gates, arithmetic, measurement, traces, permutations) - all compared with shadow "
    "lists and NumPy matrices, half of the time with collection limits lowered; misuse must raise a Python exception and leave everything intact.",
    [FLOAT, SMALL, "gates whose controls and targets overlap, reference counts decremented twice and operands larger than the package are "
     "outside the documented use and not generated"])
