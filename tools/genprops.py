#!/usr/bin/env python3
"""Writes properties.jsonl (one place to keep the statements)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, **kw):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

D = "include/mqt-core/dd/"
prop("P01", "Simulating a circuit yields exactly the state its gates define",
     "For every circuit over the supported gates (any parameters, any number of positive and negative controls at any position, compound operations, barriers, global phase) and every input state, decision-diagram simulation returns the state vector obtained by multiplying the gates' defining matrices in order. Initial layouts and output permutations only relabel qubits, and every way of reading the result (dense, sparse, by index, by path) reports the same amplitudes.",
     ["inputs", "programs", "configurations"], "all circuits, input states, qubit layouts and package table configurations",
     "Tests simulate a handful of fixed circuits; a wrong weight, level or control case shows only for particular qubit orders, parameters and sharing patterns.",
     ["src/dd/Simulation.cpp", "src/dd/Operations.cpp", "src/dd/Package.cpp", D + "Package.hpp", D + "Operations.hpp", "src/dd/GateMatrixDefinitions.cpp", "src/dd/Edge.cpp"],
     [("state simulation", "src/dd/Simulation.cpp: simulate"), ("gate diagrams", "src/dd/Package.cpp: makeGateDD, makeTwoQubitGateDD"), ("matrix-vector product", D + "Package.hpp: multiply2")])
prop("P02", "Building a circuit's functionality yields exactly its unitary",
     "For every circuit over the supported gates, both the sequential and the recursive construction return the matrix equal to the product of the gates' defining matrices in order, including the circuit's global phase and taking initial layout and output permutation into account. With ancillary or garbage qubits the result is that matrix restricted to ancillary inputs in the zero state and with garbage outcomes merged; both constructions agree with each other.",
     ["inputs", "programs", "configurations"], "all circuits, layouts, ancillary/garbage markings and package configurations",
     "Unit tests build a few textbook circuits; permutation handling, recursion boundaries (odd lengths, single operations) and gate placement interact combinatorially.",
     ["src/dd/FunctionalityConstruction.cpp", "src/dd/Operations.cpp", "src/dd/Package.cpp", D + "Package.hpp"],
     [("sequential construction", "src/dd/FunctionalityConstruction.cpp: buildFunctionality"), ("recursive construction", "src/dd/FunctionalityConstruction.cpp: buildFunctionalityRecursive"), ("ancillary/garbage reduction", "src/dd/Package.cpp: reduceAncillae, reduceGarbage")])
prop("P03", "Decision-diagram arithmetic agrees with linear algebra",
     "For all vectors and matrices given as decision diagrams, addition, multiplication, conjugation, conjugate transposition, tensor product, inner product, fidelity, expectation value, full and partial trace and the identity test return what dense linear algebra returns. Converting dense vectors and matrices to diagrams and back reproduces them.",
     ["inputs", "histories"], "all pairs of vectors/matrices (dense, sparse, structured, with identity levels) and all orders in which operations are asked for",
     "The interesting cases are particular node structures: skipped identity levels, zero stubs, shared nodes with different weights, cached results of earlier calls.",
     [D + "Package.hpp", "src/dd/Package.cpp", "src/dd/Edge.cpp", D + "Node.hpp"],
     [("arithmetic", D + "Package.hpp: add2, multiply2, kronecker2, trace, innerProduct"), ("result caches", D + "ComputeTable.hpp, " + D + "UnaryComputeTable.hpp"), ("normalisation", "src/dd/Edge.cpp: normalize")])
prop("P04", "Diagrams stay canonical and garbage collection never changes results",
     "Two diagrams in one package that represent the same vector or matrix are the same node with the same weight, no matter by which sequence of operations each was obtained. Garbage collection, cache clearing and package resets never change what a referenced diagram represents or the result of any later operation, and unreferenced nodes are actually released.",
     ["histories", "schedules"], "all interleavings of operations, reference changes, forced and automatic garbage collections, resizes and resets on one package",
     "Stale cache entries, wrong reference counts and unsorted tables only show after particular histories of allocation, release and reuse.",
     [D + "UniqueTable.hpp", D + "RealNumberUniqueTable.hpp", "src/dd/RealNumberUniqueTable.cpp", D + "MemoryManager.hpp", "src/dd/MemoryManager.cpp", "src/dd/Package.cpp", D + "ComputeTable.hpp"],
     [("unique tables", D + "UniqueTable.hpp: lookup, garbageCollect"), ("number table", "src/dd/RealNumberUniqueTable.cpp: lookup"), ("garbage collection", "src/dd/Package.cpp: garbageCollect")])
prop("P05", "Measurement, reset and sampling follow the Born rule",
     "For every state and qubit, reported outcome probabilities equal the squared amplitudes; a measured or reset qubit leaves the exactly projected and renormalised state, and forcing an outcome yields that outcome's post-state. Sampling a circuit, including mid-circuit measurements, resets and classically controlled operations with every comparison, only ever returns outcomes of positive probability, returns as many shots as asked for, in the documented bit order, and with frequencies following the circuit's outcome distribution.",
     ["inputs", "programs", "schedules"], "all states, qubits, circuits (static and dynamic), shot counts and random seeds",
     "Outcome-dependent paths, repeated measurements into the same bit and conditions on registers multiply; tests check a few fixed circuits.",
     ["src/dd/Simulation.cpp", "src/dd/Operations.cpp", "src/dd/Package.cpp", D + "Package.hpp"],
     [("sampling", "src/dd/Simulation.cpp: sample"), ("measurement and collapse", "src/dd/Package.cpp: measureOneCollapsing, performCollapsingMeasurement, measureAll"), ("classical control", "src/dd/Operations.cpp: applyClassicControlledOperation")])
prop("P06", "Saved, transferred and exported diagrams represent the same object",
     "Writing a vector or matrix diagram in the text or binary format and reading it back into the same or another package yields a diagram of the same vector or matrix (the identical node in the same package); transferring a diagram to another package does so as well. Graphviz exports name every node exactly once and connect exactly the diagram's edges.",
     ["inputs"], "all vector and matrix diagrams, both formats, same and different packages",
     "Formatting of weights, identity levels, terminal children and sharing only go wrong for particular diagrams.",
     [D + "Export.hpp", "src/dd/Export.cpp", D + "Package.hpp", "src/dd/ComplexValue.cpp"],
     [("serialisation", "src/dd/Export.cpp: serialize; " + D + "Package.hpp: deserialize"), ("transfer", D + "Package.hpp: transfer"), ("weight parsing", "src/dd/ComplexValue.cpp: fromString, toString, getLowestFraction")])
prop("P07", "Noise-aware simulation applies exactly the specified channels",
     "Applying an operation's noise to a density matrix yields the matrix obtained by applying the specified error channels, with their specified strengths, to every qubit the operation uses, so trace one and hermiticity are preserved. Stochastic noise on a state vector keeps it normalised, yields only states reachable by the channels' error operators, and averages to the same result.",
     ["inputs", "programs", "configurations"], "all circuits, noise strengths, sets of error channels and noise models sharing a package",
     "The noise tests are among the repository's unreliable ones and compare a few probabilities on one circuit.",
     ["src/dd/NoiseFunctionality.cpp", D + "NoiseFunctionality.hpp", D + "DensityNoiseTable.hpp", D + "StochasticNoiseOperationTable.hpp", "src/dd/Package.cpp"],
     [("deterministic noise", "src/dd/NoiseFunctionality.cpp: DeterministicNoiseFunctionality"), ("stochastic noise", "src/dd/NoiseFunctionality.cpp: StochasticNoiseFunctionality"), ("density products", D + "Package.hpp: applyOperationToDensity")])
prop("P08", "Exporting to OpenQASM and importing again preserves the circuit",
     "For every circuit the exporter supports (all gates with arbitrary parameters and controls, several quantum, ancillary and classical registers, measurements, resets, barriers, compound and classically controlled operations), the OpenQASM 3 text it writes is accepted by the importer and denotes the same computation on the same registers. The same holds for OpenQASM 2 wherever that language can express the circuit, and recorded initial layout and output permutation survive.",
     ["programs", "inputs"], "all circuits built through the public interface, both language versions",
     "Register splitting, index arithmetic, parameter printing and control modifiers interact; tests round-trip single gates.",
     ["src/ir/QuantumComputation.cpp", "src/ir/operations/StandardOperation.cpp", "src/ir/operations/NonUnitaryOperation.cpp", "src/ir/operations/ClassicControlledOperation.cpp", "src/ir/operations/CompoundOperation.cpp", "src/qasm3/Importer.cpp"],
     [("circuit export", "src/ir/QuantumComputation.cpp: dumpOpenQASM"), ("operation export", "src/ir/operations/*.cpp: dumpOpenQASM"), ("import", "src/qasm3/Importer.cpp")])
prop("P09", "Importing OpenQASM yields the circuit the program denotes",
     "For every valid program of the supported OpenQASM 2/3 subset (declarations, standard gates, user-defined and nested gates with parameter expressions, control/negative-control/inverse modifiers, register broadcasting, measurements, resets, barriers, classical conditions with else branches, constants), the imported circuit performs exactly the computation the language assigns to it, on registers of the declared names and sizes.",
     ["programs"], "all programs of the supported grammar",
     "Modifier order, operator precedence, parameter substitution, broadcasting and condition inversion combine freely; tests give one example of each.",
     ["src/qasm3/Importer.cpp", "src/qasm3/Parser.cpp", "src/qasm3/Scanner.cpp", "include/mqt-core/qasm3/passes/ConstEvalPass.hpp", "src/qasm3/passes/ConstEvalPass.cpp", "include/mqt-core/qasm3/StdGates.hpp"],
     [("translation", "src/qasm3/Importer.cpp"), ("expression evaluation", "src/qasm3/passes/ConstEvalPass.cpp"), ("grammar", "src/qasm3/Parser.cpp")])
prop("P10", "Every input text is imported or rejected cleanly",
     "For every text and stream, the OpenQASM importer either returns a well-formed circuit (all operations within its registers, no duplicate qubits within a gate) or reports an error by throwing a standard exception. It never crashes, reads out of bounds, hangs or overflows the stack (apart from the time and memory that declared register sizes and expanded gate definitions demand), and invalid programs (undeclared or redeclared names, indices out of range, wrong arity, duplicate qubits, type errors, syntax errors) are rejected.",
     ["inputs"], "all byte strings, in particular mutated, truncated and adversarially nested programs",
     "The space of malformed inputs is unbounded; unit tests list a few dozen.",
     ["src/qasm3/Parser.cpp", "src/qasm3/Scanner.cpp", "src/qasm3/Importer.cpp", "src/qasm3/passes/TypeCheckPass.cpp", "src/qasm3/passes/ConstEvalPass.cpp", "src/qasm3/Types.cpp"],
     [("scanner", "src/qasm3/Scanner.cpp"), ("parser", "src/qasm3/Parser.cpp"), ("type check", "src/qasm3/passes/TypeCheckPass.cpp")])
prop("P11", "Inverting operations and circuits gives the inverse unitary",
     "For every unitary operation or circuit, inverting it yields one whose unitary is the exact inverse (including global phase), in place and as a copy, and both ways of building an inverse diagram agree with it; inverting twice restores the original. Operations reported to be inverse of one another are, and operations reported to commute on every shared qubit commute; non-unitary circuits are refused.",
     ["inputs", "programs"], "all gates, parameters, controls, compound operations and circuits",
     "Sign, order and parameter-swap mistakes are specific to one gate with generic parameters.",
     ["src/ir/operations/StandardOperation.cpp", "src/ir/operations/Operation.cpp", "src/ir/operations/CompoundOperation.cpp", "src/ir/QuantumComputation.cpp", "src/dd/Operations.cpp"],
     [("gate inversion", "src/ir/operations/StandardOperation.cpp: invert"), ("circuit inversion", "src/ir/QuantumComputation.cpp: invert"), ("inverse and commutation queries", "src/ir/operations/Operation.cpp: isInverseOf; StandardOperation.cpp: commutesAtQubit")])
prop("P12", "Circuit optimisation passes preserve what the circuit computes",
     "Every optimisation pass (gate fusion, swap reconstruction and decomposition, cancellation, removal of identities, barriers, final measurements and diagonal gates before measurements, reset elimination, measurement deferral, flattening, block and Clifford collection, control replacement, permutation elision and back-propagation) turns a circuit into one with the same computation: same unitary up to the documented relabelling, or same distribution of the classical outcomes that remain. Each pass also achieves its stated result form, and refuses circuits it cannot handle instead of altering their meaning.",
     ["programs"], "all circuits (static and dynamic) and sequences of passes",
     "Passes inspect neighbourhoods across qubits; wrong rewrites need particular interleavings of gates, controls and barriers.",
     ["src/circuit_optimizer/CircuitOptimizer.cpp"],
     [("all passes", "src/circuit_optimizer/CircuitOptimizer.cpp"), ("dependency graph", "src/circuit_optimizer/CircuitOptimizer.cpp: constructDAG")])
prop("P13", "Circuit editing and bookkeeping stay consistent with the operations",
     "After every sequence of edits (adding registers, qubits, ancillae and operations, removing or unifying registers and qubits, stripping idle qubits, reordering, copying, clearing, marking ancillary or garbage), the circuit's counts, registers, layouts, ancillary/garbage markings, idle-qubit and depth information agree with its registers and operations, copies are independent and equal to their source, and editing that does not touch operations leaves the computation unchanged. Out-of-range qubits, bits and duplicate names are rejected without side effects.",
     ["histories"], "all sequences of editing operations on a circuit",
     "Bookkeeping errors need particular sequences (removing a middle qubit, then adding, then stripping).",
     ["src/ir/QuantumComputation.cpp", "include/mqt-core/ir/QuantumComputation.hpp", "src/ir/operations/Operation.cpp", "src/ir/operations/CompoundOperation.cpp", "src/ir/Permutation.cpp", "include/mqt-core/ir/Register.hpp"],
     [("registers and qubits", "src/ir/QuantumComputation.cpp: addQubitRegister, removeQubit, addQubit, stripIdleQubits, unifyQuantumRegisters"), ("measurement-based mapping", "src/ir/QuantumComputation.cpp: initializeIOMapping"), ("depth and counts", "src/ir/QuantumComputation.cpp: getDepth, getNindividualOps")])
prop("P14", "Symbolic expressions and symbolic circuits evaluate homomorphically",
     "For all symbolic expressions and assignments, evaluating a sum, difference, negation or scalar multiple equals combining the evaluated operands, and equality and hashing agree with equality as functions. Instantiating a circuit with symbolic parameters yields the same computation as building it with the assigned numbers; inversion and copying commute with instantiation, and missing variables are reported.",
     ["inputs", "programs"], "all expressions, assignments (full and partial) and symbolic circuits",
     "Coefficient cancellation, term ordering and gate canonicalisation with partly symbolic parameters are input-specific.",
     ["include/mqt-core/ir/operations/Expression.hpp", "src/ir/operations/Expression.cpp", "src/ir/operations/SymbolicOperation.cpp", "include/mqt-core/ir/operations/SymbolicOperation.hpp", "src/ir/QuantumComputation.cpp"],
     [("expressions", "include/mqt-core/ir/operations/Expression.hpp"), ("symbolic gates", "src/ir/operations/SymbolicOperation.cpp"), ("instantiation", "src/ir/QuantumComputation.cpp: instantiate")])
prop("P15", "ZX diagrams represent and simplification preserves the circuit's map",
     "For every circuit the ZX front end declares convertible, the diagram built from it represents the circuit's linear map up to a non-zero scalar, and every simplification routine, as well as concatenation, adjoint and ancilla/qubit permutation handling, preserves the represented map up to such a scalar. A diagram reported to be the identity represents the identity, simplification terminates, and exact phase arithmetic agrees with real arithmetic modulo 2 pi.",
     ["programs", "inputs"], "all convertible circuits and all sequences of rewriting routines",
     "Rewrite preconditions involve boundary vertices, edge types and phase classes in combinations tests do not enumerate.",
     ["src/zx/FunctionalityConstruction.cpp", "src/zx/ZXDiagram.cpp", "src/zx/Rules.cpp", "src/zx/Simplify.cpp", "src/zx/Rational.cpp", "src/zx/Utils.cpp", "include/mqt-core/zx"],
     [("construction", "src/zx/FunctionalityConstruction.cpp"), ("rewriting", "src/zx/Rules.cpp, src/zx/Simplify.cpp"), ("phases", "src/zx/Rational.cpp")])
prop("P16", "Generated algorithm circuits compute what they are named for",
     "For all sizes, parameters and seeds, the provided generators produce circuits with the defining behaviour: GHZ and W states, Bernstein-Vazirani and phase estimation (plain and iterative) return the hidden string or phase, the Fourier transform equals the discrete Fourier matrix, Grover amplifies the marked element as theory predicts, state preparation yields the given amplitudes, and random Clifford circuits are Clifford with the requested size and reproducible for a seed.",
     ["inputs"], "all sizes, hidden values, seeds, amplitude vectors",
     "Off-by-one rotations or control choices can appear only at particular sizes, bit patterns or amplitude structures.",
     ["src/algorithms", "include/mqt-core/algorithms"],
     [("generators", "src/algorithms/*.cpp")])
prop("P17", "Neutral-atom programs: validation, positions and printing are faithful",
     "For every neutral-atom program, atom positions reported at any point are those obtained by replaying the program's loads, moves and stores, and validation accepts exactly the programs that respect the machine's rules (no operation on a missing or unloaded atom, no double loading, no crossing or colliding of simultaneously moved rows and columns, local and global gates on valid atoms). Printed programs list every operation with its parameters and atoms; converting between time-stamped forms loses nothing.",
     ["programs", "histories"], "all sequences of load, move, store and gate operations over all atom arrangements",
     "The order constraints involve pairs of atoms in all relative positions.",
     ["src/na/NAComputation.cpp", "include/mqt-core/na", "src/na/operations"],
     [("validation", "src/na/NAComputation.cpp: validate"), ("positions", "src/na/NAComputation.cpp: getLocationOfAtomAfterOperation"), ("printing", "src/na/operations/*.cpp, src/na/NAComputation.cpp: toString")])
prop("P18", "Graph, set and layering data structures match their definitions",
     "For every sequence of insertions and queries, the directed, directed acyclic and undirected graphs, the disjoint-set, the symmetric matrix and the reversible containers answer as their mathematical definitions do: degrees, adjacency, reachability, topological orders, cycle rejection, set membership. Layering a circuit of neutral-atom gates yields a schedule in which executing executable operations in any order respects all dependencies between non-commuting operations and eventually executes each exactly once, and its interaction graph contains exactly the executable interactions.",
     ["histories", "schedules"], "all operation sequences on the containers and all execution orders of a layering",
     "Transitive-closure and enable/disable counters go wrong only for particular insertion or execution orders.",
     ["include/mqt-core/datastructures", "src/datastructures/Layer.cpp"],
     [("graphs", "include/mqt-core/datastructures/*Graph.hpp"), ("layer", "src/datastructures/Layer.cpp")])
prop("P19", "MLIR conversion and passes preserve the quantum program",
     "For every program in the optimisation dialect, each MLIR pass (cancellation of consecutive inverses, pushing and shifting of quantum sinks) yields a verified module with the same computation, and converting a supported program to the circuit representation and back preserves gates, operands, controls and measurements. Invalid operations are rejected by the verifier.",
     ["programs"], "all well-formed programs over the dialect's operations, with branches and multiple blocks for the passes that handle them",
     "Lit tests pin a few textual examples; operand order, control polarity and block arguments vary freely.",
     ["mlir/lib/Dialect/MQTOpt/Transforms", "mlir/lib/Dialect/MQTOpt/IR", "mlir/include/mlir/Dialect/MQTOpt"],
     [("passes", "mlir/lib/Dialect/MQTOpt/Transforms/*.cpp"), ("dialect", "mlir/lib/Dialect/MQTOpt/IR/MQTOptOps.cpp, mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptOps.td")])
prop("P20", "Qiskit circuits and toolkit circuits convert into each other faithfully",
     "For every Qiskit circuit of supported instructions (standard, controlled with any control state, composite, symbolic, measurements, resets, barriers, several registers, layouts), the imported circuit performs the same computation, and exporting a toolkit circuit to Qiskit yields a circuit performing the same computation. Instructions that cannot be represented are reported as errors rather than silently dropped.",
     ["programs", "inputs"], "all circuits over the supported instruction set in both directions",
     "Parameter order, control order/state and register mapping differ per gate; tests convert a few.",
     ["src/mqt/core/plugins/qiskit/qiskit_to_mqt.py", "src/mqt/core/plugins/qiskit/mqt_to_qiskit.py", "src/mqt/core/__init__.py"],
     [("import", "src/mqt/core/plugins/qiskit/qiskit_to_mqt.py"), ("export", "src/mqt/core/plugins/qiskit/mqt_to_qiskit.py")])
prop("P21", "The Python interface behaves as the C++ library and keeps memory valid",
     "Every circuit built, edited, read and inverted through the Python classes, and every diagram operation offered in Python, has the effect and result of the C++ library operation it wraps: gates with their parameters, controls and targets, container semantics of circuits and permutations, states, matrices, sampling and measurement. Objects handed to Python (operations, vectors, matrices, diagrams) stay valid and unchanged as long as Python holds them, and misuse raises Python exceptions.",
     ["programs", "histories"], "all call sequences on the Python classes",
     "Binding mistakes (argument order, lifetime, index handling) are per-method; tests call a few.",
     ["src/python/ir", "src/python/dd", "src/mqt/core/ir", "src/mqt/core/dd.pyi"],
     [("circuit bindings", "src/python/ir/*.cpp"), ("diagram bindings", "src/python/dd/*.cpp")])
prop("P22", "Equality and hashing of circuits and operations are sound",
     "Operations and circuits compare equal to their copies and are unequal to ones that differ in kind, qubits, control polarity, parameters, classical bits or conditions; comparison is symmetric and respects permutations. Equal operations have equal hashes, and operations or circuits that compare equal perform the same computation.",
     ["inputs"], "all pairs of operations and circuits, including near-duplicates differing in a single aspect",
     "Soundness is a statement over pairs; tests compare a few hand-picked ones.",
     ["src/ir/operations/Operation.cpp", "src/ir/operations/CompoundOperation.cpp", "src/ir/operations/ClassicControlledOperation.cpp", "src/ir/operations/NonUnitaryOperation.cpp", "src/ir/QuantumComputation.cpp", "include/mqt-core/ir/operations/Operation.hpp"],
     [("operation equality", "src/ir/operations/Operation.cpp: equals"), ("circuit equality", "src/ir/QuantumComputation.cpp: operator==")])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
