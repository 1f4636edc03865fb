#!/usr/bin/env python3
# Source of /verif/properties.jsonl: run to regenerate it.
import json, os
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or ["QInterface public API: GetQuantumState / GetAmplitude / Prob* / M"]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

TESTS="The Catch2 suite checks each gate on one or two hand-picked (mostly basis or |+>) states with tolerance 0.01"

p("C01","Dense CPU simulation applies every gate as its documented unitary",
 "On the dense CPU state-vector engine, every documented gate - fixed, rotation, phase-root, parametrised, masked, (anti-/uniformly-/arbitrary-permutation-)controlled, swap-family, Hamiltonian evolution and register-spanning form - transforms every pure state by exactly the unitary its documentation gives, up to one global phase and float rounding. This holds whatever the entanglement, width, choice and order of qubits, and the result always stays normalised.",
 ["inputs","programs","configurations"],
 "all gate sequences over all gates, parameters, distinct qubit choices, control sets/permutations, initial states and widths",
 TESTS+" and never compares whole states of random entangled circuits against an independent simulator.",
 ["src/qengine/state.cpp","src/qengine/qengine.cpp","src/qinterface/gates.cpp","src/qinterface/rotational.cpp","src/qinterface/qinterface.cpp","include/qinterface.hpp","include/statevector.hpp"],
 [("Apply2x2 kernels with control offsets","src/qengine/state.cpp"),("UniformlyControlledSingleBit","src/qengine/state.cpp"),("gate definitions","include/qinterface.hpp")])

p("C02","The separating QUnit layer is observationally equivalent to a dense simulator",
 "For every sequence of operations - gates, arithmetic, measurement, allocation, composition and disposal, probability and expectation queries, explicit separability hints - a simulator with the Schmidt-decomposition optimising layer on top yields the same outcomes' probabilities, the same conditional states and the same query results as a plain dense simulation. Buffered gates, basis-change tracking, cached single-qubit states and lazy separation never change what can be observed, at any register width.",
 ["programs","histories","inputs"],
 "all operation histories on QUnit over each inner engine (dense CPU, stabilizer hybrid, decision diagram), small registers exhaustively compared and wide sparse-entanglement registers compared on the touched qubits",
 "The optimiser's correctness depends on the history (which basis each shard is in, which phase buffers are pending); the suite runs short fixed histories.",
 ["src/qunit.cpp","src/qengineshard.cpp","include/qunit.hpp","include/qengineshard.hpp"],
 [("shard basis transforms / RevertBasis*","src/qunit.cpp"),("pairwise controlled-phase/invert buffers","src/qengineshard.cpp"),("Entangle/TrySeparate","src/qunit.cpp"),("qubit index remapping","include/qubitswapmap.hpp")],
 [("QEngineShard","cached single-qubit amplitudes, basis flag and pending controlled-phase buffers","include/qengineshard.hpp")])

p("C03","Stabilizer simulation is exact for every Clifford circuit and any width",
 "For every circuit of Clifford gates, measurements, resets, allocation and composition, the stabilizer simulators (monolithic and separating) yield exactly the amplitudes, marginal probabilities and post-measurement states of the ideal circuit, at any register width. A single-target gate, controlled or not, outside what they can represent is refused without altering the state, and a controlled or rotation gate that happens to be Clifford is handled exactly.",
 ["programs","inputs","histories"],
 "all Clifford circuits with mid-circuit measurement over 1..128 qubits, including Clifford-valued parametrised gates and gates that merely act as Clifford on the present state",
 "Tableau sign and phase-offset errors appear only for particular stabilizer groups; the suite's Clifford tests use few fixed circuits (random-circuit tests are benchmarks, not run).",
 ["src/qstabilizer.cpp","include/qstabilizer.hpp","src/qunitclifford.cpp","include/qunitclifford.hpp"],
 [("tableau row operations","src/qstabilizer.cpp"),("seed/decompose-to-amplitudes","src/qstabilizer.cpp"),("CliffordShard mapping","src/qunitclifford.cpp")])

p("C04","Stabilizer-hybrid simulation is equivalent to dense simulation",
 "For every operation sequence the stabilizer-hybrid simulator - while it holds per-qubit buffered gates, magic-state ancillae, or after switching to a dense engine - gives the same probabilities, amplitudes, measurement statistics, samples and post-measurement states as a dense simulation. Neither the representation in use nor the moment it switches is observable other than through speed and the documented representation queries.",
 ["programs","histories","inputs","configurations"],
 "all circuits mixing Clifford, near-Clifford and general gates, measurement, sampling, arithmetic and structural operations, T-injection on/off",
 "Each representation transition (buffered shard, ancilla injection, ancilla removal, switch) depends on history; unit tests drive mostly one transition at a time.",
 ["src/qstabilizerhybrid.cpp","include/qstabilizerhybrid.hpp","include/mpsshard.hpp"],
 [("MpsShard buffer commute","src/qstabilizerhybrid.cpp"),("reverse T gadget ancillae and their trimming","src/qstabilizerhybrid.cpp"),("SwitchToEngine","src/qstabilizerhybrid.cpp")])

p("C05","Decision-diagram simulation is equivalent to dense simulation",
 "For every operation sequence the binary-decision-diagram simulator, alone, hybridised with a dense engine, or under the separating layer, gives the same amplitudes, probabilities, measurement outcomes and post-measurement states as dense simulation. Structure sharing between branches or between copies is never observable.",
 ["programs","histories","inputs"],
 "all gate/measurement/structural/arithmetic sequences, including states with much shared structure and clones that share nodes",
 "Copy-on-write branching and pruning depend on which subtrees coincide; the unit tests reach only a few shapes.",
 ["src/qbdt/node.cpp","src/qbdt/node_interface.cpp","src/qbdt/tree.cpp","src/qbdthybrid.cpp","include/qbdt.hpp","include/qbdthybrid.hpp"],
 [("Branch/Prune/Normalize","src/qbdt/node.cpp"),("ApplyControlledSingle with swaps","src/qbdt/tree.cpp")])

p("C06","Paged simulation is equivalent to unpaged simulation",
 "Splitting the state vector into any number of equal pages does not change any amplitude, probability, measurement outcome or post-operation state: for every supported operation sequence and page size, the paged simulator agrees with the unpaged dense one.",
 ["programs","configurations","inputs"],
 "all supported gate/measurement/structural sequences with qubits inside, across and between pages, for every page count",
 "With the default page size nothing under about 20 qubits is really paged differently in the suite than one configuration; the suite has fixed histories.",
 ["src/qpager.cpp","include/qpager.hpp"],
 [("CombineAndOp / MetaControlled / MetaSwap / SemiMetaControlled","src/qpager.cpp")])

p("C07","Deferred circuit execution is equivalent to immediate execution",
 "For every sequence of gates, measurements, resets and queries, the deferred (tensor-network) simulator returns the probabilities, samples and amplitudes of immediate execution: past-light-cone pruning, gate merging, and splitting of the circuit into layers at measurements never change any outcome distribution or conditional state.",
 ["programs","histories","inputs"],
 "all interleavings of gates, forced and free measurements, probability queries, samples and clones",
 "Layering and light-cone elision depend on the relative order of measurements and gates across qubits; the fixed tests do not vary this.",
 ["src/qtensornetwork.cpp","include/qtensornetwork.hpp","src/qcircuit.cpp","include/qcircuit.hpp"],
 [("MakeLayerStack / RunAsAmplitudes","src/qtensornetwork.cpp"),("PastLightCone / DeletePastLightCone","include/qcircuit.hpp")])

p("C08","Measurement obeys the projection postulate and the Born rule",
 "On every simulator type, measuring one qubit, a list of qubits, a contiguous register, or the parity of a set returns only outcomes of non-zero probability, with frequencies given by the squared amplitudes, and leaves exactly the renormalised projection of the prior state on the reported outcome; repeating it returns the same outcome. Forcing a possible outcome yields that outcome and that projection, a forced result that is not to be applied leaves the state unchanged, and bit/register setting leaves the rest in one of the projections.",
 ["inputs","histories","configurations"],
 "all states (entangled, with buffered gates), qubit subsets, forced values and seeds on all simulator types",
 "Outcome frequencies and conditional states need whole distributions; tests check single outcomes on eigenstates or force one outcome.",
 ["src/qengine/qengine.cpp","src/qengine/state.cpp","src/qunit.cpp","src/qinterface/qinterface.cpp","src/qstabilizer.cpp","src/qstabilizerhybrid.cpp","src/qbdt/tree.cpp","include/qparity.hpp"],
 [("ForceM / ForceMReg / ForceM(bits) / MAll / ForceMParity","src/qengine/qengine.cpp")])

p("C09","Multi-shot sampling matches the state and does not disturb it",
 "Drawing any number of shots over any list of qubits (or masks selecting groups) returns exactly that many samples, each an outcome of non-zero probability encoded in the order the caller listed the qubits, distributed as the state's marginal distribution, and leaves the quantum state unchanged. The histogram form and the array form agree.",
 ["inputs","histories","configurations"],
 "all states, qubit lists/orders, shot counts, all simulator types",
 "Tests sample a handful of Clifford or basis states; distributions and bit order on general states are not checked.",
 ["src/qinterface/qinterface.cpp","src/qengine/qengine.cpp","src/qunit.cpp","src/qstabilizerhybrid.cpp","src/qtensornetwork.cpp","src/qbdt/tree.cpp"],
 [("MultiShotMeasureMask","src/qinterface/qinterface.cpp")])

p("C10","Registers compose, split, grow and copy as tensor products",
 "Composing two registers at any position yields the tensor product with the documented qubit order; allocating adds |0> qubits there; decomposing or disposing a separable range returns or discards exactly that factor and leaves exactly the other; a trial decomposition succeeds only when the range is separable and otherwise changes nothing. A clone starts equal to its original and afterwards neither is affected by operations on the other.",
 ["histories","inputs","configurations"],
 "all pairs of states, insertion points, ranges, and interleaved later operations on the parts and copies, all simulator types",
 "Index bookkeeping after a structural change depends on the whole history; the tests compose basis states at fixed positions.",
 ["src/qengine/state.cpp","src/qunit.cpp","src/qstabilizer.cpp","src/qstabilizerhybrid.cpp","src/qbdt/tree.cpp","src/qinterface/qinterface.cpp","include/qinterface.hpp"],
 [("Compose/Decompose/Dispose/Allocate/TryDecompose/Clone","src/qengine/state.cpp")])

p("C11","Quantum arithmetic is a coherent map of basis states",
 "Each arithmetic and table-lookup operation (increment/decrement with and without carry, sign overflow and controls; multiply/divide; modular multiply, its inverse and modular power; indexed load/add/subtract; hash; full adders and ripple adders) maps every basis state as the corresponding classical integer operation within the documented register widths and extends linearly with no spurious phase to every superposition, touching no other qubit. Inverse operations undo their counterparts and controlled forms act only where all controls are set.",
 ["inputs","programs","configurations"],
 "all operands, moduli, register positions/lengths/overlays, control sets, lookup tables and superposed or entangled inputs, on each simulator type that supports the operation",
 TESTS.replace("each gate","each operation")+"; operands, positions and superpositions are fixed.",
 ["src/qengine/arithmetic.cpp","src/qinterface/arithmetic.cpp","src/qalu.cpp","src/arithmetic_qcircuit.cpp","src/qunit.cpp","include/qalu.hpp"],
 [("par_for permutation kernels","src/qengine/arithmetic.cpp"),("QUnit classical shortcuts","src/qunit.cpp")])

p("C12","State queries agree with the amplitudes and never change the state",
 "Probabilities (of a qubit, conditional, of a full or partial register, of a mask, as an array over listed qubits, of parity), expectation values and variances (of integer or weighted bit values, per-qubit bases, Pauli strings), amplitudes, state dumps and state comparison are exactly the functions of the current amplitudes their documentation gives, with the documented ordering of qubit lists. Making any number of such queries leaves the state unchanged.",
 ["inputs","histories","configurations"],
 "all states, qubit lists/orders/subsets, weights, offsets and query sequences on every simulator type",
 "Fixed states hide ordering, offset, weight and basis errors, and non-disturbance is not asserted anywhere.",
 ["src/qinterface/qinterface.cpp","src/qengine/state.cpp","src/qengine/qengine.cpp","src/qunit.cpp","src/qbdt/tree.cpp","include/qinterface.hpp"],
 [("Prob*/Expectation*/Variance*","src/qinterface/qinterface.cpp")])

p("C13","Circuit objects preserve meaning through optimisation, inversion, pruning and I/O",
 "A circuit object, however its gates were merged, cancelled or reordered while being built, performs the same operation as applying its source gates one by one; its inverse undoes it; its past light cone preserves the marginal state of the chosen qubits; appending, swapping and copying compose as expected; and writing it out and reading it back yields an equivalent circuit.",
 ["programs","inputs"],
 "all gate lists (any controls, control permutations, payloads, swaps), append orders, light-cone qubit sets",
 "Peephole merging depends on adjacent gate pairs; tests use three or four gate circuits.",
 ["include/qcircuit.hpp","src/qcircuit.cpp"],
 [("QCircuitGate::CanCombine/Combine/CanPass","include/qcircuit.hpp"),("QCircuit::AppendGate/Run/Inverse/PastLightCone","src/qcircuit.cpp")])

p("C14","Saved simulator states reload to the same state",
 "Writing a stabilizer or near-Clifford simulator's state to a stream and reading it into another instance reproduces the same quantum state and the same future behaviour, and exporting and re-importing amplitudes (whole, single, or per page/range) reproduces the state on every simulator type, for every reachable state.",
 ["inputs","histories"],
 "all reachable Clifford/near-Clifford states and all normalised state vectors, all simulator types",
 "The suite saves and loads one or two small states.",
 ["src/qstabilizer.cpp","src/qunitclifford.cpp","src/qstabilizerhybrid.cpp","src/qengine/state.cpp","src/common/functions.cpp"],
 [("operator<< / operator>>","src/qstabilizer.cpp"),("SetQuantumState/GetQuantumState/SetAmplitude*","src/qengine/state.cpp")])

p("C15","The C API faithfully exposes the simulator under caller-chosen qubit ids",
 "Through the exported C functions, operations on the qubit ids chosen by the caller act on exactly those logical qubits in exactly the documented way and order, whatever sequence of allocate, release, compose, decompose, swap, arithmetic and clone has permuted the ids; simulators are independent of each other. Unknown simulator ids, unknown or duplicate qubit ids and failing operations are reported through the error/return convention without disturbing any simulator. (The order of basis-state bits in whole-state-vector dumps is only specified until arithmetic, disposal or decomposition has moved qubits; a release or disposal of qubits that are entangled with others is outside the property.)",
 ["histories","inputs"],
 "all call histories over several simulators with arbitrary ids",
 "The Catch2 suite never calls the C API at all.",
 ["src/pinvoke_api.cpp","include/pinvoke_api.hpp"],
 [("shards id maps, MapArithmetic, simulator table","src/pinvoke_api.cpp")],None,["exported C functions"])

p("C16","Invalid arguments are rejected before anything changes",
 "An operation given a qubit index, register range, control or bit list, mask, basis index or page that does not lie inside the register (or a list naming a qubit twice, a divisor of zero, or a Boolean output that is also its input) throws an exception instead of computing something, never reads or writes out of bounds, and the simulator stays usable: for single gates, controlled gates, swaps, mask operations, arithmetic primitives, structural operations, queries and single measurements the register's state and width are exactly as they were. Operations the library defines as a sequence of such operations (QFT, full adders, OR/XOR, measuring a list of bits one by one) must throw too, but may have applied the valid operations that precede the invalid one.",
 ["inputs","configurations"],
 "all out-of-range qubit indices, range ends, masks, control lists and bit lists, in each argument position of every operation, on dense, paged, separating and stabilizer simulators in any state",
 "Tests only assert that a few constructors or calls throw; state preservation and memory safety on rejection are not asserted.",
 ["src/qengine/state.cpp","src/qengine/arithmetic.cpp","src/qengine/qengine.cpp","src/qunit.cpp","src/qpager.cpp","src/qstabilizer.cpp","src/qunitclifford.cpp","src/qinterface/gates.cpp","src/qinterface/qinterface.cpp","include/common/qrack_functions.hpp"],
 [("ThrowIfQbIdArrayIsBad / isBadBitRange / isBadPermRange","include/common/qrack_functions.hpp")])

p("C17","Register logic, shifts, rotations and Fourier transforms are exact",
 "The Boolean logic operations (single-bit and register-wide, quantum-quantum and quantum-classical, including operands that coincide) put the Boolean function of their inputs in the output bit for every basis input, coherently; register rotation, logical and arithmetic shift, reversal and phase-flip operations permute or mark basis states as documented; the quantum Fourier transform (contiguous or listed qubits) is the exact discrete Fourier transform in the documented bit order and its inverse undoes it.",
 ["inputs","programs","configurations"],
 "all operands, bit overlays, shift amounts, register positions and superposed inputs on each simulator type",
 TESTS.replace("each gate","each operation")+".",
 ["src/qinterface/logic.cpp","src/qinterface/qinterface.cpp","src/qinterface/arithmetic.cpp","src/qunit.cpp","src/qengine/arithmetic.cpp"],
 [("AND/OR/XOR/CL*","src/qinterface/logic.cpp"),("ROL/ASL/LSL/QFT/QFTR","src/qinterface/qinterface.cpp")])

p("C18","Results do not depend on parallelism and are reproducible from the seed",
 "For a fixed random seed the same program gives the same measurement outcomes and states on every run; and the state computed by any operation is the same, up to rounding, for every thread count, work-item stride and asynchronous-dispatch timing, including registers large enough that operations run in parallel or queued.",
 ["schedules","configurations","programs"],
 "all programs on registers straddling the parallel threshold, thread counts 1..N, strides, seeds",
 "Almost all unit tests use registers below the parallel threshold and one configuration; none repeats a run.",
 ["src/common/parallel_for.cpp","include/common/parallel_for.hpp","src/common/dispatchqueue.cpp","src/qengine/state.cpp","include/qengine_cpu.hpp","include/qinterface.hpp"],
 [("par_for work splitting","src/common/parallel_for.cpp"),("DispatchQueue","src/common/dispatchqueue.cpp"),("rand_generator sharing","include/qinterface.hpp")])

p("C19","Wide-register integers and bit helpers are exact arithmetic",
 "The big-integer type used for wide registers computes exact modular (2^width) integer arithmetic - add, subtract, multiply, divide with remainder, shift, bitwise, compare, increment - and round-trips through decimal text; the bit-manipulation helpers (powers, base-2 logarithm, powers and range masks, push-apart, modular power, gcd) agree with their mathematical definition for every value, including at word boundaries.",
 ["inputs"],
 "all operand values with emphasis on word boundaries, carries and quotient-digit corner cases",
 "The suite tests a few values, and only when built with a wide configuration, which the default build is not.",
 ["include/common/big_integer.hpp","src/common/big_integer.cpp","include/common/qrack_functions.hpp","src/common/functions.cpp"],
 [("bi_* functions","src/common/big_integer.cpp"),("pushApartBits/intPow/log2","src/common/functions.cpp")],None,["bi_* API, Qrack helper functions"])

p("C20","The noise model is a physical channel that vanishes at zero strength",
 "With noise strength zero the noisy simulator is equivalent to the simulator it wraps, for every operation sequence. With positive strength every run stays a normalised state, the reported fidelity estimate is the product of the per-gate survival factors, and each noise event after a gate leaves one of the two states, drawn with its Born probability, that result from entangling the qubit with a fresh ancilla at that strength and measuring the ancilla: together the documented single-qubit noise channel.",
 ["programs","inputs","configurations"],
 "all circuits, wrapped simulator types, noise strengths in [0,1] and seeds",
 "The suite contains no distribution check of the channel and runs the noisy wrapper with one or two gates.",
 ["include/qinterface_noisy.hpp","src/qinterface_noisy.cpp","src/qinterface/gates.cpp"],
 [("Apply1QbNoise","include/qinterface_noisy.hpp"),("DepolarizingChannelWeak1Qb","src/qinterface/gates.cpp")])

p("C21","A quantum neuron predicts, unpredicts and learns consistently",
 "A neuron's prediction equals the output-qubit probability after rotating by the activation of the angle selected by each input permutation; un-predicting exactly undoes predicting; a learning step never lowers the predicted probability of the expected result, restores the register apart from the documented reset or measurement, and angles set are angles read; on permutation inputs training changes only the angle of that permutation.",
 ["inputs","histories"],
 "all input counts, angles, activation functions, input superpositions, learning rates and expected values",
 "The suite trains one fixed data set and checks the final error only.",
 ["include/qneuron.hpp","src/qinterface/rotational.cpp"],
 [("Predict/Unpredict/LearnInternal","include/qneuron.hpp")])

p("C22","Valid call sequences never corrupt memory or hang",
 "No sequence of valid calls on any simulator type reads or writes outside its own allocations, uses freed memory, performs undefined integer or shift operations in index arithmetic, deadlocks or loops forever.",
 ["programs","histories","configurations"],
 "all valid operation histories on all simulator types",
 "The suite is not run under a memory or undefined-behaviour checker, and its histories are short.",
 ["src/qengine/state.cpp","src/qengine/arithmetic.cpp","src/qunit.cpp","src/qpager.cpp","src/qstabilizer.cpp","src/qstabilizerhybrid.cpp","src/qbdt/node.cpp","src/pinvoke_api.cpp"],
 [("index arithmetic","src/qengine/arithmetic.cpp"),("shared_ptr ownership","src/qunit.cpp")],None,["AddressSanitizer/UBSan reports, process exit, termination"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
