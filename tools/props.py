#!/usr/bin/env python3
"""Single source of properties.jsonl (run to regenerate it)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Declared gate commutation facts are physically true",
  "Whenever the core gate set declares that a gate commutes with a Pauli basis on one of its qubit ports, the gate's matrix really commutes with that Pauli on that qubit, and two gates that share a qubit are only reported as exchangeable there when their declared bases agree. No gate declares a basis it does not commute in.",
  ["inputs", "programs"], "every core gate, every qubit port, every pair of declared bases",
  "Tests exercise a handful of circuits; an unsound entry only shows when a circuit happens to contain that gate next to a specific neighbour.",
  ["tket/src/ops.rs"], [("per-gate commutation table", "tket/src/ops.rs: qubit_commutation"), ("basis comparison", "tket/src/ops.rs: Pauli::commutes_with")])
p("C02", "Lowering core gates to device gates preserves the unitary",
  "Replacing a core gate by its device-gate decomposition leaves the implemented unitary unchanged up to global phase, for every gate, every angle and with the qubit order kept. Allocation, measurement, reset and release are replaced by the device operation of the same meaning.",
  ["inputs", "programs"], "every core gate, all real angles, every qubit operand position",
  "Existing tests check that lowering type-checks and leaves no core gate behind; they compare no matrices, and angles are a continuum.",
  ["tket-qsystem/src/extension/qsystem.rs", "tket-qsystem/src/extension/qsystem/lower.rs"],
  [("decomposition builders", "tket-qsystem/src/extension/qsystem.rs: QSystemOpBuilder"), ("gate to function table", "tket-qsystem/src/extension/qsystem/lower.rs: build_func, direct_map")])
p("C03", "Control and dagger modifiers produce the controlled or inverse gate",
  "Resolving a dagger modifier on a gate yields an operation whose unitary is the inverse of the original, and resolving control modifiers yields the unitary controlled on all control qubits (exactly, including relative phases). Inverting twice gives the original gate back.",
  ["inputs", "programs", "configurations"], "every core gate, number of controls, with and without dagger, all angles",
  "Tests check a few gates for validity of the produced program, not its unitary; a wrong relative phase or a swapped pair is invisible to validation.",
  ["tket/src/modifier/modifier_resolver/tket_op_modify.rs", "tket/src/modifier.rs", "tket/src/modifier/modifier_resolver/global_phase_modify.rs"],
  [("gate modification arms", "tket/src/modifier/modifier_resolver/tket_op_modify.rs: modify_tket_op"), ("modifier accumulation", "tket/src/modifier.rs")])
p("C04", "Gate translation to and from pytket is meaning-preserving both ways",
  "Every gate that is exported to pytket is written as the pytket gate with the same unitary, arity and parameter count, and every pytket gate that is imported natively becomes an operation with the same unitary. Exporting a gate and importing the result gives the gate back, and the importer claims exactly the gate types it can translate.",
  ["inputs", "programs"], "every operation of every exported operation set, every natively imported pytket gate type",
  "Round-trip tests cover sample circuits; a pair of compensating table errors round-trips and stays invisible, and untested gates are not reached.",
  ["tket/src/serialize/pytket/extension/tket.rs", "tket-qsystem/src/pytket/qsystem.rs", "tket/src/serialize/pytket/extension/core.rs", "tket/src/serialize/pytket/extension/prelude.rs"],
  [("core gate table", "tket/src/serialize/pytket/extension/tket.rs"), ("device gate table", "tket-qsystem/src/pytket/qsystem.rs"), ("emitter registration", "tket/src/serialize/pytket/extension.rs, tket-qsystem/src/pytket.rs")])
p("C05", "Classical and symbolic expressions keep their meaning across pytket",
  "Boolean operations are exported as the pytket classical operation with the same truth table, and arithmetic on parameters is exported as an expression that, read back by the importer's parser, denotes the same function (same operator, operand order and nesting).",
  ["inputs", "programs"], "every boolean and float operation with an encoding, every operator and function of the expression grammar",
  "Tests sample some expressions; swapped operands of a non-commutative operator or one wrong row of a table need the specific operator to appear.",
  ["tket/src/serialize/pytket/extension/bool.rs", "tket/src/serialize/pytket/extension/float.rs", "tket/src/serialize/pytket/extension/rotation.rs", "tket/src/serialize/pytket/decoder/param/parser.rs"],
  [("boolean operation table", "extension/bool.rs"), ("float expression strings", "extension/float.rs"), ("expression parser", "decoder/param")])
p("C06", "Angle units are converted consistently",
  "An angle that crosses a boundary between half-turns, rotation values and radians is scaled by exactly pi in the right direction, exactly once, so that it denotes the same physical angle before and after. Half-turn and rotation representations are interchangeable without scaling.",
  ["inputs", "programs"], "every conversion between parameter representations on every import, export and lowering path, for all angles",
  "Tests compare a few constants; a missing or doubled factor on one conversion path only shows for parameters taking that path.",
  ["tket/src/serialize/pytket/decoder/param.rs", "tket/src/serialize/pytket/extension/rotation.rs", "tket-qsystem/src/pytket/qsystem.rs", "tket-qsystem/src/extension/qsystem/lower.rs", "tket/src/llvm/rotation.rs"],
  [("parameter type conversion", "tket/src/serialize/pytket/decoder"), ("rotation codegen", "tket/src/llvm/rotation.rs"), ("radian scaling", "lower.rs: build_to_radians")])
p("C07", "Lowering booleans and measurements preserves their values",
  "When opaque booleans are replaced by a value-or-pending-measurement sum, each boolean operation keeps its truth table, constants keep their value, reading a pending result waits for that result and reading a plain value returns it, and each measurement delivers its own outcome. Code generation of the boolean operations implements the same truth tables.",
  ["inputs", "programs"], "every boolean operation, both representations of each operand, every measurement operation",
  "Tests check the replaced program is valid and counts operations; truth values under all operand representations are never computed.",
  ["tket-qsystem/src/replace_bools.rs", "tket-qsystem/src/replace_bools/static_array.rs", "tket/src/llvm/bool.rs"],
  [("operation replacements", "tket-qsystem/src/replace_bools.rs"), ("boolean codegen", "tket/src/llvm/bool.rs")])
p("C08", "Device operations compile to the matching runtime calls",
  "Each device operation is compiled to a call of the runtime routine of that meaning with the qubits and angles in the declared order, and returns the qubits and results in the operation's declared order. A qubit is released exactly by the operations that consume it, reset exactly by those that reset it, and a failed allocation is reported as absence rather than used.",
  ["inputs", "programs"], "every device operation on every code path of its code generator",
  "Snapshot tests fix the text for some operations; they are re-recorded on change and cover one path per operation.",
  ["tket-qsystem/src/llvm/qsystem.rs", "tket-qsystem/src/llvm/random.rs", "tket-qsystem/src/llvm/utils.rs"],
  [("operation to runtime function table", "tket-qsystem/src/llvm/qsystem.rs"), ("random number codegen", "tket-qsystem/src/llvm/random.rs")])
p("C09", "Pending measurement results are reference-counted exactly",
  "Every duplicated pending result takes one extra reference, every read or discarded one gives exactly one back and only after it has been read, and lowering of copies and drops uses those duplicate and discard operations. No pending result is read after its reference was given back.",
  ["inputs", "histories", "programs"], "every future operation, every result type, all code paths",
  "Leaks and double releases produce no wrong value in the sampled runs; only accounting over every path shows them.",
  ["tket-qsystem/src/llvm/futures.rs", "tket-qsystem/src/lower_drops.rs", "tket-qsystem/src/replace_bools.rs"],
  [("future codegen", "tket-qsystem/src/llvm/futures.rs"), ("linearisation of copies and drops", "lower_drops.rs, replace_bools.rs")])
p("C10", "Results are reported under the right tag and data type",
  "Each result operation reports its value through the runtime routine for that data type, with a tag that names the same data type, the user's label and its length. Array results report the operation's own array length.",
  ["inputs", "programs"], "every result operation and data type",
  "Snapshot tests are per operation and re-recorded; consistency between routine, tag and type is not asserted anywhere.",
  ["tket-qsystem/src/llvm/result.rs", "tket-qsystem/src/llvm/array_utils.rs", "tket-qsystem/src/llvm/debug.rs"],
  [("result codegen", "tket-qsystem/src/llvm/result.rs"), ("array struct layout", "tket-qsystem/src/llvm/array_utils.rs")])
p("C11", "Published extension definitions agree with the implementation",
  "The extension definition files shipped for Python users list exactly the operations and types that the implementation defines, under the same names and with the same signatures and extension versions.",
  ["inputs", "configurations"], "every extension, operation, type and signature",
  "No test compares the shipped files with the code; a program built from a stale definition is rejected or misread only when that operation is used.",
  ["tket-exts/src/tket_exts/data", "tket/src/extension.rs", "tket/src/ops.rs", "tket-qsystem/src/extension/qsystem.rs"],
  [("extension builders", "tket/src/extension, tket-qsystem/src/extension"), ("published JSON", "tket-exts/src/tket_exts/data")])
p("C12", "Parametrised operations survive conversion to generic form and back",
  "Turning an operation with arguments into its generic extension form and reading it back yields the same operation with the same arguments, for every operation and argument value. Arguments are never swapped, dropped or defaulted on the way.",
  ["inputs"], "every parametrised operation of every extension, all argument values",
  "Round-trip tests use one or two instances; argument mix-ups between same-typed arguments need values that differ.",
  ["tket-qsystem/src/extension/result.rs", "tket-qsystem/src/extension/futures.rs", "tket-qsystem/src/extension/classical_compute.rs", "tket/src/extension/debug.rs", "tket/src/extension/sympy.rs"],
  [("argument encoding", "type_args implementations"), ("argument decoding", "instantiate / from_extension_op implementations")])
p("C13", "Every operation the toolchain supports can be loaded and compiled",
  "An extension whose operations the toolchain generates code for is also known to the loader of that toolchain, and every operation of such an extension is handled by its code generator. Extensions defined by the core library are all in its default registry.",
  ["configurations", "programs"], "every extension with a code generator, every extension defined, every operation in them",
  "Tests load programs that bundle or happen to need only registered extensions.",
  ["qis-compiler/rust/lib.rs", "tket/src/extension.rs", "tket-qsystem/src/extension/qsystem.rs"],
  [("loader registry", "qis-compiler/rust/lib.rs: REGISTRY"), ("code generators", "qis-compiler/rust/lib.rs: codegen_extensions"), ("core registry", "tket/src/extension.rs: REGISTRY")])
p("C14", "The device compilation pipeline runs its stages in the required order",
  "Compiling for the device always monomorphises and removes dead functions before lowering gates, lowers gates before replacing booleans, replaces booleans before lowering drops and linearising arrays, and imposes the operation order last. Each optional stage runs exactly when its own switch is on, and every switch sets only its own stage.",
  ["configurations", "inputs"], "every combination of pipeline switches, every path through the pipeline",
  "Tests run the default configuration and single toggles; stage-order errors appear only for programs that need both stages.",
  ["tket-qsystem/src/lib.rs"], [("pipeline driver", "tket-qsystem/src/lib.rs: QSystemPass::run"), ("configuration setters", "tket-qsystem/src/lib.rs: with_*")])
p("C15", "Program normalisation runs each stage exactly when enabled",
  "The front-end normalisation pass runs each simplification exactly when its own option is on, all options are on by default, each option setter changes only its own option, and control flow is simplified before data-flow clean-up and array clean-up comes last.",
  ["configurations"], "every combination of options",
  "Tests cover the default and one or two disabled options; mis-wired options need the specific combination.",
  ["tket/src/passes/guppy.rs"], [("normalisation driver", "tket/src/passes/guppy.rs: NormalizeGuppy::run"), ("option setters", "tket/src/passes/guppy.rs")])
p("C16", "Passes give back the program entry point they were given",
  "A pass that temporarily moves the program's entry point puts the original entry point back before it returns normally, on every path.",
  ["inputs", "histories", "fault_sequences"], "every pass that moves the entry point, every return path",
  "Tests check the entry point for one successful run; early returns and error exits are not exercised.",
  ["tket-qsystem/src/lib.rs", "tket-qsystem/src/extension/qsystem/lower.rs", "tket/src/passes", "tket/src/modifier"],
  [("entry point save and restore", "call sites of the entry point setter")])
p("C17", "Forced operation order keeps quantum timing priorities",
  "When a total order is imposed on operations, releasing qubits is always preferred first, then quantum operations, then qubit allocation before ordinary operations, and reading measurement results is deferred behind all of them.",
  ["inputs", "programs"], "every operation kind that can be ranked",
  "Tests check one small program; a rank change for another operation kind yields a valid but badly ordered program.",
  ["tket-qsystem/src/lib.rs"], [("ranking function", "tket-qsystem/src/lib.rs: force_order ranking")])
p("C18", "Borrow elision only removes matching return and re-borrow pairs",
  "Array clean-up removes a return and a later borrow only when both use the same array with the same constant index and no operation in between could observe or change that slot. The element and array wires are reconnected so that every consumer sees the same value as before.",
  ["inputs", "programs", "histories"], "every sequence of borrow and return operations on an array, every pair of indices",
  "Tests enumerate short hand-written sequences; state confusion between slots needs longer interleavings.",
  ["tket/src/passes/borrow_squash.rs"], [("borrow state tracking", "tket/src/passes/borrow_squash.rs")])
p("C19", "Unpacking and repacking a container are inverse",
  "Repacking the elements obtained by unpacking a nested container rebuilds a container of the same type with the elements in the same positions: both directions agree on element count, order, array representation and variant tags for every supported type.",
  ["inputs", "programs"], "every supported container type, every nesting",
  "Tests use a few nestings; disagreement between the two directions needs a type that takes the differing branch.",
  ["tket/src/passes/unpack_container.rs", "tket/src/passes/unpack_container/type_unpack.rs"],
  [("unpack and repack builders", "tket/src/passes/unpack_container.rs"), ("type analysis", "tket/src/passes/unpack_container/type_unpack.rs")])
p("C20", "Circuit cost arithmetic is consistent",
  "Costs add and subtract component by component, the cost change of replacing a part equals the new cost minus the old cost, and comparison orders by the more significant component first. Only quantum operations are counted as quantum cost and only two-qubit operations as two-qubit cost.",
  ["inputs", "histories"], "all cost values and operations",
  "Tests add a few values; an asymmetric component only shows for costs that differ in it.",
  ["tket/src/circuit/cost.rs", "tket/src/rewrite/strategy.rs"], [("cost types", "tket/src/circuit/cost.rs"), ("strategy costs", "tket/src/rewrite/strategy.rs")])
p("C21", "Rewrite strategies only apply admissible rewrites",
  "A rewriting strategy applies a rewrite only if it passes the strategy's own cost threshold, never applies two overlapping rewrites to the same circuit, and reports a cost change equal to the sum over the rewrites actually applied to the returned circuit.",
  ["inputs", "histories"], "all circuits, rewrite sets and strategy parameters",
  "Tests use a small rewrite set; overlapping or borderline-cost rewrites occur only for specific inputs.",
  ["tket/src/rewrite/strategy.rs"], [("strategies", "tket/src/rewrite/strategy.rs: apply_rewrites")])
p("C22", "The search optimiser returns the best circuit it has seen",
  "The circuit the optimiser returns is the input or a circuit found by search whose cost is strictly lower than every earlier best, so the result is never worse than the input. Best-so-far circuit and cost always change together, and circuits already seen are not searched again.",
  ["inputs", "schedules", "histories"], "all inputs, thread counts, timeouts and interleavings",
  "Tests run small searches; worker interleavings and timeouts at particular points are not reproducible there.",
  ["tket/src/optimiser/badger.rs", "tket/src/optimiser/badger/worker.rs", "tket/src/optimiser/backtracking.rs", "tket/src/optimiser/pqueue_worker.rs", "tket/src/optimiser/pqueue.rs"],
  [("search loops", "tket/src/optimiser/badger.rs"), ("shared priority queue", "tket/src/optimiser/pqueue_worker.rs")])
p("C23", "Rewrites only ever act on convexity-checked regions",
  "Every region of a circuit that is handed out for rewriting was checked to be convex against the circuit it belongs to; no public way of building such a region skips that check, and match results that fail it are dropped rather than applied.",
  ["inputs", "programs"], "every constructor of rewritable regions, every match result",
  "A non-convex region yields a cyclic program only for particular graphs; tests build convex ones.",
  ["tket/src/rewrite.rs", "tket/src/portmatching/matcher.rs", "tket/src/subcircuit.rs", "tket/src/subcircuit/expression.rs", "tket/src/subcircuit/interval.rs", "tket/src/resource/scope.rs"],
  [("checked constructors", "tket/src/subcircuit.rs, tket/src/rewrite.rs"), ("match to region conversion", "tket/src/portmatching/matcher.rs")])
p("C24", "The commutation pass moves a gate only past commuting gates",
  "The depth-reducing commutation pass moves an operation to an earlier time slice only after confirming, for every intermediate slice and every shared qubit, that it commutes with what is there. After each move the internal schedule and the circuit agree.",
  ["inputs", "histories"], "all circuits and sequences of moves",
  "Tests check a few depth values on hand-written circuits; a skipped check shows only when a blocking gate lies in the skipped position.",
  ["tket/src/passes/commutation.rs"], [("availability search and move", "tket/src/passes/commutation.rs")])
p("C25", "Programs are validated before they are accepted",
  "Loading a program through any public loading function succeeds only if the program passed validation and, where an entry point is required, that entry point is a circuit; the device compiler additionally rejects packages without exactly one module and programs with untranslated foreign operations before compiling.",
  ["inputs"], "every loading entry point, every input file",
  "Tests load valid files; a path that forgets validation accepts every valid file as well.",
  ["tket/src/serialize.rs", "qis-compiler/rust/utils.rs", "qis-compiler/rust/lib.rs", "tket/src/circuit.rs"],
  [("circuit loading", "tket/src/serialize.rs"), ("envelope reading", "qis-compiler/rust/utils.rs")])
p("C26", "Compiled rewriters load back as they were saved",
  "A compiled rewriter file is read back with the format, compression and file-name convention it was written with, and all parts of the rewriter are restored from the file.",
  ["inputs", "histories"], "every rewriter, every supported file name",
  "Tests round-trip one file in memory.",
  ["tket/src/rewrite/ecc_rewriter.rs", "tket/src/portmatching/matcher.rs"], [("save and load", "tket/src/rewrite/ecc_rewriter.rs, tket/src/portmatching/matcher.rs")])
p("C27", "Results do not depend on hash-map iteration order",
  "No compilation, serialisation or optimisation result depends on the iteration order of a randomly seeded hash table, so that the same input gives the same output in every run of the program.",
  ["schedules", "inputs"], "every iteration over a hash table in library code",
  "Within one process and with tiny tables order effects rarely change a test outcome.",
  ["tket/src", "tket-qsystem/src", "qis-compiler/rust"], [("ordered containers and explicit sorting", "all modules")])
p("C28", "Linear wires are tracked as resources, copyable wires as values",
  "In the resource view of a circuit, a port carries a resource identity exactly if its type is linear and a copyable value otherwise, resources keep their identity through operations that pass them on, and positions strictly increase along each resource.",
  ["inputs", "programs"], "all circuits, all port types",
  "Tests build qubit-only circuits; mixed linear types and mixed port orders are rare.",
  ["tket/src/resource/scope.rs", "tket/src/resource/flow.rs", "tket/src/resource/types.rs", "tket/src/subcircuit/interval.rs"], [("resource scope construction", "tket/src/resource/scope.rs")])
p("C29", "Exported circuits keep track of which register holds which qubit",
  "In an exported pytket circuit each wire of the program is represented by registers of its own while it is in use: every operation is emitted on the registers holding its inputs, the recorded final permutation and output bits say where each output is found, a register is overwritten only when its previous content is finished with, and stored subgraphs of unsupported operations receive and return the values they had in the program. A region is refused only when a subgraph without any register would have to be placed.",
  ["inputs", "programs"], "all circuits, including wire permutations, allocation and release",
  "Tests round-trip circuits without swapped outputs or re-allocation after release.",
  ["tket/src/serialize/pytket/encoder/value_tracker.rs", "tket/src/serialize/pytket/encoder.rs", "tket/src/serialize/pytket/extension/tket.rs"],
  [("register tracking", "tket/src/serialize/pytket/encoder/value_tracker.rs"), ("permutation recording", "compute_final_permutation")])
p("C30", "Metadata written by one side is read under the same key by the other",
  "Names of registers and parameters and the phase that decoding a pytket circuit records on a region are the ones encoding it uses again; modifier flags stored on a function are read back with the meaning with which they were written and a modified function records the modifiers it was built with; every metadata key the library writes is read by it under the identical key, and the reverse (operation groups, set by producers of programs, excepted).",
  ["inputs", "histories"], "every metadata key and flag combination",
  "Round-trip tests cover the common keys; missing metadata silently falls back to defaults.",
  ["tket/src/rewrite/trace.rs", "tket/src/modifier.rs", "tket/src/serialize/pytket/encoder.rs", "tket/src/serialize/pytket/decoder.rs"], [("metadata keys", "tket/src/serialize/pytket.rs, tket/src/modifier.rs, tket/src/rewrite/trace.rs")])
p("C31", "Optimised circuits compute what the input computes",
  "For every input circuit, the circuit returned by any optimisation pass is observationally equivalent to the input.",
  ["inputs", "programs"], "all circuits and all passes", "Equivalence is checked on sample circuits only.",
  ["tket/src/optimiser", "tket/src/rewrite", "tket/src/passes"], [("rewrite application", "tket/src/rewrite.rs")])
p("C32", "Malformed input is reported as an error, never as a crash",
  "Reading a malformed or unsupported program, pytket circuit or rewriter file yields an error value and never aborts the process.",
  ["inputs"], "all byte strings given to a reader", "Tests feed a few malformed files.",
  ["tket/src/serialize/pytket/decoder.rs", "tket/src/serialize.rs"], [("error types", "tket/src/serialize/pytket/error.rs")])
p("C33", "Pattern matching finds every occurrence of every pattern",
  "For every circuit and set of patterns, the matcher reports exactly the embeddings of the patterns in the circuit.",
  ["inputs", "programs"], "all circuits and pattern sets", "Tests use small circuits.",
  ["tket/src/portmatching"], [("matcher", "tket/src/portmatching/matcher.rs")])
p("C34", "Optimisation ends within the given time and step limits",
  "Every optimiser run terminates, and a run with a time limit ends shortly after the limit.",
  ["schedules", "inputs"], "all inputs and limits", "Tests use small inputs with generous limits.",
  ["tket/src/optimiser/badger.rs"], [("time limits", "tket/src/optimiser/badger.rs")])
p("C39", "A copyable expression denotes exactly the value it was built for",
  "The expression built for a copyable wire consists of exactly the admissible operations the value is computed from, takes as inputs exactly the values entering that set (documented order), lists the requested value as its first output, and is refused exactly if some path leaves the set and returns.",
  ["inputs", "programs"], "all regions, wires, allowed inputs and excluded operations",
  "Tests build four small expressions; operations with several outputs, order edges and excluded operations between inputs do not occur there.",
  ["tket/src/subcircuit/expression.rs"], [("expression construction", "tket/src/subcircuit/expression.rs: CopyableExpr::try_new")])
p("C40", "A reported pattern match is an occurrence of the pattern",
  "The region a pattern match hands out consists of exactly one operation per pattern operation, each equal to it (operation, extension and arguments), wired among each other as in the pattern, and its inputs and outputs correspond one to one, in order, to those of the pattern.",
  ["inputs", "programs"], "all patterns and circuits",
  "Tests match patterns of a few qubit gates; discarded values, copied inputs, operations of the same name with different arguments do not occur there.",
  ["tket/src/portmatching/matcher.rs", "tket/src/portmatching/pattern.rs", "tket/src/portmatching.rs"],
  [("pattern construction", "tket/src/portmatching/pattern.rs: CircuitPattern::try_from_circuit"), ("match construction", "tket/src/portmatching/matcher.rs: try_from_root_match_with_checker, validate_circuit_edge, encode_op")])
p("C41", "Traversing a circuit lists every operation once with its units",
  "The command list of a circuit contains every operation of the circuit exactly once, after all operations it depends on, and names for each linear port the unit that arrives there: the same unit from an input or allocation to the output or release, never one unit for two live wires.",
  ["inputs", "programs"], "all circuits, all operation signatures",
  "Tests list commands of circuits whose operations take qubits first; allocation after release and mixed port orders do not occur there.",
  ["tket/src/circuit/command.rs", "tket/src/circuit/units.rs"], [("command iteration", "tket/src/circuit/command.rs: CommandIterator"), ("unit assignment", "tket/src/circuit/units.rs, tket/src/circuit/command.rs")])
p("C43", "A class-based rewriter only swaps equivalent circuits on matching wires",
  "Every rewrite a circuit-class rewriter offers replaces an occurrence of one circuit of a class by another circuit of the same class on the same wires (a representative by every other member, every other member by the representative); wires no gate touches are removed from rows, signature and ports consistently, the representative is a smallest circuit, and no circuit of a class is lost.",
  ["inputs", "programs"], "all equivalence classes, any number of untouched wires, all matches",
  "Tests build a rewriter from two small classes and count the rewrites found in one circuit.",
  ["tket/src/rewrite/ecc_rewriter.rs", "tket/src/optimiser/badger/eq_circ_class.rs", "tket/src/circuit.rs"],
  [("rewriter construction", "tket/src/rewrite/ecc_rewriter.rs: ECCRewriter::from_eccs, get_rewrites"), ("wire removal", "tket/src/circuit.rs: remove_empty_wire"), ("class construction", "tket/src/optimiser/badger/eq_circ_class.rs: EqCircClass::from_circuits")])
p("C44", "Tuple pack/unpack elimination keeps every value and never fails",
  "Every rewrite offered for a tuple that is built and taken apart again replaces one pack and unpacks of it by a circuit in which every value used outside is the same value as before (the element at that position, or the tuple itself with its type), it is offered whenever nothing but plain uses surrounds the pair, and asking for rewrites never fails on a valid circuit.",
  ["inputs", "programs"], "all circuits: any number of unpacks and other uses, unused elements, order edges, nested regions",
  "Tests cover three circuits in which all elements are used and the tuple is used once more at most.",
  ["tket/src/passes/tuple_unpack.rs"], [("pack/unpack elimination", "tket/src/passes/tuple_unpack.rs: find_tuple_unpack_rewrites")])
p("C35", "Panics, exits and text constants reach the runtime as written",
  "A panic stops all shots with its code plus 1000 and its message, an exit ends its shot with its own code and message, through a routine declared as not returning; a text constant is its length and then its bytes, an error constant its code and its message with the tag the runtime looks for, whatever other constants the module has; texts that do not fit are refused; printing to the console emits nothing; sizes and qubits are 64 bits wide.",
  ["inputs"], "all codes and texts (bounded: 15 codes, texts around every length limit, any name collisions)",
  "Snapshot tests emit one code with one short text each.",
  ["tket-qsystem/src/llvm/prelude.rs"],
  [("stops", "tket-qsystem/src/llvm/prelude.rs: emit_panic, emit_exit, get_panic"), ("constants", "tket-qsystem/src/llvm/prelude.rs: emit_const_error, emit_const_string, emit_global_string")])
p("C38", "Splitting a circuit into chunks and reassembling it gives the same circuit",
  "For a flat circuit of operations linked by value wires: the chunks contain every operation exactly once, each costs at most the limit or is a single operation, each is a valid circuit with the wires crossing its boundary as inputs and outputs, and reassembling (also after chunks were replaced by circuits of the same type, including ones without operations) gives the composition of the chunks along the original wires under the original name, signature and metadata.",
  ["inputs", "programs"], "all flat circuits, limits and replacements of chunks (bounded families of small circuits)",
  "Tests split four circuits, put the same chunks back and compare the hash.",
  ["tket/src/passes/chunks.rs"],
  [("splitting", "tket/src/passes/chunks.rs: CircuitChunks::split, split_with_cost"), ("one chunk", "tket/src/passes/chunks.rs: Chunk::extract, Chunk::insert"), ("reassembly", "tket/src/passes/chunks.rs: CircuitChunks::reassemble")])
p("C42", "An imported pytket circuit applies each command to the registers it names",
  "Decoding a pytket circuit, for any signature, command list, implicit permutation, parameter names and requested outputs: the built region has one operation per command acting on the current values of exactly the registers and parameters the command names, in order; the outputs are the final values of the registers of the signature (qubits in the permuted order); registers outside the signature are initialised once, on first use; qubits not returned are freed; every wire has the type of its ends, no linear value is copied or lost; and an impossible request is refused, never answered with fresh values or a panic.",
  ["inputs", "programs"], "all circuits, signatures and options (bounded families of small circuits, including signatures with values of several registers)",
  "Tests decode some twenty circuits, nearly all with the default signature, and compare counts of operations.",
  ["tket/src/serialize/pytket/decoder.rs", "tket/src/serialize/pytket/decoder/wires.rs"],
  [("set up", "tket/src/serialize/pytket/decoder.rs: PytketDecoderContext::new, init_wire_tracker"), ("commands", "tket/src/serialize/pytket/decoder.rs: run_decoder, add_node_with_wires, wire_up_node, register_node_outputs"), ("outputs", "tket/src/serialize/pytket/decoder.rs: finish"), ("values of registers", "tket/src/serialize/pytket/decoder/wires.rs: WireTracker")])

p("C37", "A modified function applies the modifiers to everything the function does",
  "For any combination of control and inverse modifiers and any function of gates, classical operations, constants, nested dataflow, conditional, loop and control-flow regions and direct or indirect calls: the new function takes the control arrays first and returns them unchanged, every gate is controlled by exactly those controls (and inverted, in the opposite order, under an inverse), every call reaches the equally modified function, classical values are computed as before, every wire has the type of its ends, the flags say what the new function supports, and the resolver keeps no state of it.",
  ["inputs", "programs"], "all functions, sizes and numbers of control arrays, inverse or not (bounded families of small functions)",
  "Tests resolve about ten functions with one shape each and check only that the result validates.",
  ["tket/src/modifier/modifier_resolver.rs", "tket/src/modifier/modifier_resolver/dfg_modify.rs", "tket/src/modifier/modifier_resolver/call_modify.rs"],
  [("functions and regions", "tket/src/modifier/modifier_resolver/dfg_modify.rs: modify_fn, modify_dfg_body, modify_dfg, modify_tail_loop, modify_conditional, insert_sub_dfg, pack_controls, unpack_controls"), ("calls", "tket/src/modifier/modifier_resolver/call_modify.rs: modify_call, modify_indirect_call, modify_load_function"), ("wiring", "tket/src/modifier/modifier_resolver.rs: wire_inout, wire_node_inout, connect_all, modify_cfg")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["id"]
            f.write(json.dumps(x) + "\n")
    print(len(P))
