NOTES = "Each check runs Verus on functions extracted mechanically from /repo, Kani on the compiled crates, and evaluates the same contracts natively (bounded stand-in, replay). No hooks in /repo."
NOT_APPLICABLE = []
VK = "contract-based deductive verification: Verus on mechanically extracted functions and Kani on the compiled crates; bounded contract evaluation for what is out of reach"
K = "contract-based deductive verification with Kani (CBMC) on the compiled crates; bounded contract evaluation for what is out of reach"
B = "contracts of the real functions evaluated exhaustively/sampled at small fields (bounded stand-in: maps, trait objects and iterators are out of the deductive verifiers' reach)"
PROPERTIES = [
 dict(id="C01", title="Goldilocks arithmetic is exact and canonical",
  statement="For all Goldilocks elements, addition, subtraction, negation, multiplication, division, exponentiation, comparison and integer conversions give exactly the result of the corresponding operation modulo p = 2^64 - 2^32 + 1. Every result is the canonical residue below p, so equal values are always equal elements.",
  quant="all pairs of elements, all 64-bit integers converted, all exponents", tests="unit tests evaluate a handful of constants; carry, borrow and reduction paths depend on rare bit patterns among 2^128 operand pairs",
  files=["number/src/goldilocks.rs"], mech=[("reduce128, add_no_canonicalize_trashing_input, wrap", "number/src/goldilocks.rs"), ("try_inverse addition chain", "number/src/goldilocks.rs"), ("FieldElement::pow", "number/src/goldilocks.rs")],
  technique=VK, level="proof", note="Verus proves wrap/split/add_no_canonicalize/reduce128/Add/Sub/Mul/square/exp_*/try_inverse/pow for all inputs; Kani proves add/sub/neg/conversions/order of the compiled code for all inputs. Assumed: Fermat's little theorem for p (inverse = a^(p-2)); the x86 assembly variants are only evaluated natively (bounded)."),
 dict(id="C02", title="31-bit fields and Bn254: exact modular arithmetic",
  statement="For BabyBear, KoalaBear, Mersenne31 and Bn254, every arithmetic operation, comparison, sign/half test and integer conversion agrees with arithmetic modulo the field's prime on canonical residues. The fixed-width integers attached to each field behave as exact unsigned integers of their width, and out-of-range integers are rejected rather than wrapped.",
  quant="all pairs of elements of each field, all integers in the stated domain (|n| < p for signed conversions)", tests="tests sample a few constants per field",
  files=["number/src/plonky3_macros.rs", "number/src/macros.rs", "number/src/baby_bear.rs", "number/src/koala_bear.rs", "number/src/mersenne31.rs", "number/src/bn254.rs", "number/src/traits.rs"], mech=[("powdr_field_plonky3!", "number/src/plonky3_macros.rs"), ("powdr_field!", "number/src/macros.rs"), ("to_signed_integer", "number/src/traits.rs")],
  technique=K, level="proof", note="Kani proves the wrapper macro at Mersenne31 (all inputs: add, sub, neg, mul, conversions, order) and the integer types of all three 31-bit fields. BabyBear/KoalaBear use the same macro text over a Montgomery-form dependency whose contract is assumed; they, division, powers and Bn254 are evaluated natively (bounded)."),
 dict(id="C03", title="Field element encodings round-trip and reject bad input",
  statement="Encoding any field element to bytes, decimal/hex text, JSON, CBOR or CSV and decoding it again gives the same element, distinct elements have distinct encodings. Decoding accepts exactly canonical numbers (below the field's modulus): anything else is reported as an error, never a panic, a wrapped value or a non-canonical element.",
  quant="all elements of all five fields, all input texts and numbers, all column shapes", tests="tests round-trip 16 small values of one field",
  files=["number/src/serialize.rs", "number/src/plonky3_macros.rs", "number/src/goldilocks.rs", "number/src/macros.rs", "number/src/lib.rs"], mech=[("from_str / from_str_radix / checked_from", "number/src"), ("write_polys_csv_file / read_polys_csv_file", "number/src/serialize.rs"), ("ark_se / ark_de", "number/src/serialize.rs")],
  technique=B, level="exploration", note="bounded: contracts evaluated on boundary tables and seeded samples for all five fields; nothing here is proved (string formatting and serde are out of the verifiers' reach)."),
 dict(id="C04", title="Range constraint algebra never excludes a possible value",
  statement="If values lie in the sets described by two range constraints, then their sum, product, square, constant multiple and negation lie in the range constraint derived for it. The same holds for values in both (conjunction) or in either (disjunction) of two range constraints, for wrapping and non-wrapping intervals and all bit masks.",
  quant="all range constraints, all member values, all factors, all field moduli", tests="tests check selected intervals at one prime",
  files=["constraint-solver/src/range_constraint.rs"], mech=[("combine_sum, combine_product, square, multiple, neg", "constraint-solver/src/range_constraint.rs"), ("conjunction, disjunction, interval_intersection", "constraint-solver/src/range_constraint.rs")],
  technique=VK, level="proof", note="Verus proves range_width, mask_from_bits, from_range, from_mask, unconstrained, combine_sum, combine_product, square, multiple, range_multiple, disjunction, neg for every modulus 2 < p < 2^64 and every (min, max, mask), assuming the field contract (C01/C02), exact big integers and log2_exact. Kani proves conjunction, disjunction, neg at the BabyBear prime and the others at p = 31 on the compiled code."),
 dict(id="C05", title="Range constraint constructors and queries are exact",
  statement="A range constraint built from an interval, a mask, a bit count or a value allows exactly those values; the membership test agrees with the reported interval and mask. Queries never overclaim: a reported single value is the only allowed value, enumeration yields exactly the allowed values, 'disjoint' means no common value, 'unconstrained' means all values, and the reported width is the size of the interval.",
  quant="all constructor arguments, all values, all pairs of range constraints", tests="tests check selected intervals at one prime",
  files=["constraint-solver/src/range_constraint.rs"], mech=[("from_range, from_mask, from_max_bit, from_value, unconstrained", "constraint-solver/src/range_constraint.rs"), ("allows_value, allowed_values, try_to_single_value, is_disjoint, range_width, is_unconstrained", "constraint-solver/src/range_constraint.rs")],
  technique=VK, level="proof", note="Kani proves all of it except allowed_values at the BabyBear prime on the compiled code; Verus proves allows_value, range_width, try_to_single_value and the constructors for all moduli below 2^64. allowed_values (an iterator) is enumerated exhaustively at p = 7 and sampled elsewhere (bounded)."),
 dict(id="C06", title="Expression operations preserve the polynomial they denote",
  statement="Adding, subtracting, negating and multiplying grouped and algebraic expressions, splitting them into head and tail, summands or factors, substituting variables by values or by expressions, renaming variables and converting between representations all give expressions that evaluate, under every assignment, to exactly what the operation says. Reported degrees, coefficients, referenced variables and 'is known / is a variable' answers are true of the polynomial.",
  quant="all expressions, all assignments, all fields", tests="tests compare printed forms of a few expressions",
  files=["constraint-solver/src/grouped_expression.rs", "expression/src/lib.rs", "constraint-solver/src/algebraic_constraint/mod.rs"], mech=[("GroupedExpression arithmetic, substitute_*, to_factors, try_split_head_tail", "constraint-solver/src/grouped_expression.rs"), ("AlgebraicExpression operators", "expression/src/lib.rs"), ("try_to_simple_equivalence", "constraint-solver/src/algebraic_constraint")],
  technique=VK, level="proof", note="Verus proves evaluation, operators and degree of AlgebraicExpression (expression crate) for all expressions. GroupedExpression (BTreeMap, Vec of pairs, iterator chains) is out of the verifiers' reach and is evaluated on seeded random expressions at p = 5, 7 and BabyBear (bounded)."),
 dict(id="C07", title="Derived range constraints of expressions are sound",
  statement="The range constraint computed for a grouped expression or a runtime constant from range constraints of its variables allows every value the expression takes under assignments respecting those constraints. Symbolic runtime constants simplify without changing their value, and 'known zero/one/nonzero' is only reported when it holds for every value of their symbols.",
  quant="all expressions, all range constraints of their variables, all assignments", tests="tests check a few expressions at one prime",
  files=["constraint-solver/src/grouped_expression.rs", "constraint-solver/src/symbolic_expression.rs", "constraint-solver/src/runtime_constant.rs"], mech=[("GroupedExpression::range_constraint", "constraint-solver/src/grouped_expression.rs"), ("SymbolicExpression operators", "constraint-solver/src/symbolic_expression.rs")],
  technique=VK, level="proof", note="Verus proves the SymbolicExpression operators, range constraint propagation and known-ness queries for all expressions, over the contracts of RangeConstraint (C04/C05). GroupedExpression::range_constraint (BTreeMap iterator) is evaluated natively at p = 7, 13 and BabyBear (bounded)."),
 dict(id="C08", title="Solving one constraint loses no solution and claims no more",
  statement="Solving a single algebraic constraint or bus interaction under given range constraints never rules out a value that a satisfying assignment can have: every effect (assignment, range constraint, conditional assignment) holds in all solutions, 'unsolvable' is reported only if there is none. If the result is reported complete, the effects imply the constraint. Solving for a variable or an expression yields an expression equal to it in every solution.",
  quant="all constraints, all range constraints, all assignments", tests="tests solve a handful of equations",
  files=["constraint-solver/src/algebraic_constraint/solve.rs", "constraint-solver/src/constraint_system.rs"], mech=[("AlgebraicConstraint::solve, try_solve_for, try_solve_for_expr", "constraint-solver/src/algebraic_constraint/solve.rs"), ("BusInteraction::solve", "constraint-solver/src/constraint_system.rs")],
  technique=B, level="exploration", note="bounded: seeded random constraints over up to four variables, all assignments enumerated at p = 5, 7, 11, 13; planted solutions at BabyBear."),
 dict(id="C09", title="Splitting, boolean extraction, linearisation keep solutions",
  statement="Splitting an affine constraint into parts under range constraints gives a set of constraints equivalent to the original one. Boolean extraction replaces a quadratic constraint by one with a fresh boolean that is satisfiable by some boolean exactly when the original holds, and linearisation with fresh variables is likewise equivalent to the original expression or constraint.",
  quant="all constraints, all range constraints, all assignments, all fields", tests="tests cover a few printed examples",
  files=["constraint-solver/src/solver/constraint_splitter.rs", "constraint-solver/src/solver/boolean_extractor.rs", "constraint-solver/src/solver/linearizer.rs"], mech=[("try_split_constraint, find_solution, recombine_components", "constraint-solver/src/solver/constraint_splitter.rs"), ("BooleanExtractor::try_extract_boolean", "constraint-solver/src/solver/boolean_extractor.rs"), ("Linearizer", "constraint-solver/src/solver/linearizer.rs")],
  technique=B, level="exploration", note="bounded: seeded random constraints and range constraints, all assignments enumerated at small primes, boundary-directed samples at BabyBear. The functions are private: the check compiles a copy of the crates with visibility widened mechanically."),
 dict(id="C10", title="The solver never excludes a solution of the system",
  statement="After adding constraints, bus interactions and range constraints in any order and solving, every assignment, range constraint, equivalent constant and 'known to be different' answer of the solver holds in every solution of the system; an error is only reported for systems without solution. The exhaustive search on a set of variables likewise keeps every solution.",
  quant="all constraint systems, all bus semantics respected by the handler, all solutions", tests="tests solve a few systems and compare printed results",
  files=["constraint-solver/src/solver.rs", "constraint-solver/src/solver/base.rs", "constraint-solver/src/solver/exhaustive_search.rs", "constraint-solver/src/utils.rs", "constraint-solver/src/solver/var_transformation.rs"], mech=[("BaseSolver::solve, apply_assignment, equivalent_expressions", "constraint-solver/src/solver/base.rs"), ("exhaustive_search_on_variable_set", "constraint-solver/src/solver/exhaustive_search.rs")],
  technique=B, level="exploration", note="bounded: seeded random systems (up to four variables, four constraints, lookup-table bus interactions), all assignments enumerated at p = 5, 7, 11; planted solutions of larger systems at BabyBear."),
 dict(id="C11", title="OpenVM bus handlers describe exactly what the lookups accept",
  statement="For the bitwise, variable-range, tuple-range and memory buses, the range constraints the OpenVM handler derives for an interaction allow every payload the bus accepts, a violation is reported only if no payload in the given ranges is accepted, and range constraints it encodes as (batched) interactions are accepted for exactly the stated ranges. Purity and statefulness answers agree with the bus.",
  quant="all payload range constraints and multiplicities, all bus configurations (tuple sizes, ids), all payload values", tests="tests fix a few payloads per bus",
  files=["openvm-bus-interaction-handler/src/lib.rs", "openvm-bus-interaction-handler/src/bitwise_lookup.rs", "openvm-bus-interaction-handler/src/variable_range_checker.rs", "openvm-bus-interaction-handler/src/tuple_range_checker.rs", "openvm-bus-interaction-handler/src/memory.rs"],
  mech=[("OpenVmBusInteractionHandler::handle_bus_interaction", "openvm-bus-interaction-handler/src/lib.rs"), ("pure_range_constraints, batch_make_range_constraints", "openvm-bus-interaction-handler/src/lib.rs"), ("handle_bitwise_lookup and the other handlers", "openvm-bus-interaction-handler/src")],
  technique=K, level="proof", note="Kani proves the bitwise, variable range and tuple handlers of the compiled code for all range constraints at the BabyBear prime over the contracts of RangeConstraint (C04/C05), payload of fixed arity; the memory handler, dispatch and encodings back to interactions are evaluated natively (bounded). The meaning of the buses (what the lookup tables accept) is written down by hand from the OpenVM chips."),
 dict(id="C12", title="Rewriting range constraints keeps exactly the same solutions",
  statement="Replacing the range checks of a system (lookups and constraints that only bound variables) by a new set of range checks leaves the set of solutions unchanged, including for values outside the original bounds. Every re-encoded interaction accepts exactly what the ranges say.",
  quant="all systems, all assignments", tests="tests compare printed output of a few systems",
  files=["autoprecompiles/src/range_constraint_optimizer.rs", "openvm-bus-interaction-handler/src/lib.rs"],
  mech=[("optimize_range_constraints", "autoprecompiles/src/range_constraint_optimizer.rs"), ("batch_make_range_constraints", "openvm-bus-interaction-handler/src/lib.rs")],
  technique=B, level="exploration", note="bounded: seeded random systems, all assignments enumerated at p = 7, 11 with a lookup-table handler; the OpenVM encodings sampled at BabyBear, planted solutions and assignments next to them at BabyBear. Precondition: the system is satisfiable (on an unsatisfiable system the solver's error is unwrapped)."),
 dict(id="C13", title="Memory optimizer keeps the memory behaviour",
  statement="Removing matching pairs of memory sends and receives leaves exactly the same possible behaviours: every solution of the optimized system extends to a solution of the original one with the same remaining stateful messages, and every honest solution of the original still satisfies the result. A pair is removed only when no access in between can touch the same cell, and the two data values and the order of timestamps stay constrained.",
  quant="all systems with memory interactions, all address relations, all solutions", tests="tests use a handful of systems with constant addresses",
  files=["autoprecompiles/src/memory_optimizer.rs", "autoprecompiles/src/bus_map.rs", "openvm-bus-interaction-handler/src/memory_bus_interaction.rs"],
  mech=[("redundant_memory_interactions_indices, optimize_memory", "autoprecompiles/src/memory_optimizer.rs"), ("OpenVmMemoryBusInteraction::try_from_bus_interaction", "openvm-bus-interaction-handler/src/memory_bus_interaction.rs")],
  technique=B, level="exploration", note="bounded: seeded random systems of up to four variables with memory chains, all assignments enumerated at p = 5, 7. 'Behaviour' is the multiset of net stateful messages; honest = timestamps increase along the block."),
 dict(id="C14", title="Every optimization pass preserves the meaning of the machine",
  statement="Each pass of the constraint optimizer (solver-driven substitution, inlining, removal of disconnected, free, trivial, redundant and duplicate parts, the rule based rewriting, the low-degree replacement and equality-based rules) keeps the observable behaviour: a solution of the output extends to a solution of the input with the same stateful messages, and every solution of the input restricts to one of the output. Values of removed and new columns stay computable as claimed, degree bounds are kept, and the rule based rewriting reaches its fixed point.",
  quant="all constraint systems, all bus semantics respected by the handler, all solutions", tests="snapshot tests compare printed or serialized output, not meaning",
  files=["autoprecompiles/src/optimizer.rs", "autoprecompiles/src/constraint_optimizer.rs", "constraint-solver/src/rule_based_optimizer/driver.rs", "autoprecompiles/src/low_degree_bus_interaction_optimizer.rs", "constraint-solver/src/inliner.rs", "constraint-solver/src/indexed_constraint_system.rs", "constraint-solver/src/solver.rs"],
  mech=[("optimize_constraints and its steps", "autoprecompiles/src/constraint_optimizer.rs"), ("rule_based_optimization", "constraint-solver/src/rule_based_optimizer"), ("inline_until_fixed_point", "constraint-solver/src/inliner.rs"), ("optimize", "autoprecompiles/src/optimizer.rs")],
  technique=B, level="exploration", note="bounded: seeded random systems (up to four variables, lookup-table bus handler), solution sets of input and output compared by enumeration at p = 5, 7 (11, 13 for whole runs); at BabyBear a planted solution of larger systems (eight variables) and assignments next to it, and the end of the rule based rewriting with the OpenVM handler. The equality-to-zero rule assumes the OpenVM less-than chip's shape."),
 dict(id="C15", title="Symbolic machines are converted and guarded faithfully",
  statement="Converting between symbolic machines and constraint systems, substituting instruction arguments and assembling the machine of a block keep constraints, interactions, ids and derived columns with exactly their meaning. In the guarded machine every constraint and interaction is unchanged on valid rows; on the all-zero row every constraint holds and every bus multiplicity is zero, is_valid is boolean, and the degree does not exceed the bound because of the guard.",
  quant="all expressions, machines and blocks, all rows", tests="tests look at a few snapshots",
  files=["autoprecompiles/src/lib.rs", "autoprecompiles/src/powdr.rs", "autoprecompiles/src/symbolic_machine.rs", "autoprecompiles/src/symbolic_machine_generator.rs", "autoprecompiles/src/expression_conversion.rs", "expression/src/lib.rs"],
  mech=[("add_guards, add_guards_constraint", "autoprecompiles/src/lib.rs"), ("make_bool, globalize_references", "autoprecompiles/src/powdr.rs"), ("statements_to_symbolic_machines", "autoprecompiles/src/symbolic_machine_generator.rs"), ("algebraic_to_grouped_expression, grouped_expression_to_algebraic", "autoprecompiles/src/expression_conversion.rs")],
  technique=VK, level="proof", note="Verus proves add_guards_constraint, make_bool and the expression constructors for every expression and row, assuming the field contract, that p is prime, and what satisfies_zero_witness returns (checked bounded by ap_guard_*). add_guards over whole machines, conversions and assembly (iterators, maps) are evaluated on seeded machines (bounded)."),
 dict(id="C16", title="Basic blocks and superblocks partition and count the program",
  statement="Collecting basic blocks partitions the program: every instruction lies in exactly one block, at its own pc, blocks are cut exactly at jump targets, branching and disallowed instructions. Superblocks are exactly the sequences of blocks that occur in the runs of the execution within the configured limits, counted by their non-overlapping occurrences; occurrences of a block are found greedily, without overlap and without missing any.",
  quant="all programs, executions and limits", tests="tests use a few short sequences",
  files=["autoprecompiles/src/blocks/mod.rs", "autoprecompiles/src/blocks/detection.rs"],
  mech=[("collect_basic_blocks", "autoprecompiles/src/blocks/detection.rs"), ("find_non_overlapping, detect_execution_bb_runs, count_superblocks_in_run, detect_superblocks", "autoprecompiles/src/blocks/mod.rs"), ("SuperBlock", "autoprecompiles/src/blocks/mod.rs")],
  technique=VK.replace(" and Kani on the compiled crates", ""), level="proof", note="Verus proves find_non_overlapping for all sequences (T instantiated at u64, slice equality trusted, non-empty needle). Block collection and superblock counting (hash maps, iterator chains) are evaluated on seeded programs and executions (bounded)."),
 dict(id="C17", title="Optimistic constraints: a call is taken exactly when they hold",
  statement="The tracker evaluates optimistic constraints on the execution: a step is refused exactly when a constraint it makes decidable is false in the recorded history, at any pc, for register limbs and values of any earlier step. The calls extracted from the candidates are apcs whose constraints held, with the right cycle ranges and states; they never overlap, the highest ranked candidate is always kept, and a candidate is discarded only in favour of an overlapping one of higher rank (priority, then length, then age) that had not itself lost before to an older kept call.",
  quant="all constraints, all executions, all candidate sets", tests="tests run a few candidates",
  files=["autoprecompiles/src/execution/evaluator.rs", "autoprecompiles/src/execution/candidates.rs", "autoprecompiles/src/execution/ast.rs"],
  mech=[("OptimisticConstraintEvaluator::try_next_execution_step", "autoprecompiles/src/execution/evaluator.rs"), ("ApcCandidates::extract_calls, check_conditions, try_insert", "autoprecompiles/src/execution/candidates.rs"), ("CandidateRank, Candidate::overlaps", "autoprecompiles/src/execution/candidates.rs")],
  technique=K, level="proof", note="Kani proves the overlap test and the rank order of the compiled code for all inputs. The evaluator and extract_calls (maps, iterators) are evaluated on seeded constraints, executions and candidate sets against a history oracle (bounded)."),
 dict(id="C18", title="Empirical constraints claim only what executions showed",
  statement="A partition into equivalence classes is exactly the relation it was built from, and intersecting partitions gives exactly the pairs equivalent in all. Combining what several executions showed claims a range or an equality only if none of them refutes it, and claims all those that hold in all of them; for a superblock and after filtering, each claim is about the same instruction and column it was learned for.",
  quant="all partitions, all sets of executions, all superblocks and filters", tests="tests combine two small examples",
  files=["autoprecompiles/src/empirical_constraints.rs", "autoprecompiles/src/equivalence_classes.rs", "autoprecompiles/src/optimistic/config.rs"],
  mech=[("Partition, parallel_intersect", "autoprecompiles/src/equivalence_classes.rs"), ("EmpiricalConstraints::combine_with, for_block, BlockEmpiricalConstraints::filtered", "autoprecompiles/src/empirical_constraints.rs")],
  technique=B, level="exploration", note="bounded: seeded partitions, debug information and executions against set-based oracles (maps, sets and rayon iterators are out of the verifiers' reach)."),
 dict(id="C19", title="APC traces are filled from the right original records",
  statement="When calls are replayed, each cell of an autoprecompile row that comes from an original instruction is taken from that instruction's own record of that call: the record offsets in the original tables account for every earlier instruction using the same table and every earlier call, instructions without remaining columns are skipped, and column indices match the machine.",
  quant="all blocks, all column selections, any number of calls", tests="unit tests do not run trace generation outside OpenVM's own end-to-end tests",
  files=["autoprecompiles/src/trace_handler.rs"], mech=[("generate_trace", "autoprecompiles/src/trace_handler.rs")],
  technique=B, level="exploration", note="bounded: seeded blocks, tables, substitutions and call counts, every cell of the produced data compared. Precondition (from the caller): tables hold the records of instructions with at least one remaining column, in execution order."),
 dict(id="C20", title="Block selection respects the budgets and accounts for values",
  statement="The selected autoprecompiles are distinct candidate blocks, no more than requested, and within the column budget; blocks are chosen in order of value per cost, where the value counts only executions not already covered by chosen blocks. Every block that was skipped is excluded by the configuration, no longer occurs, or does not fit.",
  quant="all programs, execution profiles and limits, all three profiling modes", tests="tests cover one or two configurations",
  files=["autoprecompiles/src/pgo/cell/selection.rs", "autoprecompiles/src/pgo/cell/mod.rs", "autoprecompiles/src/pgo/instruction.rs", "autoprecompiles/src/pgo/none.rs", "autoprecompiles/src/pgo/mod.rs"],
  mech=[("select_blocks_greedy", "autoprecompiles/src/pgo/cell/selection.rs"), ("CellPgo, InstructionPgo, NonePgo", "autoprecompiles/src/pgo")],
  technique=B, level="exploration", note="bounded: seeded programs and executions, the selection compared with a greedy oracle (maps, heaps and rayon iterators are out of the verifiers' reach)."),
 dict(id="C21", title="RISC-V programs are lifted to equivalent assembly",
  statement="Every instruction word of an RV32IMAC program is read with the operation, registers and immediate the ISA manual gives it, compressed ones as their expansion. Every lifted (pseudo-)instruction has the effect of the one or two instructions it replaces; instructions are joined only if no jump enters between them. Each referenced code address has a label in the right place, labels are unique, and initial memory is the file's data with code pointers replaced by labels.",
  quant="all instruction words, all register and immediate values, all pairs, all programs and data layouts", tests="tests load a few compiled binaries and only check that they convert",
  files=["riscv-elf/src/lib.rs", "riscv-elf/src/debug_info.rs", "riscv-types/src/lib.rs", "syscalls/src/lib.rs"],
  mech=[("RiscVInstructionIterator, lift_instructions, TwoOrOneMapper", "riscv-elf/src/lib.rs"), ("InstructionLifter (map_one, map_two, composed_immediate)", "riscv-elf/src/lib.rs"), ("load_elf_from_buffer, ElfProgram::take_initial_mem", "riscv-elf/src/lib.rs"), ("WrappedArgs (InstructionArgs)", "riscv-elf/src/lib.rs"), ("dedup_names, SymbolTable", "riscv-elf/src/debug_info.rs")],
  technique=K, level="proof", note="Kani proves, on the compiled code and for all inputs: the reading of all 2^32 words and 2^16 halfwords, the lifting of one instruction and of each kind of joined pair (the address map replaced by its contract there), operand access, syscall numbers, the address map of one segment. Whole files (labels, memory, program order; goblin, maps, iterators) are assembled from random programs and compared by one-step simulation (bounded). Preconditions and exemptions are listed in DESIGN.md."),
 dict(id="C22", title="RV64 jump destinations are exactly the possible direct ones",
  statement="For an RV64 program the reported jump destinations are the entry point, the symbols in code, and the targets of direct jumps, branches and auipc+jalr pairs: none of these is missing and nothing else is reported. The debug view names for each destination without a symbol exactly the instructions that jump there. Program counter base, entry point and symbols are those of the file.",
  quant="all RV64 programs", tests="tests load a few compiled binaries and compare counts",
  files=["riscv-elf/src/rv64.rs"], mech=[("compute_jumpdests, scan_for_jump_targets", "riscv-elf/src/rv64.rs")],
  technique=B, level="exploration", note="bounded: random RV64 programs wrapped into ELF files and the scan of random one and two instruction sequences, compared with an oracle written from the ISA manual (maps of vectors and the decoder together are beyond Kani's reach here: time-outs). Precondition: the register of an auipc is not x0."),
]
