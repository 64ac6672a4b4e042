HOOK_COMMITS = ["af2bdfb"]
NOT_APPLICABLE = []


def P(id, title, statement, over, qtext, why, files, mechanism, observe, technique, note, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
            "why_tests_cant": why, "anchors": a, "technique": technique, "level_note": note}


PROPS = [
    P("C01", "Programs compute the values the language semantics prescribe",
      "For every valid program and every input on which it does not fail, compiling the program and executing the result returns exactly the values the language semantics prescribe: field arithmetic modulo the prime, unsigned arithmetic modulo 2^n, strict evaluation, by-value composite types, bounded loops, generic functions, calls and shadowing. A valid program is accepted by the compiler, and neither compilation nor execution crashes on it.",
      ["programs", "inputs"],
      "every well-typed program and every input vector",
      "The unit tests compile a fixed list of programs on a few inputs; the interaction of inlining, SSA, constant propagation, flattening, bit-width optimisation and constraint generation is a property of all programs.",
      ["zokrates_core/src/compile.rs", "zokrates_core/src/semantics.rs", "zokrates_analysis/src", "zokrates_codegen/src/lib.rs", "zokrates_interpreter/src/lib.rs"],
      [("type checking and specialisation", "zokrates_core/src/semantics.rs"),
       ("inlining, loop unrolling and SSA", "zokrates_analysis/src/reducer"),
       ("constant propagation", "zokrates_analysis/src/propagation.rs, zir_propagation.rs"),
       ("removal of composite types", "zokrates_analysis/src/flatten_complex_types.rs"),
       ("bit-width optimisation", "zokrates_analysis/src/uint_optimizer.rs"),
       ("constraint generation", "zokrates_codegen/src/lib.rs")],
      ["return values in the witness"],
      "differential testing of generated programs against an independent reference interpreter",
      "Grammar- and type-directed random programs (structs, generics, overloads, loops, slices, spreads, conditionals, constants) run on boundary-biased inputs; the outputs are compared with a big-integer interpreter written from the documentation. Sampled, not exhaustive; BN128 only."),
    P("C02", "Execution fails exactly when the program says it must",
      "Executing a compiled program succeeds on an input if and only if the semantics say so: every assertion that is executed holds, no divisor is zero, and no index or comparison is out of its range. A failing assertion, zero divisor or out-of-range index known at compile time is reported as an error, and only then may a program with satisfiable inputs be refused.",
      ["programs", "inputs"],
      "every well-typed program with assertions, divisions, indexing and comparisons, on every input vector",
      "Tests check a handful of assertions on chosen values; whether some optimisation drops or invents a failure depends on the whole program and the input.",
      ["zokrates_analysis/src/panic_extractor.rs", "zokrates_analysis/src/dead_code.rs", "zokrates_analysis/src/condition_redefiner.rs", "zokrates_codegen/src/lib.rs", "zokrates_interpreter/src/lib.rs"],
      [("implicit failures made explicit", "zokrates_analysis/src/panic_extractor.rs"),
       ("assertions to constraints", "zokrates_codegen/src/lib.rs"),
       ("index range checks", "zokrates_analysis/src/variable_write_remover.rs, out_of_bounds.rs")],
      ["result of execution", "compiler errors"],
      "differential testing of generated programs against an independent reference interpreter",
      "Generated programs with assertions that hold on some inputs and not on others, divisions and dynamic indices; success and failure are compared with the reference. Failures whose value is provably unused may be optimised away; a known finding about assertions in operands removed by constant folding is listed."),
    P("C03", "A prover cannot get a wrong result accepted",
      "The constraint system of a compiled program determines its outputs: for given inputs no assignment of the remaining variables satisfies every constraint with outputs other than the ones the program computes, no assignment satisfies them when the execution must fail, and an input outside the range of its declared type (bool, u8..u64) is never accepted. This has to hold against a prover who ignores the solvers and picks intermediate values freely.",
      ["programs", "inputs", "fault_sequences"],
      "every program without assembly blocks, every input vector and every assignment",
      "Unit tests run the honest solvers, so they cannot notice a missing or weakened constraint: execution is unchanged by it.",
      ["zokrates_codegen/src/lib.rs", "zokrates_core/src/optimizer", "zokrates_ast/src/ir/from_flat.rs"],
      [("constraints of comparisons, decompositions, divisions, equality", "zokrates_codegen/src/lib.rs"),
       ("range constraints of inputs", "zokrates_codegen/src/lib.rs use_parameter")],
      ["satisfiability of the exported constraints"],
      "adversarial search: generated programs, the prover's free variables are perturbed and the assignment is repaired constraint by constraint; the outputs are compared with the reference interpreter",
      "Searches for a second satisfying assignment by forcing solver outputs (aliased bit decompositions x+p, carried bits, neighbouring quotients, flipped bits, random values) and solving violated constraints for other free variables. A random search: it finds missing constraints that one or a few changed values expose, it does not prove uniqueness."),
    P("C04", "Optimization preserves the constraint system and the witness satisfies it",
      "The optimized program accepts the same inputs with the same outputs as the program before optimization: no relation is lost, duplicated away wrongly or invented by removing redefinitions, tautologies, duplicate directives and duplicate constraints, in assembly blocks too. Any assignment the optimized constraints accept can be completed to one the original constraints accept. The witness produced by the interpreter assigns the inputs as given and satisfies every constraint of the program.",
      ["programs", "inputs"],
      "every intermediate program the code generator can emit, every input vector, every satisfying assignment",
      "The optimizer's unit tests apply one rule to a program of a few lines; losing a relation needs particular sequences of definitions, uses and blocks.",
      ["zokrates_core/src/optimizer", "zokrates_interpreter/src/lib.rs", "zokrates_ast/src/ir/clean.rs"],
      [("removal of redefinitions", "zokrates_core/src/optimizer/redefinition.rs"),
       ("merging of directives", "zokrates_core/src/optimizer/directive.rs"),
       ("removal of duplicates and tautologies", "zokrates_core/src/optimizer/duplicate.rs, tautology.rs"),
       ("witness generation", "zokrates_interpreter/src/lib.rs")],
      ["constraints before and after optimization", "witness"],
      "differential and metamorphic testing of random intermediate programs and of compiled generated programs, before and after optimization",
      "Random intermediate programs (definitions, conditions, directives with constant, repeated and dependent inputs, blocks) and generated source programs; honest runs are compared, and assignments the optimized system accepts are extended to the original one by search.",
      hook="zokrates_core: #[cfg(zokrates_pbt)] makes the module optimizer public and adds compile::compile_unoptimized"),
    P("C06", "Folding at compile time agrees with execution",
      "A computation whose operands are known at compile time gives the same values, and fails in the same cases, as the same computation on run-time inputs: replacing the inputs of a program by constants (as definitions or as arguments of a call) yields a program that returns the same outputs, and that the compiler refuses, or that fails, only when the original fails on those inputs.",
      ["programs", "inputs"],
      "every well-typed program and every input vector used as constants",
      "The constant folder re-implements every operator; unit tests fold a few literals, while folding must agree with the constraints for every operand, at every width, in every context.",
      ["zokrates_analysis/src/propagation.rs", "zokrates_analysis/src/zir_propagation.rs", "zokrates_analysis/src/reducer", "zokrates_codegen/src/lib.rs"],
      [("folding of typed expressions", "zokrates_analysis/src/propagation.rs"),
       ("folding of flat expressions", "zokrates_analysis/src/zir_propagation.rs"),
       ("evaluation of constants and bounds", "zokrates_analysis/src/reducer/mod.rs, constants_reader.rs")],
      ["return values in the witness", "compiler errors"],
      "metamorphic and differential testing: generated programs specialised to constant inputs, compared with the reference interpreter",
      "Generated programs with their inputs baked in as constants, and single operators on boundary-biased literals in constants, array sizes and loop bounds. Sampled; BN128 only."),
    P("C07", "Compiled programs survive being written and read back",
      "Writing a compiled program and reading the file gives back the same curve, arguments, statements, solvers, module map, return count and constraint count; it executes to the same witness. A program that has a private variable no constraint mentions is refused, and only such a program. A file that is truncated or damaged is refused with an error or read as some other complete program: it never crashes the reader, nor is it read as the original program with constraints missing.",
      ["programs", "fault_sequences"],
      "every program, curve, and damage to the file",
      "The serialization tests write an empty program; the format carries every kind of statement, solver and coefficient, and every corruption.",
      ["zokrates_ast/src/ir/serialize.rs", "zokrates_ast/src/ir/solver_indexer.rs", "zokrates_ast/src/ir/check.rs", "zokrates_ast/src/common/solvers.rs"],
      [("sections and header", "zokrates_ast/src/ir/serialize.rs"), ("indexing of solvers", "zokrates_ast/src/ir/solver_indexer.rs"), ("unconstrained variables", "zokrates_ast/src/ir/check.rs")],
      ["deserialized program", "execution", "errors"],
      "round trip of random and compiled programs over every curve; fault injection into the files",
      "Random intermediate programs over six curves with every solver, and compiled programs, written and read back; files damaged at random positions or cut."),
    P("C08", "Witness files carry exactly the values of the execution",
      "Writing a witness and reading it back gives the same assignment. The outputs reported for an execution are the values of the output variables in order, and the public inputs and outputs given to a verifier are the public arguments in the order of the declaration followed by the outputs.",
      ["programs", "inputs"],
      "every witness, for every curve, and every execution",
      "Tests write one witness with three variables.",
      ["zokrates_ast/src/ir/witness.rs", "zokrates_ast/src/ir/mod.rs", "zokrates_circom/src/witness.rs"],
      [("writing and reading", "zokrates_ast/src/ir/witness.rs"), ("public inputs", "zokrates_ast/src/ir/mod.rs public_inputs_values")],
      ["witness file", "outputs", "public inputs"],
      "round trip and comparison with an independent model",
      "Random witnesses over six curves and executions of generated programs."),
    P("C09", "Values cross the ABI unchanged",
      "Encoding a JSON value of a type as field elements and decoding it gives the value back, with the elements in the documented order (depth first, members in declaration order), as many as the type takes. A JSON value that does not fit the type (wrong length, missing or unknown member, number out of range, wrong kind) is refused, decimal and hexadecimal numbers have their usual value, and the ABI the compiler writes describes the signature of main: names, visibility and types, through JSON and back.",
      ["programs", "inputs"],
      "every type and every JSON value",
      "Tests encode a few fixed types.",
      ["zokrates_abi/src/lib.rs", "zokrates_ast/src/typed/abi.rs", "zokrates_ast/src/typed/types.rs"],
      [("encoding and decoding", "zokrates_abi/src/lib.rs"), ("parsing of values", "zokrates_abi/src/lib.rs parse_value"), ("specification", "zokrates_ast/src/typed/abi.rs")],
      ["encoded field elements", "decoded values", "abi.json"],
      "round trip and model-based testing over random types and values, refusal of mutated values",
      "Random types nested to depth 3 with empty arrays, structs and tuples; mutated values must be refused; compiled programs' ABI compared with the program's signature."),
    P("C10", "The circom export is the same constraint system",
      "The r1cs and witness files exported for circom are well formed, and describe exactly the constraints, the wires (one, outputs, public inputs, private inputs and intermediate values in order) and the values of the program: the exported system accepts the exported witness, and its constraints are the program's.",
      ["programs", "inputs"],
      "every program of every curve, every execution",
      "Tests read back two tiny programs over BN128.",
      ["zokrates_circom/src/r1cs.rs", "zokrates_circom/src/witness.rs"],
      [("r1cs", "zokrates_circom/src/r1cs.rs"), ("witness", "zokrates_circom/src/witness.rs")],
      ["r1cs file", "wtns file"],
      "independent parser of the formats, compared with the program on random and compiled programs",
      "An independent reader of the documented binary formats; constraints compared as maps, witness evaluated."),
    P("C11", "The SMT-LIB2 export describes the constraint system",
      "The SMT-LIB2 file generated from a program is well formed, declares each variable once, and its assertions hold for an assignment exactly when the constraints of the program hold: for the witness of an execution, and for changed values.",
      ["programs", "inputs"],
      "every program, every assignment",
      "One test compares a string.",
      ["zokrates_ast/src/ir/smtlib2.rs"],
      [("generation", "zokrates_ast/src/ir/smtlib2.rs")],
      ["smtlib2 text"],
      "the exported formula is parsed and evaluated on witnesses and perturbed assignments, against the constraints",
      "An evaluator of the subset of SMT-LIB2; satisfied and violated assignments."),
    P("C12", "Field elements behave like integers modulo the prime",
      "On every supported curve, addition, subtraction, multiplication, division, power, negation, inverse and comparisons are those of integers modulo the curve's published prime; checked operations fail exactly on overflow; conversions from and to integers, bytes, bits, decimal and hexadecimal text and the representations of the proving backends are exact, and refuse what does not fit.",
      ["inputs"],
      "every pair of elements of every field",
      "Unit tests check a few operands of BN128.",
      ["zokrates_field/src"],
      [("arithmetic", "zokrates_field/src/lib.rs"), ("conversions to backends", "zokrates_field/src/bn128.rs, bls12_381.rs, pallas.rs")],
      ["values"],
      "differential testing against big integers over all six fields",
      "Operands biased to 0, 1, p-1, (p-1)/2, powers of two."),
    P("C13", "Compilation is a function of the program text, up to layout and names",
      "Compiling the same program twice gives the same bytes, ABI or error, in any thread, after any other compilation. Comments, white space and line breaks change nothing but positions. Renaming constants, types, functions, generic parameters, parameters, variables and members consistently, to any identifiers that are not reserved words, changes nothing but those names in the ABI.",
      ["programs", "histories"],
      "every program, every layout of its tokens, every consistent renaming",
      "A test that compiles once cannot see that the order of a hash map leaks into the output; tests use a handful of names, none of which starts with a reserved word.",
      ["zokrates_parser/src/zokrates.pest", "zokrates_core/src", "zokrates_analysis/src", "zokrates_codegen/src/lib.rs", "zokrates_ast/src/ir/serialize.rs"],
      [("grammar", "zokrates_parser/src/zokrates.pest"), ("symbol tables and inlining", "zokrates_core/src/semantics.rs, zokrates_analysis/src/reducer"), ("serialization", "zokrates_ast/src/ir/serialize.rs")],
      ["serialized program", "ABI", "error"],
      "metamorphic testing: repeated compilation, and random layouts and renamings of generated programs",
      "The programs are compared statement by statement, without source positions; the names come from a pool full of prefixes and suffixes of reserved words."),
    P("C14", "Programs which are not valid are rejected with an error",
      "A program that breaks a rule of the language is rejected with an error: operands, assignments, arguments, returns, branches, conditions, indices, sizes and loop bounds of the wrong type; names that are undefined, out of scope, used before they are defined, or defined twice; assignments to immutable variables; wrong members, arities and generic arguments; literals that do not fit; a missing, second or generic main function. The compiler does not crash on it, and does not compile it to something.",
      ["programs"],
      "every valid program, and every place in it where a rule is broken",
      "Tests check a rule on one minimal program each; a hole in the checker for one operator, width or nesting shows only there.",
      ["zokrates_core/src/semantics.rs", "zokrates_ast/src/typed", "zokrates_analysis/src", "zokrates_pest_ast/src/lib.rs"],
      [("type checker", "zokrates_core/src/semantics.rs"), ("checks after inlining", "zokrates_analysis/src/constant_argument_checker.rs, expression_validator.rs, condition_redefiner.rs")],
      ["acceptance", "kind of error"],
      "mutation of generated valid programs by about 80 templates, each of which breaks one rule",
      "A mutant is built from the types in scope at a random place, so that exactly one rule is broken; the program without the mutation must compile. Functions that are not called are included for the rules that the checker enforces before inlining."),
    P("C15", "No program text crashes the compiler or the interpreter",
      "For any text, however broken, the compiler ends with a program or with an error that is reported as such: it does not panic, overflow its stack or abort. A program that it accepts can be executed on any inputs of the right number, and ends with a witness or with an error; a failing execution names a reason.",
      ["programs", "inputs"],
      "every text",
      "Tests give the compiler valid programs and some programs with one deliberate error; the combinations of features that meet in an unreachable case are the ones nobody wrote down.",
      ["zokrates_parser/src/zokrates.pest", "zokrates_ast/src/untyped/from_ast.rs", "zokrates_core/src", "zokrates_analysis/src", "zokrates_codegen/src/lib.rs", "zokrates_interpreter/src/lib.rs"],
      [("parser and conversion of its tree", "zokrates_parser/src/zokrates.pest, zokrates_ast/src/untyped/from_ast.rs"), ("type checker", "zokrates_core/src/semantics.rs"), ("inlining, propagation, flattening", "zokrates_analysis/src"), ("code generation", "zokrates_codegen/src/lib.rs")],
      ["outcome of compilation", "outcome of execution"],
      "grammar-aware mutation fuzzing of generated programs in a worker process",
      "Tokens, literals, types, operators, statements and definitions of generated programs are mutated, programs are assembled from small pieces, and sequences of tokens are drawn at random; each text is compiled and executed in a subprocess with a limit on its memory, so that an abort is an observation. Compilations that take more than 5 s or 3 GB are counted, and are not violations."),
    P("C16", "A program spread over files means what it means in one file",
      "Splitting a program over files connected by imports - by symbol, by file, renamed, re-exported, with any directory layout and any of the paths that lead to a file - gives the same circuit and ABI as the same program in one file, whether the files are read from disk or from memory. A program with a missing file or symbol, a needed import that is not there, or cyclic imports is rejected with an error.",
      ["programs"],
      "every program and every way of spreading it over files",
      "Tests import one or two files by one path; identity of types across paths, shadowing of imported names and chains of re-exports depend on the whole graph.",
      ["zokrates_core/src/imports.rs", "zokrates_core/src/compile.rs", "zokrates_core/src/semantics.rs", "zokrates_fs_resolver/src/lib.rs", "zokrates_analysis/src/constant_resolver.rs"],
      [("resolution of paths", "zokrates_fs_resolver/src/lib.rs"), ("imports and modules", "zokrates_core/src/imports.rs, compile.rs"), ("symbols of modules", "zokrates_core/src/semantics.rs"), ("constants of modules", "zokrates_analysis/src/constant_resolver.rs")],
      ["compiled program", "ABI", "error"],
      "metamorphic testing: generated programs split at random over files, against the single file",
      "Up to five files in nested directories, with and without extension, names reused for other things; the compiled programs are compared statement by statement. The standard library's own imports are covered by C17."),
    P("C17", "The standard library computes the functions it names",
      "On every input, the functions of the standard library return what their specification says: SHA-256 (padded and raw), SHA-1, Keccak and SHA-3, BLAKE2s, Pedersen, MiMC and Poseidon hashes, Baby Jubjub arithmetic and EdDSA verification, casts, packing and unpacking, and multiplexers. Arguments outside of a function's domain are refused, and where a function is documented to be strict no other result satisfies its constraints.",
      ["inputs", "configurations"],
      "every function, array length and input",
      "Tests use a few published vectors of fixed length; padding, block boundaries, carries and canonical forms depend on the length and the value.",
      ["zokrates_stdlib/stdlib", "zokrates_ast/src/common/embed.rs"],
      [("hashes", "zokrates_stdlib/stdlib/hashes"), ("curve and signatures", "zokrates_stdlib/stdlib/ecc, signatures"), ("casts and packing", "zokrates_stdlib/stdlib/utils")],
      ["return values", "failure", "other solutions of the constraints"],
      "differential testing against independent implementations on random lengths and inputs; search for other solutions of strict conversions",
      "The references are written from the published specifications in Rust (Poseidon and Pedersen constants are read from the library and checked on published vectors). Hash lengths are up to a few blocks; EdDSA on generated keys and altered signatures."),
    P("C18", "What a program logs and which failure it reports are those of the run",
      "A program compiled for debugging prints, for every log statement that is executed, its text with the values its arguments have there, in the notation of the ABI; compiled without, it prints nothing and computes the same. When an execution fails, the report names what failed: the position and message of an assertion that does not hold, or the division, index or comparison, and never an internal check; nothing after a failed assertion is printed.",
      ["programs", "inputs"],
      "every program with logs and assertions and every input",
      "Tests check one log and one message; messages attached to the wrong constraint, or values logged before they are reduced, depend on the optimisations that apply.",
      ["zokrates_codegen/src/lib.rs", "zokrates_interpreter/src/lib.rs", "zokrates_ast/src/common", "zokrates_ast/src/ir", "zokrates_analysis/src"],
      [("log statements", "zokrates_codegen/src/lib.rs, zokrates_interpreter/src/lib.rs"), ("errors of constraints", "zokrates_ast/src/common/error.rs, zokrates_codegen/src/lib.rs")],
      ["log stream", "error message"],
      "differential testing of log output and failure reports against the reference interpreter",
      "Calls whose arguments were seen before are not logged again (inlining shares them), and calls inside of operations that are folded away need not be logged; everything else is required line by line."),
    P("C22", "Exactly the honest proofs verify",
      "For every program: a proof generated from a satisfying witness verifies with the verification key of the same setup and the public inputs and outputs of that witness. It does not verify when any public value is changed, reordered or missing, when a point of the proof or key is replaced, or with the key of another setup. The public values in the proof are the public inputs in declaration order and the outputs, and keys and proofs survive being written and read.",
      ["programs", "inputs", "fault_sequences"],
      "every program, execution and alteration, for every scheme and curve",
      "Tests prove one or two fixed circuits; losing a public input or a constraint in a backend only shows on circuits with particular shapes.",
      ["zokrates_bellman/src", "zokrates_ark/src", "zokrates_proof_systems/src"],
      [("Groth16 over bellman", "zokrates_bellman/src/groth16.rs, lib.rs"), ("GM17 over ark", "zokrates_ark/src/gm17.rs, lib.rs"), ("serialization", "zokrates_proof_systems/src")],
      ["verification result", "inputs in the proof"],
      "property-based testing of setup, proof and verification on random programs, with mutation of proofs and inputs",
      "Groth16 (bellman: bn128, bls12_381) and GM17 (ark: bn128, bls12_377, bw6_761). Marlin, ark Groth16 and the MPC ceremony need dependencies that are not in this sandbox, and are not covered."),
    P("C23", "Nova proves the iteration of the program, and nothing else",
      "The circuit given to Nova enforces exactly the constraints of the program on the state and the private inputs: it accepts the honest assignment, and no assignment that violates a constraint, changes the constant one, or returns another state. The state after n steps is the n-fold application of the program to the initial state; the proof verifies for that initial state and number of steps, and for no other.",
      ["programs", "inputs", "histories"],
      "every program with equal input and output state, every sequence of steps",
      "Tests prove a few fixed programs whose honest proofs verify; an unconstrained wire is invisible to an honest prover.",
      ["zokrates_bellperson/src/nova.rs", "zokrates_bellperson/src/lib.rs"],
      [("step circuit", "zokrates_bellperson/src/nova.rs synthesize"), ("constraints", "zokrates_bellperson/src/lib.rs")],
      ["constraint system", "final state", "verification result"],
      "random programs synthesised into a recording constraint system and compared with the program; recursive proofs of random histories and their alterations",
      "The constraint system is compared with the program for thousands of programs on both curves; a few real proofs per run, as one takes seconds."),
]
