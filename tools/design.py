# per property: what is generated, the oracle, bounds and cost, and what tests cannot reach
D = {
"C01": ("Parts `general` (mixed programs), `total` (programs that cannot fail), `wide` (equality of long arrays, compared in packed form), `chains` (integer products and sums whose unreduced values grow to 250-254 bits before they are subtracted, compared, shifted or divided, to stress the bit-width optimizer), `deep` (nested calls, loops and composites), `constants` (expressions over inputs and the literals which simplification rules look for: 0, 1, masks, largest values, p-1), `assembly` (values computed in assembly blocks, where field elements have bitwise operators and shifts, and amounts and exponents may be inputs). Programs are typed, so nearly all are accepted; inputs are biased to boundaries (0, 1, p-1, 2^n-1, powers of two, values appearing in the program).",
        "Reference interpreter: outputs compared value by value; a panic, a refusal of a program that has a succeeding input, or an execution error without a reference failure is a violation.",
        "Programs up to ~40 statements, 4 functions, arrays up to 5 elements, loops up to 4 iterations; BN128; ~25 s quick."),
"C02": ("Programs with assertions made true or false for the chosen inputs (the generator evaluates the program to know the value to assert), divisions, dynamic indices, field comparisons; part `comparison`: two field elements around 2^252, 2^253, p/2 and p; part `constraint`: equations of assembly blocks, as products of linear combinations, sums of products with a common factor, or any polynomial, with their terms on either side, on values which satisfy them and values which do not; part `dropped`: templates in which folding removes an operand whose callee asserts.",
        "Reference interpreter with must/may failures; for `comparison` and `constraint` direct evaluation: an accepted constraint holds exactly when its sides are equal, and a quadratic one must be accepted.",
        "As C01. Implicit failures in unused operands are not decided."),
"C03": ("Part `general`: generated programs; part `arithmetic`: short programs over each operator and width; part `chains`: integers grown to the size of the field, as in C01. The adversary takes the honest assignment, overwrites solver outputs (x+p aliases of decompositions, carried bits, neighbouring quotients and remainders, flipped booleans, random values) and repairs violated constraints by solving for other free variables, up to a budget.",
        "Any satisfying assignment must return the reference's outputs; must-fail inputs and out-of-type inputs must have none. Repairing reaches chains of up to a few dozen variables.",
        "An incomplete search: a missing constraint that needs many coordinated changes can escape. ~13 s."),
"C04": ("Part `ir`: random intermediate programs (definitions, constraints, directives with constant, repeated and dependent inputs, the same inputs given to other solvers, blocks, unused variables, chains of values chosen first and tied to each other afterwards); part `programs`: compiled generated programs, assembly blocks included, before and after `optimize` (hook).",
        "Honest runs agree; every witness satisfies every constraint and carries the inputs as given; assignments accepted by one system are extended to the other by propagation and search.",
        "IR up to ~12 statements; 20000 + 4000 cases; ~8 s."),
"C06": ("Generated programs whose inputs are replaced by constants, as local definitions or as a call of the former `main` with literals; part `operators`: one operator on two literals in a constant, an array size, a loop bound or an expression.",
        "Reference interpreter on the baked inputs.",
        "~16 s."),
"C07": ("Part `random`: random intermediate programs over all six curves, every solver, extreme coefficients and variable numbers, logs; part `damaged`: files with one byte changed, truncated or spliced; part `programs`: compiled programs.",
        "Equality of every component after reading, equal executions; an independent computation of the unconstrained variables; a reader of a damaged file may return an error or a program with as many constraints as the header says.",
        "There is no checksum: a damage that gives another complete program cannot be noticed and is accepted. ~5 s."),
"C08": ("Random assignments (negative, zero and large variable numbers, extreme values) over six curves; executions of generated programs.",
        "Equality after reading; outputs and public inputs computed from the program's signature by the check.",
        "~3 s."),
"C09": ("Random ABI types (nested arrays, tuples, structs, zero sizes) with values and their JSON; mutations of the JSON that make it ill-typed; numbers as decimal and hexadecimal text around every bound; programs with random signatures.",
        "A model of the encoding written from the documentation.",
        "~3 s."),
"C10": ("Random intermediate programs over the curves, compiled programs.",
        "An independent reader of the r1cs and wtns formats; the constraints are mapped back through the wires.",
        "~6 s."),
"C11": ("Random intermediate programs, compiled programs; witness and perturbed assignments.",
        "A parser and evaluator of the generated formula.",
        "~5 s."),
"C12": ("Two operands, an exponent and text, boundary biased, over six fields.",
        "num-bigint with the published primes.",
        "~3 s; the extension-field code of the proving libraries themselves is not part of the repository."),
"C13": ("Random programs (with and without logs and assembly blocks); random white space and comments between tokens; injective renamings of every user name, from a pool of prefixes and suffixes of reserved words.",
        "Equality: of the bytes and the ABI (repetition, another thread, after another compilation: hash maps get other seeds), of the IR without positions (layout), of the IR and the renamed ABI (names).",
        "~12500 programs, ~28 s. The order of definitions is not permuted (functions must be defined before use)."),
"C14": ("A valid program, a place in it (a statement of any function, nested in loops, or the top level), and one of ~80 templates that break one rule there with expressions of the types in scope.",
        "The valid program compiles, the broken one must be rejected: not accepted, no panic.",
        "25000 mutants and 4000 programs in which a size known only after inlining (a constant, a generic parameter given or inferred) does not fit one of 18 contexts, 3000 in which something that must be known at compile time depends on an input (each with a control in which it does not), and 2000 constraints of degree 3 to 5, ~28 s. The other rules which are checked after inlining (constant indices) only in main, outside of loops that may run zero times."),
"C15": ("Valid programs with 1-4 mutations of their tokens (literals to edge values, types, operators, names, brackets, statements and definitions inserted, pieces moved, removed or duplicated); small programs put together from well-formed pieces; random token sequences.",
        "The worker process answers: an error of the compiler, or a program whose executions on 0, 1 and alternating inputs end in a witness or in an error. A panic, a signal or a stack overflow is a violation.",
        "~115000 texts, ~15 s; about two thirds of the mutants do not parse. Compilations longer than 5 s or larger than 3 GB are counted as such and are not judged: sizes and bounds written in a program may ask for them."),
"C16": ("A program is cut into its items; items go to up to 5 files, each with its own names for what it imports; imports by symbol, whole file or re-export, paths with and without extension, relative over directories. And one mistake: missing file or symbol, import removed, cycle, wrong path.",
        "Equality of the IR without positions and of the ABI with the single file, in memory and on disk; mistakes must be rejected.",
        "~4000 splits and ~5000 mistakes, ~12 s; the files live in a temporary directory that is removed."),
"C17": ("A function of the library, an array length, and inputs biased to boundaries (block boundaries, all ones, p-1, points of small order, altered signatures); part `cast arithmetic`: casts of values which arithmetic left unreduced, and arithmetic on what casts return.",
        "Independent implementations in Rust (h/lib/src/refs.rs), checked on published vectors; for strict conversions the adversarial prover searches another satisfying assignment.",
        "~5000 calls, ~30 s (hash circuits dominate)."),
"C18": ("Programs with many logs and assertions, the latter with unique messages, over inputs that fail and inputs that do not.",
        "The reference interpreter records logs and failures: printed lines, and the reported failure (the text at the reported position must be that assertion).",
        "16000 programs with 3 inputs, ~18 s."),
"C22": ("Random intermediate programs and compiled programs; a setup, a witness, a proof, a verification, then alterations: changed, swapped, dropped inputs, swapped or negated points, another program's key.",
        "The honest proof must verify, every alteration must not (with overwhelming probability); the inputs in the proof are computed from the signature.",
        "1500 + 500 cases, ~25 s. The sandbox lacks phase2 and marlin: a stub for phase2 lets zokrates_bellman build, zokrates_ark is built without marlin and ark-groth16. Zero knowledge is not tested."),
"C23": ("Programs with a state of 1 to 3 elements and private inputs, random initial states and steps.",
        "A recording ConstraintSystem: the circuit's constraints are compared with the program's, and perturbed assignments with its acceptance; proofs: the iterated reference execution, altered initial states and step counts.",
        "4000 circuits and 4 proof histories per quick run, ~35 s. Programs without public state but with private inputs cannot be set up by Nova (skipped)."),
}
BUGS = {
    "select-max": "C01",
    "cond-max": "C01",
    "write-range": "C02",
    "log-reduce": "C18",
    "const-alias": "C16",
}
