P("P01", "Laid-out addresses are emitted addresses",
  "For every program and both targets, each address the compiler fixes before emitting code "
  "(block and function entries, the start of the data section) is exactly where that code or "
  "data ends up in the output image. As a result every taken branch, fall-through, call and "
  "function address in the image leads to the block or function the program's control flow "
  "names, whatever the block order.",
  ["programs", "configurations"], "every program, block order, immediate size, operand "
  "register assignment, target and multiply/divide option",
  "An address that is off by one instruction shows only for the immediate size, register "
  "aliasing or block order that takes the differing path; tests sample a few hundred programs.",
  ["src/arm-codegen.c", "src/riscv-codegen.c", "src/elf.c"],
  [("layout pass", "update_elf_offset/cfg_flatten in src/{arm,riscv}-codegen.c"),
   ("emission", "emit_ph2_ir/code_generate in src/{arm,riscv}-codegen.c")],
  AI + "layout pass vs emitter per path; decoded whole-image control-flow check", "proof",
  "All operations, aliasing patterns and immediates; whole images over skeleton programs with "
  "every block order. Sums over arbitrary programs follow because both passes are per-operation.")

P("P02", "Immediates and displacements of every size are encoded exactly",
  "Loading a constant, addressing or accessing a stack or global slot, referring to data, "
  "jumping, branching, calling and taking a function's address behave the same for every "
  "constant, frame offset and distance. A value the instruction set cannot encode in one "
  "instruction is built by a longer sequence or rejected with a diagnostic, never truncated.",
  ["programs", "inputs"], "every 32-bit constant, every frame or global offset, every code "
  "distance the image can contain, both targets",
  "There are 2^32 values per operation and the encodings have different boundaries "
  "(8-bit rotated, 12-bit, 13-bit, 20-bit, 24-bit); tests hit a handful.",
  ["src/arm.c", "src/riscv.c", "src/arm-codegen.c", "src/riscv-codegen.c"],
  [("instruction encoders", "src/arm.c, src/riscv.c"),
   ("size selection", "emit_ph2_ir in src/{arm,riscv}-codegen.c")],
  AI + "emitted words decoded by an independent decoder", "proof",
  "Whole 32-bit immediate range per operation; image size bounded by the code buffer.")

P("P03", "Each arithmetic or memory operation's code computes that operation only",
  "Whatever registers its operands and result share, the code generated for addition, "
  "subtraction, multiplication, division, remainder, shifts, bitwise and logical operators, "
  "comparisons, copies and 1- or 4-byte memory accesses leaves the 32-bit two's-complement "
  "result in the result register. No other register that may hold a program value and no other "
  "memory is changed, with hardware multiply/divide enabled or not, on both targets.",
  ["programs", "inputs", "configurations"], "every operand value, every register assignment "
  "including all ways operands coincide, both targets, +m on and off (division by zero and "
  "the one overflowing quotient excluded)",
  "Which registers coincide is decided by the allocator; the tests never enumerate aliasing "
  "patterns or operand values for the software multiply/divide loops.",
  ["src/arm-codegen.c", "src/riscv-codegen.c", "src/arm.c", "src/riscv.c"],
  [("operation templates", "emit_ph2_ir in src/{arm,riscv}-codegen.c")],
  AI + "machine semantics of decoded templates; cut-point loop invariants", "proof",
  "Symbolic operands and registers; software multiply/divide by loop invariants.")

P("P04", "Frames balance; start, system-call and exit code honour the ABI",
  "For every frame size a function's prologue reserves its frame and saves the return address, "
  "and its return restores the stack pointer, delivers the value and resumes the caller. "
  "A program starts with its global area reserved and initialised, main receives the kernel's "
  "argument count and vector, a system call passes its number and up to six arguments in "
  "the kernel's registers and yields its result, and main's value becomes the exit status.",
  ["programs", "configurations"], "every frame and global-area size, both targets",
  "Frame sizes cross encoding boundaries the tests do not reach, and the stubs are exercised "
  "only with the values the tests happen to leave in registers.",
  ["src/arm-codegen.c", "src/riscv-codegen.c"],
  [("prologue/epilogue", "OP_define, OP_return in emit_ph2_ir"),
   ("stubs", "code_generate in src/{arm,riscv}-codegen.c")],
  AI + "abstract execution of decoded frames and stubs", "proof",
  "Symbolic frame and global sizes; stubs executed inside whole skeleton images.")

P("P05", "The output file is a loadable ELF image that describes its own contents",
  "For every size of code and data and both targets, the file the compiler writes is a "
  "well-formed 32-bit ELF executable for that machine. Every offset, size, count and name in its "
  "headers agrees with where the code, data, symbol, string and section tables really are in the "
  "file, and loading it maps all code and data at the addresses they were linked at.",
  ["programs", "configurations"], "every code and data size, both targets, named or default "
  "output file",
  "Header arithmetic depends on the code and data sizes and on their alignment; tests run "
  "programs of a few sizes and never read section or symbol headers.",
  ["src/elf.c"],
  [("headers and file layout", "elf_generate_header, elf_generate_sections, elf_align, "
    "elf_generate in src/elf.c")],
  AI + "the written file map parsed as ELF and checked for agreement", "other",
  "Symbolic code and data sizes; each output loop by one abstract iteration. Decides the "
  "headers for all sizes, trusts fputc to write its argument.")

P("P06", "Constants and constant expressions have the value C gives them",
  "A decimal, octal or hexadecimal literal has the value of its digits. An operation the optimiser "
  "folds, a global initialiser, and a #if condition evaluate to exactly the value the same "
  "operators give when executed, with C precedence and associativity, for every operand value; a "
  "fold happens only when the operands are constant, and the compiler itself never traps while "
  "evaluating (division by a zero constant is diagnosed or left to the program).",
  ["programs", "inputs"], "every digit string up to 32-bit length, every pair of operand values, "
  "every expression of up to four operands over all binary operators",
  "Folding is a second implementation of every operator; the tests compare it on a handful of "
  "operand values and hardly mix operators in #if or global initialisers.",
  ["src/parser.c", "src/ssa.c"],
  [("folding", "const_folding in src/ssa.c"), ("global initialisers", "read_global_assignment, "
   "eval_expression_imm in src/parser.c"), ("#if", "read_constant_expr in src/parser.c"),
   ("literals", "read_numeric_constant, read_numeric_param in src/parser.c")],
  AI + "results compared with C operators on unknown operands", "other",
  "Unknown operands, operator tokens and digits; expression length bounded.")

P("P07", "Expressions parse with C precedence and evaluate operands once, in order",
  "For every sequence of binary operators, an expression computes the value the C grammar gives "
  "it (precedence, left associativity, parenthesised operands as units); operands are evaluated "
  "left to right exactly once, except that && and || skip their right operand exactly when C "
  "says so and yield 0 or 1. A conditional expression, wherever it stands, evaluates exactly the "
  "selected operand; compound assignments, increments and decrements of any object read and "
  "write that object as their spelled-out forms do.",
  ["programs", "inputs"], "every expression of up to four operands over all eighteen binary "
  "operators (longer ones over one operator per level), every truth value of each operand; "
  "conditional expressions of depth up to three in forty positions, compound assignments of every "
  "operator over eighteen kinds of objects, for all values of the variables",
  "Operator-precedence parsing depends on combinations of adjacent operators; the tests sample a "
  "few of the thousands of combinations.",
  ["src/parser.c"],
  [("expression parser", "read_expr, read_logical in src/parser.c"),
   ("precedence table", "get_operator_prio in src/parser.c"),
   ("conditional expressions", "read_ternary_operation in src/parser.c"),
   ("compound assignments", "read_body_assignment in src/parser.c")],
  AI + "unknown operator tokens; resulting control-flow graph compared with the C parse", "other",
  "Operand tokens opaque, operators unknown; generated blocks read symbolically.")

P("P08", "Statements transfer control exactly as C prescribes",
  "For if, while, do, for, switch, blocks, declarations, break, continue, return and simple "
  "statements, however nested and however their sub-statements end, the generated control flow "
  "evaluates the same expressions, runs the same statements and returns the same values in the "
  "same order as C: conditions and increments on every iteration, fall-through and default in "
  "switch, break and continue to the innermost construct, postfix side effects completed before "
  "the next statement.",
  ["programs", "inputs"], "every statement form with arbitrary sub-expressions and "
  "sub-statements (each ending in any possible way), arbitrary nesting; switch with up to three "
  "labels; no statements that control cannot reach",
  "The bug space is the combination of construct, optional parts and how each part ends; the "
  "tests use the usual ones only (the check found six defects in the others).",
  ["src/parser.c"],
  [("statement parser", "read_body_statement, read_code_block in src/parser.c"),
   ("postfix side effects", "perform_side_effect, settle_operand in src/parser.c")],
  AI + "block graph compared with the C control flow over all product states", "proof",
  "Opaque expressions and sub-statements with every way of ending; nesting by induction.")

P("P09", "Objects, members, elements and pointers denote the object C says",
  "Reading, assigning, incrementing, compound-assigning, passing, dereferencing, testing or taking "
  "the address of any object reached from a variable by members, elements and arrows accesses "
  "exactly the bytes C prescribes: base plus member offset plus index times element size, with the "
  "width of the designated type, once; integers added to pointers are scaled by the pointee's "
  "size, and nothing else is written.",
  ["programs", "inputs"], "every access path of up to two steps (three in the thorough tier) from "
  "locals, parameters and globals of char, int, structure, pointer and array types over members "
  "of every kind, for every structure layout and every run-time value",
  "The combinations of base kind, member kind, step and use run into thousands, each with its own "
  "choice of size, address or value; the tests use a few dozen (the check found four defects).",
  ["src/parser.c"],
  [("access paths", "read_lvalue, read_expr_operand, read_body_assignment in src/parser.c")],
  AI + "generated intermediate code read over an unknown memory, compared with C's access",
  "other", "Symbolic layouts, memory and operands; path length bounded.")

P("P10", "SSA form and optimisations preserve what a function does",
  "For every function, the code after SSA construction (phi insertion, renaming, phi removal) and "
  "after the optimisations (constant propagation and folding, common subexpressions, dead code, "
  "strength reduction and rewrites) makes the same calls with the same arguments, the same stores "
  "in the same order, leaves the same globals visible at each of them and returns the same value "
  "as the code the parser built, along every path, for all inputs.",
  ["programs", "inputs"], "every function of the analysed families (all pairs of statement kinds, "
  "each statement in and across all constructs, shapes per optimisation), all inputs, paths of up "
  "to six undecided branches",
  "Each pass is right on most shapes; what breaks is a combination of control flow, redefinition, "
  "aliasing and repetition, of which tests hold only a sample.",
  ["src/ssa.c"],
  [("SSA construction", "ssa_build in src/ssa.c"), ("optimisations", "optimize in src/ssa.c")],
  AI + "translation validation of the pass results over symbolic inputs", "other",
  "Program families enumerated; inputs, memory and callees unknown.")

P("P11", "Register allocation and peephole preserve what a function does",
  "After liveness analysis, register allocation and peephole optimisation every function computes "
  "what the optimised code computed: each operand register holds the value it stands for on every "
  "path, values live across calls survive them, spilled values are reloaded from their own slot, "
  "arguments arrive in the argument registers in order, globals are up to date at calls, and "
  "frame objects neither overlap nor leave the frame.",
  ["programs", "inputs"], "every function of the analysed families (5 to 14 simultaneously live "
  "values, up to eight arguments of every kind, all statement pairs and constructs), all inputs, "
  "paths of up to six undecided branches",
  "Allocation bugs need a particular number of live values, block structure and use distance to "
  "show; tests are mostly small functions that never run out of registers.",
  ["src/reg-alloc.c", "src/peephole.c", "src/ssa.c"],
  [("allocation", "reg_alloc, prepare_operand, prepare_dest in src/reg-alloc.c"),
   ("peephole", "peephole, insn_fusion in src/peephole.c"),
   ("liveness", "liveness_analysis in src/ssa.c")],
  AI + "translation validation of allocated code over symbolic inputs", "other",
  "Program families enumerated; inputs, memory and callees unknown.")

P("P12", "Source text is cut into C's tokens",
  "Whatever the characters of the source, the tokenizer takes the longest operator, keyword, "
  "identifier, number, character or string there, with C's escapes, skips white space, comments "
  "and backslash-newlines between tokens and nothing else, leaves the position exactly after "
  "what it took, and reports text that is no token (including an unterminated string or comment) "
  "instead of misreading it. The parser takes a token exactly when it matches what is expected.",
  ["inputs"], "all character sequences: any first character with two (thorough: three) unknown "
  "ones after it, comments, literals and words with up to three unknown characters",
  "A lexer mistake shows only for particular neighbouring characters (a minus before another, a "
  "star before a slash, a backslash before a quote); tests use conventionally spaced code.",
  ["src/lexer.c"],
  [("tokens", "lex_token_internal in src/lexer.c"),
   ("token stream", "lex_accept, lex_peek, lex_expect, lex_ident in src/lexer.c")],
  AI + "tokeniser on unknown characters compared with a C tokeniser path by path", "other",
  "Character windows as stated; longer tokens only by their repeated steps.")

P("P13", "Directives and macros leave the text C's preprocessor leaves",
  "Of conditional directives, however nested, exactly the groups are compiled whose condition is "
  "the first true one (or the #else), #if expressions have C's value, directives in skipped "
  "groups have no effect, names are defined between their #define and #undef, and uses of "
  "object-like and function-like macros mean what the text with the macro's replacement and "
  "arguments in place means, whatever operators and statements surround them.",
  ["inputs", "programs"], "the analysed families: conditionals of every shape with two #elif and "
  "nesting depth two (three at random), at statement and file level; macros of the listed bodies, "
  "arguments and contexts",
  "Nesting, ordering and the surroundings of a use combine freely; tests try a handful of "
  "unnested conditionals and macro calls standing alone.",
  ["src/parser.c", "src/lexer.c", "src/globals.c"],
  [("directives", "read_preproc_directive, cppd_control_flow_skip_lines in src/parser.c"),
   ("#if", "read_constant_infix_expr in src/parser.c"),
   ("macro use", "enter_macro, read_macro_arg in src/parser.c; lex_token_internal")],
  AI + "real lexer and parser on generated texts; meaning compared with an independent "
  "preprocessor's output", "other",
  "Texts enumerated from families; program inputs symbolic.")
P("P14", "Declared names denote the objects, types and values C gives them",
  "Every use of an identifier denotes what the innermost declaration in scope declares (parameter, "
  "local, global, function, enumerator), objects of the same name stay apart, a name's scope ends "
  "with its block; each declarator of a list has its own pointer level, array length and "
  "initial value; a structure has the same members however it is introduced (tag, typedef, alias "
  "of alias, forward), its members lie in order, apart, inside the size its arrays step by; "
  "enumerators count up from the last given value; parameters arrive in order and an object holds "
  "values of its type.",
  ["inputs", "programs"], "the analysed families: random scope trees of depth three, all pairs of "
  "29 declarators, structures of up to nine members of 14 kinds in nine ways of definition, "
  "enumerations, functions of up to eight parameters; program inputs symbolic",
  "Which declarations meet in one scope combine freely; tests seldom declare a name twice or put "
  "members of several sizes in one structure.",
  ["src/parser.c", "src/globals.c"],
  [("scopes", "find_local_var, find_global_var, find_var, find_constant in src/globals.c"),
   ("declarators", "read_inner_var_decl, read_full_var_decl, read_body_statement in src/parser.c"),
   ("types", "read_struct / typedef handling in read_global_statement; find_type")],
  AI + "real lexer and parser on generated declarations; meaning compared with the renamed or "
  "plainly declared program, offsets and sizes read off the computed addresses", "other",
  "Programs enumerated from families; program inputs symbolic. char/_Bool narrowing is a known "
  "finding.")
