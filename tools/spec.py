"""Single source of properties.jsonl and MANIFEST.json: python3 tools/spec.py"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []      # property records, in order
CHECKS = []
NA = []
SOURCES = "Trusts clang's front end for the parse and types, the checker's own interpreter and term evaluator, and the stated semantics. "


def prop(pid, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    assert len(title) <= 80, (pid, len(title))
    P.append({"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})
    if na:
        NA.append({"property": pid, "reason": na})
    else:
        assert os.path.exists(os.path.join(HERE, "checks", "c_%s.py" % pid.lower())), pid
        CHECKS.append({"property": pid, "quick_cmd": "./check " + pid, "thorough_cmd": "./check " + pid, "technique": technique, "level": "other",
                       "level_note": SOURCES + note})


LEX = "src/compiler/lexer/lexer.c"
OPT = "src/compiler/optimizer/constexpr.c"
ASM = "src/compiler/codegen/asm/asm_codegen.c"

prop("C01", "Compile-time constants equal the operators' run-time meaning",
     "Whenever an array length, an enum member or another required compile-time integer is written with literals, parentheses, constants, sizeof and the "
     "arithmetic, comparison, logical, shift or bitwise operators, the compiler uses exactly the 64-bit value those operators give on the operands in source "
     "order. An expression that has no compile-time value, including a division or remainder by a zero constant, is rejected with an error diagnostic and "
     "never given a silent value.",
     ["programs", "inputs"], "every operator and literal kind in both the signed and the unsigned evaluator, all operand values",
     "The tests compile a handful of constant expressions with fixed operands and never check a value; the rule ranges over every operator and operand.",
     [OPT], [("const_u64 / const_i64", OPT)],
     "abstract interpretation of the evaluators per expression kind, value-numbering terms compared with operator semantics",
     "Every operator kind is interpreted with opaque operand values; the resulting term is compared with the operator at boundary values.")

prop("C04", "Native code: integer operators compute the typed result",
     "In a natively compiled (assembly back end) program every integer operator (+ - * / % & | ^ << >> unary - and ~, == != < <= > >=) on operands of one "
     "integer type, or an alias of it, yields the mathematical result of the operator on the two values in source order, wrapped to the width and sign of that type. "
     "Signed types compare, divide, and shift right as signed values and unsigned types as unsigned; each operand is evaluated exactly once, the left one's "
     "value is not lost to the evaluation of the right one, and the machine stack is balanced.",
     ["programs", "inputs"], "every integer operator x every integer type and alias, all operand values",
     "The tests run a few programs with small positive operands; width, sign and operand order only show at boundary values of every type.",
     [ASM], [("asm_gen_expr", ASM)],
     "abstract interpretation of the generator per operator and type, then of the emitted instructions over value-numbering terms",
     "Covers the operator kinds reached through the expression generator; division by zero and shift counts beyond the width are excluded.")

prop("C05", "Native code: floating point operators follow IEEE 754",
     "In a natively compiled program the operators + - * / unary - and the six comparisons on f32, f64 and f80 operands, or aliases of those types, yield the IEEE 754 result of the "
     "operand type on the operands in source order, including infinities, signed zero and NaN, where only != is true. Each operand is evaluated once, and the machine and "
     "x87 stacks are balanced afterwards.",
     ["programs", "inputs"], "every float operator x f32/f64/f80 and aliases, all operand values including NaN",
     "The tests use no NaN, infinity or signed zero and no f80 arithmetic; operand order shows only for - / < on particular values.",
     [ASM], [("asm_gen_expr", ASM)],
     "abstract interpretation of the generator and of the emitted SSE/x87 instructions over terms, compared at special values",
     "The truth value of a NaN used directly as a condition is excluded.")

prop("C06", "Native code: conversions between scalar types preserve the value",
     "In a natively compiled program a conversion, written as a cast or inserted by the compiler, between any two scalar types (integers of every width, bool, char, enums, "
     "pointers, floats, and aliases of them) yields the source value whenever the target type can represent it. Otherwise integers wrap modulo the target width, and "
     "floats round to nearest or truncate towards zero; conversion to bool yields whether the value is non-zero.",
     ["programs", "inputs"], "every ordered pair of scalar types, all source values",
     "The tests cover a few of the several hundred type pairs, with small values for which a wrong extension is invisible.",
     [ASM], [("asm_cast, asm_gen_cast and the conversion table", ASM)],
     "abstract interpretation of the emitted conversion sequences for every ordered type pair, terms compared at boundary values",
     "Float to integer conversions whose truncated value does not fit are excluded.")

prop("C07", "Native code: reads and writes touch exactly the addressed object",
     "In a natively compiled program, reading a variable, argument, global, struct or union field or pointer target yields exactly the value stored there, extended as its "
     "type demands. Assigning to it changes exactly the bytes of that object, at its own address, to the assigned value and yields that value; no neighbouring byte changes and nothing is left on the machine stack.",
     ["programs", "inputs"], "every scalar and aggregate type x every form of lvalue, all values and offsets",
     "The tests read back what they wrote through the same path, so a consistent mistake or a clobbered neighbour goes unseen.",
     [ASM], [("asm_gen_addr, asm_load, asm_store", ASM)],
     "abstract interpretation of the emitted loads and stores over a byte-precise symbolic memory",
     "Function-pointer fields, runtime-length array fields and the dyn type are excluded.")

prop("C08", "Native code: pointer arithmetic and indexing address the right element",
     "In a natively compiled program, pointer plus or minus an integer moves by that many elements, a difference of pointers of one type counts elements, and indexing a pointer, "
     "C array or array reads and writes the element at base + index * element size, or, for a from-the-back index, at length - index. This holds for every integer "
     "index type including negative values; ++ and -- change the variable by one (one element for pointers) and yield the previous value.",
     ["programs", "inputs"], "every element size, container kind, index type and direction, all index values",
     "The tests index with small non-negative constants of type i32; sign extension, scaling and reverse indexing need other element sizes and values.",
     [ASM], [("asm_gen_addr / asm_gen_inc / ND_ADD, ND_SUB on pointers", ASM)],
     "abstract interpretation of the emitted address computations over linear terms with symbolic base and index",
     "Lvalues with side effects evaluated twice by ++ are outside the statement.")

prop("C09", "Native code: literals and selecting expressions yield the right value",
     "In a natively compiled program a literal evaluates to exactly its value in its type (integer, float, char, bool, nil, string, array, struct), every array or struct literal fills each element at its offset even "
     "when it is assigned over a variable it reads. Conditional, else, &&, ||, !, comma and pipe expressions evaluate exactly the operands their meaning demands, each once and in order, and yield the selected operand's value in "
     "full for every type, with the machine stack and callee-saved registers preserved.",
     ["programs", "inputs"], "every literal kind and boundary value, every selecting expression x every operand type and both outcomes",
     "The tests exercise each construct with one type and one outcome; unevaluated operands, aggregate results and clobbered registers are not observed.",
     [ASM], [("asm_gen_expr, asm_gen_array_lit, asm_gen_struct_lit, asm_gen_string_literals", ASM)],
     "abstract interpretation of the generator and of the emitted code with opaque operands; child evaluation traces and result terms compared",
     "Operands are opaque children that preserve the callee-saved registers.")

prop("C10", "Native code: statements run in the order the control flow demands",
     "In a natively compiled program if, unless, while, do-while, do-unless, loop, for, range for, match, type match, with, defer, block, return, break and continue evaluate exactly the conditions and run exactly the "
     "bodies, in the order and as often as their meaning demands. Nested break and continue bind to the innermost enclosing construct, a match without a matching case runs only its default, deferred statements run once at function "
     "exit in declaration order without altering the return value, and the machine stack depth at every join is the same on every path.",
     ["programs", "inputs", "histories"], "every statement kind, nested two deep with break and continue, over all outcomes of the conditions up to a bounded number of iterations",
     "The tests run each statement once with friendly values; break inside nested constructs, unmatched matches and zero-iteration loops are not checked.",
     [ASM], [("asm_gen_stmt, asm_gen_function", ASM)],
     "abstract interpretation of the statement generator; the emitted code's control-flow graph is traversed under every condition outcome and its evaluation trace compared with a reference",
     "Loops are followed up to seven evaluations; match conditions of floating type are excluded, and the exit function of with is checked for normal completion only.")

VAL = "src/compiler/parser/validator.c"
prop("C11", "Native code: calls follow the System V AMD64 convention on both sides",
     "In a natively compiled program every call, direct or through a function pointer or lambda, passes each argument and receives the result in the registers, stack slots or hidden result buffer the System V AMD64 C "
     "convention assigns to its type (integers, floats, pointers, structs and unions by value, variadic arguments), and every function finds its parameters and returns its result there. Arguments are evaluated once each, the stack "
     "is 16-byte aligned at the call, callee-saved registers survive, and so compiled functions and C functions can call each other with any mix of argument types.",
     ["programs", "inputs"], "every scalar and aggregate shape as argument and result, alone and in mixed long argument lists, fixed and variadic",
     "The tests call functions with few integer arguments; classification of structs, register exhaustion and variadic counts need other signatures, and self-consistent mistakes only show against C.",
     [ASM], [("asm_gen_call, asm_push_args, asm_gen_function_text", ASM)],
     "abstract interpretation of the emitted call sequences and prologues; register and stack contents compared with an independent classification of the convention",
     "Arguments of type f80 on the stack are not required to be 16-byte aligned; dyn (vtable) results are excluded.")

prop("C12", "Native code: locals have disjoint storage and start zeroed",
     "In a natively compiled program all parameters, local variables and compiler temporaries of one function live in disjoint, suitably aligned stack storage inside the function's own frame, so writing one never changes another or the saved registers. "
     "A local variable declared without a value reads as zero, and an array local knows its length, each time its block is entered.",
     ["programs", "histories"], "every list of parameters and locals of every shape, on every entry to the block",
     "The tests have few small locals; overlap and stale contents depend on particular sizes, alignments and on what ran before.",
     [ASM], [("asm_assign_lvar_offsets, asm_gen_function_text, ND_BLOCK", ASM)],
     "abstract interpretation of the offset assignment and of the emitted prologue and block entry; interval disjointness and byte coverage over a symbolic frame",
     "The storage behind runtime-length arrays (alloca) is excluded.")

prop("C15", "Types have the size, alignment and member offsets of the C layout",
     "The size of every type and the offset of every struct or union member, as seen by sizeof, alignof, member access, array indexing and calls of C functions, is the one the C ABI of x86-64 gives: members aligned to their own alignment, structs padded "
     "to their strictest member, union members all at offset 0, array elements adjacent. The result does not depend on aliases, typeof or how often it is asked for, and a type that contains itself by value is rejected.",
     ["programs"], "every scalar, array, struct and union shape, nested and through aliases",
     "The tests print no size and share no struct with C, so a consistently wrong layout goes unnoticed.",
     [VAL], [("get_type_size, get_type_align, get_struct_size", VAL)],
     "abstract interpretation of the size computation on generated type shapes, compared with an independent layout computation",
     "The length of array types is taken as already evaluated.")


prop("C16", "Source text splits into exactly the tokens the language defines",
     "Every source file splits into the longest-match sequence of identifiers, keywords, numbers, strings, characters and operators, skipping white space and comments, with each number's exact value, each string's exact text and each token's line. "
     "Text that is no token is an error diagnostic. The lexer ends on every input, truncated or binary, and never writes outside its buffers.",
     ["inputs"], "every byte sequence, of any length, at every position of the file",
     "The tests lex a few well-formed files; truncated literals, long tokens, odd bytes and extreme numbers never occur in them.",
     [LEX], [("lexer_next and its helpers", LEX)],
     "abstract interpretation of the lexer over symbolic characters (path splitting on character classes), compared with a reference lexer; buffer and progress obligations",
     "Sequences are bounded by the loop widening of the check; the C library's number parsing is trusted.")

PAR = "src/compiler/parser/parser.c"

prop("C17", "Expressions parse to the tree that precedence and associativity give",
     "Every expression, with any mix of prefix, infix, custom infix and postfix operators, ternaries, pipes, casts, calls, lambdas, tuples, literals and type expressions, parses to the one tree that the language's precedence and associativity define, "
     "with literals of the type and value written. A token sequence that is no expression ends in an error diagnostic, and the parser ends on every sequence.",
     ["inputs"], "every sequence of tokens, with any names and values",
     "The tests parse a few expressions and look at no tree; a wrong grouping shows only for particular pairs of operators.",
     [PAR], [("parse_expr", PAR)],
     "abstract interpretation of the parser over token sequences with opaque names, its tree compared with that of an independent reference grammar",
     "Token sequences are all operator and form pairs, and generated ones of bounded depth; identifiers and values are opaque.")

prop("C18", "Statements and definitions parse to what they say; others are errors",
     "Every program of functions, operators, globals, types, namespaces, imports and statements parses to exactly the definitions, statement trees, branches and declared variables that are written, each variable in its own block and each name in its "
     "namespace. A program that is cut off, or lacks or repeats a token, ends in an error diagnostic, without a crash or an endless loop.",
     ["inputs"], "every sequence of tokens of a source file",
     "The tests compile well-formed programs; dangling else, nested blocks and cut-off sources appear only in particular combinations.",
     [PAR], [("parse_stmt, parser_pass", PAR)],
     "abstract interpretation of the parser over token sequences of whole programs, its result compared with that of an independent reference grammar",
     "Programs are all statement and definition forms with every kind of body, generated nestings, truncations and single-token mutations.")

MAIN = "src/compiler/main.c"
ERRC = "src/compiler/error/error.c"
TOOL = "src/compiler/toolchain.c"

prop("C19", "Errors are reported exactly, stop the compilation and fail it",
     "Every diagnostic raised is counted as an error or a warning by its kind and shown with its message, file, line, column and source line. After a counted error, a failing pass, or an assembler, linker or C compiler that "
     "fails or is killed, no later pass runs and cspc exits non-zero; warnings alone never fail it. The child tools get exactly the files, libraries and flags selected. Type and identifier names in messages are the exact ones and never overrun "
     "their buffer, and every message has exactly the arguments its format names.",
     ["programs", "inputs", "histories"], "every kind of diagnostic at every pass, every outcome of every child tool, every type shape named",
     "The tests only compile correct programs with tools that succeed.",
     [ERRC, TOOL, "src/compiler/util.c", "src/compiler/ast/ast.c"], [("default_error_handler, panic handlers", ERRC), ("compile, subprocess, link and assemble steps", TOOL)],
     "abstract interpretation of the error handler, the driver and the tool invocations over every kind of diagnostic and every outcome of each pass and child; format/argument lint over every call site",
     "Children started by the `cc` and `copy` directives are excluded; the kind ERR_OUT_OF_SCOPE is never raised.")

prop("C20", "The command line selects exactly what its documentation says",
     "Each documented action and option of cspc sets exactly the configuration it documents: backend, output file, flags, tools, debug information, optimisation, how far to go, standard library path, program arguments after `--`. Missing or invalid "
     "values and unknown options, actions or files end with a failure and without compiling. `run` and `shell` execute exactly the output, with the arguments given, and only when it was assembled and linked.",
     ["inputs"], "every combination and order of actions, options, values and file names",
     "The tests use one fixed command line.",
     [MAIN], [("main, default_output_file, backend_opt, store_exec_args, run", MAIN)],
     "abstract interpretation of main on generated argument vectors, its configuration and actions compared with a reference reading of the documentation",
     "All options alone, in every ordered pair and in selected triples; the libc number parsing is modelled.")

TYP = "src/compiler/parser/typechecker.c"
QUE = "src/compiler/parser/queue.c"

prop("C21", "Every name means its innermost declaration; others are rejected",
     "Every use of a name - variable, function, type, enum member, namespace, plain or qualified - refers to exactly the declaration that scoping selects: the innermost enclosing block, loop, lambda, function or namespace that declares it, or, qualified, the member of "
     "what the qualifier means. Definitions may be used before they are made. A name that is not declared, declared twice in one scope, or of the wrong kind for its use is an error.",
     ["programs"], "every nesting of scopes, every combination of declarations of a name, every place of use",
     "The tests rarely declare a name twice; a name bound to the wrong declaration shows only when two of one name and type are visible.",
     [VAL, QUE], [("scope_resolve_ident, scope_register_obj, begin_scope", VAL)],
     "abstract interpretation of parser and validator on whole programs, the object every identifier refers to compared with that of an independent scope reference",
     "Programs declare one name at every subset of nested sites and use it at every site; interfaces, impl blocks and private members are excluded.")

prop("C22", "Expressions have the language's types; values are converted to what is expected",
     "Every expression has the type the language gives it. Where a value of another type is expected - operand, argument, result, element, member, initial value - it is converted if the language allows it, exactly once and to exactly that type, and the program is "
     "rejected otherwise; well-typed programs are accepted.",
     ["programs"], "every operator, context and call with every pair of types, nested in any way",
     "The tests compile well-typed programs of few type combinations, and look at no type.",
     [VAL, TYP], [("implicitly_castable, typecheck_*", TYP), ("iter_validate_*", VAL)],
     "abstract interpretation of parser, validator and typechecker on whole programs, the type and conversions of every expression compared with an independent reference typing",
     "Types are 26 representatives; interfaces, dyn, typeof and unpacking are excluded; length and element type of arrays are a known finding.")

prop("C23", "Constants never change, and only variables are assigned to",
     "No accepted program assigns to, increments or decrements a constant: a variable declared `const`, a variable, argument or member of constant type, any part of one, or what a pointer to a constant points to, however it is reached. "
     "Assignments to anything that is no variable are rejected, assignments to variables accepted.",
     ["programs"], "every way of declaring, every type, every path of members, elements and pointers, every assigning operator",
     "The tests assign to variables only; a constant that can be changed compiles and runs.",
     [TYP, VAL], [("is_constant_lvalue, typecheck_assignment, typecheck_inc, typecheck_dec", TYP)],
     "abstract interpretation of parser, validator and typechecker on programs writing through every access path, acceptance compared with an independent constness reference",
     "Increments of what is no variable are left to code generation; casts and pointers to variables may drop constness, as the language allows.")

prop("C24", "A function with a result returns one on every way through it",
     "A function or lambda whose result is not void is accepted only if no way through its body - conditions going either way, loops left by break or never - reaches its end without returning a value; one that always returns is accepted.",
     ["programs"], "every nesting of statements",
     "The tests only contain functions that return; a missing return yields garbage at run time and nothing else.",
     [VAL], [("stmt_returns_value, leaves_loop", VAL)],
     "abstract interpretation of parser and validator on functions with every statement skeleton, acceptance compared with reachability of the body's end in an independent flow analysis",
     "Acceptance is not claimed where it takes dead statements, `using` blocks or `do unless`; calls of functions that never return are excluded.")

prop("C25", "Globals, enum members and array lengths have exactly the value written",
     "A global variable starts with exactly the bytes its initial value means on the target - numbers converted to its type, nested arrays with their length headers, structs with members at their offsets, strings and addresses as references to the right symbol, zero where no value is given; enum members and array lengths get the value of their expression; an expression that is not constant is rejected.",
     ["programs"], "every constant expression and every type of a global",
     "The tests contain a handful of integer globals; a wrong byte in the data section changes the meaning of every use of the variable without any message.",
     ["src/compiler/codegen/asm/relocation.c", OPT, "src/compiler/interpreter/interpreter.c"],
     [("gen_relocation", "src/compiler/codegen/asm/relocation.c"), ("asm_gen_data, asm_gen_relocation", ASM), ("eval_constexpr", OPT), ("interpreter_eval_expr", "src/compiler/interpreter/interpreter.c")],
     "abstract interpretation of lexer to data generation on generated constants; the directives written are assembled symbolically and compared, byte and relocation, with the image an independent evaluator derives",
     "80-bit constants are only claimed to double precision; constants that read members, elements or lengths of other constants may be rejected instead of evaluated.")

prop("C26", "Every symbol is emitted once; dead code removal keeps all that is needed",
     "The generated assembly defines every symbol it refers to - functions, lambdas, globals, vtables, strings, local labels - exactly once, unless the program declares it extern. Removing dead code, which is on by default, takes away only functions and globals that nothing the "
     "program runs or exports refers to, and changes nothing in what remains.",
     ["programs"], "every place a function or global can be referred to, every nesting of statements and expressions",
     "The tests refer to functions in the most common ways; a use the optimizer's walk does not visit removes the function, and the program no longer links.",
     ["src/compiler/optimizer/optimizer.c", ASM], [("remove_dead_code, the reference walk", "src/compiler/optimizer/optimizer.c"), ("asm_gen_text, asm_gen_data, asm_gen_vtables, asm_gen_string_literals", ASM)],
     "abstract interpretation of lexer to code generation on whole programs; the emitted text's symbol table (definitions, references) is checked for closure and compared with that of the run without dead code removal",
     "References from initial values of globals are excluded (the language admits none to functions or globals); extern functions are left to the linker.")

prop("C27", "Programs start with main's arguments and exit with main's result",
     "Running a compiled program calls the functions marked before_main once each, in the order of the source, then main, with the number of arguments and the argument vector it asks for, then the functions marked after_main, with main's result where they take it, and exits with "
     "main's result; the stack is aligned as the calling convention demands at each of these calls. Programs whose main or marked functions have other signatures are rejected.",
     ["programs"], "every form of main with every list of marked functions in any namespace",
     "The tests run programs without arguments and marked functions; a misaligned stack crashes only code that uses aligned vector instructions.",
     [ASM, VAL, "src/compiler/codegen/transpiler/c_codegen.c"], [("asm_gen_entry_point", ASM), ("validate_main_fn, validate_before_main_fn, validate_after_main_fn", VAL), ("c_gen_entry_point", "src/compiler/codegen/transpiler/c_codegen.c")],
     "abstract interpretation of lexer to code generation; the emitted entry code is executed symbolically from the process entry state and its calls, arguments, alignment and exit status compared with the specification",
     "Types of main's parameters are not validated by the language and not claimed.")

prop("C28", "Lists, name tables and arenas hold exactly what was put into them",
     "A list holds the items pushed or inserted, in order, however often it grows, and pops the last; a name table returns for every name the value first put under it, however many names collide or make it grow, reports a second put of a name, and finds nothing for other names; an arena hands out "
     "zeroed memory of the size asked for that overlaps nothing, keeps the contents when it is extended, and releases each block once. None of them touches memory it does not own.",
     ["inputs"], "every order of operations, every pattern of hash collisions",
     "Names only collide in some hash slots and lists only grow for big inputs: programs in the tests are small.",
     ["src/compiler/hashmap.c", "src/compiler/list.c", "src/compiler/memory/allocator.c"],
     [("hashmap_put, hashmap_get, hashmap_find_pair, hashmap_rehash", "src/compiler/hashmap.c"), ("list_push, list_pop, list_insert, list_grow", "src/compiler/list.c"), ("allocator_malloc, allocator_realloc, free_allocator", "src/compiler/memory/allocator.c")],
     "abstract interpretation of the container functions over enumerated operation sequences and collision patterns on a sized, lifetime-tracking memory model, compared with a finite map, a sequence and a set of blocks",
     "Running out of memory is not considered; histories are bounded (26 names, 90 items).")

PP = "src/compiler/preprocessor/preprocessor.c"
prop("C29", "Macros expand to their body with arguments in place; imports come in once",
     "A call of a macro becomes exactly the tokens of the macro's body, with every argument in place of its name (also where the body passes it on to another macro), calls in body and arguments expanded, `@` joining two names into one, `__line__!`, `__file__!` and the other standard macros replaced by what they stand for at the call, "
     "and all other tokens unchanged; using a macro once does not change what it means the next time. Macros are selected by name and number of arguments; a call of an unknown macro, a redefinition, a malformed definition or call and recursion beyond the limit are errors. Each imported file's tokens come in exactly once, before the file that imports it is parsed, from beside the importing file or else the "
     "standard library; a missing file is an error.",
     ["programs", "inputs"], "every nesting of macros and arguments, every shape of body, every import graph",
     "The tests use each standard macro once or twice; how arguments travel through nested macros and how imports meet is combinatorial.",
     [PP, "src/compiler/preprocessor/stdmacros.c"],
     [("parse_macro_def, parse_macro_call, expand_macro_call", PP), ("preprocessor_pass, lex_and_preprocess_tokens", PP), ("std_macros", "src/compiler/preprocessor/stdmacros.c")],
     "abstract interpretation of the preprocessor on enumerated macro and import structures, the token list left behind compared with an independent reference expander",
     "Bodies and call nestings are enumerated to a bound and sampled beyond it; the file system is a model.")

prop("C30", "Both back ends give every program the same behaviour",
     "A program compiled through C behaves as the same program compiled to assembly.",
     ["programs", "inputs"], "all programs", "Tests compile a handful of programs with each back end.",
     ["src/compiler/codegen/transpiler/c_codegen.c"], [("c_gen_expr, c_gen_stmt", "src/compiler/codegen/transpiler/c_codegen.c")],
     na="The output is C source text, so deciding its meaning needs a static semantics of the generated C (sequence points, promotions, implementation-defined behaviour) per construct; and the back end does not implement several constructs at HEAD "
        "(with's exit functions, match type, defer, scaled pointer arithmetic), so the property is false by design in places that are unfinished features and not repairable defects.")

prop("C31", "The standard library written in CSpydr does what its documentation says",
     "Containers, strings, input/output and memory functions of src/std behave as documented for every argument.",
     ["inputs", "histories"], "all arguments and call sequences", "Tests call each function with few values.",
     ["src/std/std.csp"], [("import std", "src/std/std.csp")],
     na="The library is CSpydr source, for which no static analyser exists besides this compiler's own checks; its properties are about heap contents and system calls at run time, which no sound static argument in reach bounds.")

prop("C32", "Compilation takes time and memory in proportion to the program",
     "No program makes the compiler take more than time and memory polynomial in its length.",
     ["inputs"], "all programs", "Tests are small programs.",
     ["src/compiler/main.c"], [("main", "src/compiler/main.c")],
     na="A quantity of the run: recursion over types and expressions and nested macro expansion admit no static bound here. What is decidable, that passes end at all on the enumerated inputs, is part of C16, C17, C18, C26 and C29.")


def main():
    ids = [x["id"] for x in P]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "sh extract/build.sh", "checks": CHECKS, "not_applicable": NA}, f, indent=1)
        f.write("\n")


main()
