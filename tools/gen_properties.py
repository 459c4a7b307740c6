#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as source so that the statements are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

K = "koopa/src/"
L = "libkoopa/"

prop("C01", "Dumping a program to Koopa text and parsing it back gives the same program",
 "For every well-formed program, however it was obtained (built through the library interface or parsed), the text the Koopa generator writes is accepted by the front end without errors and parses to the same program: same functions, declarations and globals with the same types, names and initializers, same basic blocks with the same parameters, same instructions, operands, types and order (up to the choice of unnamed temporaries and to the placement order of blocks reachable from the entry). Dumping the re-parsed program and parsing again changes nothing any more: the text is a fixpoint.",
 ["programs"], "all well-formed programs expressible in the text form (blocks reachable from the entry, functions created before they are called, names that are identifiers of the language), over every value kind, type and name form",
 "The back-end tests dump two or three hand-written programs and never parse the result back; a wrong operand, type or name in any one of some twenty value kinds stays invisible.",
 [K+"back/koopa.rs", K+"front/parser.rs", K+"front/builder.rs", K+"front/lexer.rs"],
 [("Koopa text visitor", K+"back/koopa.rs"), ("parser", K+"front/parser.rs"), ("AST to IR builder", K+"front/builder.rs"), ("name manager", K+"back/generator.rs")],
 observe=["text written by the Koopa generator", "program returned by the front end"])

prop("C02", "Accepted Koopa text yields exactly the program it denotes",
 "Every well-formed Koopa IR text is accepted, and the program returned contains exactly the functions, globals, blocks, parameters, instructions, operands, constants, types and names written in the text, in their textual order of definition (blocks in order of discovery from the entry, blocks not reachable from the entry dropped). Choices that carry no meaning (spacing, line breaks, comments, textual order of the non-entry blocks, leading zeros of integers, empty parameter or argument lists of blocks written or left out) never change the result.",
 ["inputs"], "all well-formed texts of the language, in any formatting",
 "Existing tests parse a handful of fixed snippets and mostly check only that no error is raised; they do not compare the resulting IR with what the text says.",
 [K+"front/lexer.rs", K+"front/parser.rs", K+"front/builder.rs", K+"front/ast.rs"],
 [("lexer", K+"front/lexer.rs"), ("parser", K+"front/parser.rs"), ("block ordering, symbol resolution and type checking", K+"front/builder.rs")],
 observe=["program returned by the front end"])

prop("C03", "Ill-formed Koopa text is rejected",
 "A text that breaks one rule of the language that the front end enforces (grammar, undefined symbol, duplicated definition, wrong operand, argument, initializer or return type, wrong number of arguments or block arguments, missing entry or terminator, jump to an unknown block, bad array length and so on) never yields a program: the front end returns an error and counts at least one error. The rest of the text being valid never hides the broken rule.",
 ["inputs"], "all texts obtained by breaking one rule at one place of an otherwise well-formed text",
 "The tests contain a few rejected snippets; each rule can be broken at every instruction kind and operand position, which only generated inputs reach.",
 [K+"front/builder.rs", K+"front/parser.rs", K+"front/lexer.rs"],
 [("type and arity checks", K+"front/builder.rs"), ("grammar checks", K+"front/parser.rs"), ("error counting", K+"front/span.rs")],
 observe=["result of the front end", "error count"])

prop("C04", "The front end always terminates with a result on any bytes",
 "Whatever bytes are given to the front end, from memory or from a file, and however the input is split across reads, it terminates, having read each byte at most once, with either a program or an error; it never panics, aborts, overflows the stack or loops. This includes producing all diagnostics and their source excerpts.",
 ["inputs"], "all byte strings (valid text, near-valid text, binary data, long and repetitive inputs) read from memory or from files",
 "Tests feed only short, nearly valid ASCII strings from memory; crashes need odd bytes, positions at the end of a line, particular error combinations or long inputs.",
 [K+"front/lexer.rs", K+"front/parser.rs", K+"front/builder.rs", K+"front/span.rs", K+"front/driver.rs"],
 [("character reader", K+"front/lexer.rs"), ("error recovery limits", K+"front/driver.rs"), ("diagnostics", K+"front/span.rs")],
 observe=["worker process exit status", "bytes requested from the reader"])

prop("C05", "Every program the front end returns is well-formed",
 "A program returned by the front end satisfies every rule of the IR: operands exist and have the types their instruction demands, results have the right types, calls and jumps pass exactly the declared arguments, every block ends in its only terminator, returns match the function type, each local used inside a function is defined in that function and each value and block is placed exactly once, and every value's and block's user set is exactly the set of instructions that use it. This holds whether or not the input was an intended program.",
 ["inputs"], "all texts the front end accepts, including ones obtained by random mutation of valid texts",
 "Tests only look at whether a snippet is accepted; no test checks the invariants of the returned IR, and an unchecked corner lets ill-typed IR through silently.",
 [K+"front/builder.rs", K+"ir/dfg.rs", K+"ir/layout.rs"],
 [("semantic checks", K+"front/builder.rs"), ("use sets", K+"ir/dfg.rs"), ("layout", K+"ir/layout.rs")],
 state=[("used_by", "users of a value or block", K+"ir/entities.rs")],
 observe=["program returned by the front end"])

prop("C06", "LLVM output is valid and behaves exactly like the Koopa program",
 "For every well-formed program, the LLVM IR text generated is well-formed and consistently typed (every name defined exactly once in its scope, every use resolves, every phi matches the predecessors of its block, every callee and global referenced by the name it is defined with) and is accepted by an LLVM compiler. Executed, it has the same observable behaviour as the Koopa program: the same calls to external functions with the same arguments in the same order, the same final global memory and the same return value.",
 ["programs"], "all well-formed programs without undefined behaviour, including block parameters, aggregates, pointers and names shared between blocks, values and functions",
 "The tests compare one short program with an expected text; wrong pairing of phi operands, initializer layout, operand order or name clashes appear only for particular shapes.",
 [K+"back/llvm.rs", K+"back/generator.rs"],
 [("LLVM visitor", K+"back/llvm.rs"), ("block parameters lowered to phi", K+"back/llvm.rs"), ("name manager", K+"back/generator.rs")],
 observe=["text written by the LLVM generator", "behaviour of that text when executed"])

prop("C07", "Use-def information stays exact under every sequence of edits",
 "After any sequence of successful value and block creations, replacements, updates and removals on a function or on a program's globals, the recorded users of each value and each block are exactly the values that currently refer to it as an operand or jump target, both for local and for global values. A value that nothing uses any more can be removed; removing one that is still used is refused by a panic.",
 ["histories"], "all histories of data-flow edits through the public interface, with shared, repeated and global operands",
 "Unit tests run a few fixed edits; stale or lost user entries need particular orders (same operand twice, a global replaced, an update dropping one of two uses).",
 [K+"ir/dfg.rs", K+"ir/values.rs", K+"ir/mod.rs", K+"ir/entities.rs", K+"ir/builder.rs"],
 [("insertion and replacement of values", K+"ir/dfg.rs"), ("enumeration of operands", K+"ir/values.rs")],
 state=[("used_by", "recorded users of a value or block", K+"ir/entities.rs")],
 observe=["user sets of all values and blocks after each step"])

prop("C08", "Layout follows the edits exactly and always knows each instruction's block",
 "After any sequence of insertions, removals, cursor edits and clears on the blocks and instructions of a function's layout, the sequence of blocks and of the instructions in each is exactly the one those edits describe (checked against a plain list), keys that are already present are refused without effect, and the entry block is the first block. The containing block reported for a value is always the block whose instruction list contains it, and none when it is in no list.",
 ["histories"], "all histories of layout edits, including moving instructions between blocks and removing or clearing blocks",
 "Unit tests cover single edits; stale containing-block records need combinations such as clearing a block, or the whole list, and inserting the instruction elsewhere.",
 [K+"ir/layout.rs"],
 [("block and instruction lists with parent map", K+"ir/layout.rs")],
 state=[("inst_bb", "which block contains an instruction", K+"ir/layout.rs")],
 observe=["lists read through iterators, cursors and lookups", "parent block query"])

prop("C09", "Builders give each value its right type and refuse ill-typed requests cleanly",
 "Every value, block or function constructed through the builder interface has exactly the type the IR rules assign to it and stores exactly the operands that were given, in the given order. A request that breaks a documented rule (on operands, arguments, element lists, types or names) is refused by a panic and leaves no new or changed value, block or user record behind.",
 ["inputs", "histories"], "all builder calls, over all operand types, both well-typed and with exactly one rule broken",
 "Tests build mostly valid values; each rule and each operand type combination is a separate case and partial effects of a refused request are never examined.",
 [K+"ir/builder.rs", K+"ir/values.rs", K+"ir/entities.rs"],
 [("typing rules and assertions of the builders", K+"ir/builder.rs"), ("name validity checks", K+"ir/entities.rs")],
 observe=["kind and type of the created value", "state of the function after a refused request"])

prop("C10", "Types are equal exactly when structurally equal, with right sizes and spelling",
 "On any thread and in any order of construction, two types compare equal (and hash equally) exactly when they have the same structure. A type's size is the sum implied by its structure with the configured pointer size, and its printed form is the type's spelling in the language, which parses back to the same type.",
 ["inputs", "histories"], "all types built from integers, unit, pointers, arrays and functions, in all orders of construction, for each pointer size",
 "Tests compare a few small types; a wrong size or an interning collision shows only for nested shapes, function types or after changing the pointer size.",
 [K+"ir/types.rs"],
 [("thread-local type pool", K+"ir/types.rs"), ("size computation", K+"ir/types.rs"), ("type printing", K+"ir/types.rs")],
 observe=["equality, hash, kind, size and text of types"])

prop("C11", "Names in generated text are unique, resolvable and faithful to the user's names",
 "In both the Koopa and the LLVM output, two different entities of the same scope never get the same name, a name never changes between its definition and its uses, and a name the user gave (an identifier of the language, within the target's length limit) is written unchanged whenever no other entity visible in that scope has it (after the back end's prescribed prefix). Temporary names never collide with user-given names.",
 ["programs", "histories"], "all assignments of names, including repeated names, names that look like generated ones and the same name in different scopes",
 "Tests use programs with few and distinct names; collisions need equal user names, suffix look-alikes or names shared by globals, functions, blocks and locals.",
 [K+"back/generator.rs", K+"back/koopa.rs", K+"back/llvm.rs"],
 [("name manager with global and local scopes", K+"back/generator.rs")],
 state=[("used names", "names already given out in a scope", K+"back/generator.rs")],
 observe=["names in the generated text", "names returned by the name manager"])

prop("C12", "The raw C view mirrors the program exactly, and matches the C header",
 "The raw program built from a program describes exactly the same globals, functions, parameters, blocks, instructions, operands, constants, types and names, in the same order, as a C client (C or C++) reads them through the published header; lists have their stated lengths and item kinds, and each value's and block's user list is exactly its users. All pointers reachable from it are valid and unchanging as long as the builder that made it is alive.",
 ["programs"], "all well-formed programs with every value and type kind",
 "The tests check a single small program from Rust; enumerations and struct layouts shared with C are not tested at all, nor are pointer lifetimes for programs large enough to reallocate storage.",
 [L+"src/raw/builder.rs", L+"src/raw/entities.rs", L+"include/koopa.h"],
 [("raw program builder", L+"src/raw/builder.rs"), ("raw entity layout", L+"src/raw/entities.rs"), ("C header", L+"include/koopa.h")],
 observe=["raw structures as walked by a C client under AddressSanitizer"])

prop("C13", "A raw program converts back to an equal Koopa program, or to an error code",
 "Converting any valid raw program, whether produced by the library or laid out by the client in the published format, into a Koopa program gives a program with the same globals, functions, blocks, instructions, operands, types and names (up to function and block order). An ill-formed raw program of a kind the error codes describe (a list with the wrong item kind, a null pointer where an object or a function name is required, a function whose type is no function type, an allocation whose type is no pointer type, a definition whose parameter list does not fit its type, a name that is not UTF-8) makes the conversion return that error code, produce no program and leave the output pointer alone. Neither the size of a program nor the order of its functions and blocks makes the conversion fail.",
 ["programs", "inputs"], "all raw programs equal to some well-formed program, plus raw programs with one broken field",
 "The tests convert one tiny program; a wrong mapping for one kind, operator or parameter list, or an unnoticed error, needs generated programs.",
 [L+"src/raw/generator.rs", L+"src/raw/ffi.rs", L+"src/errors.rs"],
 [("raw to Koopa generator", L+"src/raw/generator.rs"), ("error codes", L+"src/errors.rs")],
 observe=["program converted from raw form", "error code"])

prop("C14", "The C interface keeps its ownership, buffer and error-code contracts",
 "Through the C interface, every call returns the documented code for its outcome, writes its output pointers only on success, dumps and parses through strings, files and buffers are consistent with each other, a dump to a string without a buffer reports the length of the text (without the terminator), and with a buffer stores the terminated text if it fits with its terminator, reports a too small buffer as such otherwise, and never writes past the stated size. Unreadable, missing or full files, and strings that are not UTF-8, are reported as such. Every object can be deleted exactly once after any sequence of uses without a leak, double free or use after free, and raw data stay valid after the program they came from is deleted.",
 ["histories", "inputs"], "all call sequences of a C client respecting the documented ownership rules, with all buffer sizes",
 "The C interface has no tests; ownership and buffer bounds are visible only under memory instrumentation and at exact sizes.",
 [L+"src/driver.rs", L+"src/back.rs", L+"src/utils.rs", L+"src/errors.rs", L+"src/io.rs", L+"src/raw/ffi.rs", L+"include/koopa.h"],
 [("parsing entry points", L+"src/driver.rs"), ("dump entry points", L+"src/back.rs"), ("raw entry points", L+"src/raw/ffi.rs")],
 observe=["return codes", "guard bytes around buffers", "sanitizer reports"])

prop("C15", "I/O failures are reported and never yield truncated results as success",
 "If the reader given to the front end fails at any point, no program is returned; if it is merely interrupted or returns short reads, the result is the same as for an undisturbed read. If the writer given to a generator fails or stops accepting bytes at any point, the generator returns an error; whenever it returns success the writer has received the complete text, whatever short or interrupted writes occurred, and a later use of the same generator is not affected by an earlier failure.",
 ["fault_sequences"], "all positions and kinds of read and write faults (error, short transfer, interruption, zero-length write) during parsing and dumping",
 "No test injects any I/O fault.",
 [K+"front/lexer.rs", K+"back/koopa.rs", K+"back/llvm.rs", K+"back/generator.rs"],
 [("character reader", K+"front/lexer.rs"), ("generators writing to any writer", K+"back/generator.rs")],
 observe=["bytes received by the writer", "result of each call"])

prop("C16", "Threads, drivers and programs do not interfere",
 "Programs parsed, built, edited, converted and dumped concurrently on different threads, or interleaved on one thread, behave exactly as they do alone: each driver reports only its own errors, each program contains only its own entities, and types and handles never get mixed up. Value, block and function handles are never given out twice in a process' lifetime within one thread of use or across threads.",
 ["schedules", "histories"], "all interleavings of front end, builder and back end work on several threads and of several drivers and programs on one thread",
 "Every test is single-threaded per process state and uses one driver at a time; leaking thread-local or global state needs interleavings.",
 [K+"front/driver.rs", K+"front/span.rs", K+"ir/types.rs", K+"ir/idman.rs"],
 [("thread-local diagnostics state", K+"front/span.rs"), ("handle allocation", K+"ir/idman.rs"), ("thread-local type pool", K+"ir/types.rs")],
 state=[("error count", "diagnostics counted on this thread", K+"front/span.rs"), ("next id", "handle counters", K+"ir/idman.rs")],
 observe=["results of concurrent runs compared with serial runs", "all handles issued"])

prop("C17", "The pass manager runs its passes in order, each exactly once per target",
 "Running a pass manager applies its passes in the order they were registered; a function pass is applied exactly once to every function that exists in the program when it starts (in no particular order), together with its handle, and a module pass exactly once to the program, each seeing all effects of the passes before it. Running it again repeats the same sequence.",
 ["programs", "histories"], "all sequences of registered passes, including passes that add, remove or change functions, and repeated runs",
 "The pass manager has no tests.",
 [K+"opt/passman.rs", K+"opt/pass.rs"],
 [("pass manager", K+"opt/passman.rs")],
 observe=["log of pass applications recorded by instrumented passes"])

prop("C18", "Generated Koopa text is a deterministic function of the program's construction",
 "Dumping the same program any number of times, with a fresh or a reused generator, or performing the same construction or parse again in the same process, on another thread or in another process, always yields byte-identical Koopa text. The order of functions and globals in it is the order of their creation.",
 ["programs", "configurations", "histories"], "all programs, repeated dumps, generator reuse across programs, different threads, processes and hash seeds",
 "Tests dump each program once in one process.",
 [K+"back/koopa.rs", K+"back/generator.rs", K+"ir/mod.rs"],
 [("Koopa text visitor", K+"back/koopa.rs"), ("generator state across runs", K+"back/generator.rs")],
 observe=["bytes of repeated dumps"])

prop("C19", "Diagnostics point at the offending text and their counts are right",
 "For an input with one broken rule at a known place, the first error reported names the input (file path when read from a file), and its line and column are those of the offending token for lexical and grammar errors, and lie within the offending statement or definition for semantic errors; when the input is a readable file the source excerpt shown starts at that line, and every numbered line in it is that line of the file. The error and warning counts after a run are the numbers of error and warning messages issued; a run that gets to the end of its input ends with a summary line stating those numbers whenever one is not zero, and input that is accepted issues no error and exactly one warning, naming and pointing into it, for each basic block left out because it can not be reached. A symbol quoted in a message is one that occurs in the input. Messages sent directly through the logging methods and macros are printed once each, in order, as the kind they are, at the start of their span, with the first and last line of the span shown and both its ends marked when it is in a readable file; the errors returned know whether they are fatal.",
 ["inputs"], "all texts with one broken rule at a known position, in any layout, from memory and from files",
 "Tests check positions for a few lexer tokens only and never look at emitted messages.",
 [K+"front/span.rs", K+"front/driver.rs", K+"front/lexer.rs"],
 [("position tracking", K+"front/lexer.rs"), ("message rendering", K+"front/span.rs"), ("summary", K+"front/driver.rs")],
 observe=["standard error of a front end process", "error and warning counts"])

prop("C20", "Turning off diagnostics output does not change what is accepted or produced",
 "The library configured without printed diagnostics accepts exactly the same inputs and produces exactly the same programs as the default configuration, whether it is given a text, a reader that fails half way, a list of tokens or a list of trees; it prints nothing, counts the same errors and warnings, and reports each rejected input as an error, never a success; the errors it returns for single messages carry the text and place that the default configuration prints.",
 ["configurations", "inputs"], "all inputs, valid and invalid, under both configurations",
 "The tests run under the default configuration only.",
 [K+"front/span.rs", K+"front/driver.rs", K+"front/parser.rs", K+"front/builder.rs"],
 [("error type per configuration", K+"front/span.rs"), ("fatal error handling", K+"front/driver.rs")],
 observe=["verdicts and dumps of two builds of the library", "standard error"])

prop("C21", "Value equality and data equality are structural equivalences",
 "Comparing two values of a function for equality never depends on handles, names or users, only on structure: it is reflexive, symmetric and transitive, two constants are equal exactly when they are of the same kind (integer, zero initializer, undefined, aggregate) and type with equal integer value or pairwise equal elements, and two instructions are equal exactly when they have the same operation and type, pairwise equal operands and the same target blocks and callee, and two parameters of one function, or of one block, are equal exactly when they have the same position. Comparing value data against existing data follows the same rule.",
 ["programs"], "all pairs and triples of values in all programs, with near-equal variants differing in one component",
 "Tests compare a few integers; each kind has its own comparison and a forgotten component shows only on a pair differing in exactly that component.",
 [K+"ir/dfg.rs"],
 [("value comparison", K+"ir/dfg.rs")],
 observe=["results of comparisons"])

prop("C22", "Function and global tables stay consistent under any history",
 "After any sequence of adding and removing functions and global values, a program lists exactly the functions and globals that were added and not removed, in their order of creation, each looked up handle yields its own data and a removed one yields none; names and types are the ones given. Removing an absent function has no effect, and values in removed functions do not keep globals in use.",
 ["histories"], "all histories of additions and removals of functions and globals, interleaved with edits inside functions",
 "Tests add one or two functions and never remove any.",
 [K+"ir/mod.rs", K+"ir/entities.rs"],
 [("function and global tables", K+"ir/mod.rs")],
 state=[("func_layout", "order of functions", K+"ir/mod.rs"), ("inst_layout", "order of globals", K+"ir/mod.rs")],
 observe=["tables and layouts after each step"])

prop("C23", "Using the library is free of undefined behaviour and gives all memory back",
 "For every sequence of valid uses of the Rust and the C interface (building, parsing, editing, writing, raw forms and back, misuse that is answered with an error code or a refusal included), on one or several threads, no access is out of bounds, uninitialised, misaligned, to freed memory, through a pointer that is no longer allowed to be used, or a data race; everything a raw program refers to stays readable and unchanged until its builder is deleted, whatever else is built, converted or deleted meanwhile; and once the programs and builders handed out are deleted, in any order, all memory obtained for them has been given back exactly once.",
 ["histories", "schedules", "inputs"], "all histories of calls of both interfaces that keep to their contract, over programs and texts of every kind, on any number of threads",
 "Tests run natively without instrumentation: reading freed memory or writing through an invalidated pointer usually gives the expected bytes, and nothing notices memory that is never given back.",
 [L+"src/raw/builder.rs", L+"src/raw/generator.rs", L+"src/raw/entities.rs", L+"src/io.rs", L+"src/driver.rs", L+"src/raw/ffi.rs", K+"ir/layout.rs", K+"ir/idman.rs", K+"ir/types.rs", K+"ir/mod.rs"],
 [("raw program builder", L+"src/raw/builder.rs"), ("raw program reader", L+"src/raw/generator.rs"), ("ownership across the C interface", L+"src/driver.rs, "+L+"src/raw/ffi.rs, "+L+"src/utils.rs"), ("unchecked accesses and shared cells", K+"ir/idman.rs, "+K+"ir/types.rs, "+K+"ir/mod.rs")],
 observe=["memory accesses of the real code under Miri and AddressSanitizer", "blocks allocated and not given back"])

prop("C24", "Tokens and syntax trees are what is written, exactly where it is written",
 "For every text of the language in any layout, the lexer yields exactly the tokens written, each with its kind, value and the positions of its first and last character, and from the end of the text on only the end token. The parser turns a well-formed text into one node per item, in order, then the end node for ever; each node holds exactly what is written (names, values, operators, types, operands, arguments, parameters, blocks and statements in their order) and spans from the first character of its first token to the last character of its last one. Two well-formed texts have equal trees exactly when they consist of the same tokens, ignoring layout, comments, and how a number or an empty optional list is spelled.",
 ["inputs"], "all well-formed texts in every layout: line breaks, tabs, comments, carriage returns, spellings of numbers, empty lists",
 "Tests look at the positions of a few tokens and at trees of one-line snippets with all spans left out of the comparison.",
 [K+"front/lexer.rs", K+"front/parser.rs", K+"front/ast.rs", K+"front/span.rs", K+"front/token.rs"],
 [("tokens and positions", K+"front/lexer.rs"), ("trees and spans", K+"front/parser.rs"), ("comparison of trees", K+"front/ast.rs")],
 observe=["tokens with spans", "syntax trees with spans (Debug form of spans)"])

prop("C25", "Visitors are given names that are stable, distinct and kept where possible",
 "During a run of a generator the name manager answers a visitor's requests so that an entity asked for again gets the same name; entities that are visible together (functions and global values, and within the function entered its blocks, parameters, instructions and temporaries) get different names (under the default scheme blocks are only kept apart from blocks); a given name is written as given, or with the prefixes and within the length limit of a custom scheme, unless it is taken (or is a number under the default scheme, or too long under a custom one); unnamed entities get temporary names of the scheme. Leaving a function ends its names; entering twice, leaving twice and naming a constant are refused by a panic. Each run starts afresh, calls the visitor exactly once with the program it was given, and returns its result unchanged, its output being in the writer; a generator made for a path replaces the content of that file.",
 ["programs", "histories", "configurations"], "all programs, orders of requests, sequences of runs, naming schemes set before the first request",
 "Tests only dump programs with the built-in visitors.",
 [K+"back/generator.rs"],
 [("name manager", K+"back/generator.rs"), ("generator and writer", K+"back/generator.rs")],
 state=[("global names, scopes, temporaries", "names in force", K+"back/generator.rs")],
 observe=["answers of the name manager recorded by a visitor", "bytes in the writer or file"])

prop("C26", "The parts of a value are exactly its operands, and each can be changed alone",
 "For every value of every kind, the values and blocks listed as used are exactly its operands and target blocks (each as often as it occurs), the questions whether it is a constant, a global allocation, an instruction of a function or a global value are answered according to its kind and place, and copying its data gives the same kind, components, type and name and no users. Writing one component through its mutable accessor changes that component to what was written and no other.",
 ["programs"], "all values of all kinds with any operands, all components",
 "Tests read a few components and never write one; a use forgotten for one kind or operand shows only in user sets or clean-up of just that kind.",
 [K+"ir/values.rs", K+"ir/entities.rs", K+"ir/idman.rs"],
 [("components", K+"ir/values.rs"), ("uses and classification", K+"ir/entities.rs"), ("global or local handle", K+"ir/idman.rs")],
 observe=["components and listed uses"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
