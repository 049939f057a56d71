#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long lines stay reviewable)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=None, obs=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = obs or ["C API (include/tiro)"]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


p("C01", "Garbage collection is invisible to programs and hosts",
  "The observable behaviour of a program (its result, its calls into the host, its printed output, its panics) and every value the host still holds are the same no matter at which allocations garbage collections happen. No object that a running or waiting coroutine, a module, a closure, a container, a host handle or a native function's frame can still reach is ever reclaimed, moved or altered by a collection.",
  ["schedules", "programs"], "for every program and every set of points at which the collector runs",
  "A collection is triggered in practice only after a megabyte of allocation; the tests almost never collect in the middle of an operation, so a missing root in any of the several hundred allocating code paths stays invisible.",
  ["src/vm/heap/collector.cpp", "src/vm/heap/heap.cpp", "src/vm/heap/chunks.cpp", "src/vm/root_set.ipp", "src/vm/handles/scope.hpp", "src/vm/object_support/layout.hpp", "src/vm/interpreter.cpp", "src/vm/objects", "src/api/objects.cpp"],
  [("handle scopes / root set", "src/vm/handles, src/vm/root_set.*"), ("tracing of object layouts and coroutine frames", "src/vm/heap/collector.cpp, src/vm/object_support/layout.hpp, src/vm/objects/coroutine_stack.*"), ("sweep", "src/vm/heap/chunks.cpp")],
  [("mark bitmap / free lists", "which cells are live", "src/vm/heap/chunks.hpp")],
  ["C API results, host call log, printed text"], "collect before a chosen allocation; overwrite freed cells")
p("C02", "Unreachable memory is reclaimed and finalizers run exactly once",
  "After a full collection the memory of everything that is no longer reachable is available again for allocations of any size that fits, so a program whose live data is bounded runs in bounded memory for ever. The finalizer of a native object is called exactly once, with its own data: never while the object is reachable, after it became unreachable and was collected, or at the latest when the virtual machine is freed. Freeing the virtual machine returns all memory it obtained, each block with the size and alignment it was requested with.",
  ["histories", "inputs"], "for every history of allocations of all sizes, drops, collections and teardown",
  "Unit tests allocate a handful of fixed sizes; block splitting and coalescing, large objects and finalizer bookkeeping depend on the exact history of sizes and liveness.",
  ["src/vm/heap/heap.cpp", "src/vm/heap/chunks.cpp", "src/vm/heap/collector.cpp", "src/vm/objects/native.cpp", "src/vm/objects/value.cpp"],
  [("free lists and size classes", "src/vm/heap/heap.cpp"), ("sweep and coalescing, finalizer bitmap", "src/vm/heap/chunks.cpp")],
  [("free lists", "free cells by size class", "src/vm/heap/heap.hpp"), ("block / mark / finalizer bitmaps", "page metadata", "src/vm/heap/chunks.hpp")],
  ["native object finalizers, heap allocator traffic, C API"])
p("C03", "Running out of memory is reported and survivable",
  "Whenever an allocation cannot be satisfied, because the configured heap limit is reached, a request is absurdly large, or the system refuses memory, the operation in progress fails with an allocation error and nothing else: no crash, no corruption, no lost or half-updated container. The virtual machine stays usable: everything that existed before keeps its value, and once memory is available again the same operation succeeds. The heap never exceeds the configured limit.",
  ["fault_sequences", "histories", "inputs"], "for every operation and every position of a failing allocation within it, for every memory limit",
  "Tests never make an allocation fail; each of the allocating code paths has its own failure exits.",
  ["src/vm/heap/heap.cpp", "src/vm/heap/chunks.cpp", "src/vm/objects/hash_table.cpp", "src/vm/objects/array.cpp", "src/vm/context.cpp", "src/api/internal.hpp"],
  [("limit accounting", "Heap::allocate_raw, Heap::free_raw"), ("error translation at the API boundary", "src/api/internal.hpp entry_point")],
  None, ["heap allocator seam, C API errors"])
p("C04", "Maps and sets are exact, insertion-ordered dictionaries",
  "After any sequence of insertions, overwrites, removals, clears and lookups, a map or set contains exactly the entries of a mathematical dictionary subjected to the same sequence, reports its exact size, and enumerates its entries in insertion order with an overwritten key keeping its position. This holds whatever the keys' hash values are and however the table has grown or shrunk. An iteration that is in progress while entries are added or removed yields only entries that are present at that moment, each at most once and in insertion order, and misses none if nothing is removed.",
  ["histories", "inputs"], "for every operation sequence over keys of every kind, including keys that collide in the table",
  "The tests use short sequences of small integer keys; probing, displacement and removal only interact when keys collide and removals interleave with insertions.",
  ["src/vm/objects/hash_table.cpp", "src/vm/objects/hash_table.hpp", "src/vm/objects/set.cpp", "src/vm/interpreter.cpp"],
  [("open addressing with robin hood displacement and backward shift removal", "src/vm/objects/hash_table.cpp"), ("packing of the entry array", "src/vm/objects/hash_table.cpp")],
  [("index array", "bucket to entry mapping", "src/vm/objects/hash_table.hpp"), ("entries array", "insertion ordered entries, removed ones are tombstones", "src/vm/objects/hash_table.hpp")],
  ["map and set operations in programs"])
p("C05", "Equality, hashing and ordering of values are coherent",
  "Equality of values is reflexive (except for not-a-number), symmetric and transitive, `!=` is its negation, and values that are equal are interchangeable as map keys and set members. The ordering operators agree with each other and with exact numeric order: for any two numbers exactly one of less, equal and greater holds, and none of them when an operand is not-a-number.",
  ["inputs"], "for every pair and triple of values of every kind, including boundary integers and floats",
  "Pairs and triples of boundary values across integer and float representations are not sampled by the tests.",
  ["src/vm/objects/value.cpp", "src/vm/math.cpp", "src/compiler/ir_gen/const_eval.cpp"],
  [("equal, hash", "src/vm/objects/value.cpp"), ("compare", "src/vm/math.cpp")], None, ["operators and map lookups in programs"])
p("C06", "Arithmetic is exact or panics, at compile time and at run time",
  "Integer operators and numeric conversions compute exactly the mathematical result in 64 bit two's complement, and a result that cannot be represented, a division by zero or an invalid operand is reported as a panic (or rejected at compile time), never as a wrong number, a crash or an internal error. The remainder is defined whenever the quotient is; a negative power of an integer is truncated to an integer. Float operators follow IEEE 754 double arithmetic. An expression gives the same outcome whether its operands are literals folded by the compiler or are only known at run time.",
  ["inputs", "programs"], "for every operator and every pair of operands, in folded and unfolded form",
  "The interesting operands are the boundaries of the value representations (small integers, 64 bit limits, large floats) in combination; tests use everyday numbers.",
  ["src/vm/math.cpp", "src/compiler/ir_gen/const_eval.cpp", "src/common/safe_int.hpp", "src/vm/objects/primitives.cpp", "src/vm/builtins/std.cpp", "src/compiler/ir_gen/compile_expr.cpp"],
  [("checked integer arithmetic", "src/common/safe_int.hpp, src/vm/math.cpp"), ("constant folding", "src/compiler/ir_gen/const_eval.cpp"), ("small integer packing", "src/vm/objects/primitives.cpp, src/vm/context.cpp")],
  None, ["operators in programs"])
p("C07", "String operations denote exact text",
  "Building, concatenating, interpolating, slicing, comparing, searching, iterating and converting strings gives exactly the bytes the operation denotes, for any content including the empty string and non-ASCII text. Slice bounds outside of the string are clamped or reported as documented and never read outside of the string. Two strings with the same content are equal and interchangeable as keys however they were produced.",
  ["inputs", "histories"], "for every short content, every combination of bounds, and every sequence of builder operations",
  "Boundary positions, empty operands and builder growth interact; tests use one or two strings each.",
  ["src/vm/objects/string.cpp", "src/vm/objects/types.cpp", "src/vm/builtins/std.cpp", "src/compiler/ir_gen/compile_expr.cpp"],
  [("slices and builder", "src/vm/objects/string.cpp"), ("interpolation lowering", "src/compiler/ir_gen")], None, ["string methods in programs, C API strings"])
p("C08", "Arrays, tuples, records and buffers keep exactly what was stored",
  "After any sequence of operations, through programs or the host interface, a sequence or record holds exactly the elements of a model list or record subjected to the same operations, and reports its exact size and keys. Every access with an index outside of the bounds, a missing key or a wrong kind of index is reported as a panic or error and changes nothing, for every 64 bit index.",
  ["histories", "inputs"], "for every operation sequence and every index value",
  "Growth steps, boundary indices and failed operations in the middle of a sequence are not sampled.",
  ["src/vm/objects/array.cpp", "src/vm/objects/tuple.cpp", "src/vm/objects/record.cpp", "src/vm/objects/buffer.cpp", "src/vm/type_system.cpp", "src/api/objects.cpp"],
  [("bounds checks", "src/vm/type_system.cpp, src/api/objects.cpp"), ("array growth", "src/vm/objects/array.cpp")], None, ["programs and C API"])
p("C09", "Expressions are evaluated exactly once, in order, with short-circuiting",
  "Evaluating an expression evaluates each operand exactly once, from left to right, and skips exactly the operands that the short-circuit operators (`&&`, `||`, `??`), the conditional expression and the optional access forms (`?.`, `?[`, `?(`) define to be skipped, including the rest of the access chain. Assignments, compound assignments, multiple assignments and destructuring evaluate their targets and sources in source order and store exactly the assigned values. The value of every expression is that of the language definition, whether or not parts of it are constant, unused or repeated.",
  ["programs"], "for every expression and assignment up to a bounded size over operands with observable side effects",
  "Lowering, constant folding, dead code removal and common value reuse interact in the shape of the expression; tests contain a few dozen fixed shapes.",
  ["src/compiler/ir_gen", "src/compiler/ir_passes", "src/compiler/bytecode_gen", "src/vm/interpreter.cpp"],
  [("IR generation", "src/compiler/ir_gen/compile_expr.cpp, compile_assign.cpp"), ("value numbering", "src/compiler/ir_gen/func.cpp"), ("dead code elimination", "src/compiler/ir_passes/dead_code_elimination.cpp")],
  None, ["host call log and results of compiled programs"])
p("C10", "Control flow and variables follow the source program",
  "Blocks, conditionals, loops, `break`, `continue`, `return` and early exits from nested positions execute exactly the statements the source prescribes, and a variable read always yields the value most recently assigned to it on the path taken, including values exchanged between variables in loops. Optimization and register allocation never change the outcome.",
  ["programs"], "for every program up to a bounded number of statements and variables",
  "The failure modes (phi placement, parallel copies, liveness, register reuse, dead code) depend on the control flow graph's shape in combination with variable lifetimes; tests contain a few dozen graphs.",
  ["src/compiler/ir_gen", "src/compiler/ir_passes", "src/compiler/bytecode_gen/alloc_registers.cpp", "src/compiler/bytecode_gen/parallel_copy.cpp", "src/vm/interpreter.cpp"],
  [("SSA construction", "src/compiler/ir_gen/func.cpp"), ("liveness and register allocation", "src/compiler/ir_passes/liveness.cpp, src/compiler/bytecode_gen/alloc_registers.cpp"), ("parallel copies", "src/compiler/bytecode_gen/parallel_copy.cpp")],
  None, ["host call log and results of compiled programs"])
p("C11", "Deferred statements run exactly once, last first, on every exit",
  "Every deferred expression that was reached runs exactly once when its scope is left, in reverse order, whether the scope ends normally, by `break`, `continue`, `return`, or by a panic raised in it or in anything it calls, and deferred expressions that were not reached do not run. A panic propagates through all callers, running their deferred expressions, until it is caught or ends its coroutine with that panic as its result; a panic raised while another is being handled does not lose the remaining deferred expressions. Catching a panic yields exactly that panic and leaves the catching function able to continue.",
  ["programs"], "for every nesting of scopes, loops, functions, deferred expressions, exits and panics up to a bound",
  "The number of combinations of exits and handlers is large and each is lowered separately; tests contain a few of them.",
  ["src/compiler/ir_gen/compile_stmt.cpp", "src/compiler/ir_gen/func.cpp", "src/compiler/bytecode_gen", "src/vm/interpreter.cpp", "src/vm/objects/exception.cpp"],
  [("handler tables", "src/compiler/bytecode_gen/func.cpp, src/vm/objects/function.cpp"), ("unwinding", "src/vm/interpreter.cpp")], None, ["host call log and results of compiled programs"])
p("C12", "Closures share exactly the variables in scope at their creation",
  "A nested function reads and writes the variables of its enclosing scopes that lexical scoping assigns to each name: changes are visible to all closures over the same variable and to the enclosing function, each loop iteration, block entry and function call creates fresh variables, and a variable lives as long as any closure that uses it.",
  ["programs"], "for every nesting of scopes, loops, captured variables, reads and writes up to a bound",
  "Environment layout and capture resolution depend on which of the nested scopes capture which variables; tests contain a few fixed nestings.",
  ["src/compiler/ir_gen/closures.cpp", "src/compiler/semantics", "src/vm/interpreter.cpp", "src/vm/objects/function.cpp"],
  [("closure environments", "src/compiler/ir_gen/closures.*, src/vm/objects/function.cpp"), ("name resolution", "src/compiler/semantics/symbol_resolution.cpp")], None, ["host call log and results of compiled programs"])
p("C13", "Exactly the well-formed programs are accepted",
  "A syntactically valid program is accepted if and only if it obeys the language's static rules: every name is declared and visible where it is used and declared once per scope, a local variable is assigned on every path to its uses, constants are initialized and never assigned, `break` and `continue` are inside a loop of the same function, assignment targets are assignable, blocks and branches whose value is used produce one, and exports and imports are at file level and unique. A rejected program is reported as bad source with at least one error message and yields no module; an accepted one loads and runs.",
  ["programs"], "for every program up to a bounded size over the statement forms concerned by the rules",
  "Each rule interacts with nesting (functions, loops, blocks, shadowing); tests contain one or two examples per rule.",
  ["src/compiler/semantics", "src/compiler/syntax/grammar", "src/compiler/compiler.cpp"],
  [("structure checks", "src/compiler/semantics/structure_check.cpp"), ("name resolution", "src/compiler/semantics/symbol_resolution.cpp"), ("type check of value use", "src/compiler/semantics/type_check.cpp")],
  None, ["compiler C API"])
p("C14", "Operators bind by the documented precedence and associativity",
  "Any sequence of operands joined by prefix operators, binary operators, assignments, calls, index and member accesses is parsed as the one grouping defined by the operator table (precedence levels, left or right associativity). Adding the parentheses that this grouping implies never changes a program's meaning.",
  ["programs"], "for every operator sequence up to a bounded length",
  "There are several hundred adjacent operator pairs and several thousand triples; tests sample a few.",
  ["src/compiler/syntax/grammar/operators.cpp", "src/compiler/syntax/grammar/expr.cpp", "src/compiler/syntax/build_syntax_tree.cpp", "src/compiler/ast_gen"],
  [("operator precedence parsing", "src/compiler/syntax/grammar/expr.cpp")], None, ["results and AST of compiled programs"])
p("C15", "The compiler accepts any text without failing internally",
  "Compiling any byte sequence terminates and either produces a module without reporting errors, or fails with a bad-source error and at least one error message whose position lies within the source text. It never crashes, reads outside of its input, hangs, or ends in an internal error, and a module it produces can always be loaded.",
  ["inputs"], "for every source text up to a bounded length over the lexical and token alphabets, and every truncation, deletion, duplication and replacement of one token in larger programs",
  "Error recovery makes the reachable parser states a product of token sequences; tests sample a few malformed programs.",
  ["src/compiler/syntax", "src/compiler/ast_gen", "src/compiler/semantics", "src/compiler/compiler.cpp", "src/common/text"],
  [("lexer", "src/compiler/syntax/lexer.cpp"), ("parser with error recovery", "src/compiler/syntax/parser.cpp, src/compiler/syntax/grammar"), ("tolerant AST construction and analysis", "src/compiler/ast_gen, src/compiler/semantics")],
  None, ["compiler C API"])
p("C16", "Literals denote exactly the written value",
  "An integer literal in any base, with or without digit separators, denotes exactly the written integer if it fits in 64 bits and is rejected otherwise; a float literal denotes the nearest double; a string literal denotes exactly its bytes after escape processing and interpolation; malformed literals are rejected with an error. The same holds for symbols, keywords and identifiers.",
  ["inputs"], "for every literal text up to a bounded length over the literal alphabet, and the boundaries of the number range in every base",
  "The set of literal spellings is unbounded and error-prone at the boundaries; tests contain a few dozen.",
  ["src/compiler/syntax/lexer.cpp", "src/compiler/ast_gen/build_ast.cpp", "src/compiler/ast_gen", "src/common/text/unicode.cpp", "src/common/text/code_point_range.hpp"],
  [("lexer", "src/compiler/syntax/lexer.cpp"), ("literal conversion", "src/compiler/ast_gen")], None, ["results of compiled programs"])
p("C17", "Coroutines run in order, resume once and complete exactly once",
  "Ready coroutines run in first-in first-out order until they yield, finish or panic, each yielded coroutine continues only after its token was resumed, with nothing lost, duplicated or run out of turn, for every order in which tokens are resumed. A token resumes its coroutine at most once and is invalid afterwards; the host's completion callback runs exactly once, with the final result, and its cleanup exactly once. A panic in one coroutine never affects another.",
  ["schedules", "programs"], "for every set of small coroutines and every order of launching, yielding and resuming",
  "Tests use one or two coroutines in one fixed order; the interleavings of several coroutines and tokens are not explored.",
  ["src/vm/interpreter.cpp", "src/vm/context.cpp", "src/vm/objects/coroutine.cpp", "src/vm/builtins/std.cpp", "src/api/objects.cpp"],
  [("ready queue", "src/vm/context.cpp, src/vm/interpreter.cpp"), ("coroutine tokens", "src/vm/objects/coroutine.cpp")],
  [("coroutine state", "new, started, running, waiting, ready, done", "src/vm/objects/coroutine.hpp")], ["programs and C API"])
p("C18", "Native functions see their arguments and return exactly once",
  "A native function, whether synchronous, asynchronous or resumable, receives exactly the arguments, closure value and locals that belong to its call, and its caller receives exactly the value or panic the function delivered, whenever and in whatever legal order it delivers it, immediately, after yielding, or from outside. Operations that its protocol does not allow in its current state are refused with an error and change nothing; calls with the wrong number of arguments panic without entering the function.",
  ["histories", "schedules"], "for every sequence of frame operations of each protocol and every completion order of concurrent calls",
  "Tests exercise each frame operation once in its usual place; the protocols are state machines whose illegal and reordered transitions are not covered.",
  ["src/api/functions.cpp", "src/vm/interpreter.cpp", "src/vm/objects/native.cpp", "src/vm/objects/native.cpp", "src/vm/objects/coroutine_stack.cpp"],
  [("frame state machines", "src/vm/interpreter.cpp, src/api/functions.cpp")], None, ["C API"])
p("C19", "Call depth is limited only by the stack bound, without side effects",
  "Calls nest to the stack limit with every frame, local, argument and pending operand keeping its value whenever the stack has to grow, whatever the sizes of the frames and the kind of call in progress. Exceeding the limit ends in an error or panic of that coroutine and leaves the virtual machine usable.",
  ["inputs", "programs"], "for every frame size and call depth up to the stack limit, for each kind of call",
  "Stack growth happens at specific byte offsets relative to the frame in progress; tests only recurse in one shape.",
  ["src/vm/objects/coroutine_stack.cpp", "src/vm/interpreter.cpp"],
  [("stack growth", "src/vm/objects/coroutine_stack.cpp, src/vm/interpreter.cpp")], None, ["results of compiled programs"])
p("C20", "Modules initialize once, in dependency order, or not at all",
  "Loading and using modules in any order runs each module's initializer at most once and always after the initializers of everything it imports; all importers see the same module instance and exactly its exported members. Cyclic imports, missing modules and failing initializers are reported as errors every time they are encountered, a module whose initialization failed never appears usable, and unrelated modules are not affected.",
  ["histories", "configurations"], "for every import graph over a few modules, every load and access order, and every failing initializer",
  "Tests load one or two modules in the working order; the graph shapes and retries after failure are not covered.",
  ["src/vm/modules/registry.cpp", "src/vm/modules/load.cpp", "src/vm/objects/module.cpp", "src/api/vm.cpp"],
  [("module resolution", "src/vm/modules/registry.cpp"), ("bytecode loading", "src/vm/modules/load.cpp")], None, ["C API and host call log"])
p("C21", "Every host API call validates its arguments and reports errors",
  "Every function of the host interface, given null handles, values of any other kind, out-of-range numbers or malformed descriptions, returns the documented error (or the documented neutral value for functions without an error parameter), leaves its outputs and all existing values unchanged, and never crashes. On success it has exactly the documented effect, also when result and argument handles are the same.",
  ["inputs", "configurations"], "for every API function, every combination of handle kinds (including null and aliased handles) and boundary numbers",
  "The combinations of functions and argument kinds are in the thousands; tests cover a few per function.",
  ["src/api", "include/tiro"], [("argument checks", "src/api/*.cpp"), ("exception translation", "src/api/internal.hpp")], None, ["C API"])
p("C22", "Host handles keep values alive and machines stay isolated",
  "A host handle always yields the value last stored through it, until it is freed, for any interleaving of handle creation, assignment, freeing and collection, and freeing one handle never affects another. Virtual machines and compilers in one process do not influence each other: any interleaving of operations on several of them gives each the results it would have alone.",
  ["histories", "schedules"], "for every sequence of handle operations and every interleaving of operations on two machines",
  "Handle slot reuse and shared process state only show in longer interleaved histories.",
  ["src/vm/handles", "src/vm/root_set.*", "src/api/vm.cpp", "src/vm/context.cpp"], [("external handle storage", "src/vm/handles/external.cpp")], None, ["C API"])
p("C23", "Loaded bytecode is verified before it can run",
  "Every module the compiler produces passes verification. A module whose instructions refer to a register, parameter, constant, member, jump target or handler range that does not exist, whose handler ranges overlap or are out of order, or that can run past the end of its code, is refused with an error when it is loaded, and the virtual machine is not affected.",
  ["inputs"], "for every compiled module and every change of a single operand, instruction boundary or table entry",
  "Tests hand-write a few invalid functions; the space of single-field corruptions covers every operand of every instruction.",
  ["src/vm/modules/verify.cpp", "src/vm/modules/load.cpp", "src/bytecode"], [("verifier", "src/vm")], None, ["module loading"])
p("C24", "Compilation is deterministic and context free",
  "Compiling the same source under the same name always produces the same diagnostics and the same module, independent of what was compiled before, of memory addresses and of the process. The module's behaviour does not depend on functions or declarations that it does not use, nor on the order of independent top level functions.",
  ["programs", "configurations"], "for every enumerated program, across processes with different hash seeds and address layouts and after different histories",
  "Tests compile each program once per process; iteration over hashed containers keyed by addresses would go unnoticed.",
  ["src/compiler", "src/bytecode/formatting.cpp"], [("ordered containers and explicit ids", "src/compiler/ir, src/compiler/bytecode_gen")], None, ["bytecode and IR attachments"])
p("C26", "Stack traces name exactly the active calls",
  "When stack traces are enabled, the trace of a panic lists exactly the functions that are active in the panicking coroutine at the moment the panic is raised, each activation once, the innermost first: user functions by their names, native functions that raise or are waiting for a call, and the boundaries of catch_panic. The trace stays with the exception when it is caught and raised again, or when other panics follow during unwinding. When traces are disabled there is none. Apart from that programs behave the same with and without traces.",
  ["programs", "configurations"], "for every chain of calls, every kind of panic and both settings",
  "The tests contain a single recursive function; catch boundaries, native frames, deferred code, closures and launched coroutines in combination are never traced.",
  ["src/vm/objects/exception.cpp", "src/vm/objects/coroutine_stack.cpp", "src/vm/builtins/std.cpp", "src/vm/interpreter.cpp", "src/vm/modules/load.cpp", "src/api/objects.cpp", "src/api/vm.cpp"],
  [("walk over the frames", "CoroutineStack::walk"), ("construction of traces", "Exception::make")],
  None, ["tiro_exception_trace, Exception.trace()"])
p("C25", "Ill-typed operations are clean, catchable panics",
  "Applying any operator, call, member access, index access, iteration, method or standard function to values of any kinds either yields the value the language defines or raises a panic that the program can catch, after which it continues normally. No combination crashes, stops the virtual machine with an internal error, or modifies its operands.",
  ["inputs", "programs"], "for every operation and every combination of kinds of its operands",
  "There are thousands of combinations of operations and operand kinds; tests cover those with a useful meaning.",
  ["src/vm/interpreter.cpp", "src/vm/type_system.cpp", "src/vm/math.cpp", "src/vm/modules", "src/vm/objects"],
  [("dynamic type checks", "src/vm/type_system.cpp, src/vm/interpreter.cpp, src/vm/builtins")], None, ["results of compiled programs"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
