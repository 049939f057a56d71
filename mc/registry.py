"""Which harness decides which property, within which bounds."""
CHECKS = {}
NOT_APPLICABLE = {}


def check(pid, **kw):
    CHECKS[pid] = kw

PROGRAMS_NOTE = ("Every program of the stated grammar up to the stated size is compiled and run on the real "
                 "compiler and VM through the C API and compared with an independent tree walking interpreter "
                 "(result, panic, host call log). Trusts the reference interpreter (mc/common/ref.cpp), the "
                 "enumeration's alphabet and the C++ compiler used for the build.")
check("C09", level="model_checking", technique="bounded-exhaustive enumeration of expression programs against a reference interpreter",
      note=PROGRAMS_NOTE,
      bounds="expression trees up to 3 leaves (logic), 2-3 (strict), all target x source assignments, access chains up to length 3, every exit in every operand position, every discarded binary operation, all effect sequences of length 3",
      bounds_thorough="as quick with trees up to 4 leaves, chains up to length 4, exits in nested operand positions, effect sequences of length 5",
      parts=[dict(src="c09")])

check("C10", level="model_checking", technique="bounded-exhaustive enumeration of control flow programs against a reference interpreter",
      note=PROGRAMS_NOTE,
      bounds="all statement sequences (assignments, exchange, log, break, continue, return, if, if/else, while, for, for-in, block) with up to 4 nodes inside of a loop, up to 6 nodes over a reduced alphabet; all 256 parallel assignments of 4 variables in 4 loop forms; all pairs of 16 conditions under all values; all pairs of 11 loop heads with all pairs of 7 jumps; 18 sizes around encoding limits up to 300",
      bounds_thorough="as quick with 5 nodes (full alphabet), 7 nodes (reduced alphabet), sizes up to 2000",
      parts=[dict(src="c10")])

check("C11", level="model_checking", technique="bounded-exhaustive enumeration of programs with deferred expressions and panics against a reference interpreter",
      note=PROGRAMS_NOTE,
      bounds="all blocks of up to 3 nodes over 10 leaves and 6 nestings (loop, condition, function, catch, nested deferral) in 2 calling contexts, up to 5 nodes over a reduced alphabet; register variables on all paths up to 4 nodes (two-way branches, nested loops); 13 panicking operations in all pairs of 16 operand positions in 3 contexts; all blocks of up to 4 nodes (straight line code: 6) with deferred expressions that fail themselves; call chains up to 5 levels with every panicking, catching and re-panicking level; 7 deferred expressions left through all pairs of 6 nestings by every jump; jumps out of deferred expressions",
      bounds_thorough="as quick with 4 (full) and 6 (reduced) nodes, register variables up to 5 nodes, call chains up to 8 levels",
      parts=[dict(src="c11")])

check("C12", level="model_checking", technique="bounded-exhaustive enumeration of programs with closures against a reference interpreter",
      note=PROGRAMS_NOTE,
      bounds="all blocks of up to 3 nodes over 8 leaves (closures that read, write, create closures; calls of all closures created so far) and 10 nestings that declare, shadow or pass on a variable, in 3 contexts (local, parameter, two activations); up to 5 nodes over a reduced alphabet; all pairs of closures over subsets of three variables declared in all combinations of 4 scopes; module level variables and functions with 9 leaves up to 3 nodes; all nestings of functions up to depth 5 with and without loops and variables at every level",
      bounds_thorough="as quick with 4 (full) and 6 (reduced) nodes, modules up to 4 nodes, depth 7, all mask combinations",
      parts=[dict(src="c12")])

OPS_NOTE = ("Every operation sequence within the stated bounds is executed on the real VM by a driver program loaded through "
            "the C API and its observations are compared with a reference model. Trusts the model, the driver "
            "program and the C++ compiler used for the build.")
check("C04", level="model_checking", technique="bounded-exhaustive enumeration of operation sequences against a reference dictionary",
      note=OPS_NOTE,
      bounds="all patterns of ideal buckets of up to 5 keys in 8 buckets with all ordered pairs of removals and a re-insertion; all sequences up to depth 5-6 of set/remove/clear over 4-5 colliding keys (maps, sets), up to depth 3 over 16 keys of all kinds; all pairs of modifications at every step of an iteration over up to 6 entries; 32 fill sizes up to 385 (and 7 up to 98305) x removal and refill patterns; all literals with 4 keys",
      bounds_thorough="as quick with 6 keys, depth 6-7, mixed depth 4, three modifications, all fill sizes up to 300",
      parts=[dict(src="c04")])

VALUES_NOTE = ("Every operation is applied to every tuple of the stated boundary values on the real compiler and VM and compared with "
               "an exact model (mc/common/numbers.hpp). Trusts the model, the choice of boundary values and the host's libm.")
check("C06", level="model_checking", technique="exhaustive enumeration of operator x boundary operand tuples, folded and unfolded, against an exact model",
      note=VALUES_NOTE,
      bounds="11 binary and 3 unary operators and 6 assignment operators on all pairs of about 145 boundary integers and floats, each in up to 8 combinations of literal and run time operands; all two-operator chains over 9 values; 17 values of other kinds in every operand position; 13 math functions; conversions at the host interface",
      bounds_thorough="as quick with about 400 values and chains over 15 values",
      parts=[dict(src="c06")])

check("C05", level="model_checking", technique="exhaustive enumeration of pairs of values of every kind against an exact model of equality and order",
      note=VALUES_NOTE,
      bounds="all ordered pairs of about 190 values (about 95 boundary numbers, 54 strings of 9 contents produced in 6 ways, symbols, functions, containers, every other kind; equal, identical and merely similar ones): 6 comparison operators folded, partly folded and at run time, membership, lookup, overwrite and removal as map keys, membership in sets, collisions of literal entries",
      bounds_thorough="as quick with about 145 numbers",
      parts=[dict(src="c05")])

check("C13", level="model_checking", technique="bounded-exhaustive enumeration of programs against a declarative model of the static rules",
      note="Every program of the stated grammars is compiled through the C API and its acceptance compared with the verdict of the static rules (written independently on the fragments the programs are made of); accepted modules are loaded. Trusts the rules' formulation in mc/checks/c13.cpp.",
      bounds="all blocks of up to 3 nodes over 11 declarations and uses of two names and 10 nestings, 4 nodes over a reduced alphabet, all pairs with 35 special declarations; every jump in all triples of 23 positions; about 600 (non-)value producing expressions in 35 positions; about 1500 assignment targets with 6 assignment forms; all sequences of up to 3 of 26 file level items and of 2 items over two files; all blocks of up to 3 nodes over 12 assignments, reads and jumps and 7 nestings for definite assignment, 5 nodes over a reduced alphabet",
      bounds_thorough="as quick with one more node, assignment paths of length 3, 4 items (3 over two files)",
      parts=[dict(src="c13")])
check("C14", level="model_checking", technique="bounded-exhaustive enumeration of operator sequences, each compared with its grouping by the operator table",
      note="Every sequence is compiled once as written and once fully parenthesized according to an independent statement of the operator table; both must be accepted with the same code, or, if the code differs, behave alike for 400 argument vectors. Sequences that assign to an operator expression must be rejected.",
      bounds="all sequences of up to 3 of the 27 infix operators, 4 of one operator per level, all pairs with a prefix operator or a different kind of operand at each position, with accesses on each operand; single operands with up to 3 prefix operators and 2 accesses; return and func() = at every position of pairs; 24 syntactic contexts with pairs",
      bounds_thorough="4 of 27 operators, 5 levels, 3 accesses, triples with return and func() =",
      parts=[dict(src="c14")])
check("C15", level="model_checking", technique="bounded-exhaustive enumeration of source texts, with and without address and undefined behaviour sanitizers",
      note="Every text of the stated sets is compiled through the C API, in a regular build (with the default 8 MB stack) and in a build with address and undefined behaviour sanitizers (text in an exactly sized heap block). The outcome must be a module that loads and no reported errors, or a bad-source error with an error message positioned inside of the text. Trusts the sanitizers for reads outside of the input; a text that makes no progress for 60 s counts as a hang.",
      bounds="all byte sequences of length 2, of 47 significant bytes of length 3; all sequences of up to 4 string, number and escape characters inside of literals; every byte in 17 contexts with 7 successors; all sequences of 2 of 105 tokens in 17 contexts and of 3 of 32 tokens; every truncation, deletion, duplication, exchange and replacement (105 tokens, 14 bytes) at every position of two programs covering the grammar and all pairs of close deletions; about 90 shapes nested or repeated up to 10000 times, closed and left open, in 3 contexts; a subset of these with sanitizers",
      bounds_thorough="as quick with 4 significant bytes, 5 literal characters, 3 of 105 and 4 of 32 tokens, all pairs of deletions, 30 sizes up to 200000",
      parts=[dict(src="c15"), dict(src="c15", config="san")])

check("C07", level="model_checking", technique="bounded-exhaustive enumeration of string operations and literals against exact byte strings",
      note=OPS_NOTE,
      bounds="all slices of 10 texts with every offset and size in and around the text and 11 extremes, all pairs of slicing operations of texts up to 5 bytes, triples of texts of 3 bytes, long texts up to 70000 bytes; all sequences of up to 4 of 18 builder operations, all pairs of 22 sizes around the growth boundaries in 4 forms, every byte; all pairs of texts of up to 5 letters over two letters (searching, equality, keys), all pairs of 22 texts in all pairs of 6 representations; all host strings of up to 2 bytes; all sequences of up to 3 of 20 pieces of literals, plain, grouped and interpolated with 27 values in all pairs; 350 numbers; 156 ill-formed calls; a subset with sanitizers",
      bounds_thorough="as quick with texts of 6 bytes, 5 builder operations, 64 sizes, 4 pieces",
      parts=[dict(src="c07"), dict(src="c07", config="san")])

check("C01", level="model_checking", technique="exhaustive enumeration of garbage collection schedules over programs and host scenarios",
      note="A hook in Heap::allocate (TIRO_VERIF) decides before every single allocation whether a collection happens, and reclaimed storage is overwritten with a pattern. Every scenario is executed without collections and under every schedule of the stated set; results, host calls, printed output, panics and the number of allocations must be identical. Trusts the completeness of the scenarios (all kinds of values x all ways to hold them).",
      bounds="35 kinds of values held in 57 ways (registers, pending operands, containers, closures, iterators, waiting coroutines, native frames, host handles, panics in flight ...): a collection before every allocation, before every 2nd and 3rd from every start, before each single allocation (programs up to 250 allocations); 85 built-in operations alone (single collections, pairs for up to 60 allocations) and all pairs of them; all sequences of 2 of 34 host interface operations over three handles in all aliasings and of 3 of 12 operations; creation of the machine and loading of modules with a collection before each single allocation; automatic collections with all 9 page sizes",
      bounds_thorough="as quick with single collections in programs up to 2000 allocations, pairs up to 150 (operations: 500), all periods up to 8 (16), sequences of 3 of all host operations",
      parts=[dict(src="c01")])

check("C03", level="model_checking", technique="exhaustive fault injection: every allocation of every scenario refused",
      note="A hook in Heap::allocate (TIRO_VERIF) refuses any chosen allocation of an object; refused system memory is injected by replacing aligned_alloc. After every failure the same machine must hold all older values, and repeat the operation with the normal result. Trusts the completeness of the scenarios.",
      bounds="35 ways to produce a value x 60 ways to hold it: up to 16 refused allocations each (all allocations for about 90 single operations), once and with all that follow; 14 container modifications x 50 sizes, host functions and module loading with every allocation refused; about 260 sizes around powers of two up to 2^64 in 5 constructors under 2 limits; 6 heap limits and 8 refused system requests per producer",
      bounds_thorough="as quick with every allocation of every scenario, 200 sizes of containers (and 6 up to 98305), 48 limits, every system request",
      parts=[dict(src="c03", chunk=4)])

check("C02", level="model_checking", technique="exhaustive enumeration of allocation scenarios, hole patterns and finalizer histories against a model of reachability",
      note="Collections are forced through a hook in Heap::allocate (TIRO_VERIF); the system's memory is observed and refused by replacing aligned_alloc and free. Trusts the completeness of the scenarios; strings interned by modules and symbols are never reclaimed by design and excluded.",
      bounds="2200 scenarios (35 producers x 60 holders, operations, abandoned and failed coroutines, cycles) executed 12 times with exactly constant memory use; 525 endless programs within a limit derived from 24 repetitions; all sequences of 4 of 8 uses of a heap of 1 MiB; 1424 tuples of 5 neighbouring blocks (sizes around all size classes) x 243 assignments to two rounds of freeing; all sequences of up to 5 of 17 operations on native objects; 25 populations of up to 30000 native objects; 2100 machines freed",
      bounds_thorough="as quick with longer endless programs, 5 uses of 2 MiB, 60000 tuples of blocks, 6 operations",
      parts=[dict(src="c02", chunk=8)])

check("C16", level="model_checking", technique="bounded-exhaustive enumeration of literal texts against exact arithmetic",
      note="Every literal text is compiled and evaluated on the real compiler and VM and compared with an independent model: numbers with exact big integer arithmetic (nearest double, ties to even), string escapes and interpolation byte for byte, identifiers with the Unicode 14 XID tables generated from Python's database (code points assigned later are not judged).",
      bounds="all texts of up to 5 of 11 number characters; all integers next to powers of two and multiples of powers of ten in 4 bases, each with zeros, separators at every position and an invalid digit at every position; 70 doubles with their exact decimal expansions, the points half way to the next double, just above and below, and 14 prefix lengths; 52 to 60 bit mantissas with 16 endings in bases 2, 8, 16; 50000 decimals; all string contents of up to 4 of 14 pieces with both delimiters, all escapes, every code point below 3100h and every 7th above (names: every 9th and all edges of ranges); all names of up to 3 characters, all keyword variations; tuple field numbers; all nestings of up to 4 of 12 blocks, literals and interpolations",
      bounds_thorough="as quick with texts of 6 number characters, 300 doubles, 500000 decimals, one more string piece, every code point",
      parts=[dict(src="c16")])

check("C08", level="model_checking", technique="bounded-exhaustive enumeration of operation sequences against model sequences and records",
      note=OPS_NOTE + " Programs and host interface calls are mixed; after every sequence everything is read back in all ways, including object identities.",
      bounds="all sequences of up to 3 of 58 operations on two arrays, a tuple and a record that are stored in each other; all sequences of 5 of 8 operations on one array; 7 initial capacities x 43 sizes up to 4097 x 6 removals x 5 additions; every size up to 1200 step by step; literals and host constructors of 83 sizes up to 4096 in 5 forms; 770 integers and 22 other values as index of 16 containers in 4 kinds of accesses, 20 byte values; all sequences of 5 modifications during iteration of up to 4 elements; all record schemas of up to 4 of 6 keys; a subset with sanitizers",
      bounds_thorough="as quick with 4 operations (the first three without the second array), 6 operations on one array, sizes up to 65537, 7 modifications, 5 keys",
      parts=[dict(src="c08"), dict(src="c08", config="san")])

check("C25", level="model_checking", technique="exhaustive enumeration of operations x kinds of operands on the real compiler and VM",
      note="Every operation is applied to every combination of 50 operands of all 24 kinds in a fresh function, with the operands hidden from and visible to the optimizer. Whether it yields a value or panics follows a table written from the documentation; the result must arrive at the surrounding catch_panic, the operands' contents are compared before and after, and the machine has to keep working.",
      bounds="20 binary, 4 unary and 15 assignment operators on all operands (pairs); every method name of every type on every kind with up to 3 arguments, bound, unbound through the type, optional; member reads and writes; indexing, stores, compound stores, map and set keys on all pairs; tuple fields, destructuring and iteration; calls with up to 3 arguments; all standard functions with one and two operands; representations of all kinds, nested up to 100000 levels; 9 failing expressions in 24 contexts for all kinds",
      bounds_thorough="as quick, also with address and undefined behaviour sanitizers",
      parts=[dict(src="c25"), dict(src="c25", config="san", only="thorough")])

check("C17", level="model_checking", technique="exhaustive enumeration of coroutine scripts and delivery orders against a model of the scheduler",
      note="Every set of scripts runs on the real virtual machine under every order in which the host delivers results and resumes waiting coroutines; the complete log of events (program steps, token operations and their results, completions) is compared with an explicit model of the ready queue after every step. Host callbacks: every history of host operations on one coroutine, including the destruction of the virtual machine, with counted callbacks and cleanups.",
      bounds="all pairs of scripts of up to 2 of 13 operations (dispatch, yield with and without token, token, asynchronous call, launch, panic, yields inside of catch_panic, native calls, deferred statements and loops, resuming own and other tokens), up to 3 of 5 core operations, all triples of up to 2, 1 and 2 of 6 operations, all delivery orders (at most 400 per set), started together and separately, with collections; all histories of up to 4 of 11 host operations on coroutines that return, panic, wait for a result or never finish",
      bounds_thorough="pairs of 3 and 2 of 13, 4 of 5 core operations, triples of 2, 2 and 2 and of 3, 2 and 3; histories of up to 5 operations",
      parts=[dict(src="c17"), dict(src="c17", config="san", only="thorough")])

check("C18", level="model_checking", technique="exhaustive enumeration of native frame operation sequences and completion orders",
      note="A scripted native function of every protocol executes every sequence of frame operations in every calling context; arguments, closures, locals, states and results of invoked functions are checked inside of the function against the protocol's state machine, the outcome at the caller against the delivered value.",
      bounds="synchronous and asynchronous functions: all sequences of up to 3 of 11 operations (including every refused one) in 9 calling contexts with 0 to 3 arguments, delivery by value, panic and a second token; resumable functions: all pairs (2 operations, 1 operation) of 21, all scripts of 3 activations of 10 core operations; every number of missing arguments; tokens of finished calls used in 6 ways of waiting, all sequences of 4 token operations; all completion orders of 4 concurrent calls with all panic sets, one by one and together; with a collection before every allocation",
      bounds_thorough="4 operations, 3 activations of 2 operations, 5 concurrent calls; also with address and undefined behaviour sanitizers",
      parts=[dict(src="c18"), dict(src="c18", config="san", only="thorough")])

check("C19", level="model_checking", technique="exhaustive enumeration of call chains: kinds of calls x frame sizes x alignments x depths up to the stack limit",
      note="Chains of functions run on the real virtual machine; every frame computes its result from all of its locals, parameters and pending operands after its callee has returned, so that a single lost or changed value changes the number returned by the chain, which is compared with a model. The largest possible depth is searched for every kind of call, everything has to work at this depth and around it.",
      bounds="all pairs of 13 kinds of calls (plain, methods, closures, catch_panic, deferred statements, optional calls, pending operands, bound methods, native frames with 0, 5 and 40 locals) x 3 frame sizes x 73 alignments x 9 things to do at the end (return, panic, wait, collect, calls with up to 30 arguments, containers), one call each with a collection before every allocation; chains of 600 calls of each kind and of all kinds in turn x 3 sizes x 40 alignments; native frames of all sizes up to 530 and around powers of two up to 16384, 15 sizes of user functions up to 2000, 82 numbers of parameters up to 500; all numbers of host arguments up to 1100 and around powers of two up to 4194304; the stack limit (16 MiB) of each kind of call at 5 alignments; 30000 consecutive calls of each kind before the deepest chain; smaller bounds with sanitizers",
      bounds_thorough="201 alignments, chains of 5000 calls, all native frames up to 2100 locals, 40 alignments and 2 sizes at the limit, small frames",
      parts=[dict(src="c19", chunk=1, hang=200), dict(src="c19", config="san", chunk=1)])

check("C20", level="model_checking", technique="exhaustive enumeration of import graphs, failing initializers and histories of loading and accessing modules",
      note="Every history runs on the real virtual machine; a host module records every execution of an initializer and every use of an imported module, and the record is checked against the import graph (order, single execution, failures reported every time, unrelated modules untouched). Which independent module is initialized first, and whether a failed initializer is executed again by the next access, is not judged.",
      bounds="all import graphs (with cycles and self imports) over up to 2 modules x 5 kinds of initializers x all histories of up to 5 (6) loads and accesses; all 64 graphs over 3 modules x one failing, failing once or trivial module x all histories of 5 events, all 512 graphs with self imports; all graphs over 4 modules x all pairs of accesses, acyclic ones with one unusual module; accesses from initializers and functions in 6 graphs; initializers that wait or launch coroutines; all 256 sets of exports; chains, cycles, wide and ladder graphs up to 3000 modules; all pairs of 16 names; all sequences of 4 of 10 ways to load and access modules of the same name",
      bounds_thorough="histories of 7 events over 2 modules, two unusual modules of 3 and 4, sequences of 5",
      parts=[dict(src="c20")])

check("C21", level="model_checking", technique="exhaustive enumeration of API calls over all kinds of handles, aliases and boundary numbers",
      note="Every function of the C API is called with every combination of its arguments. The expected error, return value, result and modification follow from the documentation in the headers; after every call all other values are compared with their state before.",
      bounds="all functions of objects.h, functions.h (within frames of all kinds), vm.h, error.h and compiler.h x 56 values of all kinds and null handles, equal values in one or two handles, results in a handle of their own, in an argument or nowhere, 9 indices and 22 sizes up to 2^64 - 1, valid and invalid strings, without error, with error and with an existing error; all sequences of up to 4 of 20 compiler operations; 66 page sizes x 4 heap limits",
      bounds_thorough="sequences of 5 compiler operations",
      parts=[dict(src="c21", config="rel", chunk=1), dict(src="c21", chunk=1)])

check("C22", level="model_checking", technique="exhaustive enumeration of handle histories and of interleavings of machines and compilers",
      note="Handle histories run on the real machine and are compared with a map of values and identities after every operation. For isolation, every script of operations is executed alone once; in every interleaving with the others everything it observes must be the same. Operations of different machines are interleaved as a whole (the machines share no threads).",
      bounds="all histories of 5 operations of 9 kinds over 3 handles (with 0, 2 or 504 other handles), of 7 operations of 5 kinds, of 5 with a collection before every allocation; 80 numbers of handles around page boundaries x 13 patterns of freeing x 3 refills x 3 rounds; all orders of freeing and reusing up to 6 handles; all 252 interleavings of all pairs of 10 scripts of 5 steps; all scripts split around native functions, print callbacks, compiler messages and finalizers of another machine",
      bounds_thorough="histories of 6, 8 and 6 operations, all 1680 interleavings of all triples of scripts in 3 blocks",
      parts=[dict(src="c22", chunk=4)])

check("C24", level="model_checking", technique="exhaustive enumeration of compositions of declarations, memory layouts, histories and processes",
      note="The same source is compiled on the real compiler under every layout (contents of fresh memory, addresses, earlier allocations) and after every history; diagnostics and all attachments must be the same text. Every item's functions must do the same (results, panics, order of calls, state) alone and in every composition with other items.",
      bounds="45 items (groups of declarations covering all language constructs, with deliberately equal names, strings, keys and constants): all ordered pairs in 6 arrangements in one and two files, all triples of every second item, all orders of independent declarations with another item at every position, everything together in all rotations; all items, all pairs (also with clashing names), every removed, replaced and repeated token, 50 wide programs with up to 150 equal declarations under 2 to 14 layouts; 55 programs first in a process of their own and 730 in 6 processes with fixed and random addresses and in both orders",
      bounds_thorough="all triples of all items, all 14 layouts for pairs and 6 for broken programs, 14 processes",
      parts=[dict(src="c24", chunk=4)])

check("C26", level="model_checking", technique="exhaustive enumeration of call chains x kinds of panics against a model of the active calls",
      note="Every chain of calls is compiled and run with and without stack traces. A model of the calls that are active computes the names a trace has to list; functions without a name and catch_panic only have to occupy a line of their own. Messages, completions and everything else must be the same with traces disabled, where no exception has a trace. Panics the host delivers while no coroutine runs may have no trace (documented).",
      bounds="all chains of up to 4 of 14 kinds of calls (plain, pending operands, record members, closures, named inner functions, constants, catch_panic with rethrow, deferred, deferred while unwinding, native, launched coroutines, recursion, loops) x 37 ways to panic (std.panic, assertions, operators, members, indices, calls, missing arguments, standard methods, native functions of all protocols, after waiting); chains of 60 calls of each kind; short chains with a collection before every allocation; all pairs of 45 groups of declarations behave alike with and without traces",
      bounds_thorough="chains of up to 5 kinds, 300 calls of each kind",
      parts=[dict(src="c26")])

check("C23", level="model_checking", technique="exhaustive enumeration of single changes of compiled modules against a model of valid modules",
      note="Every module is compiled by the real compiler, changed in one place and given to the real loader. An independent decoder with the documented operand kinds of all instructions decides whether the changed module refers to something that does not exist or can run past its end; then it must be refused, and after all refused modules of a case the machine loads and executes the original one as before. Modules the model has no objection to may be accepted or refused, without memory errors (sanitizers, no assertions). Balance of the operand stack is not part of the property.",
      bounds="47 programs with all instructions, all functions: every operand set to all numbers up to its limit and around it, every byte set to every value, every truncation and removal of up to 13 bytes, insertions of up to 9 bytes and of every instruction with 3 kinds of operands at every position, every number of locals and parameters, every field of every handler set to every offset, additional handlers; every member replaced by every kind with every reference, names, schemas, function kinds, initializer, added exports; all pairs of 45 items and 40 wide programs are accepted as compiled",
      bounds_thorough="all insertions, all pairs of added exports",
      parts=[dict(src="c23", config="rel", chunk=1)])
