#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: the overview below, one section per property (from properties.jsonl, mc/registry.py and
the notes below) and the tables of defects and planted bugs."""
import json, os, sys, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "mc"))
import registry

HEAD = """# Bounded-exhaustive model checking of tiro

Every property in `properties.jsonl` is decided by enumerating *all* executions of the real code within stated
bounds (stateless exploration), each compared against a small reference model written for that purpose. No
sampling, no solver. What varies per property is the alphabet that is enumerated:

| family | alphabet | properties |
|---|---|---|
| all programs of a grammar up to a size | statements/expressions with observable effects | C09 C10 C11 C12 C13 C14 C24 |
| all texts / token sequences up to a length | bytes, tokens, single-token edits | C15 C16 |
| all operation sequences up to a depth | container / string / handle / API operations | C04 C07 C08 C18 C21 C22 |
| all value tuples over boundary domains | values of every kind | C05 C06 C25 |
| all schedules | collection points, coroutine resume orders | C01 C17 |
| all fault points | k-th allocation refused, every memory limit | C02 C03 |
| all configurations | import graphs x load orders, call chains x frame sizes x depths, single-field bytecode corruptions | C19 C20 C23 C26 |

## Machinery

* `mc/build.py` compiles `/repo`'s working tree (own flags, own version header, nothing from `_build`), with
  `-DTIRO_VERIF=1`, into /verif/.build (ignored by git; objects are keyed by the contents of all sources and flags). Configurations:
  `fast` (-O1, assertions on), `san` (address and undefined behaviour sanitizers, assertions on), `rel` (sanitizers,
  assertions off: what embedders run; assertions would turn a null dereference into a tidy internal error).
* `mc/common/mc.*` distributes an enumeration over forked workers. Case `i` of a check is a pure function of `i`, so the
  enumeration needs no state; a run that is cut short by its time budget says so in the evidence (`exhaustive: false`,
  `caps`). A crash, a sanitizer report or a hang ends one worker only, is attributed to the
  executing case, and every failing case is executed again alone before it is reported
  (`check.py <id> replay <file>` does the same). If a case fails in a batch but not alone, the batch is the counterexample.
* `mc/common/lang.*` compiles and runs programs through the public C API, with a host module whose functions log every
  call. `mc/common/ref.*` is an independent tree walking interpreter of the language, `mc/common/numbers.hpp` exact
  numeric arithmetic, `mc/common/items.hpp` the declarations used by C24.
* `mc/registry.py` lists the checks with their bounds; `tools/gen_*.py` derive `MANIFEST.json`, `properties.jsonl`
  and this file. Evidence is written by `check.py` from the counters the check itself reports.

Hooks in /repo (`TIRO_VERIF`, commit b7f4528): one callback in `Heap::allocate`, called before every allocation, which
may ask for a collection or refuse the allocation, and overwriting of reclaimed storage. With the define absent the
code is the original code. No other instrumentation exists: everything else is observed at the C API (C23 additionally uses
the in-memory representation of compiled modules, `src/bytecode`, because the C API offers no way to change a module).

The model is the *oracle*, not the thing that is explored: all transitions are taken by the implementation, so there is
no separate conformance step. What binds the models to the code is that every enumerated execution is compared with
them; a wrong model shows up as an alarm on the unchanged tree (those which occurred are listed as "corrected" below).

Why this reaches what the tests cannot: the suite executes a few hundred hand written programs, practically never
collects, never fails an allocation, resumes coroutines in one order, and calls the API with valid arguments. The
enumerations go through all combinations of the small ingredients; 47 genuine defects were found that way (below).
"""

NOTES = {
"C01": ["Scenario = way of holding a value x kind of value; the schedule set contains each single collection point, so a missing root at any single allocation is found in any scenario that reaches it.",
        "Interned strings and symbols are never reclaimed (a documented TODO in the code: weak map); nothing in the property depends on it.",
        "Mutants judged equivalent: those that drop a root which is always reachable through another one."],
"C02": ["That memory is available again is decided exactly: after the drop, pages are filled completely with objects of every size class and the number that fits is compared with the number before.",
        "A collection is forced between the phases of a scenario; \"bounded\" allows one page of slack."],
"C03": ["A coroutine that was aborted by an allocation failure never completes; this is the documented meaning of an allocation error of `run_ready`. Failures of C++ `operator new` in the host's own structures are outside of the property. A builder `append` with several arguments may be partial.",
        "A pathologically small collection threshold is a matter of performance only.",
        "Corrected: the harness freed handles after their machine in one scenario."],
"C04": ["Deliberate weakening: an iteration in progress may skip entries after removals (the entry array is packed); it must never yield absent or repeated entries.",
        "Collisions are forced by choosing keys by the bucket they fall into for every table size that occurs."],
"C05": ["NaN as a map key is left open. Equality of functions, modules, natives is identity."],
"C06": ["`%` is defined if and only if `/` is. Conversions of floats out of range are only judged where the headers say something."],
"C07": ["Clamping of slices and iteration over bytes follow the standard library's documentation. Runs also with sanitizers (slices reference the original's bytes)."],
"C08": ["`pop` of an empty array at the C API may be OK or out of bounds: the documentation contradicts itself. Literals with more than 10000 elements may be refused by the compiler.",
        "Corrected: overflow of the driver's own checksum."],
"C09": ["Evaluation order is observed through the host call log, results through printed values. The reference interpreter covers every expression form of the grammar."],
"C10": ["Loops are bounded by a step budget in the program itself; programs whose reference execution exceeds it are not judged."],
"C11": ["Panics are injected at every point (host functions that panic), including inside deferred expressions; secondary panics follow docs."],
"C12": [],
"C13": ["Empty statements have no meaning in the grammar; assignment to a member of a module is statically accepted (it panics); import names live in the file's scope; definite assignment is judged only for locals that are not captured."],
"C14": ["Code is compared byte for byte; where it differs (constant folding), behaviour for 400 argument vectors is."],
"C15": ["Deliberate limits accepted: nesting of 2000 levels, 4096 copies of nested deferred expressions. The cost of computing line numbers is quadratic for enormous lines; a text without progress for 60 s is a hang.",
        "Corrected: warnings without position report line 0, as documented."],
"C16": ["Identifiers are judged with the tables of Unicode 14 (the version of tiro's own tables); code points assigned later are unspecified.",
        "Corrected: `return .0` is not a literal, format of symbols."],
"C17": ["Schedules are limited to 400 delivery orders per set of scripts. A last-in-first-out order inside of one batch cannot be reached from programs (mutant `lifo` equivalent)."],
"C18": ["The documented `TIRO_RESUMABLE_STATE_CLEANUP` does not exist in the API and is not part of the property. Mutants judged equivalent: memmove, running, argcheck, panicfirst."],
"C19": ["Exceeding the limit is reported as an error of `run_ready` (the coroutine never completes); a panic would be accepted as well. Deep chains use locals that are never executed (\"spare\") to reach large frames quickly. Native frames check outer locals only in limit tests.",
        "Mutants judged equivalent: reservebound, stackput, popmore (over-allocation only)."],
"C20": ["Not judged: the order of modules that do not depend on each other, and whether a failed initializer is executed again. \"At most once\" means to completion. Suspending initializers are refused (checked). Import chains of more than 1000 modules may be refused (limit 2048). Exports must be constants; `export import` is refused although grammar.md allows it.",
        "Corrected: counters of modules without initializer; coroutines launched by initializers. Mutants noremove, nocycle are equivalent."],
"C21": ["Needs `rel`: debug assertions turn null dereferences into internal errors. Accepted with any result: duplicate schema keys, `pop` of an empty array, alignments above the supported one, which of several errors is reported for several invalid arguments, the value of out-of-range float conversions (must not be undefined behaviour).",
        "Corrected: a token used before the native function returned; a resumable re-entered by the harness without a state change; warnings without a line."],
"C22": ["Operations of different machines are interleaved as a whole; tiro has no threads, and no state is shared between machines except what the interleavings would show (statics).",
        "Corrected: printed addresses, handles freed after their machine."],
"C23": ["Deliberately not judged: balance of push and pop (a stack overflow check protects the machine), `Rethrow` outside of handlers, limits of container literals, operands that exist but mean something else. Modules that the model refuses are never executed; neither are changed modules that were accepted."],
"C24": ["Variables of a module must be declared before they are used at module level, so only functions are reordered. Interpolation of containers prints addresses and is excluded. Mutants judged equivalent: hashname, sortptr (the order they affect is not observable)."],
"C26": ["The line that names the coroutine and the exact format are not judged. Panics delivered through async tokens while nothing runs have no trace; the header allows it (\"and one could be retrieved\"), so the check accepts null there. Corrected: an intermediate native function that ignores an API error (harness)."],
"C25": ["`debug_repr` stops at 512 levels (deliberate). Corrected: the ordering of null, dispatching invalidates tokens."],
}

MUTANTS = """## Planted bugs

`seeded/` holds changes that were written from a property's text, with a demonstration that passes on the unchanged tree
and fails with the change, and which pass the 713 stable tests. What catches them (quick tier):

%s
In addition small changes ("mutants", one dropped root, one skipped test, one off-by-one each) were applied one after
another to a scratch copy while the checks were built. Misses were either judged equivalent (no execution can observe
them) or led to an extension of the enumeration:

| check | mutants caught | judged equivalent |
|---|---|---|
| C01 | dropped roots: code frame closure/exception, resumable function, catch frame, hash table keys, registers, ready and lastready queue; lobmark, bitmap, staticslots, scopepages | roots also held by another root |
| C16 | u32max leadzero identcont sparse trymul hexx braces overflow | |
| C17 | lastnotreset notokenreset donetoken resumestate cleanup2 nocleanup keepcb | lifo (not reachable) |
| C18 | popvalues invokearg retnotend nodiscard invokeret localinit endnull missing | memmove running argcheck panicfirst |
| C19 | growused staleframe smallmax allocbytes u16locals initlocals | reservebound stackput popmore (over-allocation only) |
| C20 | norecurse initbefore overwrite running interr depth | noremove nocycle |
| C21 | rskeycheck funckind resultval started argcmax rescount exportset invargs recordsetmissing cleanup | |
| C22 | noclear tracefirst secondpage popold | |
| C23 | %s | |
| C24 | iterorder noclear recequal sharedenv hasvarsfirst staticcount (led to the comparison of each program as the first of its process) | hashname sortptr |
| C26 | tailname skipbuiltin rethrow stopcatch (led to catch_panic with additional arguments) | |
| C25 | schema cmp nullcmp missargs idx | |

Suspected but not observable through any public interface, hence neither findings nor covered: a `Rethrow` marking an
exception as its own secondary, a null check after the dereference in `StoreEnv`, `Interpreter::next_id_` never being
incremented, statistics of the free space and of large objects, the quality of some error messages at unbalanced braces,
a `bad_alloc` in the collector's own trace stack.

## Not applicable

None: every property listed is decided by exhaustive enumeration.
"""
C23M = "localoff paramoff closuretype swap initnormal handlerto lowerbound exporttype rethrowend symname handlerorder (led to the order of handlers becoming part of the model)"

def main():
    props = {}
    for l in open(os.path.join(ROOT, "properties.jsonl")):
        d = json.loads(l); props[d["id"]] = d
    known = [l.rstrip("\n") for l in open(os.path.join(ROOT, "known_findings.txt")) if l.strip()]
    out = [HEAD, "## The properties\n"]
    for pid in sorted(props):
        c = registry.CHECKS[pid]
        out.append("### %s %s\n" % (pid, props[pid]["title"]))
        out.append("*Specified*: %s\n" % props[pid]["statement"])
        out.append("*Decided by*: %s. %s\n" % (c["technique"], c["note"]))
        out.append("*Bounds (quick)*: %s\n" % c["bounds"])
        if c.get("bounds_thorough"):
            out.append("*Bounds (thorough)*: %s\n" % c["bounds_thorough"])
        parts = ", ".join("`mc/checks/%s.cpp` (%s%s)" % (p["src"], p.get("config") or "fast", ", thorough only" if p.get("only") else "") for p in c["parts"])
        out.append("*Machinery*: %s\n" % parts)
        for n in NOTES.get(pid, []):
            out.append("* " + n)
        if NOTES.get(pid):
            out.append("")
        fixed = [l for l in known if ("property=%s " % pid) in l]
        if fixed:
            out.append("*Genuine defects found*: %d, see below.\n" % len(fixed))
    out.append("## Genuine defects found\n\nAll were repaired by `fix:` commits in /repo; no finding is open.\n\n| property | commit | what failed |\n|---|---|---|")
    for l in known:
        _, p, commit, what = l.split(" ", 3)
        out.append("| %s | %s | %s |" % (p.split("=")[1], commit, what.replace("|", "\\|")))
    rows = ["| seed | caught by | needs |", "|---|---|---|"]
    for s in sorted(glob.glob(os.path.join(ROOT, "seeded/*/meta.json"))):
        m = json.load(open(s))
        rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(s)), m["property"], m["needs"]))
    out.append("\n" + MUTANTS % ("\n".join(rows) + "\n", C23M))
    open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))

main()
