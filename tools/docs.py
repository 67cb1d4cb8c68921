#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (PROPS below)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def P(id, title, statement, over, text, why, files, mech, observe=None, state=None, technique="", note="", claimed=True, na=""):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, state=state,
                technique=technique, note=note, claimed=claimed, na=na)


PROPS = [
    P("C01", "Arrays are values: every operation yields exactly the specified elements",
      "After any sequence of operations on arrays (construction, copy, move, push, pop, insert, splice, append, resize, shrink, clear, slice, "
      "concatenation, comparison), each array holds exactly the sequence of elements that the operation denotes on mathematical sequences. "
      "Changing one array never changes another, whether they were copies of each other, share a buffer, or are stored inline. "
      "An operation whose source is (a part of) its own destination behaves as though the source had been copied first.",
      ["inputs", "histories"], "every sequence of array operations over every element kind (small integers, plain structs, move-only and owning elements, nested arrays), every length, every state of sharing and capacity",
      "The tests reach the array type only through a few literal programs; inline/heap, shared/unique, front/back capacity and self-aliasing multiply into far more cases than they sample.",
      ["include/fu/vec.h", "include/fu/view.h", "include/fu/mem/arc.h", "include/fu/vec/concat.h", "include/fu/vec/concat_one.h"],
      [("splice, reserve, copy-on-write and shrink logic", "include/fu/vec.h"), ("concatenation", "include/fu/vec/concat.h")],
      ["the elements and lengths of every array after each operation"],
      technique="TLA+ (TLC): VecRep.tla refines Vec.tla exhaustively; every transition of VecCases.tla replayed into the real arrays; random histories validated by VecTrace.tla",
      note="Exhaustive on the design for small bounds; every specification transition (lengths 0-4 and 15-17, 49 representation pairs) replayed into the real templates for 10 element types under ASan and -O3; random histories validated step by step. Trusts the driver's recording of values."),
    P("C02", "Array storage and elements are owned and released exactly once",
      "Every buffer an array allocates is freed exactly once, when its last owner lets go of it and never earlier, and every element an array constructs is destroyed exactly once. "
      "No operation reads or writes an element that has been destroyed or moved from, or memory outside its buffer. "
      "When all arrays are gone, nothing is left allocated.",
      ["histories", "inputs"], "every history of operations on any number of arrays that share buffers, over every element kind",
      "A leak, double free or early free depends on who shares a buffer at the moment of a mutation; the tests check printed values of single programs and never account for storage.",
      ["include/fu/vec.h", "include/fu/mem/arc.h", "include/fu/mem/arc.cpp", "include/fu/vec_range.h"],
      [("reference counting of buffers", "include/fu/mem/arc.h"), ("element moves and destruction in splice and reserve", "include/fu/vec.h")],
      ["malloc/free of the process", "construction and destruction of elements", "AddressSanitizer and its leak check"],
      technique="TLA+ (TLC): Own.tla ownership ledger validates recorded histories of the real arrays; VecRep.tla checks the sharing protocol exhaustively",
      note="Trace validation of random histories (10 element types, whole arrays and windows); the ledger covers every malloc/free and element event in the process. Bounded by the histories sampled."),
    P("C03", "Windows and slices read and write exactly their part of the array",
      "A mutable window over a part of an array reads and writes exactly that part: pushing, popping, splicing, clearing, appending or assigning through it changes the underlying array to "
      "prefix + new contents + suffix, and copies of the array made before are unaffected. "
      "A read-only slice shows exactly the elements of its part.",
      ["inputs", "histories"], "every window position and length, every operation through it, nested windows, every state of sharing of the underlying array, sources overlapping the window",
      "Few tests use windows at all and none samples window position × operation × sharing × overlap.",
      ["include/fu/vec_range.h", "include/fu/view.h", "include/fu/vec/view_assign.h", "include/fu/vec/view_swap.h", "include/fu/vec/LEGACY_slice.h"],
      [("window operations translated to splices of the underlying array", "include/fu/vec_range.h"), ("swap and assignment of views", "include/fu/vec/view_swap.h")],
      ["the elements of the window and of the whole array after each operation"],
      technique="TLA+ (TLC): window operations of Vec.tla/VecCases.tla replayed into vec_range and views; random histories validated by VecTrace.tla",
      note="Every window transition of the specification for lengths 0-4 (and 15-17) replayed for 10 element types; windows of windows to depth 2; random histories validated."),
    P("C06", "Hash maps and sets are finite maps whatever the keys and their hashes",
      "A hash map (lib/hash.fu) holds, after any history of set, get, get-by-reference (inserting or not), remove, removal while iterating, clear, copy and growth, exactly the last value stored under each key that was stored and not removed since: "
      "lookups find exactly those, enumeration shows each exactly once, the length is their number, and a copy goes its own way. "
      "This holds for every key type and every pattern of colliding hashes; the probe sequence always reaches a stored key, and the dense storage and its index never drift apart.",
      ["inputs", "histories"], "every history of operations, every assignment of hashes to keys, growth and removal at any point",
      "The tests fill and empty a few maps in one order; a mistake in displacement, backward shift or in the swap with the last entry shows for one particular collision pattern and order of removals only.",
      ["lib/hash.fu"],
      [("robin-hood index over dense storage: probing, displacement, backward shift, growth", "lib/hash.fu")],
      ["the results of the operations, the enumeration and the length"],
      technique="TLA+ (TLC): HashMapRep.tla (index and dense storage) is checked to refine a finite map and each of its transitions is replayed into lib/hash.fu; random histories are validated by HashMap.tla",
      note="Design: 3-4 keys, every assignment of hashes. Replay of the transitions of sampled (quick) or all (thorough) hash assignments; random histories for 9 key/value types including all-colliding hashes."),
    P("C07", "Bit sets are finite sets of numbers",
      "A BitSet (lib/BitSet.fu; the compiler's own analyses stand on it) holds, after any history of adding, removing, ranges, complements, unions and differences, exactly the numbers a set would hold: "
      "membership, enumeration in ascending order, count, emptiness, and the questions whether two sets meet or one covers the other, are those of sets. Two sets never influence each other.",
      ["inputs", "histories"], "every history of operations over several sets, numbers around every byte and word boundary",
      "No test of the suite uses bit sets directly; whether a trailing byte is trimmed, or a partial one kept, shows for particular numbers after particular histories only.",
      ["lib/BitSet.fu", "lib/bit.fu"],
      [("bytes, the last one never empty; truth and covering rely on that", "lib/BitSet.fu")],
      ["results, enumeration, count and truth after each operation"],
      technique="TLA+ (TLC): BitsRep.tla (the bytes) is checked to refine sets; every operation on every pair of sets over chosen positions (BitsCases.tla) is replayed; random histories are validated by BitsTrace.tla",
      note="Design: bytes of 2 and 3 bits, all pairs of sets. Replay: 25k (quick) cases over positions around byte and word ends. Histories: members below 142; plain and AddressSanitizer."),
    P("C08", "Sorted sets, maps and counted sets are what they are named for",
      "The flat containers (src/flat.fu) stay sorted and free of duplicates after any history, and their operations (add, remove, find, union, intersection, difference, in place and not, get by reference, remove while visiting, counting) "
      "give what the mathematical set, finite map or multiset gives; copies taken before, and operands, keep what they had.",
      ["inputs", "histories"], "every pair of sets, every history, every key type with an order",
      "The compiler uses some of the operations on the inputs the tests happen to have; several others have no use at all and did not even compile.",
      ["src/flat.fu"],
      [("binary search in, and merging of, ascending arrays", "src/flat.fu"), ("results that share the storage of an operand until they differ", "src/flat.fu")],
      ["results, enumeration and length after each operation"],
      technique="TLA+ (TLC): FlatRep.tla (search and merges on sequences) is checked to refine sets; every operation on every pair of sets (FlatCases.tla) is replayed; random histories are validated by FlatTrace.tla",
      note="Design: all pairs of subsets of 5 (quick) or 7 keys. Replay of all cases for 2 (quick) or 4 key types; random histories for 4 set, 4 map and 2 counted-set types, plain and AddressSanitizer."),
    P("C13", "Compiled programs keep value semantics",
      "A compiled fu program computes what the language says. Each variable, array, struct, string and field holds its own value: assigning, passing by value, returning, "
      "capturing or storing a value makes an independent copy, however the compiler decides to implement it (moving, sharing, passing by reference, in place). "
      "Arithmetic, conversions, comparisons, conditionals, loops and calls yield the values the language defines, in debug and release builds alike.",
      ["inputs"], "every accepted program: every combination of types, nesting, aliasing and use",
      "The compiler moves, shares and elides copies depending on liveness and aliasing facts about the whole program; the tests are about a thousand fixed programs that each return one number.",
      ["src/solver.fu", "src/lifetime.fu", "src/codegen.fu", "src/types.fu", "src/usage.fu", "src/quals.fu"],
      [("copy elision, moves, relaxation of arguments and variables to references", "src/solver.fu"), ("generation of C++", "src/codegen.fu")],
      ["the log each program writes: the values of variables and expressions at marked points"],
      technique="TLA+ (TLC): FuMachine.tla, an abstract machine for the language, executes random programs; the log each compiled program writes is validated against it",
      note="Random programs (800 quick, 8000 thorough) over 8 types compiled with the release flags; every write to the log is compared. Bounded by what the generator writes; programs that the compiler turns away are only counted."),
    P("C14", "Control flow and cleanup follow the language on every path",
      "Whatever combination of loops, labelled blocks, conditionals, break, continue, return, throw, catch, lambdas, local functions and defers a program uses: exactly the code the language calls for runs, in order. "
      "A defer runs exactly once whenever its scope is left (by falling off the end, a jump, a return or an exception), in reverse order, defer:ok only without and defer:err only with an exception; "
      "a catch receives exactly the exceptions thrown in its try.",
      ["inputs", "fault points"], "every nesting of the constructs, every exit path, exceptions thrown at any point",
      "The compiler lowers these to C++ loops, gotos, flags and destructors, with special cases that depend on how they are nested; the tests hold a few hand-written nestings.",
      ["src/solver.fu", "src/codegen.fu", "src/parser.fu", "include/fu/defer.h"],
      [("lowering of jumps, hoisting, defer and try/catch", "src/codegen.fu"), ("scopes, labels and jumps; inlining of lambdas", "src/solver.fu"), ("defer guards", "include/fu/defer.h")],
      ["the log each program writes at marked points of its control flow"],
      technique="TLA+ (TLC): FuMachine.tla executes random programs rich in jumps, exceptions and defers; the log each compiled program writes is validated against it",
      note="Random programs (800 quick, 8000 thorough); nesting to depth 3. Nothing is thrown out of a defer (that terminates the program, by design)."),
    P("C15", "Expressions are evaluated in the defined order",
      "The observable effects in an expression happen in the order the language defines, whatever C++ would allow: operands and by-value arguments left to right, each exactly once or, under && || ?:, exactly when called for; "
      "this includes what they print and which of them throws first; "
      "reads of a variable see the writes sequenced before them and not those after.",
      ["inputs"], "every expression, statement and call whose parts have effects or read what other parts write",
      "C++ leaves the order of arguments and operands open, so whether an expression needs to be split depends on which parts interfere and how it is nested; the tests list a few shapes.",
      ["src/codegen.fu", "src/solver.fu", "src/lifetime.fu"],
      [("sequencing of arguments: which parts interfere and what has to be stored first", "src/solver.fu"), ("emission of sequenced arguments", "src/codegen.fu")],
      ["the log each program writes: which effects happened in which order with which values"],
      technique="TLA+ (TLC): FuMachine.tla executes random programs with effects in expressions; the log each compiled program writes is validated against it",
      note="Random programs (800 quick, 8000 thorough), expressions to depth 4. References are evaluated after the by-value operands."),
    P("C16", "An accepted program never uses a reference after what it names is gone",
      "If the compiler accepts a program, then no reference, borrowed argument, captured variable or relaxed copy in it is used after a write has moved, resized or destroyed what it names, on any path: through branches, loop back-edges, "
      "local functions, lambdas, callees, defers, exceptions, functions that return references. A by-value variable keeps its value through all later writes to what it was copied from, "
      "and such programs are accepted.",
      ["inputs"], "every program that takes a reference to (or a copy of) a part of a variable, every later write to the variable, every path in between",
      "The analysis is over the whole program with fixed points over loops and calls; the tests hold some two hundred accept/reject pairs.",
      ["src/lifetime.fu", "src/solver.fu", "src/types.fu"],
      [("borrow checker: invalidation of references by writes", "src/solver.fu"), ("lifetimes as sets of regions and paths", "src/lifetime.fu")],
      ["the compiler's verdict", "the log of each accepted program", "AddressSanitizer"],
      technique="TLA+ (TLC): FuMachine.tla tracks references as paths that writes void; random accepted programs are executed by it and must never use a void reference, and must log the same",
      note="Random programs aimed at reference/write/use patterns over 17 routes, plain and under AddressSanitizer; plainly well-formed programs have to be accepted."),
    P("C18", "The build cache never delivers a stale or foreign artefact",
      "When the compiler says that a build succeeded, the executable is what a build from an empty cache would have given: every object in it was made from the current text of its module, the current "
      "contents of every header it includes (directly or not) and the requested scheme and flags, whatever was built, edited, reverted, broken, killed or failed before, and whichever other builders run at the same time in "
      "the same workspace. A build fails only because of an error in the sources, an operation of the system that fails, a header that changes while it runs, or another builder; "
      "leftovers of crashes never make it fail. What is in the cache is not compiled again.",
      ["histories", "schedules", "crash points", "faults"],
      "every sequence of edits, configurations and builds; every file operation of a build as a point to crash at, to fail at and to edit a header at; every interleaving of concurrent builders",
      "The tests compile one file after another in a workspace of their own; nothing edits a header, kills a builder or runs two of them.",
      ["src/build.fu", "lib/file.fu", "lib/fs.fu", "lib/rand.fu", "lib/tea.fu"],
      [("hashes of text, headers and flags name the objects", "src/build.fu: build"), ("headers are checked again before objects are kept", "src/build.fu: crosscheckHeaders_beforePersistingTempObjects"),
       ("temporaries are renamed into place", "src/build.fu: atomic_write, tmpfile")],
      ["the exit code", "what each object in the executable was made from (a stand-in for g++ writes it down)", "which objects were compiled"],
      state=[("obj_hash", "identity of an object", "src/build.fu"), ("file_invariants", "headers as they were when hashed", "src/build.fu")],
      technique="TLA+ (TLC): BuildCache.tla is model checked (builders, editor, crashes) with variants that must fail; recorded histories of the real compiler, scheduled one file operation at a time, are judged by BuildTrace.tla",
      note="All pairs of edits/configurations and random longer ones, every operation as crash/fault/edit point, random races of up to three builders; g++ is a stand-in."),
    P("C19", "Every build scheme runs the same program",
      "A well-formed program that indexes within bounds and does not overflow writes the same and ends the same whether it is built with the default scheme, --debug, --reldeb or --retail: "
      "no assertion of the runtime library or of the generated code fails in it, and optimisation, assertions and the retail switch change no result.",
      ["inputs", "configurations"], "every such program, every build scheme",
      "The tests are run under one scheme at a time and each compares a program with itself; an assertion that is too strong, or code that relies on one, shows only in the programs that reach it.",
      ["src/build.fu", "include/fu/vec.h", "include/fu/vec_range.h", "src/codegen.fu"],
      [("compiler flags per scheme", "src/build.fu: build"), ("assertions in the array representation", "include/fu/vec.h")],
      ["the log and the exit of each program under each scheme"],
      technique="TLA+ (TLC): random programs are built under each scheme and FuMachine.tla decides whether what each of them logged is what the program means",
      note="Random programs of five kinds, other ones for each scheme, each judged by TLC; plus a fixed program per known defect."),
    P("C04", "A parallel loop visits everything exactly once and is over when it returns",
      "Whatever the number of worker threads, of elements and the least batch: a parallel loop visits each element exactly once, in batches of at least the asked size (short of the whole), returns only after every visit has ended, "
      "and what the visits wrote is visible to whoever called it. Loops called by several threads at once, one after another, or from within a visit all get done, none waits forever; "
      "no thread touches the loop's frame after the call has returned.",
      ["schedules"], "every interleaving of workers and callers, any number of either, nested and concurrent loops, spurious wake-ups",
      "Tasks, counters, locks and condition variables interplay across threads; tests run a schedule or two.",
      ["include/par/parfor.hpp", "include/par/parfor.cpp", "lib/par.fu"],
      [("division into tasks, the queue of tasks, completion", "include/par/parfor.cpp"), ("the queue itself", "include/lockfree/stack.hpp")],
      ["the visits, the calls and returns, and every atomic, lock and memory operation of the real code, run on threads that a scheduler switches between"],
      technique="TLA+ (TLC): ParFor.tla is explored exhaustively with its precautions, and found to fail without them; random and systematically bounded schedules of the real code are recorded and validated against ParTrace.tla (happens-before clocks, visits, deadlock)",
      note="A scheduler in place of the operating system's switches threads at atomics, locks and waits. Stale reads of atomics are not explored; plain memory is judged by happens-before."),
    P("C05", "The lock-free stack is a stack",
      "However the pushes and pops of any threads overlap, nodes pushed being popped, freed to other use and pushed again: their results are those of some order of the operations in which the container is a last-in first-out stack; "
      "no node is lost or handed to two threads, a pop that finds nothing was at some moment right, and what a thread wrote to a node before pushing it is what whoever pops it sees.",
      ["schedules"], "every interleaving of pushes (of one node or a chain) and pops, with nodes reused (ABA) and compare-exchanges that fail for nothing",
      "ABA, a forgotten tag or a relaxed order need one particular overlap of three operations.",
      ["include/lockfree/stack.hpp"], [("push and pop", "include/lockfree/stack.hpp")],
      ["calls and returns of push and try_pop, and each access to memory in between"],
      technique="TLA+ (TLC): Stack.tla (with tags; without them TLC finds the ABA counterexample); recorded schedules of the real code are checked for linearizability by StackTrace.tla and for races by ParTrace.tla",
      note="Nobody sleeps through 2^19 operations within one of his own (the tag would go all the way round). Stale reads are not explored."),
    P("C21", "Threads may share the memory of arrays",
      "Arrays that share memory (copies, slices made of one another) may be read, changed, copied, moved and dropped by different threads at the same time, each having its own: each thread sees its arrays as though nobody else had any, "
      "no memory is written while another thread reads it without synchronization, used after it was freed, freed twice or leaked.",
      ["schedules", "histories"], "every interleaving of reads, writes, appends, copies, moves and drops of arrays that share buffers",
      "Copy-on-write across threads rests on the orders of the reference count's operations; on x86 a wrong one shows up almost never.",
      ["include/fu/mem/arc.h", "include/fu/vec.h"], [("the reference count", "include/fu/mem/arc.h"), ("copy on write", "include/fu/vec.h")],
      ["contents of the arrays after each operation, each access to the buffers and their counts, allocations and frees"],
      technique="TLA+ (TLC): Share.tla (and that it fails with a relaxed look at the count); recorded schedules of the real vec on scheduled threads are validated against ArrTrace.tla and ParTrace.tla",
      note="2-4 threads, up to 10 operations each. One handle is used by one thread at a time."),
    P("C22", "Functions on arrays and texts compute what they denote",
      "For every array and text: searching finds the first place; split, join and replace cut and put together exactly; comparison is a total order in agreement with equality; sorting is an ordered permutation and leaves the rest alone; "
      "partition, reverse, steal, remove, resize and the others give exactly the denoted arrays; texts are trimmed and change case only where ASCII says so; UTF-8 is encoded and decoded exactly, with each malformed place reported once; "
      "numbers are written as the decimals they are. Nothing else is read or changed.",
      ["inputs"], "all arrays of numbers, bytes and strings, all positions, malformed UTF-8, numbers of every size",
      "Skips in searching, empty separators, overlaps, cut-short sequences and extreme numbers are combinations the tests do not go through.",
      ["src/prelude.fu", "lib/ascii.fu", "lib/unicode.fu", "include/fu/decstr.cpp", "include/fu/vec/LEGACY_cmp.h"],
      [("functions on arrays", "src/prelude.fu"), ("letters and blanks", "lib/ascii.fu"), ("UTF-8", "lib/unicode.fu"), ("decimals", "include/fu/decstr.cpp")],
      ["result and array afterwards of each call"],
      technique="TLA+ (TLC): Text.tla defines what each function denotes (with its own laws checked); random calls of the real functions are recorded and validated against it by TextTrace.tla",
      note="28800 calls quick, 360000 thorough; arrays to 130 elements. Floats that six fractional digits hold exactly."),
    P("C23", "Path functions keep denoting the same place",
      "For every path: normalize and join give the shortest path that denotes the same place (the root or not, how far up, and the names from there) as the paths they were given; relative gives a path that leads from the directory of the one to the other; "
      "ext and noext, directory and file name take a path apart where its last dot and slash are.",
      ["inputs"], "every combination of names, empty parts, single and double dots, leading and trailing slashes",
      "Sequences of '..' that meet each other, the root or the front of the path need particular combinations; the compiler resolves imports and includes with these.",
      ["lib/path.fu"], [("path functions", "lib/path.fu")],
      ["the path that comes back"],
      technique="TLA+ (TLC): PathTrace.tla defines the place a path denotes and judges recorded calls of the real functions: every path of up to 6 (thorough: 8) characters of '.', '/', 'a', and random ones",
      note="24000 calls quick. relative is asked about normal paths that both start at the root, or go up equally far."),
]

#PROPS-END


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}
            if p["observe"]:
                anchors["observe_at"] = p["observe"]
            if p["state"]:
                anchors["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"], "anchors": anchors}, ensure_ascii=False) + "\n")
    m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": [], "not_applicable": []}
    for p in PROPS:
        if p["claimed"]:
            m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                                "technique": p["technique"], "level": "model_checking", "level_note": p["note"]})
        else:
            m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


if __name__ == "__main__":
    main()
