PROPS = []


def P(id, title, statement, over, text, why, files, mech, script, technique, note, level="exploration", na=None):
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
                  "why_tests_cant": why,
                  "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]},
                  "script": script, "technique": technique, "note": note, "level": level, "na": na})


CODEGEN = ["src/lower/amd64.c", "src/native/amd64.c", "src/binary/encoding/amd64/opcode.c", "src/linear.c"]
TRUST = " Trusted: the checker's evaluator and the host libc/linker. Target: linux amd64, the only one that runs here."

P("P01", "Integer expressions evaluate with fixed-width two's complement semantics",
  "Every integer expression of a valid program yields the value obtained by evaluating its operators at the declared "
  "width with wraparound, truncating division and sign- or zero-extending conversion. The value does not depend on "
  "whether operands are literals, variables, call results or memory, nor on how many of them are live.",
  ["programs", "inputs"], "all expressions over the eight integer types, all operand values with a defined result",
  "The suite evaluates a few dozen fixed expressions; operator, width, operand form and register assignment multiply "
  "into a space that only generation samples.",
  CODEGEN + ["src/peephole/amd64.c", "src/register/allocate.c", "src/schedule.c"],
  [("operator lowering", "src/linear.c"), ("division/shift register constraints", "src/lower/amd64.c"),
   ("instruction selection", "src/native/amd64.c"), ("fusion of add/mul into lea", "src/peephole/amd64.c")],
  "ints.py", "generated operator tables and random expression programs against a reference evaluator",
  "Thousands of generated operator/width/operand-form combinations and random programs per run, compared line by line "
  "with an independent evaluator; division by zero and over-wide shifts are excluded by construction." + TRUST)

P("P02", "Floating point arithmetic, comparison and conversion follow IEEE 754",
  "Float operators produce the correctly rounded IEEE 754 result of their type, comparisons of ordered operands agree "
  "with the numeric order, and conversions between floats and integers round to nearest or truncate as their direction "
  "requires. Decimal literals denote the nearest representable value.",
  ["programs", "inputs"], "all f32/f64 expressions, all operand bit patterns whose result is defined",
  "The suite prints a few rounded values; encodings with high registers, constant pooling and spills of float values "
  "only go wrong for particular combinations.",
  CODEGEN + ["src/lower/lower.h", "src/register/allocate.c"],
  [("float constants", "src/lower/lower.h"), ("sse instruction selection", "src/native/amd64.c"),
   ("prefix and REX encoding", "src/binary/encoding/amd64/opcode.c"), ("float spill and rematerialisation", "src/register/allocate.c")],
  "floats.py", "generated operator, conversion and literal tables plus random float programs against IEEE evaluation",
  "Results are compared bit by bit with the host's IEEE arithmetic. NaN comparisons and conversion of values above "
  "2^63 to u64 are known findings, excluded by construction and counted." + TRUST)

P("P03", "Control flow and live values survive any nesting of branches, loops and calls",
  "A program built from nested loops, conditionals, matches, ternaries, short-circuit operators and early exits executes "
  "exactly the statements its structure selects and no variable changes except by assignment. This holds for any number "
  "of simultaneously live variables of any scalar type.",
  ["programs", "inputs"], "all structured programs over scalar variables, all inputs",
  "Register allocation, SSA construction and block resolution have state that depends on the whole function; the suite's "
  "functions are small and exercise few combinations.",
  ["src/cfg.c", "src/ssa.c", "src/schedule.c", "src/register/interval.c", "src/register/allocate.c",
   "src/register/linearscan.c", "src/linear.c"],
  [("critical edges and block order", "src/cfg.c"), ("phi placement and renaming", "src/ssa.c"),
   ("interval splitting and data flow resolution", "src/register/interval.c"), ("register assignment", "src/register/allocate.c"),
   ("instruction scheduling", "src/schedule.c")],
  "control.py", "random structured programs against a reference interpreter",
  "Whole programs with up to 60 live variables, nested loops and calls; every print and return value is compared with "
  "the interpreter." + TRUST)

P("P05", "Structs, tuples and arrays are values with independent fields",
  "Reading a field or element returns the last value written to it, copying, passing, returning or capturing an aggregate "
  "yields an independent value, and no access changes a neighbouring field. This holds for every nesting and every mix of "
  "field types, sizes and alignments.",
  ["programs", "inputs"], "all aggregate types built from scalars, strings, structs, tuples and arrays; all access histories",
  "Layout, copy width and parameter classification depend on the type; the suite covers a handful of types.",
  ["src/types.c", "src/linear.c", "src/lower/lower.h", "src/lower/amd64_abi.c", "src/lower/amd64.c"],
  [("field offsets and alignment", "src/types.c"), ("memory moves", "src/lower/lower.h"),
   ("passing and returning in registers or memory", "src/lower/amd64_abi.c")],
  "aggs.py", "random aggregate types and access histories against a value model",
  "Random types up to depth 3 with histories of writes, copies, calls and returns, every observable field compared with "
  "the model." + TRUST)

P("P06", "Vectors behave like growable sequences with slice aliasing",
  "Every history of pushes, appends, slices, concatenations, copies, element writes, sorts and searches leaves a vector "
  "with the length and elements the operations define, for every element type. Access outside the length is reported as "
  "an error and never touches memory.",
  ["histories", "inputs"], "all operation histories over one or more vectors of one element type",
  "Growth, element size and aliasing combine; the suite uses integer vectors and a few operations.",
  ["runtime/nutils/vec.c", "std/builtin/vec.n", "src/linear.c"],
  [("growth and element access", "runtime/nutils/vec.c"), ("sort, search and iteration", "std/builtin/vec.n")],
  "vecs.py", "operation histories against a list model",
  "Histories of up to 22 operations on random element types, and sorts of up to 400 elements of seven shapes; an alias "
  "that may or may not share storage after growth is no longer read." + TRUST)

P("P07", "Maps and sets behave like finite maps and sets",
  "Every history of insertions, updates, deletions, lookups and iterations on a map or set agrees with a finite map, "
  "including its length, the error for a missing key and growth in between. Iteration visits every entry once.",
  ["histories", "inputs"], "all operation histories over integer, boolean and string keys",
  "Collisions, deleted slots and rehashing only meet in particular histories.",
  ["runtime/nutils/map.c", "runtime/nutils/set.c", "runtime/nutils/hash.h", "src/linear.c"],
  [("slots and probing", "runtime/nutils/map.c"), ("set operations", "runtime/nutils/set.c"),
   ("hashing and key comparison", "runtime/nutils/hash.h")],
  "maps.py", "operation histories against a dictionary model",
  "Histories over colliding key pools and generated loops with thousands of keys. Composite key types are a known "
  "finding and excluded by construction." + TRUST)

P("P08", "Strings are byte sequences and every string operation is a function of the bytes",
  "Length, indexing, slicing, comparison, concatenation, conversion and the functions of the strings module return what "
  "their definition on byte sequences says, including empty strings and embedded NUL bytes. Strings never change once "
  "built.",
  ["inputs", "histories"], "all strings and arguments accepted by the operations",
  "C-string shortcuts and off-by-one errors need particular contents and lengths.",
  ["runtime/nutils/string.c", "std/strings/strings.n", "std/builtin/string.n", "src/linear.c", "src/syntax/scanner.c"],
  [("construction, comparison and iteration", "runtime/nutils/string.c"), ("search, split, replace, trim", "std/strings/strings.n")],
  "strs.py", "generated operation histories against byte-string reference functions",
  "Strings over small alphabets with repetition so that searches succeed and overlap." + TRUST)

P("P04", "Constants and global initialisers have the value of their expression",
  "A literal, named constant or global initialiser denotes exactly the value its expression denotes at run time, for every "
  "literal form, operator and escape sequence. Constant folding never changes a result.",
  ["programs", "inputs"], "all constant expressions over integers, floats and strings, all literal spellings",
  "Folding and scanning have one branch per literal form and operator; the suite folds a few small expressions.",
  ["src/syntax/scanner.c", "src/semantic/analyzer.c", "src/semantic/infer.c", "src/ast.c"],
  [("literal scanning and escapes", "src/syntax/scanner.c"), ("constant folding", "src/semantic/analyzer.c"),
   ("literal typing", "src/semantic/infer.c"), ("literal copies in generic instances", "src/ast.c")],
  "consts.py", "generated literals, constant expressions and global initialisers against a reference evaluator",
  "Four streams: integer literals and folding, float literals, strings with all escapes, global initialisers." + TRUST)

P("P09", "Errors, deferred blocks and early exits follow the structure of the program",
  "A thrown error reaches the innermost catch that encloses it in the dynamic call structure, skips exactly the "
  "statements in between, and runs every deferred block of the scopes it leaves once and in reverse order. The same holds "
  "for return, break and continue, and an index out of range behaves as a catchable error.",
  ["programs", "inputs"], "all call trees of fallible functions with nested try/catch, loops and deferred blocks",
  "Scope exit code is emitted once per exit path; wrong or missing copies only show for particular nestings.",
  ["src/linear.c", "src/semantic/infer.c", "runtime/runtime.c", "runtime/processor.c"],
  [("scope unwinding and catch labels", "src/linear.c"), ("error state of a coroutine", "runtime/processor.c"),
   ("panic and error construction", "runtime/runtime.c")],
  "errs.py", "random fallible call trees against a reference interpreter",
  "Random functions with nested catches, defers, loops and all exits; a fallible call inside a deferred block while an "
  "error is pending is a known finding, excluded by construction." + TRUST)

P("P10", "Union, any, nullable and tagged values keep their member type and value",
  "Inspecting a dynamically typed value selects exactly the member it was made from and yields the value stored, through "
  "any history of assignment, copying, passing, capturing and containment. Asserting another member raises an error.",
  ["programs", "histories"], "all unions over scalar, string and aggregate members; all histories",
  "Member tags and payload layout depend on the set of types; the suite uses a few unions.",
  ["src/linear.c", "runtime/nutils/nutils.c", "src/semantic/infer.c", "src/types.c"],
  [("casting into and out of unions", "runtime/nutils/nutils.c"), ("is/as/match lowering", "src/linear.c"),
   ("union reduction and exhaustiveness", "src/semantic/infer.c"), ("type hashes", "src/types.c")],
  "dyn.py", "histories over generated union types against a value model",
  "Unions, any, nullable and tagged unions with up to six members, inspected by match, if-is chains and assertions." + TRUST)

P("P11", "Generic code and interface calls act as the code for the actual type",
  "A generic function, type or method behaves for every type argument as if it had been written for that type, whatever "
  "statements it contains and however many instances exist. A call through an interface runs the method of the type the "
  "value was made from, on that value itself when it was stored by reference and on a copy otherwise, with arguments, result "
  "and errors unchanged.",
  ["programs"], "all programs with generic functions, generic types, constraints, interfaces and methods with any receiver",
  "Instances are made by copying syntax trees and dispatch goes through generated wrappers and tables; every construct, "
  "type size and receiver is a separate case.",
  ["src/ast.c", "src/semantic/generics.c", "src/semantic/infer.c", "src/semantic/interface.c", "src/linear.c"],
  [("copying a template for an instance", "src/ast.c"), ("constraint checks", "src/semantic/generics.c"),
   ("inference of type arguments", "src/semantic/infer.c"), ("receiver wrappers", "src/semantic/interface.c"),
   ("method tables and dispatch", "src/linear.c")],
  "gens.py", "histories over generated interfaces and implementations, generic compositions, and ordinary programs made generic",
  "Up to three interfaces and three types, seven parameters; type arguments of one nesting level; programs of twelve other "
  "generators with all functions made generic and two instances run." + TRUST)

P("P12", "A closure shares the variables it captures with their scope",
  "Every closure sees and changes the same variable as the scope that declared it and as all other closures over it, "
  "before and after that scope has returned, at any nesting depth and in any coroutine. Variables declared in a loop body "
  "and the variables of an iterating loop are fresh in every round.",
  ["programs"], "all programs of nested closures over variables of every value type",
  "Captured variables move to the heap and are reached through chains of environments; each type, nesting depth and "
  "statement form takes its own path.",
  ["src/linear.c", "src/semantic/analyzer.c", "src/semantic/infer.c", "runtime/runtime.c"],
  [("capture analysis", "src/semantic/analyzer.c"), ("environment access and escape rewriting", "src/linear.c")],
  "closures.py", "random programs of nested closures, factories and closure lists against an interpreter with cells",
  "Captured scalars, strings, structs, arrays, tuples, vectors and maps, up to four levels deep, called directly, through "
  "lists and as coroutines. Assigning to a captured reference is a known finding and is left out." + TRUST)

P("P13", "Garbage collection never frees or alters a reachable value",
  "Whatever collections happen and whenever they happen, every value the program can still reach through variables, "
  "fields, containers, closures, channels, futures or globals keeps its contents. Values that have become unreachable are "
  "reclaimed, so a program with bounded live data runs in bounded memory.",
  ["programs", "schedules", "histories"], "all programs moving references between all kinds of holders while collections run",
  "Marking is concurrent with the program; a missed root, layout bit or barrier shows only when a collection meets a "
  "particular store at a particular moment.",
  ["runtime/collector.c", "runtime/allocator.c", "runtime/nutils/nutils.c", "runtime/memory.c", "src/rtype.h", "src/linear.c"],
  [("stack, global and pool roots", "runtime/collector.c"), ("write barrier", "runtime/nutils/nutils.c"),
   ("spans, size classes and mark bits", "runtime/allocator.c"), ("pointer maps of types and frames", "src/rtype.h")],
  "gc.py", "references juggled between generated holders while collections and garbage churn run",
  "Up to four coroutines move self-describing nodes between two dozen kinds of holders with collections forced at "
  "generated points; reclamation is judged by live heap bytes after release. Schedules are sampled, not enumerated." + TRUST)

P("P14", "Coroutines keep their state and deliver their result or error once",
  "Suspending a coroutine at any point, on any thread and at any stack depth leaves its locals, arguments and pending "
  "computations unchanged. Awaiting yields exactly the result or error of the coroutine however long ago it ended, and a "
  "mutex excludes all other holders without losing a waiter.",
  ["schedules", "programs"], "all programs of nested coroutines with suspension points, errors and mutexes",
  "Stacks are copied and processors share work; a lost wakeup or truncated frame needs a particular interleaving.",
  ["runtime/processor.c", "runtime/aco/aco.c", "runtime/rt_mutex.c", "runtime/nutils/coroutine.c", "std/builtin/coroutine.n"],
  [("switching and stack saving", "runtime/aco/aco.c"), ("scheduling and await", "runtime/processor.c"),
   ("mutex", "runtime/rt_mutex.c")],
  "cos.py", "random programs with suspension points, coroutine trees and lock histories against an interpreter",
  "Programs whose result does not depend on the schedule are run on the real scheduler; an error nobody awaits ends the "
  "program by design, so failing coroutines are awaited at once." + TRUST)

P("P15", "Channels deliver every value once, in order, to a waiting receiver",
  "For every use of channels, each value sent is received exactly once and unchanged, values of one sender to one receiver "
  "keep their order, and a buffer never holds more than its capacity. Select performs exactly one ready case and closing "
  "wakes every waiter and lets buffered values drain.",
  ["schedules", "histories"], "all element types, capacities, numbers of senders and receivers, and select shapes",
  "Direct hand-over, buffering, waiting and select interact; each combination needs its own schedule.",
  ["runtime/rt_chan.c", "runtime/linkco.c", "src/linear.c", "std/builtin/chan.n"],
  [("hand-over between stacks", "runtime/rt_chan.c"), ("select", "runtime/rt_chan.c"), ("wait records", "runtime/linkco.c"),
   ("select lowering", "src/linear.c")],
  "chans.py", "generated channel topologies with schedule-independent outcomes",
  "Streams, fan-in/out, pipelines, select and close over all element kinds; outcomes that the schedule may change (which "
  "ready case is taken) are left open." + TRUST)

P("P20", "An ELF link produces the program its inputs describe",
  "For every accepted set of objects and archives, each reference in the loaded image reaches the definition that symbol "
  "binding rules select, and every definition is present once, intact, aligned and mapped with the right permissions. An "
  "invalid input is refused with a diagnostic and leaves the output file untouched, and linking twice gives the same bytes.",
  ["inputs", "configurations"], "all sets of objects and archives for x86-64, AArch64 and RISC-V, position dependent or not",
  "Relocation kinds, symbol kinds, section kinds, archive order and relaxation multiply; the suite links fixed examples.",
  ["src/ld/ld_elf.c", "src/ld/ld_elf_reloc.c", "src/ld/ld_elf_input.c", "src/ld/ld_elf_archive.c", "src/ld/ld_elf_merge.c",
   "src/ld/ld_elf_ifunc.c", "src/ld/ld_elf_thunk.c", "src/ld/ld_elf_riscv_relax.c", "src/ld/ld_elf_eh_frame.c"],
  [("symbol resolution and archives", "src/ld/ld_elf_archive.c"), ("relocation", "src/ld/ld_elf_reloc.c"),
   ("layout", "src/ld/ld_elf.c"), ("string merging", "src/ld/ld_elf_merge.c"), ("unwind tables", "src/ld/ld_elf_eh_frame.c")],
  "elf.py", "random multi-object links, every reference followed in the loaded image",
  "Assembled by the system assembler; the image is loaded at a base address with its dynamic relocations applied and every "
  "reference is decoded back to an address; static executables only, as the compiler makes them.")

P("P21", "A relocation is applied exactly or refused",
  "Whatever the symbol value and addend, a relocation either stores a field that the processor reads back as the exact "
  "64-bit result, or the link fails with a diagnostic because the result does not fit. No value is silently truncated.",
  ["inputs"], "all supported relocations of the three ELF targets with all symbol values and addends",
  "Limits differ per relocation and are off by a rounding constant or an alignment; the suite tests a few values each.",
  ["src/ld/ld_elf_reloc.c", "src/ld/ld_elf.c", "src/ld/ld_elf_thunk.c"],
  [("relocation arithmetic and range checks", "src/ld/ld_elf_reloc.c"), ("range extension", "src/ld/ld_elf_thunk.c")],
  "relocs.py", "relocation sites against absolute symbols drawn around the limits of each field",
  "Static position-dependent links; where the ABI leaves signed or unsigned reading open, both are accepted, as is "
  "refusing more than necessary outside the ABI range. Thread-local and GOT relocations are covered by P20 only.")

P("P22", "The linker survives arbitrary input files",
  "For every sequence of bytes given as an object, archive, import library, stub library or linker script, the linker "
  "finishes with success or a diagnostic, without undefined behaviour. A failed link leaves the output file and the "
  "directory as they were.",
  ["inputs"], "damaged ELF, COFF and Mach-O objects, archives of all flavours, text stubs and linker scripts",
  "The parsers have thousands of length and index fields; the suite damages a few dozen.",
  ["src/ld/ld_elf_input.c", "src/ld/ld_elf_archive.c", "src/ld/ld_coff_input.c", "src/ld/ld_coff_reader.c", "src/ld/ld_macho.c",
   "src/ld/ld_tapi.c", "src/ld/ld_elf_zlib.c", "src/ld/ld_elf_script.c", "src/ld/ld_input.c", "utils/yaml/scanner.c"],
  [("ELF input", "src/ld/ld_elf_input.c"), ("COFF input", "src/ld/ld_coff_input.c"), ("Mach-O input", "src/ld/ld_macho.c"),
   ("stub libraries", "src/ld/ld_tapi.c")],
  "ldfuzz.py", "structure-aware mutation of valid inputs under address and undefined-behaviour sanitizers",
  "Field-aware and byte-level damage of generated valid links; resource exhaustion and time are not judged.")


P("P23", "A linked Windows image places and connects all its parts",
  "For every set of COFF objects, archives and import members that can be linked, each selected section is in the image "
  "exactly once with its contents, alignment, order and permissions, and every reference leads to the chosen definition, "
  "the import slot or the image base. Base relocations, import tables, unwind table and headers describe exactly that "
  "image, and sets that cannot be linked are refused without touching the output.",
  ["inputs"], "all sets of COFF objects and archives with any mix of sections, symbols, relocations and directives",
  "Symbol resolution, COMDAT choice, import synthesis and layout interact; tests fix a few small combinations.",
  ["src/ld/ld_coff.c", "src/ld/ld_coff_input.c", "src/ld/ld_coff_writer.c", "src/ld/ld_coff_reader.c"],
  [("symbol resolution and COMDAT choice", "src/ld/ld_coff.c"), ("object, archive and import reading", "src/ld/ld_coff_input.c"),
   ("layout, relocation, imports and base relocations", "src/ld/ld_coff_writer.c")],
  "coff.py", "objects written byte by byte, linked, and the image read back against a resolution model",
  "Up to nine objects with marked sections; all AMD64 relocation types, COMDAT selections, weak externals, commons, "
  "short imports, directives, big objects. Long-form import objects and priorities of constructor sections are not generated." + TRUST)


P("P18", "Programs that break a static rule are refused on the line that breaks it",
  "Every program that uses a value where another type is expected, an operator on operands it is not defined for, an unknown "
  "or duplicate name, a constraint that does not hold, an incomplete match, an unhandled error or malformed syntax is refused "
  "with exit status 1 and a report naming the offending line, and leaves no executable. The same program with the rule kept "
  "is accepted.",
  ["programs"], "all programs with one broken static rule at any nesting",
  "Soundness of the checker is a claim about every position and every pair of types; tests try a few dozen errors.",
  ["src/semantic/infer.c", "src/semantic/analyzer.c", "src/semantic/generics.c", "src/semantic/interface.c", "src/syntax/parser.c", "src/error.c"],
  [("type rules", "src/semantic/infer.c"), ("name rules", "src/semantic/analyzer.c"), ("constraints", "src/semantic/generics.c"),
   ("syntax", "src/syntax/parser.c")],
  "reject.py", "one rule broken in an accepted program, by position, expected type and given type; corrected twins must be accepted",
  "Forty types in thirty-five positions, 250 statements and declarations that break other rules, up to three levels of "
  "nesting in functions, methods and generic functions." + TRUST)

P("P17", "No source text crashes the compiler",
  "For every source text the compiler ends by itself with status 0 or with status 1 and a report. It never aborts, dies by a "
  "signal, or reads or writes memory that is not its own on the way.",
  ["inputs"], "all source texts, well formed or not",
  "The texts that break a parser or a type checker are the ones nobody wrote down as a test.",
  ["src/syntax/scanner.c", "src/syntax/parser.c", "src/semantic/analyzer.c", "src/semantic/infer.c", "src/semantic/generics.c", "src/error.c",
   "src/linear.c", "src/ssa.c", "src/register/linearscan.c"],
  [("scanning", "src/syntax/scanner.c"), ("parsing", "src/syntax/parser.c"), ("checking", "src/semantic/infer.c"), ("reports", "src/error.c")],
  "srcfuzz.py", "programs of the repository damaged and recombined at token, line and character level, compiled by a sanitized compiler",
  "One to eight changes per program, sources below 10 kB, no NUL bytes, imports of modules that exist; the linker is replaced by a "
  "stub. Memory errors are those the address and undefined-behaviour sanitizers see." + TRUST)

P("P24", "A linked Mach-O image makes every reference reach its target once loaded",
  "For every set of well-formed arm64 objects, archives and library stubs, a link that succeeds gives an image in which each "
  "call, load, pointer, difference, slot and descriptor reaches the definition the resolution rules select, wherever the image "
  "is loaded. Its pointer fixups, exports, symbols, libraries, initializer order, unwind table and signature agree with the "
  "inputs, and missing or repeated definitions are refused by name without an output.",
  ["inputs", "configurations"], "all sets of objects, archives and library stubs, in every order",
  "The image can only be run on another system, so the tests check that commands exist; whether each reference is right depends "
  "on combinations of symbol kinds, sections and input order.",
  ["src/ld/ld_macho.c", "src/ld/ld_macho_symbols.c", "src/ld/ld_macho_synthetic.c", "src/ld/ld_unwind.c", "src/ld/ld_tapi.c"],
  [("relocations", "src/ld/ld_macho.c"), ("resolution", "src/ld/ld_macho_symbols.c"), ("slots", "src/ld/ld_macho_synthetic.c"),
   ("unwind table", "src/ld/ld_unwind.c"), ("library stubs", "src/ld/ld_tapi.c")],
  "macho.py", "objects assembled from generated source, linked, and the image read back as the loader would, against a resolution model",
  "Up to five objects and eighteen libraries; arm64 only. Images that need branch islands, exception frames in DWARF form and "
  "linker options other than weak libraries are not generated." + TRUST)

P("P26", "Code for arm64 and riscv64 computes what the source says",
  "For every program over the integer and floating point types, tuples, structs and arrays, the object files for the arm64 and "
  "riscv64 targets contain instructions of that architecture which compute the values the language defines. They follow the "
  "calling convention of the platform, keep the stack pointer aligned and touch no memory outside their frames and data.",
  ["programs", "configurations"], "all programs, for both targets",
  "The tests run on the machine they are built on, so what is generated for other machines is never executed.",
  ["src/native/arm64.c", "src/native/riscv64.c", "src/lower/arm64.c", "src/lower/arm64_abi.c", "src/lower/riscv64.c",
   "src/lower/riscv64_abi.c", "src/peephole/arm64.c", "src/binary/encoding/arm64/opcode.c", "src/binary/encoding/riscv64/opcode.c",
   "src/register/linearscan.c"],
  [("selection", "src/native/arm64.c"), ("calling convention", "src/lower/riscv64_abi.c"), ("pattern merging", "src/peephole/arm64.c"),
   ("encoding", "src/binary/encoding/arm64/opcode.c"), ("allocation", "src/register/linearscan.c")],
  "cross.py", "generated programs compiled for both targets and run in an interpreter of the instruction sets, against the evaluator",
  "Two to four functions per program; results leave through C functions. arm64: integers of 32 and 64 bits in functions that make "
  "no calls, no product feeding a sum (contracted by design); riscv64: 64 bit integers, scalar results. The rest of the domain is "
  "in the known findings. Runtime calls other than copies are not modelled." + TRUST)
