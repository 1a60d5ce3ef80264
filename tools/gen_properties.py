#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script only for readability of the source text).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or ["JSON registerification result printed by the fbdl command on stdout"],
                          "hook_needed": None}})

GOLD = "The golden registerification cases fix about sixty hand written layouts; they cannot cover the combinations of functionality kinds, widths, counts, atomicity, bus widths and nesting that decide where the allocator puts things."

p("C01", "No two functionalities ever share a bus register bit",
  "In the register map produced for any valid bus description, every bit of every register (also counted globally, with every block and every element of a block array placed at its address) belongs to at most one item of one functionality: configs, masks, statics, statuses, irq flags, irq enables, proc and stream params and returns, the ID and the TIMESTAMP. A valid description always compiles to such a map.",
  ["inputs", "programs", "configurations"],
  "all valid bus descriptions, bus widths, element widths, array counts, nesting and declaration orders",
  GOLD, ["internal/reg/reg.go", "internal/reg/config.go", "internal/reg/static.go", "internal/reg/status.go", "internal/reg/irq.go", "internal/reg/proc.go", "internal/reg/stream.go", "internal/gap/pool.go", "pkg/fbdl/types/access.go"],
  [("one running address counter per block", "internal/reg/reg.go:regFunctionalities"), ("gap pool", "internal/gap/pool.go"), ("access constructors", "pkg/fbdl/types/access.go")])

p("C02", "Blocks and registers stay inside disjoint, aligned, exactly nested regions",
  "Every register of a block lies inside the block's own size, and the blocks of a bus occupy address spaces that start at 0 for the bus, hold exactly count times the aligned size, lie inside the parent's (for a parent array: the first parent's) address space, and overlap neither each other nor the parent's own registers. Without any align property every aligned size is a power of two and every start address a multiple of it; an align property set on the bus alone makes all aligned sizes and starts multiples of it, and a block's own align makes its aligned size a multiple of that align. Own and cumulated sizes count exactly the registers used by the block and by the block with its descendants (an irq with an enable always counts two).",
  ["inputs", "programs", "configurations"],
  "all trees of blocks and block arrays, own sizes, counts and align values on bus and blocks",
  "The two align cases and a few nested cases fix sample trees; ties, deep nesting, arrays of blocks and alignments combine freely.",
  ["internal/reg/reg.go", "internal/reg/assign.go", "internal/util/util.go"],
  [("bottom-up block sizes", "internal/reg/reg.go:regBlock, alignBlockSize"), ("top-down placement from the end of the parent", "internal/reg/assign.go"), ("AlignToPowerOf2, AlignToMultipleOf", "internal/util/util.go")])

p("C03", "Access information describes exactly the declared items",
  "The access information of every functionality agrees with its declaration and with itself: item count and width are the declared ones, the register width is the bus width, and type, register count, start and end address, start and end bit and start and end register widths all describe one and the same placement of exactly count times width bits with no bit beyond the register width. Items of atomic functionalities not wider than a register never straddle two registers, and every address of a block's own size holds at least one item or strobe or directly follows an irq with an enable.",
  ["inputs", "programs"], "all functionality kinds, widths, counts, atomicities, start bits and bus widths",
  "access_test.go checks a handful of constructor calls; the redundant fields must agree for every width, count, start bit and bus width.",
  ["pkg/fbdl/types/access.go", "internal/reg/config.go", "internal/reg/status.go", "internal/reg/static.go", "internal/reg/mask.go", "internal/reg/proc.go", "internal/reg/stream.go"],
  [("access constructors", "pkg/fbdl/types/access.go"), ("choice of the access type", "internal/reg")])

p("C04", "Accessing one functionality never disturbs another in the same register",
  "Functionalities share a register only when that is safe: a register that holds a config, a mask, a proc or stream param, an irq enable or a clear strobe never holds another writable functionality, and a register holding proc or stream data, a clear-on-read irq or a call, exit or strobe address holds nothing that does not belong to that same functionality. Two irqs never share a register, and writing the register that clears an explicitly cleared irq writes no config, mask, param or enable, not even its own enable.",
  ["inputs", "programs"], "all mixes of functionality kinds, widths and orders in one block",
  "Golden tandems fix about twenty pairs; whether a gap may be reused depends on the accumulated state of the gap pool and on everything already placed in the block.",
  ["internal/gap/pool.go", "internal/gap/single.go", "internal/reg/irq.go", "internal/reg/config.go", "internal/reg/status.go", "internal/reg/static.go"],
  [("write-safe flag of a gap", "internal/gap/single.go"), ("gap selection", "internal/gap/pool.go"), ("irq placement", "internal/reg/irq.go")])

p("C05", "Compilation result depends on nothing but the description and options",
  "Compiling the same description with the same options always produces byte-identical outputs and, unless it has several errors, a byte-identical diagnostic, whatever the number of scheduler threads, the environment, the absolute location of the project, the file names and creation order inside a package directory, unrelated packages on the search path, and whatever was compiled before in the same process through the Go API. Splitting a package into several files or moving definitions between the files of one package does not change the result.",
  ["inputs", "schedules", "histories", "configurations"],
  "all descriptions, scheduler interleavings, process histories, directory orders and package file partitions",
  "Each golden case is compiled once in one fresh process and mostly from a single file.",
  ["internal/prs/pre.go", "internal/prs/prs.go", "internal/prs/pkg.go", "internal/ins/ins.go", "internal/reg/assign.go", "internal/util/hash/constContainer.go", "pkg/fbdl/types/init.go"],
  [("sorted file names", "internal/prs/pre.go"), ("one goroutine per package", "internal/prs/prs.go:ParsePackages"), ("sorted constants in hashes", "internal/util/hash/constContainer.go")],
  ["stdout, -c file, stderr and exit status of the command", "result of fbdl.Compile"])

p("C06", "Bus ID identifies the functional content of the bus",
  "Every compiled bus has exactly one ID static at address 0, bit 0, as wide as the bus but at most 32 bits, whose initial value has exactly that width. Rewriting a description without changing the elaborated bus never changes the ID, whereas changing the kind, a name, a documentation, an array size, a width, a range, an atomicity, an initial, reset or read value, a delay, an irq property or a block constant value anywhere in the bus outside groups, adding, removing or moving an element or a part of a value to another place, or changing the masters, the reset or the width of the bus changes the ID (up to accidental checksum collisions).",
  ["inputs", "programs", "histories"], "all pairs of descriptions that elaborate equally, and all single functional edits",
  "Goldens pin about sixty IDs, they never compare the IDs of two related descriptions.",
  ["internal/util/hash", "internal/reg/id_and_ts.go", "internal/reg/reg.go"],
  [("nested checksum", "internal/util/hash"), ("ID static", "internal/reg/id_and_ts.go")])

p("C07", "Constant expressions evaluate exactly to their mathematical value",
  "An expression over integers (decimal, binary, octal, hexadecimal), floats, booleans, strings, time and constant references with parentheses, unary and binary arithmetic, shifts, ranges, lists and the built-in functions evaluates, with the documented precedence and left associativity, to its exact value and type. Operations with no defined value (division by zero, negative shift counts, ill-typed operands, logarithm of a non-positive number, a result that the built-in or operator cannot represent) end in an error, never in a wrong value.",
  ["inputs", "programs"], "all well formed expressions over values inside the 64 bit range",
  "Existing expression tests are error cases and a few tree shape unit tests; no test computes values of composed expressions.",
  ["internal/prs/expr.go", "internal/prs/call.go", "internal/prs/func.go", "internal/ast/expr.go", "internal/val/val.go"],
  [("operator precedence parser", "internal/ast/expr.go"), ("evaluation", "internal/prs/expr.go"), ("built-in functions", "internal/prs/func.go")],
  ["constants dumped with -c", "error messages"])

p("C08", "Init, reset and read values reach the output as the right bits",
  "For every config, mask, static, status and irq the initial, reset, read, enable-initial and enable-reset values reach the output as bit strings: an integer as a bit string exactly as wide as the functionality holding its value (two's complement when negative), a bit string with its format and digits, metavalues included, unchanged. A value that was not given stays empty, and a value that does not fit the width is rejected.",
  ["inputs"], "all widths, integer values and bit strings, on all functionalities and properties",
  "Two golden cases use init values; encodings and range checks depend on width modulo 3 and 4, sign and word size.",
  ["internal/val/bit_str.go", "internal/ins/common.go", "internal/ins/config.go", "internal/ins/mask.go", "internal/ins/static.go", "internal/ins/status.go", "internal/ins/irq.go"],
  [("BitStrFromInt", "internal/val/bit_str.go"), ("value processing", "internal/ins")])

p("C09", "Types, parameters, constants and packages are transparent abstractions",
  "A description in which repeated structure is factored into type definitions with parameters, chains of types, constants, built-in function calls and imported packages compiles to exactly the same output as the description obtained by substituting arguments for parameters and inlining everything by hand. Argument order, keyword or positional passing, default values, and the place where a type is defined do not matter.",
  ["programs"], "all ways of factoring a description, all nestings of parametrised types, shadowing and imports",
  "Tests use a handful of one or two level type chains; capture, shadowing and ordering problems need combinations.",
  ["internal/ins/type_chain.go", "internal/ins/args.go", "internal/prs/scope.go", "internal/prs/symbol_container.go", "internal/prs/type.go", "internal/prs/inst.go"],
  [("type chain resolution", "internal/ins/type_chain.go"), ("argument resolution", "internal/ins/args.go"), ("symbol lookup through scopes", "internal/prs/scope.go")])

p("C10", "Output holds every declared functionality exactly once, as declared",
  "The output of a valid description contains each declared functionality exactly once, under its parent, in declaration order for functionalities of one kind other than subblocks, with its name, documentation, array size and every property exactly as declared or at its documented default, and contains nothing that was not declared except the generated ID and TIMESTAMP.",
  ["inputs", "programs"], "all kinds of functionalities, properties, defaults, nestings (groups and blackboxes included) and counts",
  "Golden outputs list few properties per kind; a lost or swapped property value on an unexercised kind goes unseen.",
  ["internal/ins", "internal/util/block/block.go", "internal/util/group/group.go", "internal/prs/inst.go"],
  [("instantiation of every kind", "internal/ins"), ("adding elements to blocks and groups", "internal/util")])

p("C11", "Names resolve lexically and imports by alias; constants come out as defined",
  "A name means the innermost definition visible where it is written: constants and types of the enclosing bodies and the parameters of the enclosing types from inside out, then the package's files, then imported packages when qualified by the import name of the file; a name not visible there is an error, never silently another symbol. Every constant of a block, group or package is output exactly once with its exact value, of the right kind, under the package or element that defines it.",
  ["programs"], "all nestings of scopes, homonyms, import aliases and package file partitions",
  "Tests define at most one level of constants and one import; shadowing, same-named symbols in different packages and mutual order are not exercised.",
  ["internal/prs/scope.go", "internal/prs/symbol_container.go", "internal/prs/file.go", "internal/prs/pkg.go", "internal/prs/import.go", "internal/prs/pre.go", "internal/ins/const.go", "internal/util/constContainer/constContainer.go", "pkg/fbdl/cnst/container.go"],
  [("scope chain", "internal/prs/scope.go"), ("import binding", "internal/prs/pre.go"), ("constant containers", "internal/util/constContainer")],
  ["block Consts on stdout", "package constants written by -c"])

p("C12", "Every ill-formed description is rejected with a diagnostic and no output",
  "A description that breaks a rule of the language is never compiled: the command exits with status 1, prints a one-error diagnostic on stderr and prints no register map. The rules include property names, types and values per kind, allowed inner functionalities, duplicate names, unknown symbols, argument count and naming, instantiation of non-types, indentation, spacing and unterminated literals, width and range conflicts, array sizes, reserved names, and import errors.",
  ["inputs", "programs"], "all places a rule can be broken inside otherwise valid descriptions, for every kind of functionality",
  "Error tests check one minimal file per message; the same rule in a nested body, a type body, another kind of element or a package file is not checked.",
  ["internal/tok", "internal/ast", "internal/prs/check.go", "internal/prs/prs.go", "internal/ins/check.go", "internal/ins", "internal/util/util.go"],
  [("checks in parsing", "internal/prs"), ("property checks", "internal/ins/check.go"), ("tokenizer checks", "internal/tok/parse.go")],
  ["exit status, stdout and stderr of the command"])

p("C13", "The compiler neither crashes nor runs forever on any input",
  "For every file content and project the command ends, within time and memory reasonable for its size, either with status 0 and a complete JSON document or with status 1 and a message; it never ends in a runtime panic (nil dereference, index out of range and the like), a fatal signal or unbounded recursion. Only features that the compiler declares as not implemented may stop with that declaration.",
  ["inputs", "fault_sequences"], "arbitrary byte strings, truncations and mutations of real descriptions, hostile nestings and self references",
  "Tests contain only well formed or single-error files.",
  ["internal/tok", "internal/ast", "internal/prs", "internal/ins", "internal/reg", "cmd/fbdl/main.go"],
  [("tokenizer and builder bounds checks", "internal/tok, internal/ast"), ("dependency cycle detection", "internal/prs")],
  ["exit status, stdout and stderr of the command"])

p("C14", "Layout of the source text does not change its meaning",
  "Blank lines, comments, line positions, one-line versus body properties, single versus multi constant and import blocks, redundant parentheses, spacing around operators, numeral notation and the order of independent constants, types and properties never change the compilation result. Documentation comments directly above a functionality, at any depth, appear verbatim as its documentation and other comments never appear.",
  ["inputs", "programs"], "all equivalent texts of a description",
  "Tokenizer and AST tests check fixed snippets in one style.",
  ["internal/tok/parse.go", "internal/ast/build.go", "internal/ast/body.go", "internal/ast/doc.go", "internal/ast/const.go", "internal/ast/import.go", "internal/ast/inst.go", "internal/ast/prop.go"],
  [("tokenizer", "internal/tok/parse.go"), ("AST builder", "internal/ast")])

p("C15", "Diagnostics point at the offending token",
  "A diagnostic that names a source position names the file that contains the offending text and the line and column (one based) where it starts; when it also prints the source, it reproduces that line unchanged with a marker under the offending text. This holds wherever in the file, package or nesting the error occurs and whatever precedes it: text put in front only shifts the position.",
  ["inputs", "programs"], "all positions of all located errors, behind any preceding text, in any file of any package",
  "Golden errors occur in the first lines of tiny single files.",
  ["internal/tok/error.go", "internal/tok/token.go", "internal/tok/position.go", "internal/tok/parse.go", "internal/tok/context.go", "internal/tok/join.go"],
  [("token positions", "internal/tok/parse.go"), ("error formatting", "internal/tok/error.go")], ["stderr of the command"])

p("C16", "Bit string operations keep the represented value",
  "For every bit string literal in binary, octal or hexadecimal format the public bit string type reports the right format, bit width, character width, digits and value, converts to an equivalent binary string, and extends to any larger width by zeros in front, metavalues being replicated per digit. Operations are pure: the receiver and other values never change.",
  ["inputs"], "all bit strings in all formats, digits, metavalues, letter cases and target widths",
  "bit_str_test.go checks about ten literals.",
  ["pkg/fbdl/types/bit_str.go", "internal/val/bit_str.go"],
  [("BitStr methods", "pkg/fbdl/types/bit_str.go")], ["return values of the public API of package types"])

p("C17", "Concurrent package parsing is race free and schedule independent",
  "However the concurrent parsing of packages and their files interleaves, the compiler performs no conflicting unsynchronized memory access, loses no symbol, never deadlocks, and ends with the same output, or with the diagnostic of one of the errors really present.",
  ["schedules", "inputs"], "all interleavings of parsing goroutines, any number of packages and files, errors in any subset of the packages",
  "The golden projects have at most two packages and are never run with the race detector.",
  ["internal/prs/prs.go", "internal/prs/pkg.go", "internal/prs/file.go"],
  [("goroutine per package and wait group", "internal/prs/prs.go"), ("package locks", "internal/prs/pkg.go")],
  ["race detector reports, stdout, stderr"])

p("C18", "A timestamp takes one register and changes nothing else",
  "With the timestamp option the bus gets exactly one TIMESTAMP static, as wide as the bus but at most 36 bits, alone in the first address behind all other own registers of the bus, whose value is the generation time; every other own register of the bus and the relative layout inside every block stay as without the option, the own size grows by one and the ID does not depend on the generation time. Without the option no TIMESTAMP exists.",
  ["inputs", "configurations", "histories"], "all descriptions, bus widths and generation times",
  "No test uses the option.",
  ["internal/reg/id_and_ts.go", "internal/reg/reg.go"],
  [("timestamp static", "internal/reg/id_and_ts.go"), ("address reservation", "internal/reg/reg.go:Registerify")])

p("C19", "Helper methods of the Go API agree with the data they describe",
  "For every compiled bus the public Go API returns the same model as the command prints, and its helper methods tell the truth about it: start addresses, access address ranges, parameter and return buffer sizes and starts, proc and stream direction predicates, range bit widths and shifts, constant container emptiness and group read-only status are equal to what the plain data implies.",
  ["inputs", "programs"], "all models that can be compiled, all helper methods",
  "range_test.go covers three ranges; other helpers have no test.",
  ["pkg/fbdl/fn", "pkg/fbdl/types", "pkg/fbdl/cnst/container.go", "pkg/fbdl/compile.go"],
  [("helper methods", "pkg/fbdl/fn, pkg/fbdl/types")], ["return values of the public Go API"])

p("C20", "Package discovery finds exactly the visible packages, once each",
  "The packages available to imports are exactly the directories named with the fbd- prefix that hold description files, anywhere below the working directory and the directories listed in the search path variable, reached also through symbolic links, each taken once however many links, link cycles or overlapping search paths lead to it. Dangling links, unreadable directories, empty entries and missing paths are skipped, and an import whose path matches no package or more than one package is an error.",
  ["inputs", "configurations", "fault_sequences"], "all directory trees with links, cycles, unreadable parts, and all search paths",
  "One golden directory holds a two-file package; links, cycles, FBDPATH and permissions are never exercised.",
  ["internal/prs/pre.go", "internal/prs/prs.go", "internal/util/directory.go"],
  [("directory walk with visited set", "internal/prs/pre.go"), ("import binding", "internal/prs/pre.go")],
  ["constants dumped with -c", "exit status and stderr"])

p("C21", "The command reports success only when the requested outputs are complete",
  "The command exits 0 only if the complete JSON document of the requested main bus was written to stdout and, when asked for, the complete constants file was written to the requested or default path; when an input cannot be read or an output cannot be written it exits with a non-zero status and a message on stderr. Flags and parameters have their documented effect in any order, the name given with -main selects the bus, and no input file is ever modified.",
  ["fault_sequences", "configurations", "inputs"], "all argument orders and combinations, and all points where an output or input operation can fail",
  "Tests run one fixed command line and ignore write errors.",
  ["cmd/fbdl/main.go", "internal/args/parse.go", "internal/args/args.go", "internal/prs/pre.go"],
  [("argument parsing", "internal/args/parse.go"), ("output writing", "cmd/fbdl/main.go")],
  ["exit status, stdout, stderr, created files"])

p("C22", "Proc and stream addresses trigger exactly when their data is complete",
  "Params and then returns of a proc or stream are packed in declaration order without holes from the first bit of the functionality's first register, a proc's call address is the address of its last param register and its exit address that of its last return register, a stream's strobe address is the last register of its data, and empty procs and streams get one register of their own. A call or exit address exists exactly when there is something to trigger: params, no data at all, or a delay.",
  ["inputs", "programs"], "all numbers, widths, array counts and orders of params and returns, delays and bus widths",
  "About fifteen goldens fix sample widths; register boundary and array cases combine freely.",
  ["internal/reg/proc.go", "internal/reg/stream.go", "pkg/fbdl/types/access.go"],
  [("packing of params and returns", "internal/reg/proc.go, internal/reg/stream.go"), ("MakeSingleAccess, MakeArrayNRegsAccess", "pkg/fbdl/types/access.go")])

p("C23", "Ranges and widths of functionalities are consistent",
  "A config or param with a range is exactly as wide as the largest bound of the range needs, the output range has exactly the declared bounds in the declared order, and a functionality with neither width nor range is as wide as the bus. A range and a width may not both be set anywhere along the type chain, and bounds must be natural numbers in order.",
  ["inputs", "programs"], "all ranges, range lists and widths, set at any level of a type chain, on every kind that accepts them",
  "Golden range cases use one small range; boundaries at powers of two and large bounds are not covered.",
  ["internal/ins/config.go", "internal/ins/param.go", "internal/ins/common.go", "pkg/fbdl/types/range.go", "internal/ins/check.go", "internal/prs/check.go"],
  [("range processing", "internal/ins"), ("BitWidth", "pkg/fbdl/types/range.go")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
