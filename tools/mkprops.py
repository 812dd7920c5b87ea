#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The text below is the source of truth."""
import json, os
B = "whasm/src/binary/"
C = B + "core/"
V = "whasm/src/validation/"
S = "whasm/src/structure/"
P = []


def p(id, title, statement, over, qtext, why, files, mech, **kw):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    d["anchors"].update(kw)
    assert len(title) <= 80, title
    P.append(d)


PARSER = [C + f for f in ("byte.rs", "array.rs", "float.rs", "signed.rs", "unsigned.rs", "sized.rs",
                          "string.rs", "vec.rs", "traits.rs", "error.rs")] + \
         [B + f for f in ("idx.rs", "instr.rs", "module.rs", "ty.rs")]
VALID = [V + f for f in ("mod.rs", "context.rs", "idx.rs", "instr.rs", "module.rs", "stacks.rs", "ty.rs")]

p("C01", "Parsing a module decides the binary format",
  "Reading a module from a byte string succeeds exactly when the whole string is a well-formed WebAssembly 1.0 binary module "
  "(over-long but value-preserving integer encodings are allowed), and then yields the abstract module those bytes denote. "
  "Otherwise it reports an error and yields no module.",
  ["inputs"], "all finite byte strings",
  "One test parses one 74-byte module; the rest parse isolated integers or short vectors. The claim is about every byte string, "
  "in particular every malformed one.",
  PARSER,
  [("one parser per grammar production, composed by reading fields in order", B), ("section loop", B + "module.rs"),
   ("opcode table", B + "instr.rs")],
  observe_at=["result of parsing a module: success or error, and the module value"])

p("C02", "Validating a module decides WebAssembly 1.0 validity",
  "Validation accepts a parsed module exactly when the module satisfies the WebAssembly 1.0 validation rules: every function body, "
  "constant expression, type, limit, segment, import, export and start function is well-typed in the module's context. "
  "Every other parsed module is rejected with an error.",
  ["inputs", "programs"], "all modules the parser can produce",
  "The existing tests never validate a module at all; validity is a statement about all programs.",
  VALID,
  [("operand and control stacks", V + "stacks.rs"), ("per-instruction typing", V + "instr.rs"),
   ("module-level conditions", V + "module.rs"), ("index spaces", V + "context.rs")],
  observe_at=["result of validating a module"])

p("C03", "Parsing never panics and never over-reserves memory",
  "For every input, parsing returns a value or an error; it never panics, overflows an integer or indexes out of bounds. "
  "Memory is never reserved on the strength of a count the input merely declares: no vector reserves room for elements before they are read.",
  ["inputs"], "all finite byte strings, for the module parser and for each component parser",
  "Tests exercise a handful of inputs; a panic or abort needs one particular hostile input.",
  PARSER,
  [("end-of-input check on each byte", C + "byte.rs"), ("growth only by pushing read elements", C + "vec.rs"),
   ("shift bounds in the integer readers", C + "unsigned.rs")],
  observe_at=["process outcome of parsing", "memory reserved while parsing"])

p("C04", "Validation never panics",
  "For every parsed module, validation returns a verdict; it never panics, overflows an integer or indexes out of bounds, whatever "
  "indices, operand sequences, alignments or nesting the module contains.",
  ["inputs", "programs"], "all modules the parser can produce",
  "No test validates a module; a panic needs one particular ill-typed program.",
  VALID,
  [("bounds check before each index", V + "idx.rs"), ("height check before each pop", V + "stacks.rs"),
   ("shift bound in the alignment check", V + "instr.rs")],
  observe_at=["process outcome of validating"])

p("C05", "Unsigned integers decode to their LEB128 value",
  "Reading an unsigned integer of 8, 16, 32 or 64 bits consumes exactly the bytes up to and including the first one without the continuation bit "
  "and yields their base-128 little-endian value whenever it fits the width, however much zero padding is present. "
  "A value that does not fit gives an out-of-range error at the first byte that makes this certain, and input ending before that gives an end-of-input error.",
  ["inputs"], "all byte strings of any length, for the four widths",
  "Five sample encodings are tested, all at 8 bits; widths 16, 32 and 64, the overflow boundary and unbounded padding are not.",
  [C + "unsigned.rs", C + "byte.rs"], [("accumulate-and-check loop", C + "unsigned.rs")],
  observe_at=["value, error kind and remaining input of an unsigned read"])

p("C06", "Signed integers decode to their two's complement LEB128 value",
  "Reading a signed integer of 8, 16, 32 or 64 bits consumes exactly the bytes up to and including the first one without the continuation bit "
  "and yields their sign-extended base-128 value whenever it fits the width, however much sign-consistent padding is present. "
  "A value that does not fit gives an out-of-range error at the first byte that makes this certain, and input ending before that gives an end-of-input error.",
  ["inputs"], "all byte strings of any length, for the four widths",
  "Nine sample encodings are tested, all at 8 bits; sign extension at 16, 32 and 64 bits and the range boundaries are not.",
  [C + "signed.rs", C + "byte.rs"], [("accumulate-and-check loop with sign tracking", C + "signed.rs")],
  observe_at=["value, error kind and remaining input of a signed read"])

p("C07", "Floats decode bit-exactly",
  "Reading a 32-bit or 64-bit float consumes exactly 4 or 8 bytes and yields the float whose IEEE 754 bit pattern is those bytes in little-endian order, "
  "including every NaN payload, infinity, subnormal and signed zero. Fewer available bytes give an end-of-input error.",
  ["inputs"], "all 2^32 and 2^64 bit patterns, and all shorter inputs",
  "Two tests read the constant pi; NaN payloads cannot even be compared with the equality the tests use.",
  [C + "float.rs", C + "byte.rs"], [("byte-wise copy into the float's storage", C + "float.rs")],
  observe_at=["bit pattern of the value read", "remaining input"])

p("C08", "Counted sequences, run-length lists, arrays and names decode exactly",
  "A counted sequence yields exactly the declared number of elements in input order; a run-length list yields each run's value repeated its declared "
  "number of times, in order, and is rejected when the total reaches 2^32; a fixed array yields exactly its length. A name is accepted exactly when its bytes are valid UTF-8 and denotes those characters. "
  "Each consumes exactly its encoding, and the first element that fails makes the whole read fail with that element's error.",
  ["inputs"], "all byte strings, all element types used by the format",
  "Five short success cases are tested; failures part-way, empty runs, totals near 2^32, UTF-8 rejection and sequences of composite elements are not.",
  [C + "vec.rs", C + "array.rs", C + "string.rs", C + "byte.rs"],
  [("element loop", C + "vec.rs"), ("UTF-8 conversion", C + "string.rs")],
  observe_at=["elements, error and remaining input of a sequence read"])

p("C09", "Size-delimited items fill their declared size exactly",
  "An item preceded by its byte size is accepted only if its contents decode using exactly that many bytes; contents that would need more, or leave some unused, are an error. "
  "While decoding it, nothing beyond the declared size is consumed from the input, so what follows is read from right after it.",
  ["inputs"], "all byte strings, all nested content types",
  "Three tests cover one success, one leftover and one skip with tiny contents; truncated input, nesting and what follows the item are not covered.",
  [C + "sized.rs", B + "module.rs"], [("bounded view of the input with a byte counter", C + "sized.rs")],
  observe_at=["result of reading a size-delimited item", "remaining input"])

p("C10", "Module framing: preamble, section order and custom sections",
  "A module is accepted only if it starts with the magic number and version 1, its non-custom sections have known ids 1 to 11 in strictly increasing order, and sections fill the input to its end. "
  "Custom sections may appear anywhere between sections, need a valid name, are otherwise skipped whole, and never change the resulting module.",
  ["inputs"], "all byte strings",
  "One module with one section layout is tested; duplicate, misordered, unknown and custom sections, and trailing bytes, are not.",
  [B + "module.rs", C + "sized.rs"], [("section loop with last-seen id", B + "module.rs"), ("name-and-skip reader", B + "module.rs")],
  observe_at=["result of parsing a module"])

p("C11", "Function declarations and bodies are paired by position",
  "A module is accepted only if it declares exactly as many function types as it has bodies, also when either section is missing. "
  "The i-th function of the result has the i-th declared type index, the i-th body's locals in order, and the i-th body's instructions.",
  ["inputs"], "all byte strings",
  "One module with one function is tested; count mismatches and several functions are not.",
  [B + "module.rs"], [("length comparison and pairing loop", B + "module.rs")],
  observe_at=["functions of a parsed module", "result of parsing a module"])

p("C12", "Each opcode decodes to its instruction with its immediates in order",
  "Every opcode of WebAssembly 1.0 decodes to the instruction it names, with its immediates read in format order and with their format encodings, consuming exactly those bytes. "
  "Every other opcode is rejected with an error that carries the offending byte.",
  ["inputs"], "all 256 opcodes with all immediates",
  "Tests decode a single constant instruction; the table has 172 entries.",
  [B + "instr.rs", B + "idx.rs", S + "instr.rs"], [("opcode match", B + "instr.rs")],
  observe_at=["instruction decoded from bytes", "remaining input"])

p("C13", "Structured instructions nest exactly as delimited",
  "The body of a block, loop or conditional is exactly the instruction sequence up to its own matching terminator; a conditional's second arm is present exactly when its separator is, and is otherwise empty. "
  "A separator anywhere else, or a missing terminator, is an error, and terminators and separators never appear as instructions of a result.",
  ["inputs"], "all byte strings, all nesting depths",
  "No test parses a structured instruction.",
  [B + "instr.rs"], [("terminated-sequence reader", B + "instr.rs")],
  observe_at=["instruction tree of a parsed expression"])

p("C14", "Types and module records decode field by field",
  "Value types, function types, limits, table, memory and global types, and import, export, element, data, start, table, memory and global records decode to exactly the fields the format prescribes, in its order and with its discriminator bytes. "
  "Any other discriminator is rejected with an error that carries the offending byte.",
  ["inputs"], "all byte strings",
  "One module exercises a few of these records with zero or one entries.",
  [B + "ty.rs", B + "module.rs", B + "idx.rs"], [("per-record readers", B + "ty.rs"), ("per-record readers", B + "module.rs")],
  observe_at=["records of a parsed module"])

p("C15", "Decoding is local: only an item's own bytes matter",
  "Reading any item other than a whole module or section contents depends only on the bytes it consumes: appending anything after them changes neither the value nor the number of bytes consumed, and the remaining input is exactly the untouched suffix. "
  "Every successful read other than of an empty array consumes at least one byte.",
  ["inputs"], "all pairs of byte strings (item bytes, arbitrary continuation), all item types",
  "Tests end the input right after the item, so they cannot observe over-reading.",
  PARSER, [("all readers take bytes one at a time from the front", C + "byte.rs")],
  observe_at=["remaining input after a read"])

p("C16", "Every instruction pops and pushes exactly its signature",
  "In reachable code, a non-control instruction is accepted exactly when the top of the operand stack has its parameter types, and it replaces them by its result types; both are those of WebAssembly 1.0 for that instruction and context. "
  "Selection requires two operands of one type.",
  ["programs"], "all instruction sequences, all contexts",
  "No test validates an instruction; 172 instructions times operand stacks cannot be sampled.",
  [V + "instr.rs", V + "stacks.rs"], [("per-instruction pop/push lists", V + "instr.rs"), ("typed pop", V + "stacks.rs")],
  observe_at=["verdict on modules containing the instruction"])

p("C17", "Blocks, branches and unreachable code are typed by the standard rules",
  "A block body sees only its own operands and must leave exactly its result types; a branch needs the operands its target label expects, counting labels outwards from the innermost with the function body outermost; all targets of a table branch must agree. "
  "After an unconditional transfer the rest of the block is accepted exactly when some choice of operand types makes it well-typed.",
  ["programs"], "all instruction trees of any nesting, all contexts",
  "No test validates a block or a branch.",
  [V + "instr.rs", V + "stacks.rs", V + "idx.rs"], [("control frames with height and unreachable flag", V + "stacks.rs"), ("label lookup", V + "idx.rs")],
  observe_at=["verdict on modules containing control instructions"])

p("C18", "Index spaces list imports first and are bounds-checked",
  "Every function, table, memory, global, type and local reference is accepted exactly when it is below the size of its space, where imports come first in import order followed by the module's own definitions, and parameters come before declared locals. "
  "A reference in range denotes the entity at that position.",
  ["inputs", "programs"], "all modules",
  "No test validates a module with an import or a reference.",
  [V + "context.rs", V + "idx.rs", V + "module.rs"], [("context construction", V + "context.rs"), ("bounds checks", V + "idx.rs")],
  observe_at=["verdict and reported external types of a module"])

p("C19", "Constant expressions are constant and have the required type",
  "Global initialisers and segment offsets are accepted exactly when they consist only of constants and reads of immutable globals and leave exactly one value of the required type. "
  "A global initialiser may read imported globals only.",
  ["inputs", "programs"], "all modules",
  "No test validates an initialiser.",
  [V + "instr.rs", V + "module.rs"], [("constant-instruction filter", V + "instr.rs"), ("separate context for initialisers", V + "module.rs")],
  observe_at=["verdict on modules with globals or segments"])

p("C20", "Limits are enforced",
  "A table or memory, defined or imported, is accepted only if its minimum does not exceed its maximum; a memory's sizes, including its minimum when no maximum is given, must not exceed 65536 pages. Every other limit is accepted.",
  ["inputs"], "all pairs of 32-bit limits",
  "No test validates limits.",
  [V + "ty.rs", V + "module.rs"], [("limits checks", V + "ty.rs")],
  observe_at=["verdict on modules with tables or memories"])

p("C21", "Module-level conditions are enforced",
  "A module is accepted only if it has at most one table and at most one memory counting imports, every function type has at most one result, export names are pairwise distinct, and the start function takes and returns nothing. "
  "None of these conditions rejects a module that satisfies it.",
  ["inputs"], "all modules",
  "No test validates a module.",
  [V + "module.rs", V + "ty.rs"], [("checks after entity validation", V + "module.rs")],
  observe_at=["verdict of validation"])

p("C22", "Memory accesses need a memory and at most natural alignment",
  "Every load and store is accepted only if the module has a memory and the alignment exponent does not exceed the base-2 logarithm of the access width in bytes; every smaller alignment and every offset is accepted.",
  ["inputs", "programs"], "all 23 access instructions with all 32-bit alignments and offsets",
  "No test validates a memory access.",
  [V + "instr.rs"], [("alignment comparison in load and store checks", V + "instr.rs")],
  observe_at=["verdict on modules with loads and stores"])

p("C23", "Validation reports the external types of imports and exports in order",
  "A successful validation reports one external type per import and one per export, in declaration order, each of the right kind and equal to the type of the entity it refers to.",
  ["inputs"], "all valid modules",
  "No test looks at a validation result.",
  [V + "module.rs", V + "idx.rs", V + "context.rs"], [("import and export loops", V + "module.rs")],
  observe_at=["value returned by validation"])

p("C24", "Functions, globals and segments are validated independently",
  "Whether a function body, initialiser or segment is accepted depends only on itself and the module's declarations, never on the contents of other bodies, initialisers or segments. "
  "In particular operands, labels, locals and return types never leak from one to the next.",
  ["programs"], "all modules with any number of bodies and segments",
  "No test validates a module with several functions.",
  [V + "module.rs", V + "stacks.rs", V + "context.rs"], [("stacks emptied and locals reset after each body", V + "module.rs")],
  observe_at=["verdict on modules with several bodies"])

p("C25", "The command-line tool's exit status reports validity",
  "Run on a file, the command-line tool exits with status 0 exactly when the file's contents parse as a module that validates, and with a non-zero status and a message otherwise. Asking it to print the module never changes the status. An argument list that names no readable file ends with a message and a non-zero status.",
  ["inputs", "configurations"], "all files and all argument lists",
  "The tool has no tests.",
  ["parser/src/main.rs"], [("exit on every error", "parser/src/main.rs")],
  observe_at=["exit status of the tool"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
