"""What each property's proof consists of.

core      functions whose contracts are the property: every one of their obligations has to be
          discharged for the property to count as proved
panics    only obligations that rule out panics, overflow or non-termination count
skip      modules left out of this property's run (their contracts are discharged by the checks
          named in `relies`)
"""

ALL_PARSE = [r'^binary::', r'^structure::']

PROPS = {
    'C01': dict(mode='parse', core=ALL_PARSE),
    'C03': dict(mode='parse', core=ALL_PARSE, panics=True),
    'C05': dict(mode='parse', core=[r'^binary::core::unsigned ', r'^binary::core::byte '], skip=['binary::instr'], relies='C12', kani=['convert']),
    'C06': dict(mode='parse', core=[r'^binary::core::signed ', r'^binary::core::byte '], skip=['binary::instr'], relies='C12', kani=['convert']),
    'C08': dict(mode='parse', core=[r'^binary::core::(vec|array|string|error) '], skip=['binary::instr'], relies='C12', kani=['utf8'], std=True),
    'C09': dict(mode='parse', core=[r'^binary::core::sized ', r'^binary::module \| WasmBinaryParse for \(String,Consume\)'], skip=['binary::instr'], relies='C12', kani=['model']),
    'C10': dict(mode='parse', core=[r'^binary::module \| WasmBinaryParse for (module::Module|\(String,Consume\)) ', r'^structure::module \| Default', r'^binary::core::sized '], skip=['binary::instr'], relies='C12', kani=['compare', 'model']),
    'C11': dict(mode='parse', core=[r'^binary::module \| WasmBinaryParse for module::(Module|Func) ', r'^structure::module \| Default'], skip=['binary::instr'], relies='C12'),
    'C12': dict(mode='parse', core=[r'^binary::instr \| WasmBinaryParse for instr::Instr ', r'^binary::idx ']),
    'C13': dict(mode='parse', core=[r'^binary::instr '], kani=['equal']),
    'C07': dict(mode='kani', core=[], kani=['float'], technique='contract of the float readers proved by Kani on the real crate, complete for all byte sources (unwinding assertions on)'),
    # every item but a module; verus/spec/loc.rs derives locality from the decoder specification
    'C15': dict(mode='parse', core=[r'^binary::(?!module \| WasmBinaryParse for module::Module )', r'^structure::']),
    'C14': dict(mode='parse', core=[r'^binary::ty ', r'^binary::module \| WasmBinaryParse for module::(?!Module )', r'^binary::idx '], skip=['binary::instr'], relies='C12'),
}

# The validator's contracts rely on the parser's specifications only for what a module is, not for
# how it is read, so the parser's own obligations are left to C01.
V = dict(mode='full', only=[r'validation(::|$)', r'val(?!decl)', r'structure(::|$)'], case_fn=('validation::instr', 'instr::Instr::validate'))
# with the typing rules in the standard's form and the proof that they say the same
VD = dict(V, only=V['only'] + ['valdecl'])
PROPS.update({
    'C02': dict(VD, core=[r'^validation::'], cases='all', fidelity=True),
    'C04': dict(V, core=[r'^validation::'], cases='all', panics=True, whole=[r'^validation::stacks ']),
    # cases 0-2 numeric, 3 drop and select, 5 memory, 6 constants, variables, memory size, 7 calls
    'C16': dict(VD, core=[r'^validation::instr \| validate_', r'^validation::stacks \|.*operand'], cases=[0, 1, 2, 3, 5, 6, 7], kani=['types']),
    # 4 terminators, unreachable, return, 8 branches, 9 block and loop, 10 if
    'C17': dict(VD, core=[r'^validation::stacks ', r'^validation::instr \| .*instr::Instr ', r'^validation::instr \| .*instr::Expr ', r'^validation::idx \| .*idx::Label ', r'^validation::ty \| .*ty::RetVal '], cases=[3, 4, 8, 9, 10]),
    'C18': dict(V, core=[r'^validation::idx ', r'^validation::context ', r'^validation::module \| \S* for module::(Func|Elem|Data|Start|desc::Import|desc::Export|Import|Export) '], cases=[6, 7]),
    'C19': dict(V, core=[r'^validation::instr \| .*instr::ConstExpr ', r'^validation::module \| .*module::(Global|Elem|Data|Module) ', r'^validation::context \| .*(use_imported_globals|default)'], cases=[6]),
    'C20': dict(V, core=[r'^validation::ty \| .*ty::(Limits|Table|Mem) ', r'^validation::module \| .*module::(Table|Mem|desc::Import|Import|Module) '], cases=[]),
    'C21': dict(V, core=[r'^validation::ty \| .*ty::Func ', r'^validation::module \| .*module::(Start|Module) '], cases=[], kani=['types', 'names']),
    'C22': dict(V, core=[r'^validation::instr \| validate_'], cases=[5]),
    'C23': dict(V, core=[r'^validation::module \| .*module::(desc::Import|desc::Export|Import|Export|Module) ', r'^validation::idx ', r'^validation::context '], cases=[]),
    'C24': dict(V, core=[r'^validation::module \| .*module::(Func|Global|Elem|Data|Module) ', r'^validation::stacks \| .*(push_frame|pop_frame)'], cases=[]),
})

# main and the reading of its arguments; parser and validator by contract, discharged in C01 and C02
PROPS['C25'] = dict(mode='full', only=[r'cli$', r'valcli$', r'valclean$'], core=[r'^cli '], tool=True)

# obligations that, if not discharged, leave a panic or an endless loop possible
PANIC_ERRORS = ('precondition', 'overflow', 'underflow', 'decreases', 'invariant', 'divide', 'division', 'index', 'recommend', 'termination')

PARSE_ASSUMPTIONS = [
    'Verus, its bundled Z3 and vstd are sound; the specifications vstd assumes for Vec, String, Option, Result, slices and integers describe the standard library',
    'assumed specification of String::from_utf8 (verus/spec/stdspec.rs): succeeds exactly on vstd\'s valid_utf8 byte strings and yields the string with those bytes; check C08 verifies the standard library\'s own source of it against that specification (verus/std/utf8.rs); left to assume: an aligned read of a word yields its eight bytes in little-endian order, and a string is its bytes',
    'derived PartialEq of Instr against else and end tells the kinds apart; assumed by Verus, discharged by Kani in check C13',
    'the specification of array == array for [Byte; 4] against char and u8 arrays (verus/spec/stdspec.rs: group_array_eq) is assumed by Verus and discharged by Kani in check C10',
    'num_traits::FromPrimitive::from_u8 is exact; assumed by Verus, discharged by Kani in checks C05 and C06',
    'model of std::iter adaptors Take, Peekable and the counting inspect closure (verus/spec/model.rs), including WasmBinary for iterators over u8; checks C09 and C10 hold every state of the real adaptors against the model, one step at a time, with Kani; that a state is what the adaptor holds is the remaining assumption. slice.iter() and copied() are covered the same way. count is followed for 6 bytes only (bounded)',
    'the contract of the f32 and f64 readers is assumed here; check C07 discharges it with Kani on the real crate',
    'usize is 64 bits wide (global size_of usize == 8)',
    'num_traits generics are monomorphised at the widths the crate instantiates them with',
    'native stack exhaustion is outside the contracts (see KNOWN-FINDINGS.txt)',
    'memory exhaustion by a successful read is outside the contracts; only reservations ahead of reading are bounded',
]

VALID_ASSUMPTIONS = [
    PARSE_ASSUMPTIONS[0],
    'assumed specifications of slice::from_ref (discharged by Kani in checks C16 and C21), <[T]>::sort (a permutation in which equal elements are adjacent) and Vec::dedup (verus/spec/valstd.rs); check C21 runs sort and dedup on three names with Kani (bounded)',
    'derived PartialEq of ty::Val, ty::Mut, ty::Elem and Operand is structural equality (assumed by Verus, discharged by Kani in checks C16 and C21); Vec<Val> == [] tests emptiness (likewise, for any length); comparison of &String is comparison of characters (verus/spec/valstd.rs; Kani in check C21 up to 2 bytes, bounded)',
    'two iterator chains (iter().map(|e| &e.name).collect() and iter().chain(iter()).collect()) are replaced by verified loops that state what they collect',
    'the module was produced by the parser: it contains no bare else or end instruction. That every parsed module meets this is proved (valclean::parsed_clean) from the decoder specification, which check C01 equates with the parser',
    'usize is 64 bits wide (global size_of usize == 8)',
    'native stack exhaustion is outside the contracts (see KNOWN-FINDINGS.txt)',
]

CLI_ASSUMPTIONS = [
    PARSE_ASSUMPTIONS[0],
    'assumed contracts of the system calls (verus/spec/valcli.rs): std::env::args yields the process arguments, at least one, all of them Unicode; File::open fails only for a file that cannot be read; read_to_end yields the contents from the current position; process::exit ends the process with the low byte of its argument; returning from main is status 0',
    'the file is not changed while the tool runs, and standard output can be written (println! panics otherwise)',
    'formatting a message or a module neither panics nor fails; string equality and conversion of a string slice to a string keep the text',
    'the contracts of Module::parse and Module::validate are used here and discharged by checks C01 and C02',
    'rewrites of the tool\'s source: unwrap_or_else with a closure to the match it means, a match on string literals to comparisons in the same order, println! to the evaluation of its arguments',
    'native stack exhaustion is outside the contracts (see KNOWN-FINDINGS.txt)',
]

KANI_ASSUMPTIONS = [
    'Kani 0.68 and CBMC are sound; the unwinding bound of 20 is checked by unwinding assertions, so it restricts no input',
    'the byte source is any iterator that keeps returning the end once it has returned it',
    'the target is little-endian (x86-64), as in the build under test',
]

PROOF = 'Verus discharges every obligation of the functions involved, extracted from /repo on each run; '
NOTES = {
    'C01': PROOF + 'Module::parse is equated with a decoder specification written from the binary format, for all inputs.',
    'C03': PROOF + 'no panic, overflow, out-of-bounds index, endless loop or reservation beyond a constant in any parser function. Native stack depth and run-length expansion are recorded findings.',
    'C05': PROOF + 'the unsigned reader equals the LEB128 specification at each width, for all inputs including error kind and position.',
    'C06': PROOF + 'the signed reader equals the sign-extending LEB128 specification at each width, for all inputs including error kind and position.',
    'C07': 'Kani proves on the real crate, for every byte source, that the readers consume exactly 4 or 8 bytes and return their bit pattern; all loops are bounded by the operand width and unwinding assertions are on, so nothing is left out.',
    'C15': PROOF + 'every reader equals its decoder specification (as in C01), and every such specification is proved local: what it leaves unread is a suffix and has no influence, and at least one byte is read.',
    'C08': PROOF + 'vectors, run-length lists, arrays and names equal their specifications for every element type. UTF-8 acceptance is vstd\'s definition; the standard library\'s String::from_utf8 is verified against it from the toolchain\'s source.',
    'C09': PROOF + 'size-delimited reads equal their specification for every content type, with the frame condition that nothing beyond the declared size is consumed.',
    'C10': PROOF + 'preamble, section order, custom sections and end of input in Module::parse.',
    'C11': PROOF + 'pairing of declarations and bodies in Module::parse.',
    'C12': PROOF + 'Instr::parse equals an opcode table written from the binary format.',
    'C13': PROOF + 'nesting of blocks, loops and conditionals, by induction over the input.',
    'C14': PROOF + 'types and module records field by field.',
    'C02': PROOF + 'Module::validate accepts exactly the modules a validity specification written from the standard accepts, for every parsed module; its check of function bodies is proved equal to the typing rules in the form of the standard.',
    'C04': PROOF + 'no panic, overflow, out-of-bounds index or endless loop in any validator function, for every parsed module. Native stack depth is a recorded finding.',
    'C16': PROOF + 'every non-control instruction against a table of signatures, for every context and operand stack.',
    'C17': PROOF + 'blocks, branches and unreachable code against typing by an operand stack, which is proved to accept exactly what the typing rules of the standard (valdecl.rs) type, for every nesting.',
    'C18': PROOF + 'index spaces built imports first, every reference bounds-checked and resolved to the entity at its position.',
    'C19': PROOF + 'constant expressions of globals and segments, in the right context.',
    'C20': PROOF + 'limits of defined and imported tables and memories.',
    'C21': PROOF + 'table and memory counts, result counts, distinct export names, start function.',
    'C22': PROOF + 'every load and store: a memory exists, alignment at most natural.',
    'C23': PROOF + 'reported external types, in order.',
    'C24': PROOF + 'each item leaves the context as it found it, and its verdict is a function of itself and the declarations.',
    'C25': PROOF + 'main returns, or ends with status 0, exactly when the contents of the file its arguments name parse and validate; before any other end it has printed a message. System calls by assumed contract.',
}
NOT_APPLICABLE = {}
