#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept as Python only because it is easier to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: anchors["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe: anchors["observe_at"] = observe
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": anchors})

U="src/yul2ir/utils.rs"; G="src/yul.lalrpop"; AST="src/yul2ir/ast.rs"
CH="stdlib/chain.c"; CM="stdlib/chain_math.c"; EM="stdlib/evm_memory.c"; SL="stdlib/stdlib.c"; HA="stdlib/hostapi.h"; UT="stdlib/utils.c"
INS="src/yul2ir/instruction.rs"; YI="src/yul2ir/yul_instruction.rs"; CTX="src/yul2ir/context.rs"; TR="src/yul2ir/transform.rs"
CFG="src/yul2ir/config.rs"; MAIN="src/main.rs"; WASM="src/yul2ir/wasm.rs"; INF="src/yul2ir/infer.rs"

# ---------------------------------------------------------------- front end
p("F01","Comment removal changes nothing but comments",
  "Removing comments from a Yul source deletes exactly the `//...` and `/*...*/` comments that lie outside string literals, each up to its own terminator, and keeps every other character, including the contents of string literals and the newline that ends a line comment, in order. Every comment the language allows (such as one closed by `**/`) ends where the language says it ends.",
  ["inputs"],"every source text: any nesting of quotes, escapes inside strings, slashes and stars, at any position including end of file",
  "Two unit tests feed two fixed snippets; the property is about every string of characters, and the failing ones (a `/` before a quote, `**/`, `\\\"`) are rare combinations.",
  [U],[("comment stripper: single left-to-right character scanner with string/comment state","src/yul2ir/utils.rs remove_comments"),("call before parsing","src/main.rs main")],
  observe=["return value of the comment stripper"])
p("F02","String literals denote exactly the bytes they spell",
  "The decoded value of a string literal is the concatenation of its ordinary characters and the one character each supported escape (`\\\"`, `\\\\`, `\\'`, `\\n`, `\\r`, `\\t`, `\\0`, `\\xHH`, `\\u{...}`, backslash-newline continuation) stands for, and a numeric escape stands for the number its hex digits spell. A malformed or out-of-range escape is reported as the error for that mistake and never decodes to some other character.",
  ["inputs"],"every string literal body, i.e. every sequence of characters and escapes",
  "No unit test decodes an escape; the decoder is a per-character state machine over unbounded input.",
  [U],[("escape scanner","src/yul2ir/utils.rs scan_escape"),("string unescaper and error wrapper","src/yul2ir/utils.rs unescape_str_or_byte_str, unescape_str_wrap_error")])
p("F03","Lexical token classes are exactly Yul's",
  "Identifiers, decimal and hex numbers, string literals, hex data and data-segment names are recognised for exactly the spellings the compiler documents for Yul (ASCII letter or underscore start; digits, dot and dollar inside identifiers; non-empty digit runs), keywords win over identifiers, and the payload handed on is the token text without its delimiters.",
  ["inputs"],"every input text, token by token",
  "Token classes are infinite regular languages; unit tests never run the lexer.",
  [G],[("token regular expressions and payload trimming","src/yul.lalrpop Name, DecimalNumberInner, HexNumberInner, HexDataInner, DataSegmentWithNameInner, StringInner")])
p("F04","Parsing keeps every part of the program in its place",
  "A source is accepted exactly when it has Yul's block structure, and the tree produced holds each part in the role its position gives it: statements, parameters, returns, arguments, cases and nested objects in source order, condition versus body, loop initialiser, condition, post step and body, default branch, and type annotations.",
  ["programs"],"every Yul object the grammar can derive",
  "The parser is never run by a test; the property ranges over all derivations of a recursive grammar.",
  [G,AST],[("grammar productions and their tree-building actions","src/yul.lalrpop"),("tree types","src/yul2ir/ast.rs")])
p("F05","Contract packages carry their exact 4-byte big-endian code length",
  "Deployable code is always the unsigned 32-bit big-endian byte length of the wasm module followed by that module unchanged, whoever produces it (the command line output or an embedded sub-contract), and each output file holds the form its name promises: the module, its package, or the hexadecimal text of one of them.",
  ["inputs","programs"],"every module length and content",
  "No test builds a package or creates a contract; the producers and the consumer are in different languages and only agree by convention.",
  [U,MAIN,CH],[("package producer for embedded contracts","src/yul2ir/utils.rs merge_sub_wasm_with_length_prefix"),("package producer for the output file","src/main.rs main"),("package consumer","stdlib/chain.c wrapper_create, wrapper_create2")])

# ---------------------------------------------------------------- runtime library
p("R01","Addresses are 20 bytes, right-aligned in zero-padded words",
  "Every operation that yields an account address (caller, own address, origin, coinbase) returns a 32-byte word whose last 20 bytes are the address the host reported and whose first 12 bytes are zero. Every operation that takes an account operand (balance, external code size/copy/hash, calls, self-destruct) hands the host exactly the last 20 bytes of the operand word.",
  ["inputs","programs"],"every previous content of the result word and every operand word",
  "No test executes the runtime library; stale bytes in the result word only show for particular earlier contents.",
  [CH,HA],[("address wrappers with the +12 alignment and clearing","stdlib/chain.c wrapper_caller, wrapper_current_contract, wrapper_origin, wrapper_block_coin_base, wrapper_query_balance, wrapper_extcode_*, wrapper_selfdestruct")])
p("R02","Environment queries report the host's value unchanged",
  "Each environment builtin (call value, balances, chain id, base fees, gas price, gas, gas limit, timestamp, block number, block hash, prevrandao, sizes) asks the host for that very quantity and returns its full value: 256-bit quantities are converted from the host's big-endian bytes byte for byte, hashes are passed through as 32 bytes, and narrower scalars are forwarded unmodified.",
  ["inputs"],"every value the host may report",
  "No test executes the runtime library; byte-order or wrong-query mistakes are invisible for zero and palindromic values.",
  [CH,HA],[("value wrappers","stdlib/chain.c wrapper_callvalue ... wrapper_gas_price"),("host imports","stdlib/hostapi.h")])
p("R03","EVM memory words are big-endian in every access width",
  "Storing a value of any supported width to EVM memory writes the 32-byte big-endian word of that value at the given offset and nothing else (a byte store writes one byte), and loading in any width reads the matching bytes of the 32-byte big-endian word at the given offset; loads and stores of the different widths and representations therefore agree, and the free memory pointer, where the runtime keeps it aside, reads as the value last stored.",
  ["inputs","programs"],"every value, offset, and mix of access widths, whatever the memory held before",
  "No test executes a load or store; the width-specialised variants only differ on particular byte positions.",
  [CH],[("width-specialised stores and loads","stdlib/chain.c wrapper_mstore_*, wrapper_mload_*"),("byte-order conversions","stdlib/chain.c u256_to_big_endian, u256_from_big_endian_bytes, i32_to_bytes32_big_endian_bytes, i32_from_big_endian_bytes32")])
p("R04","EVM memory is grown before it is touched",
  "Before the runtime reads, writes or hands to the host any range of EVM memory, EVM memory has been made at least as large as the end of that range, and growing it makes at least the requested number of bytes usable at an unchanged base address.",
  ["inputs","programs"],"every operation that touches EVM memory, with every offset and length, in every order",
  "Only accesses beyond the initially available memory expose a missing growth step, and no test executes any access.",
  [CH,EM],[("growth primitive","stdlib/evm_memory.c evm_make_sure_memory"),("growth calls at memory-touching wrappers","stdlib/chain.c")],
  state=[("EVM memory base/size","where EVM memory lives and how much is usable","stdlib/evm_memory.c")])
p("R05","Calldata reads are bounded and zero-filled",
  "Reading calldata as a word, as the selector or as a copied range yields the calldata bytes at the requested positions and zero for every position at or past the end of the calldata, for every offset and length; the host is never asked for calldata outside its bounds, and whether the bytes come from the host or from a local copy makes no difference.",
  ["inputs","histories"],"every calldata content and size, every offset and length, every sequence of earlier reads",
  "Offsets at or past the end, sizes around the caching threshold and repeated reads are needed to see a mistake; no test executes a read.",
  [CH],[("calldata access and caching","stdlib/chain.c cachedCallDataSize, cachedCallDataCopy, wrapper_calldataload_*, wrapper_calldata_load_selector, wrapper_calldata_copy, wrapper_calldata_size*")],
  state=[("calldata cache","first-use copy of small calldata","stdlib/chain.c")])
p("R06","Copies into EVM memory transfer exactly the requested range",
  "Return-data, external-code, data and memory-to-memory copies write exactly the requested number of bytes at the requested EVM memory offset, taken from the requested source offset of the right source, and leave all other memory alone.",
  ["inputs","programs"],"every destination, source offset and length",
  "No test executes a copy; swapped or truncated operands look right whenever operands coincide.",
  [CH],[("copy wrappers","stdlib/chain.c wrapper_returndata_copy, wrapper_extcode_copy, wrapper_data_copy, wrapper_mcopy")])
p("R07","Storage variants agree on key and value encoding",
  "Every storage builtin passes the host the 32-byte big-endian key the program named and transfers the full 32-byte value in the byte order that host call expects, so a value written through one variant (native integer, byte word, little-endian host call) is read back unchanged through any other. Persistent and transient storage never reach each other's host calls.",
  ["inputs","histories"],"every key, value and interleaving of storage variants",
  "Agreement between variants shows only across a write by one and a read by another with asymmetric bytes; no test executes storage.",
  [CH],[("storage wrappers","stdlib/chain.c wrapper_sload_*, wrapper_sstore_*, wrapper_tload_*, wrapper_tstore_*")])
p("R08","Immutables are written at most once and read back unchanged",
  "Reading an immutable returns the value last written for that same immutable; writing it a second time stops the transaction without changing it; the bookkeeping that detects a second write uses a key different from the immutable's own and is only recorded together with the value.",
  ["histories","inputs"],"every sequence of immutable writes and reads with any keys and values",
  "Needs at least two writes to the same immutable; no test executes either operation.",
  [CH],[("immutable write guard and storage layout","stdlib/chain.c wrapper_setimmutable, wrapper_loadimmutable")])
p("R09","Logs carry the right data range and topics",
  "A log builtin emits one event whose data is exactly the named EVM memory range and whose topics are exactly the operands given, in order, with the topic count equal to the number of topics and unused topic slots empty.",
  ["inputs"],"every data range and topic values, for zero to four topics",
  "No test emits an event; a swapped or dropped topic needs distinct topics to show.",
  [CH],[("log wrappers","stdlib/chain.c wrapper_log0..4")])
p("R10","Hashing and termination pass exactly the named memory range",
  "keccak256, return and revert hand the host exactly the EVM memory range the program named; stop returns empty data; invalid and self-destruct reach the host operation of that name; and return, revert and invalid are never exchanged for one another.",
  ["inputs"],"every offset and length",
  "No test executes these wrappers.",
  [CH],[("wrappers","stdlib/chain.c wrapper_keccak256, wrapper_return, wrapper_revert, wrapper_stop, wrapper_invalid, wrapper_selfdestruct")])
p("R11","External calls forward their operands and report the real outcome",
  "Each kind of message call hands the host its own call type with the program's gas, callee, value and input range; its result is 1 exactly when the host reports success and 0 when it reports failure; and at most min(output length, size of the returned data) bytes of returned data, starting at its beginning, are written at the output offset.",
  ["inputs","fault_sequences"],"every operand combination and every host outcome: success, failure, exception, short and long return data, precompiled callee",
  "Every host outcome with every relation of lengths is needed; no test makes a call.",
  [CH],[("call wrappers","stdlib/chain.c wrapper_call_contract, wrapper_delegatecall, wrapper_staticcall"),("result handling","stdlib/chain.c write_call_data, is_precompiled_contract")])
p("R12","Contract creation forwards value, code, arguments and salt",
  "Contract creation hands the host the big-endian value, the length-prefixed code, the constructor arguments that follow it, and for salted creation (and only then) the big-endian salt; on success the result word is the new address right-aligned in zero bytes, and the host failing the creation is never reported as success.",
  ["inputs","fault_sequences"],"every value, salt, code range and host outcome",
  "No test creates a contract.",
  [CH],[("creation wrappers","stdlib/chain.c wrapper_create, wrapper_create2")])
p("R13","32-byte word helpers compute EVM arithmetic",
  "The runtime's word helpers (comparisons, equality, zero test, and/or/xor/not, addition, shifts by any amount, sign extension, modular addition and multiplication through the host) compute the EVM result on 256-bit values for every operand, including shift amounts of 0, multiples of 8 and 64, 255, 256 and beyond, and every sign-extension width, in both the native and the byte-word representation.",
  ["inputs"],"every pair of 256-bit operands and every shift amount or byte index",
  "The operand space is 2^512; no test executes a helper.",
  [CM,CH],[("word helpers","stdlib/chain_math.c"),("sign extension, modular arithmetic","stdlib/chain.c wrapper_sign_extend, wrapper_addmod, wrapper_mulmod")])
p("R14","Runtime memory areas never overlap",
  "Every scratch word the runtime hands out is a full 32-byte slot distinct from every other slot handed out and from EVM memory, and neither the scratch allocator nor EVM memory growth ever hands out memory the other one, or an earlier request, already owns; failed growth never yields a usable pointer, asking again for EVM memory that is already there obtains nothing, setting the heap up again neither moves nor resets it, and memory allocated at the free memory pointer lies below the pointer it leaves.",
  ["histories"],"every sequence of scratch allocations and memory growth, in every order",
  "Overlap needs hundreds of allocations interleaved with growth; no test executes the allocators.",
  [CH,EM],[("scratch allocator","stdlib/chain.c memory_alloca_bytes32"),("EVM memory set-up and growth","stdlib/evm_memory.c __init_evm_heap, evm_make_sure_memory")],
  state=[("scratch buffer cursor","next free scratch slot","stdlib/chain.c"),("EVM memory base/end","current EVM memory area","stdlib/evm_memory.c")])
p("R15","Host calls never overrun the buffers they are given",
  "Whenever the runtime passes the host a buffer of its own, the buffer is at least as large as what that host call writes or reads there, and everything the host reads from it has been initialised.",
  ["inputs","programs"],"every call of a host function from the runtime, on every path",
  "Overruns corrupt neighbouring memory silently; no test executes host calls.",
  [CH,HA],[("local buffers handed to host imports","stdlib/chain.c"),("host contracts","stdlib/hostapi.h")])
p("R16","Deployment sees code followed by constructor arguments",
  "During deployment the code size is the package size plus the size of the constructor arguments, and copying code from beyond the package yields the constructor arguments from their beginning up to and including their last byte; outside deployment the code size is the deployed code size alone; copies from embedded data come from that data.",
  ["inputs","histories"],"every code size, argument size, offset and length, during and outside deployment",
  "Needs the deploy flag and boundary offsets; no test executes code copies.",
  [CH],[("code size and code copy","stdlib/chain.c wrapper_codecopy, wrapper_current_contract_code_size, wrapper_current_contract_pure_contract_size, set_is_deploying_tx, is_deploying_tx")],
  state=[("deploying flag","whether this transaction deploys the contract","stdlib/chain.c")])
p("R17","The fused ERC20 transfer equals the Solidity routine it replaces",
  "The built-in replacement for the standard ERC20 transfer routine reverts with the standard errors for a zero sender, a zero receiver and an insufficient balance, in that order and before any storage write; otherwise it debits the sender's balance slot, then credits the receiver's balance slot read after the debit, and emits the standard transfer event.",
  ["inputs","histories"],"every sender, receiver (including sender = receiver), amount and balance",
  "Self-transfers, exact balances and zero addresses are needed; no test executes it.",
  [CH],[("fused transfer","stdlib/chain.c wrapper_optimized_erc20_fun_transfer")])
p("R18","Freestanding memory and formatting primitives are correct",
  "The runtime's own memory fill, copy and compare act on exactly the given number of bytes (none for zero) and, for compare, report equality only of equal-length equal content; integer formatting writes at most the buffer's size and terminates.",
  ["inputs"],"every length, content and buffer size",
  "Off-by-one lengths show only in neighbouring bytes; no test executes them.",
  [SL,UT],[("primitives","stdlib/stdlib.c __memset, memset, memcpy, __memcmp"),("integer formatting","stdlib/utils.c int32_to_str")])

# ---------------------------------------------------------------- code generation
p("G01","Every Yul builtin name is recognised as itself",
  "Each builtin name of the supported Yul/EVM dialect is recognised as exactly that builtin, no two builtins are confused, no supported name falls through to being treated as a user function, and no ordinary user identifier is taken for a builtin.",
  ["programs"],"every function name that can appear in a call",
  "Tests exercise a handful of builtins; the name table must be total and injective.",
  [YI],[("builtin name table","src/yul2ir/yul_instruction.rs")])
p("G02","Every builtin is lowered to its own operation with operands in order",
  "The code generated for a builtin performs that builtin's operation - the machine operation or the runtime routine for it, in the representation selected - with the program's operands in EVM order, in every value representation and with every option.",
  ["programs","configurations"],"every builtin, operand representation and option combination",
  "The code generator cannot be built here and upstream tests cover a few contracts; a swapped operand or wrong routine in one arm is visible only to programs using it.",
  [INS],[("builtin lowering arms","src/yul2ir/instruction.rs walk_yul_instruction"),("call emission","src/yul2ir/context.rs build_call, build_void_call")])
p("G03","Generated calls match the runtime library's real interface",
  "Every runtime routine the code generator can call exists in the runtime library linked in, and is called with as many operands as it has parameters, of the same machine types in the same positions, with a result expected exactly when it returns one; every host import keeps its published name.",
  ["programs","configurations"],"every call the code generator can emit, in debug and release libraries",
  "A mismatch only surfaces when a program uses that call; the two sides are in different languages and never compiled together here.",
  [INS,CTX,TR,"stdlib/chain.h","stdlib/chain_math.h",HA],[("call emission by name","src/yul2ir/context.rs build_call, build_void_call"),("runtime definitions","stdlib/*.c")])
p("G04","A failure while generating code is never swallowed",
  "Whenever generating code for any part of a program fails, the compilation as a whole fails with that error; no statement, case or default branch whose translation failed is silently left out of the output.",
  ["programs"],"every program and every position at which lowering can fail",
  "Needs a program that fails inside each construct; tests only compile good programs.",
  [TR,CTX,INS],[("result propagation in statement lowering","src/yul2ir/transform.rs")])
p("G05","Division, shift and byte edge cases follow the EVM",
  "Generated code for division and modulo by zero yields zero, for shifts by 256 or more yields zero (or the sign for arithmetic shifts), and for a byte index of 32 or more yields zero; no operand combination reaches an undefined machine operation.",
  ["inputs","programs"],"every operand of every arithmetic builtin",
  "Only special operand values show it; tests use ordinary ones.",
  [INS,CTX],[("arithmetic lowering arms","src/yul2ir/instruction.rs walk_yul_instruction")])
p("G06","Statements are lowered with Yul's control flow",
  "For every if, for, switch, leave, break and continue, the generated control flow enters each body exactly when Yul does, evaluates the loop condition before every iteration and the post step after every iteration including continued ones, leaves a function or loop at leave and break, and continues after the construct otherwise.",
  ["programs"],"every nesting of control-flow statements",
  "Tests compile a handful of nestings; the code generator cannot be run here.",
  [TR],[("statement lowering","src/yul2ir/transform.rs walk_if, walk_for, walk_switch, walk_leave, walk_break, walk_continue")])
p("G07","Names are resolved in their own scope and scopes never leak",
  "Every scope opened while generating code is closed on every path, variables are visible exactly in the block that declares them and its nested blocks, and inner declarations never outlive their block.",
  ["programs"],"every nesting of blocks, including those where lowering fails or ends early",
  "Needs particular nestings and early exits.",
  [TR,CTX,"src/yul2ir/var_scope.rs"],[("scope stack","src/yul2ir/var_scope.rs, src/yul2ir/context.rs enter_scope/exit_scope")])
p("G08","Uninitialised variables and return values read as zero",
  "A variable declared without a value, and a function result that is never assigned, reads as zero in the generated code, whatever its representation.",
  ["programs"],"every declaration and function definition",
  "Stale memory often happens to be zero, so tests pass either way.",
  [TR,CTX],[("declarations and function prologue","src/yul2ir/transform.rs walk_variable_declaration, transform_func")])
p("G09","Variables keep the full 256-bit value assigned to them",
  "Assigning a value to a variable and reading it back yields the same 256-bit value; conditions, switch scrutinees and operands are never truncated to a narrower width than the value can have.",
  ["programs","inputs"],"every assignment, condition and operand position",
  "Only values above 2^32 or 2^64 in narrow-inferred variables show it.",
  [TR,CTX,INF],[("type inference and casts","src/yul2ir/infer.rs, src/yul2ir/context.rs int_cast")])
p("G10","Arguments are evaluated once each, right to left",
  "The arguments of every call are evaluated exactly once, from the last to the first, before the call, so side effects happen in Yul's order.",
  ["programs"],"every call whose arguments have side effects",
  "Only calls with two side-effecting arguments show it.",
  [INS,TR],[("argument walking","src/yul2ir/instruction.rs walk_args; src/yul2ir/transform.rs walk_function_call")])
p("G11","Optimisations fire only when enabled and only on the exact shape",
  "A pattern replacement is applied only when the option that enables it is set and the program text is exactly the shape whose meaning the replacement has; disabling all optimisers disables every one of them.",
  ["programs","configurations"],"every program and every option combination",
  "Near-miss program shapes and option combinations are unbounded.",
  [INS,TR,CTX],[("pattern rewriting","src/yul2ir/instruction.rs try_optimize_instruction_pattern; src/yul2ir/transform.rs matches_fun_transfer_pattern")])
p("G12","Unknown library symbols are never linked to a made-up address",
  "A reference to an external library resolves to the address given for exactly that symbol, and without one compilation fails, unless ignoring unknown libraries was explicitly requested.",
  ["programs","configurations"],"every symbol reference and symbol table",
  "Tests cover one symbol.",
  [INS,MAIN,CFG],[("symbol lookup","src/yul2ir/instruction.rs linkersymbol arm"),("symbol option parsing","src/main.rs main")])
p("G13","Command line options reach the compiler setting they name",
  "Each command line option sets the compiler setting it documents and no other, unreadable input, parse errors, code generation errors and failed writes all end with a non-zero exit status (the first three without any output file), a missing output directory is created, and the default of each option is the documented one.",
  ["configurations","inputs"],"every combination of options and every kind of failing input",
  "The command line is never run by a test.",
  [MAIN,CFG],[("argument parsing and option propagation","src/main.rs main, Args"),("option defaults","src/yul2ir/config.rs")])
p("G14","Compilation is deterministic",
  "Compiling the same source with the same options always produces the same bytes: nothing in the output depends on time, randomness, environment, addresses or the iteration order of unordered collections.",
  ["programs","histories"],"every program and every pair of runs",
  "A single run cannot show a difference; unordered iteration differs only sometimes.",
  ["src/yul2ir"],[("code generation over ordered collections","src/yul2ir/context.rs, src/yul2ir/transform.rs")])
p("G15","Embedded data and sub-objects are found under their own name",
  "The offset and size reported for a data segment or sub-object, and the bytes copied from it, are those of the segment or object the program named, wherever it is declared in the enclosing object.",
  ["programs"],"every object nesting and segment naming",
  "Needs several segments per object; tests use one.",
  [TR,INS,CTX],[("segment emission and lookup","src/yul2ir/transform.rs transform_object; src/yul2ir/instruction.rs dataoffset/datasize")])
p("G16","Optimisation levels map to the level they name",
  "Each optimisation level accepted on the command line selects that level in every stage it is passed to, and an unknown level is rejected.",
  ["configurations"],"every level string",
  "No test parses a level.",
  [CFG,WASM],[("level parsing and mapping","src/yul2ir/config.rs; src/yul2ir/wasm.rs")])
p("G17","Each exported entry point runs its own object's code",
  "The module generated for an object starts its creation code from the deployment entry, after marking the transaction as a deployment, and its deployed code from the call entry; neither runs the other's code, code of a nested object, or nothing at all, and each ends as the object's code ends.",
  ["programs"],"every object structure and every way for the code to end",
  "The end-to-end tests need the code generator's dependencies and sample a few contracts.",
  [TR,CTX],[("entry point generation","src/yul2ir/transform.rs transform_init_func, transform_object; src/yul2ir/context.rs")])
p("G18","Linking keeps the generated code, whatever the tools around it do",
  "For every option setting and every combination of successes and failures of the external steps, link either fails loudly or returns the module the linker made of the generated object code: with every requested export and _start, host functions left to be imported, and the stack pointer starting at the size of the stack the linker reserved; afterwards only optional steps that were asked for and that succeeded (optimising, running _start) may have transformed it. A missing or failing optional tool leaves the module as it was, partial output is never used, and no random or temporary name reaches the result.",
  ["inputs","configurations","fault_sequences"],"every option setting and every outcome of each tool, file operation and parse",
  "No test links anything under the pinned test command, and the failures cannot be provoked by one.",
  [WASM,CFG],[("link and the optional optimisers","src/yul2ir/wasm.rs link, run_wasm_optimizer, do_start_optimize")])

# ---------------------------------------------------------------- scripts
p("S01","The ABI encoder builds selector plus encoding of the given arguments",
  "For every function signature and matching argument list the call encoder prints the 4-byte selector of exactly that signature followed by the ABI encoding of the arguments converted to their declared types in order, and rejects a wrong number of arguments or an unparsable signature without printing calldata.",
  ["inputs"],"every signature and argument list",
  "The script test runs six fixed calls.",
  ["examples/scripts/abi_encode.py"],[("signature parsing, conversion and output","examples/scripts/abi_encode.py")])
p("S02","The binary-to-hex converter preserves the file's bytes",
  "The converter writes the lower-case hex of exactly the input file's bytes to the output file and never modifies the input.",
  ["inputs"],"every file content",
  "No test runs it.",
  ["examples/scripts/bin_to_hex.py"],[("conversion","examples/scripts/bin_to_hex.py binary_to_hex_file")])

# ---------------------------------------------------------------- whole-system guarantees
p("E01","Compiled contracts behave like the Yul source on the EVM",
  "For every Yul object, calldata and chain state, the compiled module has the same observable effects (storage, logs, return data, outcome) as the source has on the EVM, apart from gas.",
  ["programs","inputs","histories"],"every program, input and state",
  "Tests run a few contracts on a mock chain that is not available here.",
  ["src/yul2ir","stdlib"],[("whole pipeline","src/main.rs, src/yul2ir, stdlib")])
p("E02","Optimised and unoptimised modules are observably equal",
  "The wasm module produced with optimisation passes enabled behaves exactly as the one produced without them.",
  ["programs","configurations"],"every program and optimisation level",
  "Equivalence of two binaries over all inputs.",
  [WASM,CTX],[("pass pipelines","src/yul2ir/context.rs run_llvm_passes; src/yul2ir/wasm.rs")])
p("E03","Exponentiation is modular square-and-multiply",
  "The exponentiation helper returns base to the power exponent modulo 2^256 for every pair of operands, with 0 to the power 0 equal to 1, and always terminates.",
  ["inputs"],"every pair of 256-bit operands",
  "2^512 operand pairs; no test executes it.",
  [CH],[("exponentiation loop","stdlib/chain.c wrapper_exp")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
