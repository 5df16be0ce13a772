"""claims of the properties decided on the Rust and Python sources"""
PROD = "product of an abstract interpretation of the Rust source with the specification's state machine, over symbolic characters"
NOTE_P = ("Covers texts of every length: exploration stops when every joint state of function and specification has been met. "
          "Trusts the syn parse, the interpreter's model of the std calls used and the specification machine. A construct outside the model is reported as undecided, not as a violation.")
GEN = "abstract interpretation of the code generator's Rust source on families of programs, and translation validation of what it generates over abstract words"
def NOTE_G(fam): return ("Programs: " + fam + " Each is compared on every path for all operand values (words are symbolic; loops followed while at most 7-12 conditions are decided). "
  "Equality is by normal forms and case analysis; a difference is reported only with a valuation telling the two apart; what is neither is recorded as undecided. Programs outside the families are not covered. Trusts the runtime routines' contracts (R properties), the model of inkwell and LLVM.")
C2 = {
 "F01": (PROD, NOTE_P + " Text in which a stray '/' is directly followed by a quote is left open."),
 "F02": (PROD, NOTE_P + " Unescaped quotes and line continuations over several lines are left open."),
 "F03": ("automata comparison of the grammar's terminals with the token classes, and " + PROD, NOTE_P + " Lower-case hex digits in string escapes may be accepted or rejected; escape decoding itself is F02's."),
 "F04": ("inlining of the grammar to regular right-hand sides and automata equality with Yul's grammar; abstract evaluation of the actions on opaque sub-trees", "Language equality covers token sequences of every length (nested blocks, statements, expressions and objects being opaque); trees are compared for every sequence shape with at most 2 (thorough: 3) repetitions. LALRPOP's conflict resolution is trusted."),
 "F05": ("abstract interpretation of the package builder on a symbolic module of unknown length, and of main over unknown options", "The length is a symbolic 32-bit quantity, compared bit range by bit range. Modules of 2^32 bytes and more are outside. The run-time consumer is decided by R12 and R16."),
 "G01": ("abstract interpretation of the name table over every name: the documented builtins and an arbitrary other text", "Every builtin named by the dialect table is resolved and the table's remaining arms are enumerated; an arbitrary other identifier is a symbolic text that takes each arm's negative side."),
 "G02": (GEN, NOTE_G("every builtin with every operand position in every value representation and with edge literals, and every builtin's result in every use.")),
 "G03": ("type and interface checking of every call in the IR the abstractly interpreted generator emits, and of every routine name and host import in the sources", "Every literal routine name in the generator's source, every declared host import; operand types on every call emitted for the program families of the G properties under all option sets, in debug and release builds. The model of inkwell's typing and verifier rules and the published host table are trusted."),
 "G04": ("abstract interpretation of the generator with each requested operation failing in turn", "Every source place through which an operation is requested (directly or through callers) sees a failure (thorough: every distinct set of such places); every library failure; programs wrong in each syntactic position of each kind of code must be refused. A panic counts as a failed compilation."),
 "G14": ("abstract interpretation of the generator under permuted iteration orders of unordered collections, with sources of nondeterminism as effects", "Four (thorough: nine) orders per program over samples of the program families and programs with several of every table entry. Determinism inside LLVM and wasm-ld is not covered."),
 "G05": (GEN, NOTE_G("division, remainder, shifts, byte, signextend, addmod, mulmod and exp over every pair of representations and edge literals.")),
 "G06": (GEN, NOTE_G("every nesting of two control-flow statements around every way of ending a body (thorough: a sample of nestings of three), conditions, scrutinees and cases of every kind, recursion.")),
 "G07": (GEN, NOTE_G("re-declared names in siblings, branches, cases, loops and functions in every pair of representations, and programs using a name out of its scope, which must be refused.")),
 "G08": (GEN, NOTE_G("unassigned variables and results in every use, tuple and loop position.")),
 "G09": (GEN, NOTE_G("assignments of every kind of value over every other kind, in branches, loops, calls, tuples, conditions and scrutinees.")),
 "G10": (GEN, NOTE_G("every builtin and user call with side effects, state reads, constants and nested calls in every operand position.")),
 "G11": (GEN, NOTE_G("for every pattern the generator replaces, the exact shape and its near misses, under all five option sets.")),
 "G12": (GEN, NOTE_G("library symbols read in every position, with and without an address, several symbols at once, symbols in variables and in several objects, with unknown ones ignored or not; missing ones must be refused.") + " A symbol whose value is never read needs no address."),
 "G15": (GEN, NOTE_G("data segments and sub-objects of every content, number, order and nesting, read by offset, size and copy from creation and deployed code; names that do not exist must be refused.") + " An embedded package is identified by the module it was built from (its layout is F05's)."),
 "G17": (GEN, NOTE_G("creation and deployed code of every kind, ending in every way, with and without a deployed object, functions and nested objects.")),
 "G18": ("abstract interpretation of link over unknown object code, options and outcomes of every external step", "Every path through link is followed in both builds of the linker call. What wasm-ld, wasm-opt, wizer and parity_wasm do to a module when they succeed is trusted; that a failing link leaves no output file is assumed."),
 "G13": ("abstract interpretation of main over unknown options, files and failures", "Every path through main is followed, with each option, file operation, parse and generation outcome unknown; options that only feed each other are explored jointly. clap's own parsing is trusted (the declared attributes are read)."),
 "G16": ("abstract interpretation of the level conversions over every accepted spelling and an arbitrary other one", "Finite: every level, every conversion."),
 "S01": ("abstract interpretation of the Python syntax tree on every ABI type and symbolic argument texts, against the selector and encoding of the typed values", "Types: every base type (quick: a spread of widths), arrays of them, all pairs of type families, and the malformed command lines listed in DESIGN.md. eth_abi/eth_utils are trusted and modelled. Value ranges are eth_abi's; texts for bool other than true/false are left open."),
 "S02": ("abstract interpretation of the Python syntax tree on an input of unknown bytes and unknown file failures", "Contents are opaque chunks; piecewise reading is followed for at most 3 (thorough: 5) chunks. Input and output are assumed to name different files."),
}
NA2 = {}
