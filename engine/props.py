"""What decides each property: contracts, native runs, and what is assumed.

kani entries: (harness crate, patterns of harness names, patterns left to the thorough tier)
native entries: (harness crate, filters of test names)
"""

ALLOCATOR = "the system allocator (malloc, free) as Kani models it; it ignores the size given on release, as the runtime's allocator does"
SEQUENTIAL = "atomic operations are sequentially consistent in CBMC; orderings are contracts of their own in C03"

PROPERTIES = {
    "C01": {
        "title": "A shared value is destroyed once, when its last handle is released",
        "statement": "A reference-counted value stays alive and unchanged while any handle to it exists, is destroyed and its memory released exactly once when the last handle is dropped, and a value marked static is never destroyed or written. Cloning adds exactly one handle and dropping removes exactly one, whatever the number of handles and whether or not the value is shared between threads.",
        "quantifier": (["histories", "inputs"], "every reference count a history can produce, every payload, every sequence of new, clone, drop and synchronize; payloads that occupy memory and are aligned to at most 8 bytes; fewer than 2^63 handles"),
        "why_tests_cant": "The tests clone and drop one or two handles of a few types and look at no counter; the counts, the sign that marks sharing and the static mark span 2^64 states and unbounded histories.",
        "files": ["lib/ffi/src/arc.rs", "lib/ffi/src/arc/arc_block.rs", "lib/ffi/src/arc/arc_buffer.rs"],
        "mechanism": [("signed reference count in front of the payload", "lib/ffi/src/arc/arc_block.rs clone, drop, drop_inner"), ("static count is never changed", "lib/ffi/src/arc/arc_block.rs STATIC_COUNT")],
        "kani": [("ffi", [r"arc::(new_is_sole_handle|clone_adds_one_handle|drop_removes_one_handle|static_value.*|life_.*|zero_sized_value|synchronize_keeps_handles)"], [])],
        "native": [("ffi", ["witness::lifetime", "arc::native_"])],
        "functions": ["Arc::{new, clone, drop, deref, synchronize}", "ArcBlock::{new, clone, drop, drop_inner, ptr, inner_ptr, inner_layout, is_count_synchronized}"],
        "trusted": [ALLOCATOR, SEQUENTIAL],
        "assumptions": ["fewer than 2^63 handles to one value exist (an address space holds fewer)", "payload alignment is at most 8 bytes, as the compiler's values have"],
        "design": "Each operation has a contract over the machine word in front of the payload, for ANY value of that word: clone adds one to the number of handles that the word denotes, drop takes one away and destroys and releases exactly when it denotes one, static stays static. The contracts compose by induction over histories, since every postcondition re-establishes the state the next contract starts from.",
    },
    "C02": {
        "title": "Exclusive access to a shared value is given only to its sole handle",
        "statement": "Mutable access through a handle is granted exactly when that handle is the only one to the value, and never for static values or while another handle exists, in whichever thread. What is written through it is what later reads see.",
        "quantifier": (["histories", "inputs"], "every reference count, shared or not, and every payload value"),
        "why_tests_cant": "Tests ask for mutable access with at most two handles; the decision depends on a 64-bit word whose sign and value together encode sharing, uniqueness and staticness.",
        "files": ["lib/ffi/src/arc.rs", "lib/ffi/src/arc/arc_block.rs"],
        "mechanism": [("uniqueness test", "lib/ffi/src/arc/arc_block.rs is_unique, get_mut")],
        "kani": [("ffi", [r"arc::(get_mut_only_for_sole_handle|shared_get_mut_under_interference|static_value.*|life_.*)"], [])],
        "native": [("ffi", ["witness::lifetime_histories", "witness::sharing"])],
        "functions": ["Arc::get_mut", "ArcBlock::{get_mut, is_unique}"],
        "trusted": [ALLOCATOR, SEQUENTIAL],
        "assumptions": ["payloads of size zero have no memory to give access to and are outside"],
        "design": "get_mut is proved to return access if and only if the word denotes one handle, for every value of the word, and to leave the word alone.",
    },
    "C03": {
        "title": "Values shared between threads keep exact reference counts under any schedule",
        "statement": "Marking a value as shared keeps its number of handles, and from then on handles may be cloned and dropped by any number of threads in any interleaving without losing or duplicating a count, so that the value is still destroyed exactly once and only after every thread's last use of it.",
        "quantifier": (["schedules", "histories"], "every interleaving of clones, drops and access requests by other threads between any two atomic accesses, for every count"),
        "why_tests_cant": "No test starts a second thread; a lost update needs another thread to run between two particular machine instructions.",
        "files": ["lib/ffi/src/arc/arc_block.rs"],
        "mechanism": [("atomic read-modify-write on negative counts", "lib/ffi/src/arc/arc_block.rs clone, drop"), ("release decrement and acquire fence", "lib/ffi/src/arc/arc_block.rs drop"), ("synchronize", "lib/ffi/src/arc/arc_block.rs synchronize")],
        "kani": [("ffi", [r"arc::(shared_.*|synchronize_keeps_handles)"], [])],
        "native": [("ffi", ["witness::sharing", "witness::lifetime_histories"])],
        "functions": ["ArcBlock::{clone, drop, get_mut, synchronize, is_unique}"],
        "trusted": [ALLOCATOR, "the rely condition: other threads only perform operations with the same contracts, each on handles they own", "memory orderings are checked as contracts on the calls (release on the decrement, acquire before destruction), not by a weak-memory semantics"],
        "assumptions": ["the compiler's generated code marks a value as shared before another thread can reach it"],
        "design": "Rely and guarantee: atomic accesses are replaced by versions that first let other threads perform arbitrarily many steps of the same protocol, and count what this operation itself adds or removes. The contract says: exactly one atomic step changes the count by one, destruction follows exactly when that step took the count from one, and its orderings are release and acquire.",
    },
    "C04": {
        "title": "Byte strings hold exactly the bytes they were made from",
        "statement": "A byte string made from a slice, vector, text or character has exactly the length and bytes it was made from, for every length and content including empty strings, and so does every clone of it. Byte strings are equal exactly when their bytes are, and equal ones hash alike.",
        "quantifier": (["inputs"], "every length up to 2^40 and every content for construction, reading and cloning; equality, hashing and conversions up to length 3 (bounded)"),
        "why_tests_cant": "Tests build a handful of short strings and drop them without reading them back.",
        "files": ["lib/ffi/src/string.rs", "lib/ffi/src/arc/arc_buffer.rs"],
        "mechanism": [("length word and bytes in one block", "lib/ffi/src/arc/arc_buffer.rs new, as_slice"), ("content equality", "lib/ffi/src/string.rs PartialEq, Hash")],
        "kani": [("ffi", [r"string::.*"], [r"string::bounded_conversions.*"])],
        "native": [("ffi", ["string::", "witness::lifetime_of_strings"])],
        "functions": ["ArcBuffer::{new, as_slice, as_slice_mut, clone, default, from}", "ByteString::{from, as_slice, clone, default, eq, hash}"],
        "trusted": [ALLOCATOR],
        "assumptions": ["lengths above 2^40 bytes do not occur"],
        "design": "The slice given has a symbolic length up to 2^40 and unconstrained content; the contract compares length and an arbitrary index. Equality and hashing run loops of the standard library and are bounded.",
    },
    "C05": {
        "title": "Values pushed to a continuation stack come back intact, in reverse order",
        "statement": "Whatever its capacity and however full it is, a continuation stack returns each value pushed unchanged and in reverse order, growing as needed without disturbing the values below, keeps values aligned, and releases its memory once.",
        "quantifier": (["histories", "inputs"], "every initial capacity, every fill level, every content, for values of size 0 to 40 bytes"),
        "why_tests_cant": "Tests push one or two values to a stack of capacity one; growth with live values below at every fill level is never checked.",
        "files": ["lib/ffi/src/cps/stack.rs"],
        "mechanism": [("growth by doubling with reallocation", "lib/ffi/src/cps/stack.rs push"), ("sizes padded to the alignment", "lib/ffi/src/cps/stack.rs get_type_size")],
        "kani": [("ffi", [r"stack::.*"], [r"stack::push_pop_words"])],
        "native": [("ffi", ["stack::"])],
        "functions": ["cps::Stack::{new, push, pop, drop, get_pointer, get_type_size, get_layout}"],
        "trusted": [ALLOCATOR],
        "assumptions": ["capacities above 2^40 bytes do not occur", "value alignment is at most 8 bytes"],
        "design": "From ANY well-formed stack (symbolic base, size and capacity), pushing keeps it well formed, an arbitrary byte below is unchanged, and popping returns the value and the old size. The loop that grows is bounded by a constant that the verifier shows is enough. The contracts compose by induction over histories.",
    },
    "C06": {
        "title": "Suspended computations resume in protocol order with their own state",
        "statement": "A computation suspended with a future, a step and a continuation gets exactly those back when it is resumed and restored, a trampolined computation calls exactly the continuation given once with the value given after waking its executor, and neither disturbs the values below. An operation out of protocol order is refused, and the executor's context is visible exactly while a computation runs.",
        "quantifier": (["histories", "inputs"], "every phase of the protocol crossed with every operation, with arbitrary functions and values, on every stack content; after a refused operation nothing is promised"),
        "why_tests_cant": "Tests run single fixed sequences with fixed values; the other orders of operations and phases are never tried.",
        "files": ["lib/ffi/src/cps/async_stack.rs"],
        "mechanism": [("queue of expected actions", "lib/ffi/src/cps/async_stack.rs validate_action, push_next_actions"), ("trampoline step", "lib/ffi/src/cps/async_stack.rs trampoline")],
        "kani": [("ffi", [r"async_stack::.*"], [])],
        "native": [("ffi", ["async_stack::"])],
        "functions": ["cps::AsyncStack::{new, context, run_with_context, suspend, trampoline, resume, restore, resolved_value, resolve, validate_action, push_next_actions}"],
        "trusted": [ALLOCATOR, "formatting of error messages is outside (reaching it fails an obligation)"],
        "assumptions": [],
        "design": "One contract per pair of phase and operation, and one per finished round followed by an operation, which shows that rounds lead back to the starting phase; histories follow by induction.",
    },
    "C07": {
        "title": "Type-erased values and closures keep identity, content and ownership",
        "statement": "A value whose type was erased reads back only as its own type, with its own content, is cloned and dropped exactly once per erased copy, and is refused as any other type without being leaked. A closure keeps its entry function and captured values, which are dropped exactly once, the way its block says, when its last handle is released.",
        "quantifier": (["inputs", "histories"], "every payload bit pattern, every order of clones, conversions and drops of up to two handles"),
        "why_tests_cant": "Tests convert and drop a few values and never compare contents, types or drop counts.",
        "files": ["lib/ffi/src/any.rs", "lib/ffi/src/closure.rs", "lib/ffi/src/type_information.rs", "lib/ffi-macro/src/any.rs"],
        "mechanism": [("clone and drop through type information", "lib/ffi/src/any.rs Clone, Drop"), ("generated conversions", "lib/ffi-macro/src/any.rs generate"), ("drop through metadata", "lib/ffi/src/closure.rs Drop for ClosureInner")],
        "kani": [("ffi", [r"any::.*"], [])],
        "native": [("ffi", ["any::", "witness::lifetime_of_strings"])],
        "pen": [("ffiany", None)],
        "functions": ["pen_ffi_any_* and pen_ffi_list_* (packages/ffi/any.pen, packages/ffi/list.pen), each function", "Any::{new, type_information, payload, clone, drop}", "TypeInformation::{new, clone_fn, drop_fn}", "code generated by #[pen_ffi::any]: From, TryFrom (owned, shared, mutable), clone, drop", "Closure::{new, entry_function, payload, into_opaque, clone, drop}"],
        "trusted": [ALLOCATOR],
        "assumptions": ["distinct types have distinct type information addresses, as distinct statics have"],
        "design": "Three instances of the generated conversions (8 and 2 byte payloads) are verified for every payload, with counters of live and dropped values as ghost state.",
    },
    "C08": {
        "title": "Calls between futures and compiled code deliver their value exactly once",
        "statement": "Calling a compiled function or closure as a future, or a future as a closure, passes the arguments through unchanged, runs every part of the computation once in order however often it suspends, delivers exactly the value computed once it is finished and not before, and releases the closure or future once.",
        "quantifier": (["schedules", "inputs"], "every argument and value, with no or one suspension symbolically, and up to nine suspensions concretely (bounded)"),
        "why_tests_cant": "Tests use fixed values, at most one suspension, and never look at what is released or run twice.",
        "files": ["lib/ffi/src/future/call.rs", "lib/ffi/src/future/call_function.rs", "lib/ffi/src/future/from_closure.rs", "lib/ffi/src/future/from_function.rs", "lib/ffi/src/future/to_closure.rs"],
        "mechanism": [("poll loop", "lib/ffi/src/future/call.rs call!, call_function.rs call_function!"), ("poll and resume", "lib/ffi/src/future/to_closure.rs poll, resume")],
        "kani": [("ffi", [r"future::.*"], [])],
        "native": [("ffi", ["future::"])],
        "functions": ["call!, call_function!, future::{from_closure, from_function, to_closure} (bounded)"],
        "level": "other",
        "trusted": [ALLOCATOR],
        "assumptions": ["bounded: at most one suspension symbolically (none for to_closure)"],
        "design": "Bounded symbolic execution of the drivers with a counting executor: all arguments and values, zero and one suspensions. The unbounded part, the protocol each step follows, is C06.",
    },
    "C09": {
        "title": "Bit operations act on the 64 bits that a number carries",
        "statement": "Bitwise and, or, exclusive or and complement act on every bit of the 64-bit integers that numbers carry, shifts by fewer than 64 move every bit by exactly the count and fill with zeros, integers up to 2^53 survive the way into bits and back, and every bit pattern is read as the number nearest to it.",
        "quantifier": (["inputs"], "every pair of 64-bit patterns, NaNs included, and every shift count from 0 to 63"),
        "why_tests_cant": "One test converts one number; none runs a logical operation or a shift.",
        "files": ["packages/core/ffi/src/bit.rs"],
        "mechanism": [("operations on transmuted bits", "packages/core/ffi/src/bit.rs")],
        "kani": [("core", [r"bit::.*"], [])],
        "native": [("core", ["bit::contracts"])],
        "pen": [("corebit", None)],
        "functions": ["Core'Bit (packages/core/Bit.pen), each function", "_pen_core_bit_{and, or, xor, not, left_shift, right_shift, to_integer_64, from_integer_64}"],
        "trusted": [],
        "assumptions": ["counts of 64 and more are outside: what they do depends on the build profile"],
        "design": "Exact postconditions over full-domain symbolic bit patterns.",
    },
    "C10": {
        "title": "Byte ranges of strings are exactly what was asked for, and never crash",
        "statement": "A slice or view of a string between two positions, counted from one and including both, holds exactly the bytes at those positions that the string has, whatever numbers are given: positions outside the string select nothing and never crash. A string or view starts with a prefix exactly when the prefix fits in and its bytes are the first ones.",
        "quantifier": (["inputs"], "every string up to 2^40 bytes, every start and every end other than NaN; prefixes up to 3 bytes (bounded)"),
        "why_tests_cant": "Tests slice one word at a few indexes; starts below one with ends above it crashed untested.",
        "files": ["packages/core/ffi/src/string/byte.rs", "packages/core/ffi/src/view.rs", "packages/core/ffi/src/string.rs"],
        "mechanism": [("clamping of positions", "packages/core/ffi/src/string/byte.rs _pen_core_byte_slice, packages/core/ffi/src/view.rs slice")],
        "kani": [("core", [r"string::byte::.*", r"view::.*", r"string::contracts::.*"], [])],
        "native": [("core", ["string::byte::contracts", "view::contracts", "string::contracts"])],
        "pen": [("coreview", None), ("corestring", "Byte.pen")],
        "functions": ["Core'String'Byte and Core'String'Byte'View (packages/core/String), each function", "_pen_core_byte_{length, slice}", "_pen_core_view_{to_string, starts_with}", "_pen_core_string_starts_with"],
        "trusted": [ALLOCATOR],
        "assumptions": ["an end that is NaN is outside", "pen-ffi is lib/ffi as in this tree, whose contracts are C01 to C08; packages are built with its published version"],
        "design": "The string has symbolic length and unconstrained content, positions are any floating-point numbers; length and an arbitrary byte of the result are compared with a specification of the range. Prefix comparison runs a loop and is bounded by the prefix, not by the string.",
    },
    "C11": {
        "title": "Text operations agree with the sequence of characters they work on",
        "statement": "Length, characters, slices, searches, splits, replacements, joins, trims and case changes of a text give what the same operation on its sequence of characters gives, whatever mixture of characters of one to four bytes it holds, and bytes that are no text are left as they are, contain nothing and never crash.",
        "quantifier": (["inputs"], "all texts of up to 4 or 5 characters over an alphabet with encodings of 1, 2 and 4 bytes, all patterns of up to 2, positions inside, outside, fractional and infinite (bounded)"),
        "why_tests_cant": "These functions have no tests in Rust; the Pen tests need a compiler and sample one input each.",
        "files": ["packages/core/ffi/src/string/utf8.rs", "packages/core/ffi/src/string/builder.rs"],
        "mechanism": [("index arithmetic on characters", "packages/core/ffi/src/string/utf8.rs _pen_core_utf8_slice, find"), ("builder", "packages/core/ffi/src/string/builder.rs")],
        "kani": [("core", [r"string::builder::.*"], [])],
        "native": [("core", ["string::utf8::contracts", "string::builder::contracts"])],
        "pen": [("corestring", "Utf8.pen|String.pen"), ("corebuilder", None)],
        "functions": ["Core'String and Core'String'Utf8 (packages/core/String), each function", "_pen_core_utf8_* (bounded)", "_pen_core_string_builder_{create, append, build} (bounded)"],
        "level": "other",
        "trusted": ["the Rust standard library's tables of white space and cases"],
        "assumptions": ["empty patterns of searches for a position, splits and replacements are outside"],
        "design": "str's search and case algorithms are beyond Kani for symbolic text, so every operation's contract is executed on all short texts of a small alphabet against specifications over vectors of characters.",
    },
    "C12": {
        "title": "Characters and code points convert into each other without loss",
        "statement": "A code point becomes exactly the UTF-8 encoding of its character, every other 32-bit number becomes an empty string, and a character's encoding becomes its code point again. What is no text has no code point.",
        "quantifier": (["inputs"], "every 32-bit code point and every encoding of one character"),
        "why_tests_cant": "There is no test of these functions in Rust, and one sampled character per test elsewhere.",
        "files": ["packages/core/ffi/src/character.rs", "lib/ffi/src/string.rs"],
        "mechanism": [("conversion of code points", "packages/core/ffi/src/character.rs")],
        "kani": [("core", [r"character::.*"], [])],
        "native": [("core", ["character::contracts"])],
        "pen": [("corestring", "Character.pen")],
        "functions": ["Core'Character (packages/core/Character.pen), each function", "_pen_core_character_{from_code_point, to_code_point}"],
        "trusted": [ALLOCATOR],
        "assumptions": ["negative numbers, fractions and NaN are outside"],
        "design": "The encoding is specified bit by bit after RFC 3629 and compared for every 32-bit number; decoding is proved for every encoding of each length. Loops run over at most four bytes and are unwound completely.",
    },
    "C13": {
        "title": "Hashes respect equality, and their digits index every map node safely",
        "statement": "Equal numbers and strings hash alike, whichever zero or NaN they are; combining hashes loses no difference between them; and the index of a hash at a level of a map is an integer from 1 to 32, while different hashes have different indexes at some level.",
        "quantifier": (["inputs"], "every hash, layer and level from 1 to 13, the first layer for different hashes; every pair of numbers; strings up to 3 bytes for equality and exhaustively up to 2 bytes for hashes (bounded)"),
        "why_tests_cant": "No test computes a hash or an index; an index out of range or a key that hashes unlike its equal loses map entries only for particular keys.",
        "files": ["packages/prelude/ffi/src/lib.rs"],
        "mechanism": [("digits of hashes", "packages/prelude/ffi/src/lib.rs _pen_prelude_hash_to_index"), ("normalization of numbers", "packages/prelude/ffi/src/lib.rs _pen_prelude_hash_number")],
        "kani": [("prelude", [r"contracts::.*"], [])],
        "native": [("prelude", ["contracts::native", "contracts::witness::strings", "contracts::witness::numbers"])],
        "pen": [("hashes", None)],
        "functions": ["prelude Hash.pen, Number.pen, String.pen, each function", "_pen_prelude_{hash_to_index, combine_hashes, hash_number, equal_strings}", "_pen_prelude_hash_string (bounded)"],
        "trusted": [ALLOCATOR],
        "assumptions": ["levels are 1 to 13, as packages/prelude/Map.pen uses them"],
        "design": "Exact postconditions over all 64-bit hashes, all layers and levels, with SipHash's real code unwound completely for numbers.",
    },
    "C14": {
        "title": "Number functions meet their mathematical definitions",
        "statement": "Floor and ceiling are the nearest integers at or below and at or above, rounding takes the nearest integer and ties away from zero, truncation and fraction add up to the number, absolute values are never negative, and remainders lie between zero and the divisor, for every finite number; NaN stays NaN.",
        "quantifier": (["inputs"], "every double-precision number; remainder, powers, exponentials and precision of roots on samples (bounded)"),
        "why_tests_cant": "Tests call four functions once each.",
        "files": ["packages/core/ffi/src/number.rs"],
        "mechanism": [("functions of f64", "packages/core/ffi/src/number.rs")],
        "kani": [("core", [r"number::.*"], [])],
        "native": [("core", ["number::contracts::native", "number::contracts::witness::remainders", "number::contracts::witness::powers"])],
        "functions": ["_pen_core_{absolute, ceil, floor, fraction, round, truncate, is_nan, epsilon, infinity, nan}", "_pen_core_{square_root, remainder, power, exponential} (bounded)"],
        "trusted": ["CBMC's IEEE 754 semantics of rounding intrinsics"],
        "assumptions": [],
        "design": "Relational definitions of the functions (an integer, at or below, less than one away) over all 2^64 bit patterns, decided by CBMC's bit-precise floating point.",
    },
    "C15": {
        "title": "Numbers survive being printed and read back",
        "statement": "A number printed by the standard library, the debug function or the JSON encoder reads back as exactly the same number, JSON output follows the JSON grammar, and text that is no number is refused, by an error, or NaN in JSON.",
        "quantifier": (["inputs"], "random bit patterns, integers, fractions and extremes (bounded)"),
        "why_tests_cant": "Tests print and read the number 42.",
        "files": ["packages/core/ffi/src/number.rs", "packages/json/ffi/src/lib.rs", "packages/prelude/ffi/src/lib.rs"],
        "mechanism": [("shortest round-trip printing and parsing", "packages/core/ffi/src/number.rs, packages/json/ffi/src/lib.rs")],
        "kani": [],
        "native": [("core", ["number::contracts::witness::printed", "number::contracts::witness::what"]), ("text", ["json::contracts"]), ("prelude", ["contracts::witness::debugged"])],
        "functions": ["_pen_core_{convert_number_to_string, parse_number}, _pen_json_{encode_number, decode_number}, _pen_prelude_debug_number (bounded)"],
        "level": "other",
        "trusted": [],
        "assumptions": ["infinities and NaN are outside for JSON, which has none"],
        "design": "Printing and parsing floating-point numbers runs algorithms of the standard library that no verifier here can unfold; their contract is executed on samples.",
    },
    "C16": {
        "title": "Escaped HTML holds no markup and reads back as the original text",
        "statement": "Text encoded for HTML holds no angle brackets, an encoded attribute holds no quotes either, every ampersand in them starts an entity, and a browser decodes them to exactly the original.",
        "quantifier": (["inputs"], "all texts of up to 4 pieces of markup, entities and letters (bounded)"),
        "why_tests_cant": "There is no test of these functions.",
        "files": ["packages/html/ffi/src/lib.rs"],
        "mechanism": [("escaping", "packages/html/ffi/src/lib.rs")],
        "kani": [],
        "native": [("text", ["html::contracts"])],
        "functions": ["_pen_html_{encode_text, encode_attribute} (bounded)"],
        "level": "other",
        "trusted": [],
        "assumptions": ["bytes that are no text are outside"],
        "design": "The escaping loops are in a dependency with table lookups over symbolic text; the contract is executed on all texts of up to four pieces of an adversarial alphabet.",
    },
    "C17": {
        "title": "Test states return the last value set, and captures what was matched",
        "statement": "A test state returns none until a value is set and then always the value set last, as often as it is asked, without affecting other states. Captures of a regular expression are listed in order, exactly as matched, with none for groups that did not take part.",
        "quantifier": (["histories", "inputs"], "every history of 7 reads and writes on two states; a set of expressions with optional groups on short texts (bounded)"),
        "why_tests_cant": "There is no test of these functions.",
        "files": ["packages/test/ffi/src/lib.rs", "packages/regex/ffi/src/lib.rs"],
        "mechanism": [("swap in and out of a cell", "packages/test/ffi/src/lib.rs _pen_test_state_get"), ("list of captures", "packages/regex/ffi/src/lib.rs _pen_regex_expression_match")],
        "kani": [],
        "native": [("text", ["state::contracts", "regex_::contracts"])],
        "pen": [("testing", "regex|State")],
        "functions": ["Test'State'Get, Set; Regex'Expression'New, Matches, Match", "_pen_test_state_{new, get, set}, _pen_regex_expression_{matches, match} (bounded)"],
        "level": "other",
        "trusted": ["the regex crate"],
        "assumptions": ["states are read and written by one thread at a time"],
        "design": "Both wrap concurrent or table-driven dependencies; their contracts are executed on all short histories and a family of expressions; that Pen functions pass arguments on to them, and say none of no match, is proved of the intermediate code.",
    },
    "C18": {
        "title": "Chains of operators group by priority, and to the left within one",
        "statement": "An operation without parentheses is split at its loosest operator, and at the last of them where there are several: | before &, & before comparisons, comparisons before + and -, those before * and /, all of them before !, and ! before calls, fields and ?. Nothing else in the chain matters.",
        "quantifier": (["inputs"], "all chains of up to 4 of the 12 operators on plain and decorated operands, and random chains of up to 30 operators (bounded)"),
        "why_tests_cant": "Tests parse a few pairs of operators; how a chain groups depends on every operator in it, and there are exponentially many chains.",
        "files": ["lib/parse/src/operations.rs", "lib/parse/src/parser.rs"],
        "mechanism": [("reduction of operators by priority", "lib/parse/src/operations.rs reduce_operations"), ("prefix and suffix operators", "lib/parse/src/parser.rs prefix_operation_like, suffix_operation_like")],
        "kani": [],
        "native": [("language", ["operators::"])],
        "functions": ["parse::operations::reduce_operations, parser::{expression, prefix_operation_like, suffix_operation_like} (bounded)"],
        "level": "other",
        "trusted": [],
        "assumptions": [],
        "design": "The parser is nom combinators: closures in trait objects over strings, which Kani cannot execute symbolically at any useful size and Verus does not accept. The contract (a chain is the tree split at its loosest, last operator) is executed for all short chains and for random long ones.",
    },
    "C19": {
        "title": "A program's text parses as exactly the tree that it spells",
        "statement": "However a program is laid out, with whichever blanks, line breaks and comments between its words, parsing its text gives exactly the imports, foreign imports, types, functions and expressions that it spells, in their order, and nothing else.",
        "quantifier": (["inputs"], "random modules with every construct of the language, of any nesting up to the generator's sizes, with random blanks and comments (bounded)"),
        "why_tests_cant": "Tests parse one construct at a time in one layout; constructs interact (what may start the next statement, what continues the last one) and layouts are unbounded.",
        "files": ["lib/parse/src/parser.rs", "lib/parse/src/lib.rs", "lib/parse/src/combinator.rs"],
        "mechanism": [("grammar", "lib/parse/src/parser.rs module, expression, statement, type_"), ("blanks and comments", "lib/parse/src/parser.rs blank, comment")],
        "kani": [],
        "native": [("language", ["programs::programs_parse_as_their_trees"])],
        "functions": ["parse::parse and the whole of parse::parser (bounded)"],
        "level": "other",
        "trusted": ["the harness's printer, which is its own specification of the syntax, written from doc/"],
        "assumptions": [],
        "design": "The inverse of the parser (a printer of random trees, which knows which words need blanks or parentheses between them) is its specification: parse(print(t)) = t. Executed on random trees and layouts, since the parser's combinators are out of both verifiers' reach.",
    },
    "C20": {
        "title": "Formatting keeps every comment, whole and in its place in the order",
        "statement": "Every comment of a source is found with its text and position, and a formatted source has exactly the same comments in the same order: none is lost, repeated, changed or taken out of a string.",
        "quantifier": (["inputs"], "random modules with comments at every place where one may be (bounded)"),
        "why_tests_cant": "Tests put one comment at selected places; comments are attached to positions of the tree around them, which differ with each construct and layout.",
        "files": ["lib/format/src/lib.rs", "lib/format/src/context.rs", "lib/parse/src/parser.rs"],
        "mechanism": [("comments kept in order of lines and drained by position", "lib/format/src/context.rs"), ("comment scanner", "lib/parse/src/parser.rs comments")],
        "kani": [],
        "native": [("language", ["programs::comments_parse_in_order", "programs::formatting_keeps_comments"])],
        "functions": ["parse::parse_comments, format::format (bounded)"],
        "level": "other",
        "trusted": [],
        "assumptions": [],
        "design": "The postcondition of the formatter on comments (the sequence of comments of the result is that of the source) executed on random modules with comments between any two words.",
    },
    "C21": {
        "title": "A formatted program is the same program",
        "statement": "Formatting changes only layout: the formatted text of any program parses, and parses as the same program, whatever its parentheses, statements, types and comments; and formatting declarations again changes nothing.",
        "quantifier": (["inputs"], "random modules with every construct of the language in random layouts, with and without comments; stability on modules of declarations only (bounded)"),
        "why_tests_cant": "Tests compare single constructs with an expected text; whether parentheses may be left out depends on both of the operators around them, and whether a line starts a new statement on the end of the one before.",
        "files": ["lib/format/src/lib.rs"],
        "mechanism": [("parentheses by priority", "lib/format/src/lib.rs compile_binary_operation, parenthesize_if"), ("statements kept apart", "lib/format/src/lib.rs compile_expression_statement")],
        "kani": [],
        "native": [("language", ["programs::formatting_keeps_meaning", "programs::formatting_declarations_is_stable"])],
        "functions": ["format::format, parse::parse (bounded)"],
        "level": "other",
        "trusted": [],
        "assumptions": ["programs agree if their trees do, positions aside"],
        "design": "The formatter's postcondition is an equation with the parser: parse(format(parse(s))) = parse(s). Documents are trees of boxed builders over AST nodes, out of both verifiers' reach; the equation is executed on random programs. Formatting a body twice is not stable upstream (line counts of the first result change blank lines), so stability is claimed for declarations only.",
    },
    "C22": {
        "title": "Errors and positions point at what they are about, and nothing crashes",
        "statement": "Every node of a parsed program carries the line and column at which its text is. A text which is no program is refused, with a message that quotes an existing line of it with a mark inside that line, and neither parsing nor formatting what parses ever crashes.",
        "quantifier": (["inputs"], "random modules, and random modules with up to 3 characters removed, replaced or inserted, control and multi-byte characters among them (bounded)"),
        "why_tests_cant": "Tests strip positions before they compare trees, and try few broken texts.",
        "files": ["lib/parse/src/parser.rs", "lib/parse/src/error.rs", "lib/position/src/lib.rs", "lib/position/src/position.rs"],
        "mechanism": [("positions from the input's offset", "lib/parse/src/input.rs, lib/parse/src/parser.rs position"), ("messages", "lib/position/src/lib.rs format_message")],
        "kani": [],
        "native": [("language", ["places::"])],
        "functions": ["parse::parse, parse::parse_comments, format::format, position::{format, format_message} (bounded)"],
        "level": "other",
        "trusted": [],
        "assumptions": [],
        "design": "The parser's contract on positions (the text at a node's position starts with that node) and on refusals (the report quotes the source) executed on random and on damaged programs.",
    },
    "C23": {
        "title": "Documents of a package show its public definitions, and only those",
        "statement": "The document of a package lists, module by module, each public type and function with its signature and the comments right above it; it hides private definitions, fields of records that are not all public, and bodies.",
        "quantifier": (["inputs"], "random packages of types and functions, public and private, with comments (bounded)"),
        "why_tests_cant": "Tests document one or two definitions at a time.",
        "files": ["lib/doc/src/lib.rs"],
        "mechanism": [("selection of public definitions", "lib/doc/src/lib.rs compile_type_definitions, compile_function_definitions"), ("comments above", "lib/doc/src/lib.rs compile_last_block_comment")],
        "kani": [],
        "native": [("language", ["documents::"])],
        "functions": ["doc::generate (bounded)"],
        "level": "other",
        "trusted": [],
        "assumptions": [],
        "design": "The document that the sources call for, written out by the harness, is the postcondition; executed on random packages.",
    },
    "C24": {
        "title": "A compiled program does what its source says",
        "statement": "A well-typed program compiles, and running what the compiler makes of it gives the value and the output that the language reference says: arithmetic, comparison, equality of every comparable type, conditionals of types, lists and maps, records, closures, lazily evaluated lists and comprehensions, errors, conversions to unions and any, and the built-in functions.",
        "quantifier": (["inputs", "histories"], "random well-typed programs over records, unions, lists, maps, functions and any, up to the code that machine code is generated from (bounded); the repository's own Pen tests of the language"),
        "why_tests_cant": "Tests compile one construct at a time and compare the generated code with an expected text; nothing runs it, and constructs meet in unbounded combinations.",
        "files": ["lib/ast-hir/src/lib.rs", "lib/hir/src/analysis/type_checker.rs", "lib/hir/src/analysis/type_coercer.rs", "lib/hir-mir/src/module.rs", "lib/hir-mir/src/transformation/equal_operation/operation.rs", "packages/prelude/List.pen", "packages/prelude/Map.pen"],
        "mechanism": [("names and types resolved", "lib/ast-hir/src/lib.rs compile"), ("types inferred, values converted", "lib/hir/src/analysis/type_inferrer.rs, type_coercer.rs"), ("constructs lowered", "lib/hir-mir/src/expression.rs, lib/hir-mir/src/transformation")],
        "kani": [],
        "native": [("compiler", ["meaning::compiled_programs_do_what_their_sources_say", "packages::tests_of_the_language_pass"])],
        "functions": ["parse::parse, ast_hir::{compile, compile_prelude}, hir_mir::{compile, compile_prelude, compile_test}, packages/prelude/*.pen (bounded)"],
        "level": "other",
        "trusted": ["the harness's interpreter of MIR and its evaluator of sources", "the contracts of foreign functions that C08 to C17 hold the Rust functions to", "stand-ins for the plist and hamt crates, which are not in the sandbox"],
        "assumptions": ["MIR means what harness/compiler/src/machine.rs says; machine code generated from it is outside (N01)"],
        "design": "The contract of the front and middle end is an equation between two meanings: the evaluator of a source's tree, written after doc/, and the interpreter of the MIR that the compiler makes of the source's text. Both compilers' data are unbounded trees behind Arcs and persistent maps, out of Kani's and Verus's reach; the equation is executed on random programs, each stage of the compiler linked from /repo.",
    },
    "C25": {
        "title": "Each stage of the compiler's back end keeps what a program does",
        "statement": "Merging string concatenations, renaming variables apart, normalizing expressions, inferring closures' environments and lifting functions to the top each leave a well-formed module that gives the same value and the same output in the same order, for every program.",
        "quantifier": (["inputs"], "random well-typed programs and the repository's Pen tests, after each stage (bounded)"),
        "why_tests_cant": "Tests transform expressions of one or two nodes and compare the result with an expected tree.",
        "files": ["lib/mir/src/analysis/optimization/string_concatenation.rs", "lib/mir/src/analysis/alpha_conversion.rs", "lib/mir/src/analysis/normalization.rs", "lib/mir/src/analysis/environment_inference.rs", "lib/mir/src/analysis/lambda_lifting.rs", "lib/mir/src/analysis/type_check.rs"],
        "mechanism": [("order of the stages", "lib/mir-fmm/src/lib.rs compile"), ("each stage", "lib/mir/src/analysis")],
        "kani": [],
        "native": [("compiler", ["meaning::stages_keep_what_programs_do"])],
        "functions": ["mir::analysis::{optimization::string_concatenation, alpha_conversion, normalization, environment_inference, lambda_lifting}::transform, type_check::check, variant_type_collection::collect (bounded)"],
        "level": "other",
        "trusted": ["the harness's interpreter of MIR"],
        "assumptions": ["as C24"],
        "design": "Each stage's postcondition is that the module means what it meant before it, by the interpreter: with closures that see the variables around them up to the stage that infers environments, and only their environments from there on.",
    },
    "C26": {
        "title": "A compiled program releases each value once, after its last use",
        "statement": "With the reference counting that the compiler inserts, no value is used after its release or released twice, none is left when a program ends, records are changed in place only when nothing else refers to them, and functions given to another thread are marked as shared first.",
        "quantifier": (["histories", "inputs"], "random well-typed programs, run with counted references on a heap that knows what was released; maps and lists under long histories of operations (bounded)"),
        "why_tests_cant": "Tests compare the code inserted for single expressions; whether counts balance depends on every path through a program and on what its values share.",
        "files": ["lib/mir/src/analysis/reference_count.rs", "lib/mir/src/analysis/reference_count/transformation.rs"],
        "mechanism": [("clones and drops", "lib/mir/src/analysis/reference_count.rs transform")],
        "kani": [],
        "native": [("compiler", ["meaning::compiled_programs_release_what_they_use"])],
        "functions": ["mir::analysis::reference_count::transform (bounded)"],
        "level": "other",
        "trusted": ["the harness's interpreter of MIR, which counts as lib/mir-fmm's generated code does"],
        "assumptions": ["as C24"],
        "design": "The contract: every allocated value's count is its number of references at each step, and zero at the end. The interpreter keeps counts as the generated code does, and stops at a use or a drop of a released value.",
    },
    "C27": {
        "title": "Maps are maps and lists are lists, whatever their history",
        "statement": "A map finds the value last set for each key and none for others, whatever was set, deleted and merged before in whichever order, with keys of any comparable type and however their hashes collide; its size, keys and values agree; earlier versions of it are unchanged. Equal maps are equal, and equal as keys, however they were built.",
        "quantifier": (["histories", "inputs"], "every map, key, value, list and context whose equality is an equivalence that hashes respect (proved); whole histories of up to 600 operations with keys of ten types (bounded)"),
        "why_tests_cant": "The Pen tests, which need the whole toolchain, set and delete a few numbers; deep and collapsed tries need colliding hashes.",
        "files": ["packages/prelude/Map.pen", "packages/prelude/List.pen", "packages/prelude/Hash.pen", "lib/hir-mir/src/transformation/hash_calculation/expression.rs"],
        "mechanism": [("hash array mapped trie", "packages/prelude/Map.pen"), ("contexts that compare and hash keys", "lib/hir-mir/src/transformation/map_context")],
        "kani": [],
        "pen": [("map", None), ("lists", None)],
        "native": [("compiler", ["collections::"])],
        "functions": ["packages/prelude/Map.pen: NewMap, SetMap, GetMap, DeleteMap, MergeMaps, EqualMaps, MaybeEqualMaps, HashMap, IterateMap, MapIterator*, MapSize and all that they call", "packages/prelude/List.pen: all but DebugList", "generated contexts, comparisons and hashes of keys (bounded)"],
        "level": "proof",
        "trusted": ["the harness's interpreter of MIR"],
        "assumptions": ["contexts' equality is an equivalence that their hashes respect: of those generated for types of keys, only the native runs show it, and it is not so of NaN, which is a known finding", "operations come to an end: what is proved is what they give when they do", "sizes, layers and levels are integers below 2^53; hashes are opaque", "function values give the same for the same arguments", "an index of a hash is between 1 and 32, which C13 proves of _pen_prelude_hash_to_index", "earlier versions of maps are unchanged because values are; that memory is not reused is C06, C07 and C26"],
        "design": "Each Pen function has a contract in harness/pen: what is found at every key after an operation in terms of what was found before, how many keys there are, that keys are where they are looked for, and that a map's form depends on its keys alone, so that equal maps compare and hash as equal. The compiler of the working tree compiles the modules to its intermediate code, which engine/penvc.py turns into obligations, path by path, with calls replaced by contracts; SMT solvers discharge each. Lemmas about tries are proved by induction. The same code also runs natively, in whole histories, against ordered maps of Rust with keys of ten types and hashes made to collide.",
    },
    "C28": {
        "title": "Exactly the well-typed programs are accepted, and those never get stuck",
        "statement": "A value is taken where a type is wanted exactly if it is of that type, a member of that union, or the type is any; operators and built-in functions take operands of their types only; unknown, duplicate, recursive and private names, missing and unknown fields and branches are refused. Refused programs get a message and never crash the compiler, and accepted ones never get stuck.",
        "quantifier": (["inputs"], "all pairs of 15 types in 11 places, all operators and built-in functions on them, 60 families of senseless programs, and random programs with words replaced, exchanged, inserted or removed (bounded)"),
        "why_tests_cant": "Tests check a few dozen ill-typed trees, most of which no source text denotes.",
        "files": ["lib/hir/src/analysis/type_checker.rs", "lib/hir/src/analysis/type_subsumption_checker.rs", "lib/hir/src/analysis/type_comparability_checker.rs", "lib/hir/src/analysis/record_field_resolver.rs", "lib/ast-hir/src/import_compiler.rs", "lib/hir-mir/src/duplicate_function_name.rs"],
        "mechanism": [("checks", "lib/hir/src/analysis/type_checker.rs"), ("exported names", "lib/ast-hir/src/import_compiler.rs"), ("opaque records", "lib/hir/src/analysis/record_field_resolver.rs")],
        "kani": [],
        "native": [("compiler", ["refusal::"])],
        "functions": ["ast_hir::compile, hir_mir::compile (bounded)"],
        "level": "other",
        "trusted": ["the harness's interpreter of MIR"],
        "assumptions": ["as C24; an else branch that hides a name bound by `if x = m[k]` is a known finding"],
        "design": "The type system's contract, as a table written from doc/ and as soundness: whatever is accepted runs without getting stuck. Executed over the whole table and on damaged programs.",
    },
    "C29": {
        "title": "JSON and HTML written by packages say what they were made from",
        "statement": "Encoding a JSON value and decoding the text gives an equal value, the text is JSON that denotes it, texts with errors are refused, and blanks between tokens do not matter. A rendered HTML node reads back as the same elements, attributes and texts, whatever characters they contain, and names that are not plain names are refused.",
        "quantifier": (["inputs"], "random values of depth up to 3 and nodes of depth up to 4, with quotes, backslashes, markup and multi-byte characters (bounded)"),
        "why_tests_cant": "The Pen tests, which need the whole toolchain, try one construct each; none decodes what was encoded.",
        "files": ["packages/json/Decode.pen", "packages/json/Encode.pen", "packages/html/Render.pen", "packages/html/validate.pen"],
        "mechanism": [("recursive descent", "packages/json/Decode.pen"), ("escaping and validation", "packages/html/Render.pen")],
        "kani": [],
        "native": [("compiler", ["libraries::json", "libraries::html"])],
        "pen": [("html", None)],
        "functions": ["Html'Render (packages/html/Render.pen): Render, renderAttributes, renderChildren", "Json'Decode, Json'Encode and what they import (bounded)"],
        "level": "other",
        "trusted": ["the harness's interpreter of MIR", "the contracts of foreign functions that C10 to C15 hold the Rust functions to"],
        "assumptions": ["numbers are finite; strings have no control characters and no \\u escapes"],
        "design": "Encode and Decode are each other's contract, together with a strict reader of JSON in the harness; rendering's postcondition is a reader of HTML. The compiled Pen code runs on random values. Rendering's structure (every tag, attribute, text and child, in order, and errors for invalid names and only for them) is proved of the intermediate code for every node, of strings of which only concatenation is known.",
    },
    "C30": {
        "title": "Flags, numbers and lists of the packages follow their documentation",
        "statement": "Named flags are those before the first positional argument or `--`, with the last value of each name, and a missing value is an error. Sums, ranges, sequences, minima and maxima, and the first, last and members of one type of a list are what their names say. The packages' own Pen tests pass and release what they use.",
        "quantifier": (["inputs"], "every list and number for Core'List, Core'Boolean, minima, maxima, sums, ranges, sequences, flags and assertions (proved); random argument lists of up to 7 words on the compiled code and the packages' Pen tests (bounded)"),
        "why_tests_cant": "The Pen tests need the whole toolchain and try a few inputs each.",
        "files": ["packages/flag/Flag.pen", "packages/core/Number.pen", "packages/core/List.pen", "packages/core/String.pen", "packages/core/Boolean.pen", "packages/test/Assert.pen", "packages/reflect/Any.pen"],
        "mechanism": [("flags", "packages/flag/Flag.pen parse"), ("lists of any", "packages/core/List.pen")],
        "kani": [],
        "pen": [("corelist", None), ("corenumber", None), ("coreboolean", None), ("flag", None), ("testing", "Assert")],
        "native": [("compiler", ["libraries::flags", "libraries::lists", "packages::tests_of_packages_pass"])],
        "functions": ["packages/core/List.pen, packages/core/Boolean.pen: all", "packages/core/Number.pen: Maximum, Minimum, Range, Sequence, Sum", "packages/flag/Flag.pen: Parse, parse", "packages/test/Assert.pen: Equal, True, Error"],
        "level": "other",
        "trusted": ["the harness's interpreter of MIR"],
        "assumptions": ["as C24", "operations come to an end: what is proved is what they give when they do", "function values give the same for the same arguments"],
        "design": "Functions of lists, numbers and flags have contracts in harness/pen, in sequences and floating-point numbers of SMT-LIB; engine/penvc.py makes obligations of the intermediate code that the compiler of the working tree compiles them to, and SMT solvers discharge each. For strings and the whole, reference functions in the harness are the postconditions, and the compiled Pen code runs on random arguments.",
    },
}

NOT_APPLICABLE = [
    {
        "id": "N01",
        "title": "Machine code does what the compiler's last intermediate language says",
        "statement": "The object code that `pen build` writes for a module computes what the module's MIR means, including calls in continuation-passing style, thunk updates by concurrent threads, and calls to and from foreign functions.",
        "quantifier": (["inputs", "schedules"], "every module and every schedule of its threads"),
        "why_tests_cant": "Tests check that LLVM accepts the code, not what it does.",
        "files": ["lib/mir-fmm/src/lib.rs"],
        "mechanism": [("code generation", "lib/mir-fmm/src")],
        "reason": "lib/mir-fmm builds on the fmm, fmm-llvm and LLVM crates, which are not in the sandbox, so the code that would be put under contract cannot even be compiled here; its semantics is LLVM's, which no verifier at hand reads.",
    },
    {
        "id": "N02",
        "title": "Concurrent computations all make progress",
        "statement": "Every function started with `go` is run to its end as long as a thread is free, and `race` yields each element of each list.",
        "quantifier": (["schedules"], "every schedule"),
        "why_tests_cant": "Liveness under all schedules.",
        "files": ["packages/os/ffi/src/lib.rs"],
        "mechanism": [("tasks", "tokio")],
        "reason": "Progress is a property of tokio's scheduler and of generated code; contracts decide what a call does when it returns, not that every thread is scheduled.",
    },
    {
        "id": "N03",
        "title": "A build rebuilds exactly what changed",
        "statement": "After any change to a package's sources or dependencies, `pen build` gives what a build from nothing gives.",
        "quantifier": (["histories", "crash_points"], "every history of edits and interrupted builds"),
        "why_tests_cant": "Tests run single builds.",
        "files": ["lib/app/src/package_builder.rs", "lib/infra/src/ninja_build_script_compiler.rs"],
        "mechanism": [("ninja scripts", "lib/infra/src/ninja_build_script_compiler.rs")],
        "reason": "Whether a file is rebuilt is decided by ninja and by pen processes that it starts; the code in the repository writes ninja scripts, whose meaning no verifier at hand defines, and lib/app depends on crates that are not in the sandbox.",
    },
]
