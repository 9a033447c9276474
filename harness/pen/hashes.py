"""Contracts of packages/prelude/{Hash,Number,String}.pen."""

from wrappers import symbols, wrappers

NUMBERS = "Int"  # Never computed with.

SYMBOLS = symbols(
    "_pen_prelude_",
    {"combine_hashes": "Int Int Int", "hash_number": "Int Int", "hash_string": "Str Int", "debug_number": "Int Str", "equal_strings": "Str Str Bool"},
)

PRELUDE = ""

CONTRACTS = wrappers(
    "prelude",
    SYMBOLS,
    {
        "CombineHashes": "_pen_prelude_combine_hashes",
        "HashNumber": "_pen_prelude_hash_number",
        "HashString": "_pen_prelude_hash_string",
        "DebugNumber": "_pen_prelude_debug_number",
        "EqualStrings": "_pen_prelude_equal_strings",
    },
)
