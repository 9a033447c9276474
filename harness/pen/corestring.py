"""Contracts of packages/core/{Character,String,String/Byte,String/Utf8}.pen."""

from wrappers import symbols, wrappers

NUMBERS = "Int"  # Indexes as mathematical integers.

SYMBOLS = {
    **symbols("_pen_core_character_", {"to_code_point": "Str Int", "from_code_point": "Int Str"}),
    **symbols("_pen_core_byte_", {"length": "Str Int", "slice": "Str Int Int Str"}),
    **symbols(
        "_pen_core_utf8_",
        {
            "characters": "Str List",
            "contains": "Str Str Bool",
            "find": "Str Str Int",
            "length": "Str Int",
            "starts_with": "Str Str Bool",
            "ends_with": "Str Str Bool",
            "replace": "Str Str Str Str",
            "slice": "Str Int Int Str",
            "split": "Str Str List",
            "to_lowercase": "Str Str",
            "to_uppercase": "Str Str",
            "trim": "Str Str",
            "trim_end": "Str Str",
            "trim_end_matches": "Str Str Str",
            "trim_start": "Str Str",
            "trim_start_matches": "Str Str Str",
        },
    ),
    **symbols("_pen_core_string_", {"starts_with": "Str Str Bool"}),
}

PRELUDE = ""

CONTRACTS = {
    **wrappers(
        "packages/core/Character.pen",
        SYMBOLS,
        {"FromCodePoint": "_pen_core_character_from_code_point", "ToCodePoint": "_pen_core_character_to_code_point"},
    ),
    **wrappers("packages/core/String/Byte.pen", SYMBOLS, {"Length": "_pen_core_byte_length", "Slice": "_pen_core_byte_slice"}),
    **wrappers(
        "packages/core/String/Utf8.pen",
        SYMBOLS,
        {
            "Characters": "_pen_core_utf8_characters",
            "Contains": "_pen_core_utf8_contains",
            "StartsWith": "_pen_core_utf8_starts_with",
            "EndsWith": "_pen_core_utf8_ends_with",
            "Length": "_pen_core_utf8_length",
            "Replace": "_pen_core_utf8_replace",
            "Slice": "_pen_core_utf8_slice",
            "Split": "_pen_core_utf8_split",
            "ToLowercase": "_pen_core_utf8_to_lowercase",
            "ToUppercase": "_pen_core_utf8_to_uppercase",
            "Trim": "_pen_core_utf8_trim",
            "TrimEnd": "_pen_core_utf8_trim_end",
            "TrimEndMatches": "_pen_core_utf8_trim_end_matches",
            "TrimStart": "_pen_core_utf8_trim_start",
            "TrimStartMatches": "_pen_core_utf8_trim_start_matches",
        },
    ),
    "packages/core/String/Utf8.pen:Find": {
        "signature": "Str Str V",
        "ensures": [
            (
                "it is an index, or none of a pattern not found",
                "(= $2 (ite (< (f._pen_core_utf8_find $0 $1) 0) v.none (v.number (f._pen_core_utf8_find $0 $1))))",
            )
        ],
    },
    "packages/core/String/Utf8.pen:TrimMatches": {
        "signature": "Str Str Str",
        "ensures": [
            (
                "patterns are trimmed at both ends",
                """(or (= $2 (f._pen_core_utf8_trim_end_matches (f._pen_core_utf8_trim_start_matches $0 $1) $1))
                  (= $2 (f._pen_core_utf8_trim_start_matches (f._pen_core_utf8_trim_end_matches $0 $1) $1)))""",
            )
        ],
    },
    **wrappers("packages/core/String.pen", SYMBOLS, {"StartsWith": "_pen_core_string_starts_with"}),
}
