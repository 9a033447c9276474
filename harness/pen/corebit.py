"""Contracts of packages/core/Bit.pen."""

from wrappers import symbols, wrappers

NUMBERS = "Int"  # Never computed with: numbers are as opaque as strings here.

SYMBOLS = symbols(
    "_pen_core_bit_",
    {
        "and": "Int Int Int",
        "or": "Int Int Int",
        "xor": "Int Int Int",
        "not": "Int Int",
        "left_shift": "Int Int Int",
        "right_shift": "Int Int Int",
        "to_integer_64": "Int Int",
        "from_integer_64": "Int Int",
    },
)

PRELUDE = ""

CONTRACTS = wrappers(
    "packages/core/Bit.pen",
    SYMBOLS,
    {
        "And": "_pen_core_bit_and",
        "Or": "_pen_core_bit_or",
        "Xor": "_pen_core_bit_xor",
        "Not": "_pen_core_bit_not",
        "LeftShift": "_pen_core_bit_left_shift",
        "RightShift": "_pen_core_bit_right_shift",
        "ToInteger64": "_pen_core_bit_to_integer_64",
        "FromInteger64": "_pen_core_bit_from_integer_64",
    },
)
