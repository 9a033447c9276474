"""Contracts of string concatenation in packages/core/String.pen."""

from lists import SHARED, SPECIFICATION
from wrappers import symbols

NUMBERS = "Int"

SYMBOLS = {
    "s.": "Str",
    **symbols(
        "_pen_core_string_builder_",
        {"create": "stringBuilder", "append": "stringBuilder Str stringBuilder", "build": "stringBuilder Str Str"},
    ),
}

PRELUDE = SPECIFICATION + """
; A builder that all strings of a sequence are appended to in order.
(declare-fun append-all (stringBuilder Sq) stringBuilder)
(assert (forall ((b stringBuilder)) (! (= (append-all b nil) b) :pattern ((append-all b nil)))))
(assert (forall ((b stringBuilder) (v V) (s Sq)) (!
  (= (append-all b (cons v s)) (append-all (f._pen_core_string_builder_append b (v.string.get v)) s)) :pattern ((append-all b (cons v s))))))
"""

CONTRACTS = {
    **{name: {**contract, "verified": False} for name, contract in SHARED.items()},
    "packages/core/String.pen:appendStrings": {
        "signature": "stringBuilder List stringBuilder",
        "ensures": [("strings are appended in order", "(= $2 (append-all $0 (of-list $1)))")],
    },
    "packages/core/String.pen:Join": {
        "signature": "List Str Str",
        "ensures": [
            (
                "strings are appended in order to a builder",
                "(= $2 (f._pen_core_string_builder_build (append-all f._pen_core_string_builder_create (of-list $0)) $1))",
            )
        ],
    },
    "packages/core/String.pen:Concatenate": {
        "signature": "List Str",
        "ensures": [
            (
                "strings are joined with nothing",
                "(= $1 (f._pen_core_string_builder_build (append-all f._pen_core_string_builder_create (of-list $0)) s.))",
            )
        ],
    },
}
