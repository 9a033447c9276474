"""Contracts of packages/regex/Expression.pen, packages/test/{State,Assert}.pen and packages/reflect/Any.pen."""

from lists import EXTRA, SHARED, SPECIFICATION
from wrappers import symbols, wrappers

NUMBERS = "Int"

SYMBOLS = {
    **symbols("_pen_regex_expression_", {"new": "Str V", "matches": "Expression Str Bool", "match": "Expression Str List"}),
    **symbols("_pen_test_state_", {"get": "State V", "set": "State V Nothing"}),
    "c.Equal": "V V V",
}

PRELUDE = SPECIFICATION + EXTRA.split("; Whether a function")[0] + """
(assert (forall ((s Sq)) (! (and (<= 0 (len s)) (= (= (len s) 0) (= s nil))) :pattern ((len s)))))
"""

R = "packages/regex/Expression.pen"
S = "packages/test/State.pen"
A = "packages/test/Assert.pen:"

CONTRACTS = {
    **{name: {**contract, "verified": False} for name, contract in SHARED.items()},
    "prelude:ListSize": {"signature": "List Int", "ensures": [("elements are counted", "(= $1 (len (of-list $0)))")], "verified": False},
    "packages/reflect/Any.pen:Equal": {"signature": "V V V", "verified": False},
    "packages/reflect/Any.pen:Debug": {"signature": "V Str", "verified": False},
    **wrappers(R, SYMBOLS, {"New": "_pen_regex_expression_new", "Matches": "_pen_regex_expression_matches"}),
    R + ":Match": {
        "signature": "Expression Str V",
        "ensures": [
            ("it is none of no match", "(= (= $2 v.none) (= (of-list (f._pen_regex_expression_match $0 $1)) nil))"),
            ("or else it is what matched", "(or (= $2 v.none) (and (is-list $2) (= (list-in $2) (f._pen_regex_expression_match $0 $1))))"),
        ],
    },
    **wrappers(S, SYMBOLS, {"Get": "_pen_test_state_get", "Set": "_pen_test_state_set"}),
    A + "Equal": {
        "signature": "V V V",
        "ensures": [
            ("it is none of equal values only", "(= (= $2 v.none) (= (c.Equal $0 $1) (v.boolean true)))"),
            ("or else it is an error", "(or (= $2 v.none) ((_ is v.error) $2))"),
        ],
    },
    A + "True": {
        "signature": "Bool V",
        "ensures": [
            ("it is none of what is true only", "(= (= $1 v.none) $0)"),
            ("or else it is an error", "(or (= $1 v.none) ((_ is v.error) $1))"),
        ],
    },
    A + "Error": {
        "signature": "V V",
        "ensures": [
            ("it is none of errors only", "(= (= $1 v.none) ((_ is v.error) $0))"),
            ("or else it is an error", "(or (= $1 v.none) ((_ is v.error) $1))"),
        ],
    },
}
