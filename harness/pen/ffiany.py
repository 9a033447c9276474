"""Contracts of packages/ffi/{any,list}.pen, by which foreign code sees values of any type."""

from lists import SHARED, SPECIFICATION

NUMBERS = "Int"  # Never computed with.

PRELUDE = SPECIFICATION

SYMBOLS = {"s.": "Str", "s." + b"non-error type detected".hex(): "Str"}

A = "packages/ffi/any.pen:pen_ffi_"
L = "packages/ffi/list.pen:pen_ffi_list_"


def tests(type_):
    return {
        A + "any_is_" + type_: {
            "signature": "V Bool",
            "ensures": [("it is whether the value is of the type", "(= $1 %s)" % is_(type_, "$0"))],
        }
    }


def is_(type_, value):
    return "(is-list %s)" % value if type_ == "list" else "((_ is v.%s) %s)" % (type_, value)


def of(type_, value):
    return {
        "list": "(list-in %s)" % value,
        "error": "(v.error.get %s)" % value,
        "none": "nothing",
    }.get(type_, "(v.%s.get %s)" % (type_, value))


def conversions(type_, sort, otherwise):
    return {
        A + "any_to_" + type_: {
            "signature": "V " + sort,
            "ensures": [
                ("it is the value of the type", "(=> %s (= $1 %s))" % (is_(type_, "$0"), of(type_, "$0"))),
                *([("or else it is nothing much", "(=> (not %s) %s)" % (is_(type_, "$0"), otherwise))] if otherwise else []),
            ],
        },
        A + type_ + "_to_any": {
            "signature": sort + " V",
            "ensures": [("it is the value", "(and %s (= %s $0))" % (is_(type_, "$1"), of(type_, "$1")))],
        },
    }


CONTRACTS = {
    **{name: {**contract, "verified": False} for name, contract in SHARED.items()},
    **{name: c for type_ in ["boolean", "error", "none", "list", "number", "string"] for name, c in tests(type_).items()},
    **conversions("boolean", "Bool", "(not $1)"),
    **conversions("number", "Int", "(= $1 0)"),
    **conversions("string", "Str", "(= $1 s.)"),
    **conversions("list", "List", "(= (of-list $1) nil)"),
    **conversions("error", "error", ""),
    A + "none_to_any": {"signature": "V", "ensures": [("it is none", "(= $0 v.none)")]},
    L + "create": {"signature": "List", "ensures": [("it has no element", "(= (of-list $0) nil)")]},
    L + "prepend": {
        "signature": "V List List",
        "ensures": [("the element comes before those of the list", "(= (of-list $2) (cons $0 (of-list $1)))")],
    },
    L + "lazy": {"signature": "Fn List", "ensures": [("its elements are those of the list", "(= (of-list $1) (of-list (ap.List $0)))")]},
    L + "first_rest": {
        "signature": "List firstRest",
        "ensures": [
            (
                "it is the first element and the rest, or nothing of an empty list",
                """(and (= (firstRest.0 $1) (not (= (of-list $0) nil))) (=> (firstRest.0 $1)
                  (= (of-list $0) (cons (ap.V (firstRest.1 $1)) (of-list (firstRest.2 $1))))))""",
            )
        ],
    },
}
