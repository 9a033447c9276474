"""Contracts of packages/core/List.pen."""

from lists import SHARED, SPECIFICATION

NUMBERS = "Int"

PRELUDE = SPECIFICATION + """
; The last element, and those of a type.
(declare-fun last (Sq V) V)
(assert (forall ((d V)) (! (= (last nil d) d) :pattern ((last nil d)))))
(assert (forall ((v V) (s Sq) (d V)) (! (= (last (cons v s) d) (last s v)) :pattern ((last (cons v s) d)))))
""" + "".join(
    """
(declare-fun %(t)ss (Sq) Sq)
(assert (= (%(t)ss nil) nil))
(assert (forall ((v V) (s Sq)) (! (= (%(t)ss (cons v s)) (ite ((_ is v.%(t)s) v) (cons v (%(t)ss s)) (%(t)ss s)))
  :pattern ((%(t)ss (cons v s))))))
"""
    % {"t": t}
    for t in ["number", "string", "boolean"]
)

CONTRACTS = {
    **{name: {**contract, "verified": False} for name, contract in SHARED.items()},
    "packages/core/List.pen:First": {
        "signature": "List V V",
        "ensures": [("it is the first element, or else the other value", "(= $2 (ite (= (of-list $0) nil) $1 (head (of-list $0))))")],
    },
    "packages/core/List.pen:Last": {
        "signature": "List V V",
        "ensures": [("it is the last element, or else the other value", "(= $2 (last (of-list $0) $1))")],
    },
    "packages/core/List.pen:last": {
        "signature": "List Fn V",
        "ensures": [("it is the last element, or else the other one", "(= $2 (last (of-list $0) (ap.V $1)))")],
    },
    **{
        "packages/core/List.pen:To%ss" % t.capitalize(): {
            "signature": "List List",
            "ensures": [("elements of the type stay in order", "(= (of-list $1) (%ss (of-list $0)))" % t)],
        }
        for t in ["number", "string", "boolean"]
    },
}
