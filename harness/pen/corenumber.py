"""Contracts of packages/core/Number.pen, in floating-point numbers."""

from lists import SHARED, SPECIFICATION

NUMBERS = "Float64"

SYMBOLS = {}

PRELUDE = SPECIFICATION + """
(define-fun one () Float64 ((_ to_fp 11 53) RNE 1.0))
(define-fun zero () Float64 (_ +zero 11 53))
; What foreign functions are, by the contracts of C13.
(declare-fun sum (Sq Float64) Float64)
(assert (forall ((x Float64)) (! (= (sum nil x) x) :pattern ((sum nil x)))))
(assert (forall ((v V) (s Sq) (x Float64)) (! (= (sum (cons v s) x) (sum s (fp.add RNE x (v.number.get v)))) :pattern ((sum (cons v s) x)))))
; Numbers from one to another.
(declare-fun range (Float64 Float64) Sq)
(declare-fun rangeR (Float64 Float64) Sq)
(assert (forall ((x Float64) (y Float64)) (! (and (= (range x y) (rangeR x y))
  (= (range x y) (ite (fp.gt x y) nil (cons (v.number x) (rangeR (fp.add RNE x one) y))))) :pattern ((range x y)))))
"""

CONTRACTS = {
    **{name: {**contract, "verified": False} for name, contract in SHARED.items()},
    "packages/core/Number.pen:_pen_core_is_nan": {
        "verified": False,
        "signature": "Float64 Bool",
        "ensures": [("it is whether the number is no number", "(= $1 (fp.isNaN $0))")],
    },
    "packages/core/Number.pen:_pen_core_nan": {
        "verified": False,
        "signature": "Float64",
        "ensures": [("it is no number", "(fp.isNaN $0)")],
    },
    "packages/core/Number.pen:Maximum": {
        "signature": "Float64 Float64 Float64",
        "ensures": [
            ("it is no number if one is none", "(= (fp.isNaN $2) (or (fp.isNaN $0) (fp.isNaN $1)))"),
            ("it is one of the two", "(=> (not (fp.isNaN $2)) (or (= $2 $0) (= $2 $1)))"),
            ("it is no less than either", "(=> (not (fp.isNaN $2)) (and (fp.geq $2 $0) (fp.geq $2 $1)))"),
        ],
    },
    "packages/core/Number.pen:Minimum": {
        "signature": "Float64 Float64 Float64",
        "ensures": [
            ("it is no number if one is none", "(= (fp.isNaN $2) (or (fp.isNaN $0) (fp.isNaN $1)))"),
            ("it is one of the two", "(=> (not (fp.isNaN $2)) (or (= $2 $0) (= $2 $1)))"),
            ("it is no greater than either", "(=> (not (fp.isNaN $2)) (and (fp.leq $2 $0) (fp.leq $2 $1)))"),
        ],
    },
    "packages/core/Number.pen:Range": {
        "signature": "Float64 Float64 List",
        "ensures": [("it goes by one from the minimum to the maximum", "(= (of-list $2) (range $0 $1))")],
    },
    "packages/core/Number.pen:Sequence": {
        "signature": "Float64 List",
        "ensures": [("it goes by one from one to the maximum", "(= (of-list $1) (range one $0))")],
    },
    "packages/core/Number.pen:Sum": {
        "signature": "List Float64",
        "ensures": [("elements are added up in order", "(= $1 (sum (of-list $0) zero))")],
    },
    "packages/core/Number.pen:sumRecursive": {
        "signature": "List Float64 Float64",
        "ensures": [("elements are added in order", "(= $2 (sum (of-list $0) $1))")],
    },
}
