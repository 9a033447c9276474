"""Contracts of packages/core/String/Byte/View.pen.

A view is a range of bytes of a string; what users rely on is which bytes those are.
"""

from wrappers import symbols

NUMBERS = "Int"  # Indexes as mathematical integers, infinity as one that is large enough.

SYMBOLS = {
    "c.Infinity": "Int",
    **symbols("_pen_core_view_", {"starts_with": "Str Int Int Str Bool", "to_string": "Str Int Int Str"}),
    "c.ByteLength": "Str Int",
}

PRELUDE = """
(assert (forall ((s Str)) (! (<= 0 (c.ByteLength s)) :pattern ((c.ByteLength s)))))
; Ranges that are within strings, and how many bytes are there.
(define-fun good ((v View)) Bool (and (<= 1 (View.1 v)) (<= (View.1 v) (+ (View.2 v) 1)) (<= (View.2 v) (c.ByteLength (View.0 v)))))
(define-fun len ((v View)) Int (+ (- (View.2 v) (View.1 v)) 1))
; The byte of a string at an index, and that of a view.
(declare-fun byte (Str Int) Int)
(define-fun at ((v View) (i Int)) Int (byte (View.0 v) (- (+ (View.1 v) i) 1)))
(define-fun least ((x Int) (y Int)) Int (ite (< x y) x y))
(define-fun most ((x Int) (y Int)) Int (ite (< x y) y x))
(define-fun range-of ((v View) (start Int) (end Int) (w View)) Bool (and
  (= (len w) (most 0 (+ (- (least end (len v)) start) 1)))
  (forall ((i Int)) (! (=> (<= 1 i (len w)) (= (at w i) (at v (- (+ start i) 1)))) :pattern ((byte (View.0 w) (- (+ (View.1 w) i) 1)))))))
"""

M = "packages/core/String/Byte/View.pen:"

CONTRACTS = {
    "packages/core/String/Byte.pen:Length": {"signature": "Str Int", "symbol": "c.ByteLength", "verified": False},
    "packages/core/Number.pen:Infinity": {"signature": "Int", "verified": False},
    # Proved of the code in corenumber, of numbers as they are.
    "packages/core/Number.pen:Minimum": {
        "signature": "Int Int Int",
        "ensures": [("it is the lesser", "(= $2 (least $0 $1))")],
        "verified": False,
    },
    M + "New": {
        "signature": "Str View",
        "ensures": [
            ("it is of the string", "(= (View.0 $1) $0)"),
            ("its range is within the string", "(good $1)"),
            ("it is of all bytes", "(and (= (len $1) (c.ByteLength $0)) (forall ((i Int)) (= (at $1 i) (byte $0 i))))"),
        ],
    },
    M + "Viewee": {"signature": "View Str", "ensures": [("it is the string", "(= $1 (View.0 $0))")]},
    M + "Start": {"signature": "View Int", "ensures": [("it is where the range starts", "(= $1 (View.1 $0))")]},
    M + "End": {"signature": "View Int", "ensures": [("it is where the range ends", "(= $1 (View.2 $0))")]},
    M + "Length": {"signature": "View Int", "ensures": [("it is how many bytes there are", "(= $1 (len $0))")]},
    M + "StartsWith": {
        "signature": "View Str Bool",
        "ensures": [
            ("it is whether the range starts so", "(= $2 (f._pen_core_view_starts_with (View.0 $0) (View.1 $0) (View.2 $0) $1))")
        ],
    },
    M + "ToString": {
        "signature": "View Str",
        "ensures": [("it is the string of the range", "(= $1 (f._pen_core_view_to_string (View.0 $0) (View.1 $0) (View.2 $0)))")],
    },
    M + "Slice": {
        "signature": "View Int Int View",
        "ensures": [
            ("it is of the same string", "(= (View.0 $3) (View.0 $0))"),
            ("its range is within the string", "(=> (and (good $0) (<= 1 $1) (<= 0 $2)) (good $3))"),
            ("its bytes are those asked for", "(=> (and (good $0) (<= 1 $1)) (range-of $0 $1 $2 $3))"),
        ],
    },
    M + "Seek": {
        "signature": "View Int View",
        "ensures": [
            ("it is of the same string", "(= (View.0 $2) (View.0 $0))"),
            ("its range is within the string", "(=> (and (good $0) (<= 0 $1) (<= (len $0) c.Infinity)) (good $2))"),
            (
                "its bytes are those after what is skipped",
                "(=> (and (good $0) (<= 0 $1) (<= (len $0) c.Infinity)) (range-of $0 (+ $1 1) (len $0) $2))",
            ),
        ],
    },
}
