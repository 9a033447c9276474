"""Contracts of packages/core/Boolean.pen."""

from lists import SHARED, SPECIFICATION

NUMBERS = "Int"

PRELUDE = SPECIFICATION + """
; Whether some element, and whether every element, is true.
(define-fun yes () V (v.boolean true))
(declare-fun some (Sq) Bool)
(declare-fun every (Sq) Bool)
(assert (and (not (some nil)) (every nil)))
(assert (forall ((v V) (s Sq)) (! (and (= (some (cons v s)) (or (= v yes) (some s))) (= (every (cons v s)) (and (= v yes) (every s))))
  :pattern ((cons v s)))))
"""

CONTRACTS = {
    **{name: {**contract, "verified": False} for name, contract in SHARED.items()},
    "packages/core/Boolean.pen:Any": {
        "signature": "List Bool",
        "ensures": [("it is whether an element is true", "(= $1 (some (of-list $0)))")],
    },
    "packages/core/Boolean.pen:All": {
        "signature": "List Bool",
        "ensures": [("it is whether every element is true", "(= $1 (every (of-list $0)))")],
    },
}
