"""Contracts of the prelude's lists (packages/prelude/List.pen).

A list is the sequence of what its elements are when they are computed.  Sequences may
go on for ever: what is said of those is said of each of their beginnings.
"""

NUMBERS = "Int"  # Sizes as mathematical integers, hashes as opaque ones.

SYMBOLS = {}

PRELUDE = """
(declare-sort Sq 0)
(declare-fun nil () Sq)
(declare-fun cons (V Sq) Sq)
(declare-fun app (Sq Sq) Sq)
(declare-fun head (Sq) V)
(declare-fun tail (Sq) Sq)
(assert (forall ((v V) (s Sq)) (! (and (= (head (cons v s)) v) (= (tail (cons v s)) s) (not (= (cons v s) nil))) :pattern ((cons v s)))))
(assert (forall ((s Sq)) (! (= (app nil s) s) :pattern ((app nil s)))))
(assert (forall ((v V) (s Sq) (t Sq)) (! (= (app (cons v s) t) (cons v (app s t))) :pattern ((app (cons v s) t)))))
; The elements from a function of a node on, those of a node, and those of a list.
(declare-fun elements (Fn) Sq)
(declare-fun elementsR (Fn) Sq)
(declare-fun of-node (V) Sq)
(assert (forall ((f Fn)) (! (and (= (elements f) (elementsR f)) (= (elements f) (of-node (ap.V f)))) :pattern ((elements f)))))
(assert (forall ((v V)) (! (= (of-node v)
  (ite ((_ is v.node) v) (cons (ap.V (node.0 (v.node.get v))) (elementsR (node.1 (v.node.get v)))) nil)) :pattern ((of-node v)))))
(define-fun of-list ((l List)) Sq (elements (List.0 l)))
"""

EXTRA = """
(declare-fun len (Sq) Int)
(assert (= (len nil) 0))
(assert (forall ((v V) (s Sq)) (! (= (len (cons v s)) (+ 1 (len s))) :pattern ((len (cons v s))))))
; Whether a function gives true for elements at the same places and sizes are the same.
(define-fun yes () V (v.boolean true))
(define-fun no () V (v.boolean false))
(declare-fun equal (Fn Sq Sq) V)
(assert (forall ((f Fn)) (! (= (equal f nil nil) yes) :pattern ((equal f nil nil)))))
(assert (forall ((f Fn) (v V) (s Sq)) (! (= (equal f nil (cons v s)) no) :pattern ((equal f nil (cons v s))))))
(assert (forall ((f Fn) (v V) (s Sq)) (! (= (equal f (cons v s) nil) no) :pattern ((equal f (cons v s) nil)))))
(assert (forall ((f Fn) (v V) (s Sq) (w V) (t Sq)) (! (= (equal f (cons v s) (cons w t))
  (ite (= (ap.V.V.V f v w) yes) (equal f s t) (ite (= (ap.V.V.V f v w) no) no v.none))) :pattern ((equal f (cons v s) (cons w t))))))
(declare-fun equalb (Fn Sq Sq) Bool)
(assert (forall ((f Fn) (g Fn) (s Sq) (t Sq)) (!
  (=> (forall ((a V) (b V)) (! (= (ap.V.V.V g a b) (v.boolean (ap.V.V.Bool f a b))) :pattern ((ap.V.V.V g a b))))
    (= (equal g s t) (v.boolean (equalb f s t)))) :pattern ((equal g s t) (equalb f s t)))))
; Elements at the same places hash alike.
(declare-fun alike (Fn Sq Sq) Bool)
(assert (forall ((f Fn) (v V) (s Sq)) (! (not (alike f nil (cons v s))) :pattern ((alike f nil (cons v s))))))
(assert (forall ((f Fn) (v V) (s Sq)) (! (not (alike f (cons v s) nil)) :pattern ((alike f (cons v s) nil)))))
(assert (forall ((f Fn) (v V) (s Sq) (w V) (t Sq)) (! (=> (alike f (cons v s) (cons w t))
  (and (= (ap.V.Int f v) (ap.V.Int f w)) (alike f s t))) :pattern ((alike f (cons v s) (cons w t))))))
"""

SHARED = {
    "prelude:First": {"signature": "FirstRest Fn", "ensures": [("it is the first element", "(= $1 (FirstRest.0 $0))")]},
    "prelude:Rest": {"signature": "FirstRest List", "ensures": [("it is the rest", "(= $1 (FirstRest.1 $0))")]},
    "prelude:FirstRest": {
        "signature": "List V",
        "ensures": [
            (
                "it is the first element and the rest, or none of an empty list",
                """(or (and (= $1 v.none) (= (of-list $0) nil))
                   (and ((_ is v.FirstRest) $1) (= (of-list $0)
                     (cons (ap.V (FirstRest.0 (v.FirstRest.get $1))) (of-list (FirstRest.1 (v.FirstRest.get $1)))))))""",
            )
        ],
    },
    "prelude:EmptyList": {"signature": "List", "ensures": [("it has no element", "(= (of-list $0) nil)")]},
    "prelude:PrependToList": {
        "signature": "Fn List List",
        "ensures": [("the element comes before those of the list", "(= (of-list $2) (cons (ap.V $0) (of-list $1)))")],
    },
    "prelude:LazyList": {
        "signature": "Fn List",
        "ensures": [("its elements are those of the list", "(= (of-list $1) (of-list (ap.List $0)))")],
    },
    "prelude:ConcatenateLists": {
        "signature": "Fn List List",
        "ensures": [("elements of one come before those of the other", "(= (of-list $2) (app (of-list (ap.List $0)) (of-list $1)))")],
    },
}

CONTRACTS = {
    **SHARED,
    "prelude:prependToNode": {
        "signature": "Fn Fn node",
        "ensures": [("the element comes first", "(= (of-node (v.node $2)) (cons (ap.V $0) (elements $1)))")],
    },
    "prelude:concatenateNodes": {
        "signature": "Fn Fn Fn",
        "ensures": [("elements of one come before those of the other", "(= (elements $2) (app (elements $0) (elements $1)))")],
    },
    "prelude:equalNodes": {
        "signature": "Fn V V V",
        "ensures": [("elements are compared", "(= $3 (equal $0 (of-node $1) (of-node $2)))")],
    },
    "prelude:EqualLists": {
        "signature": "Fn List List Bool",
        "ensures": [("elements are compared", "(= $3 (equalb $0 (of-list $1) (of-list $2)))")],
    },
    "prelude:MaybeEqualLists": {
        "signature": "Fn List List V",
        "ensures": [("elements are compared", "(= $3 (equal $0 (of-list $1) (of-list $2)))")],
    },
    "prelude:nodeSize": {
        "signature": "V Int Int",
        "ensures": [("elements are counted", "(= $2 (+ $1 (len (of-node $0))))")],
    },
    "prelude:ListSize": {"signature": "List Int", "ensures": [("elements are counted", "(= $1 (len (of-list $0)))")]},
    "prelude:hashNode": {
        "signature": "Fn Fn Int Int",
        "relations": [
            (
                "lists of elements that hash alike hash alike",
                "(and (= $0 $3) (= $2 $5) (alike $0 (elements $1) (elements $4)))",
                "(= $6 $7)",
            )
        ],
    },
    "prelude:HashList": {
        "signature": "Fn List Int",
        "relations": [
            ("lists of elements that hash alike hash alike", "(and (= $0 $2) (alike $0 (of-list $1) (of-list $3)))", "(= $4 $5)")
        ],
    },
}

SPECIFICATION = PRELUDE
PRELUDE = PRELUDE + EXTRA
