"""Contracts of packages/flag/Flag.pen."""

from lists import SHARED, SPECIFICATION

NUMBERS = "Int"

SYMBOLS = {
    "s.2d": "Str",
    "s.2d2d": "Str",
    "s." + b"flag value missing".hex(): "Str",
    "c.ByteLength": "Str Int",
    "c.Slice": "Str Int Int Str",
    "c.StartsWith": "Str Str Bool",
    "c.Infinity": "Int",
    "c.SetMap": "MapContext Map V V Map",
    "c.strings": "MapContext",
    "c.NewMap": "Map",
}

PRELUDE = SPECIFICATION + """
; What strings are, as doc comments of the module say: a separator, a named flag, or a
; positional one, after which all are positional.
(define-fun separator ((v V)) Bool (= (v.string.get v) s.2d2d))
(define-fun named ((v V)) Bool (and (not (separator v)) (c.StartsWith (v.string.get v) s.2d)))
(assert (= (c.ByteLength s.2d) 1))
(assert (distinct s.2d s.2d2d))
(define-fun key ((v V)) V (v.string (c.Slice (v.string.get v) 2 c.Infinity)))
; Whether a value is missing, the named flags, and the positional ones.
(declare-fun missing (Sq) Bool)
(declare-fun values (Sq Map) Map)
(declare-fun others (Sq) Sq)
(assert (and (not (missing nil)) (= (others nil) nil)))
(assert (forall ((m Map)) (! (= (values nil m) m) :pattern ((values nil m)))))
(assert (forall ((v V) (s Sq)) (! (=> (not (named v)) (and (not (missing (cons v s)))
  (= (others (cons v s)) (ite (separator v) s (cons v s))))) :pattern ((missing (cons v s))) :pattern ((others (cons v s))))))
(assert (forall ((v V) (s Sq) (m Map)) (! (=> (not (named v)) (= (values (cons v s) m) m)) :pattern ((values (cons v s) m)))))
(assert (forall ((v V) (s Sq)) (! (=> (named v) (and (= (missing (cons v s)) (or (= s nil) (missing (tail s))))
  (= (others (cons v s)) (others (tail s))))) :pattern ((missing (cons v s))) :pattern ((others (cons v s))))))
(assert (forall ((v V) (s Sq) (m Map)) (! (=> (and (named v) (not (= s nil)))
  (= (values (cons v s) m) (values (tail s) (c.SetMap c.strings m (key v) (head s))))) :pattern ((values (cons v s) m)))))
"""

M = "packages/flag/Flag.pen:"


def parsed(strings, flags, result):
    return [
        ("it is an error if and only if a value is missing", "(= ((_ is v.error) %s) (missing %s))" % (result, strings)),
        ("or else it is a set", "(or ((_ is v.error) %s) ((_ is v.Set) %s))" % (result, result)),
        (
            "named flags have the values after them",
            "(=> ((_ is v.Set) %s) (= (Set.0 (v.Set.get %s)) (values %s %s)))" % (result, result, strings, flags),
        ),
        (
            "positional flags are the others in order",
            "(=> ((_ is v.Set) %s) (= (of-list (Set.1 (v.Set.get %s))) (others %s)))" % (result, result, strings),
        ),
    ]


CONTRACTS = {
    **{name: {**contract, "verified": False} for name, contract in SHARED.items()},
    "prelude:EqualStrings": {"signature": "Str Str Bool", "ensures": [("they are the same", "(= $2 (= $0 $1))")], "verified": False},
    "prelude:SetMap": {"signature": "MapContext Map V V Map", "verified": False},
    "prelude:NewMap": {"signature": "Map", "verified": False},
    "~hir:map:context:.*": {"signature": "MapContext", "symbol": "c.strings", "verified": False},
    "packages/core/String.pen:StartsWith": {"signature": "Str Str Bool", "verified": False},
    "packages/core/String/Byte.pen:Length": {"signature": "Str Int", "symbol": "c.ByteLength", "verified": False},
    "packages/core/String/Byte.pen:Slice": {"signature": "Str Int Int Str", "verified": False},
    "packages/core/Number.pen:Infinity": {"signature": "Int", "verified": False},
    M + "parse": {"signature": "List Map V", "ensures": parsed("(of-list $0)", "$1", "$2")},
    M + "Parse": {"signature": "List V", "ensures": parsed("(of-list $0)", "c.NewMap", "$1")},
}
