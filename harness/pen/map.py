"""Contracts of the prelude's maps (packages/prelude/Map.pen).

Maps are hash array mapped tries.  A key's place in a node is the index of its hash
at a layer and a level; nodes of the next level, or of the first level of the next
layer, hold keys whose indexes are the same.

What users rely on is in the contracts of SetMap, GetMap, DeleteMap and the others:
what is found at every key after an operation, in terms of what was found before.
"""

NUMBERS = "Int"  # Sizes, levels and layers as mathematical integers, hashes as opaque ones.

SYMBOLS = {
    "c._pen_prelude_hash_to_index": "Int Int Int Int",
    "c.SetMap": "MapContext Map V V Map",
}

ENTRIES = 32

PRELUDE = """
(define-fun empty () V (v.Empty mk.Empty))
(define-fun eqk ((c MapContext) (a V) (b V)) Bool (ap.V.V.Bool (MapContext.0 c) a b))
(define-fun hash ((c MapContext) (a V)) Int (ap.V.Int (MapContext.2 c) a))
(define-fun idx ((c MapContext) (k V) (la Int) (le Int)) Int (c._pen_prelude_hash_to_index (hash c k) la le))
;; context
; What is required of a context: equality is an equivalence which hashes respect.
(declare-fun good (MapContext) Bool)
(assert (forall ((c MapContext) (a V)) (! (=> (good c) (eqk c a a)) :pattern ((eqk c a a)))))
(assert (forall ((c MapContext) (a V) (b V)) (! (=> (and (good c) (eqk c a b)) (eqk c b a)) :pattern ((eqk c a b)))))
(assert (forall ((c MapContext) (a V) (b V) (d V)) (! (=> (and (good c) (eqk c a b) (eqk c b d)) (eqk c a d))
  :pattern ((eqk c a b) (eqk c b d)))))
(assert (forall ((c MapContext) (a V) (b V)) (! (=> (and (good c) (eqk c a b)) (= (hash c a) (hash c b)))
  :pattern ((eqk c a b)))))
; An index is that of an entry: proved of the code in C13 (index_is_an_entry_of_a_node).
(assert (forall ((h Int) (la Int) (le Int)) (! (=> (<= 1 le 13) (<= 1 (c._pen_prelude_hash_to_index h la le) 32))
  :pattern ((c._pen_prelude_hash_to_index h la le)))))
(define-fun nla ((la Int) (le Int)) Int (ite (> le 12) (+ la 1) la))
(define-fun nle ((la Int) (le Int)) Int (ite (> le 12) 1 (+ le 1)))

; The entry of a node at an index.
(declare-fun sel (hamt Int) V)
(assert (forall ((h hamt) (j Int)) (! (=> (not (<= 1 j 32)) (= (sel h j) v.none)) :pattern ((sel h j)))))

;; keys
; Whether a node has a key, and the value at the key.  Those ending in R are the same
; functions, of which definitions are not unfolded.
(declare-fun has (MapContext hamt V Int Int) Bool)
(declare-fun hasR (MapContext hamt V Int Int) Bool)
(declare-fun look (MapContext hamt V Int Int) V)
(declare-fun lookR (MapContext hamt V Int Int) V)
(assert (forall ((c MapContext) (h hamt) (k V) (la Int) (le Int)) (! (and
  (= (has c h k la le) (hasR c h k la le))
  (= (has c h k la le) (let ((e (sel h (idx c k la le))))
    (or (and ((_ is v.keyValue) e) (eqk c (keyValue.0 (v.keyValue.get e)) k))
        (and ((_ is v.hamt) e) (hasR c (v.hamt.get e) k (nla la le) (nle la le)))))))
  :pattern ((has c h k la le)))))
(assert (forall ((c MapContext) (h hamt) (k V) (la Int) (le Int)) (! (and
  (= (look c h k la le) (lookR c h k la le))
  (= (look c h k la le) (let ((e (sel h (idx c k la le))))
    (ite ((_ is v.keyValue) e) (ite (eqk c (keyValue.0 (v.keyValue.get e)) k) (keyValue.1 (v.keyValue.get e)) empty)
      (ite ((_ is v.hamt) e) (lookR c (v.hamt.get e) k (nla la le) (nle la le)) empty)))))
  :pattern ((look c h k la le)))))

;; places
; All the keys within a node have an index at a layer and a level.
(declare-fun allat (MapContext hamt Int Int Int) Bool)
(declare-fun allatR (MapContext hamt Int Int Int) Bool)
(assert (forall ((c MapContext) (h hamt) (la Int) (le Int) (i Int)) (! (and
  (= (allat c h la le i) (allatR c h la le i))
  (= (allat c h la le i) (forall ((j Int)) (! (=> (<= 1 j 32) (and
    (=> ((_ is v.keyValue) (sel h j)) (= (idx c (keyValue.0 (v.keyValue.get (sel h j))) la le) i))
    (=> ((_ is v.hamt) (sel h j)) (allatR c (v.hamt.get (sel h j)) la le i)))) :pattern ((sel h j))))))
  :pattern ((allat c h la le i)))))
; Every key within a node is where it is looked for.
(declare-fun wf (MapContext hamt Int Int) Bool)
(declare-fun wfR (MapContext hamt Int Int) Bool)
(assert (forall ((c MapContext) (h hamt) (la Int) (le Int)) (! (and
  (= (wf c h la le) (wfR c h la le))
  (= (wf c h la le) (forall ((j Int)) (! (=> (<= 1 j 32) (and
    (=> ((_ is v.keyValue) (sel h j)) (= (idx c (keyValue.0 (v.keyValue.get (sel h j))) la le) j))
    (=> ((_ is v.hamt) (sel h j)) (and (wfR c (v.hamt.get (sel h j)) (nla la le) (nle la le))
      (allat c (v.hamt.get (sel h j)) la le j))))) :pattern ((sel h j))))))
  :pattern ((wf c h la le)))))

;; form
; A node below another one has two keys at least, so that maps of the same keys are of
; the same form.
(define-fun two ((c MapContext) (h hamt) (la Int) (le Int)) Bool
  (exists ((k V) (l V)) (! (and (has c h k la le) (has c h l la le) (not (eqk c k l)))
    :pattern ((hasR c h k la le) (hasR c h l la le)))))
(declare-fun canon (MapContext hamt Int Int) Bool)
(declare-fun canonR (MapContext hamt Int Int) Bool)
(assert (forall ((c MapContext) (h hamt) (la Int) (le Int)) (! (and
  (= (canon c h la le) (canonR c h la le))
  (= (canon c h la le) (forall ((j Int)) (! (and
    (or ((_ is v.none) (sel h j)) ((_ is v.hamt) (sel h j)) ((_ is v.keyValue) (sel h j)))
    (=> (and (<= 1 j 32) ((_ is v.hamt) (sel h j)))
    (and (canonR c (v.hamt.get (sel h j)) (nla la le) (nle la le)) (two c (v.hamt.get (sel h j)) (nla la le) (nle la le))))
    ) :pattern ((sel h j))))))
  :pattern ((canon c h la le)))))
; Nodes of the same form with keys and values between which functions give true.
(define-fun yes () V (v.boolean true))
(declare-fun sameR (Fn Fn hamt hamt) Bool)
(define-fun same-entry ((fk Fn) (fv Fn) (a V) (b V)) Bool (or
  (and (= a v.none) (= b v.none))
  (and ((_ is v.keyValue) a) ((_ is v.keyValue) b)
    (= (ap.V.V.V fk (keyValue.0 (v.keyValue.get a)) (keyValue.0 (v.keyValue.get b))) yes)
    (= (ap.V.V.V fv (keyValue.1 (v.keyValue.get a)) (keyValue.1 (v.keyValue.get b))) yes))
  (and ((_ is v.hamt) a) ((_ is v.hamt) b) (sameR fk fv (v.hamt.get a) (v.hamt.get b)))))
(define-fun same-from ((fk Fn) (fv Fn) (g hamt) (h hamt) (i Int)) Bool
  (forall ((j Int)) (! (=> (<= i j 32) (same-entry fk fv (sel g j) (sel h j))) :pattern ((sel g j)) :pattern ((sel h j)))))
(declare-fun same (Fn Fn hamt hamt) Bool)
(assert (forall ((fk Fn) (fv Fn) (g hamt) (h hamt)) (! (and
  (= (same fk fv g h) (sameR fk fv g h))
  (= (same fk fv g h) (same-from fk fv g h 1))) :pattern ((same fk fv g h)))))

;; equality
; Functions made of those of a context.
(define-fun eqv ((c MapContext) (a V) (b V)) Bool (ap.V.V.Bool (MapContext.1 c) a b))
(declare-fun liftk (MapContext) Fn)
(declare-fun liftv (MapContext) Fn)
(assert (forall ((c MapContext) (a V) (b V)) (! (= (ap.V.V.V (liftk c) a b) (v.boolean (eqk c a b))) :pattern ((ap.V.V.V (liftk c) a b)))))
(assert (forall ((c MapContext) (a V) (b V)) (! (= (ap.V.V.V (liftv c) a b) (v.boolean (eqv c a b))) :pattern ((ap.V.V.V (liftv c) a b)))))
(declare-fun good-values (MapContext) Bool)
(assert (forall ((c MapContext) (a V) (b V)) (! (=> (and (good-values c) (eqv c a b))
  (= (ap.V.Int (MapContext.3 c) a) (ap.V.Int (MapContext.3 c) b))) :pattern ((eqv c a b)))))
; Maps of the same keys with equal values.
(define-fun equal-content ((c MapContext) (fv Fn) (g hamt) (h hamt) (la Int) (le Int)) Bool
  (forall ((k V)) (! (and (= (has c g k la le) (has c h k la le))
    (=> (has c g k la le) (= (ap.V.V.V fv (look c g k la le) (look c h k la le)) yes)))
    :pattern ((hasR c g k la le)) :pattern ((hasR c h k la le)))))
(define-fun lifted ((f Fn) (c MapContext)) Bool
  (forall ((a V) (b V)) (! (= (ap.V.V.V f a b) (v.boolean (eqk c a b))) :pattern ((ap.V.V.V f a b)))))
;; count
; The number of keys within a node.
(declare-fun cnt (hamt) Int)
(declare-fun ecnt (V) Int)
(assert (forall ((e V)) (! (= (ecnt e) (ite ((_ is v.keyValue) e) 1 (ite ((_ is v.hamt) e) (cnt (v.hamt.get e)) 0))) :pattern ((ecnt e)))))

;; order
; Keys and values in order.
(declare-sort Sq 0)
(declare-fun nil () Sq)
(declare-fun cons (V V Sq) Sq)
(declare-fun app (Sq Sq) Sq)
(assert (forall ((s Sq)) (! (= (app nil s) s) :pattern ((app nil s)))))
(assert (forall ((s Sq)) (! (= (app s nil) s) :pattern ((app s nil)))))
(assert (forall ((k V) (v V) (s Sq) (t Sq)) (! (= (app (cons k v s) t) (cons k v (app s t))) :pattern ((app (cons k v s) t)))))
(assert (forall ((s Sq) (t Sq) (u Sq)) (! (= (app (app s t) u) (app s (app t u))) :pattern ((app (app s t) u)))))
(declare-fun iseq (V) Sq)
(declare-fun rseq (Fn) Sq)
(assert (= (iseq v.none) nil))
(assert (forall ((k V) (v V) (r Fn)) (! (= (iseq (v.MapIterator (mk.MapIterator k v r))) (cons k v (rseq r)))
  :pattern ((v.MapIterator (mk.MapIterator k v r))))))
(assert (forall ((r Fn)) (! (= (rseq r) (iseq (ap.V r))) :pattern ((rseq r)))))
(declare-fun entries (hamt Int) Sq)
(declare-fun entriesR (hamt Int) Sq)
(assert (forall ((h hamt) (i Int)) (! (and
  (= (entries h i) (entriesR h i))
  (= (entries h i) (ite (> i 32) nil (app
    (ite ((_ is v.keyValue) (sel h i)) (cons (keyValue.0 (v.keyValue.get (sel h i))) (keyValue.1 (v.keyValue.get (sel h i))) nil)
      (ite ((_ is v.hamt) (sel h i)) (entriesR (v.hamt.get (sel h i)) 1) nil))
    (entriesR h (+ i 1)))))) :pattern ((entries h i)))))
; Setting every key of a sequence.
(declare-fun fold (MapContext Map Sq) Map)
(assert (forall ((c MapContext) (m Map)) (! (= (fold c m nil) m) :pattern ((fold c m nil)))))
(assert (forall ((c MapContext) (m Map) (k V) (v V) (s Sq)) (!
  (= (fold c m (cons k v s)) (fold c (c.SetMap c m k v) s)) :pattern ((fold c m (cons k v s))))))
(assert (forall ((c MapContext) (m Map) (s Sq) (t Sq)) (!
  (= (fold c m (app s t)) (fold c (fold c m s) t)) :pattern ((fold c m (app s t))))))
"""


def _nested(j, default):
    result = default
    for i in range(ENTRIES, 0, -1):
        result = "(ite (= %s %d) (hamt.%d h) %s)" % (j, i, i - 1, result)
    return result


REVEAL = {
    "sel": "(assert (forall ((h hamt) (j Int)) (! (= (sel h j) %s) :pattern ((sel h j)))))" % _nested("j", "v.none"),
    "cnt": "(assert (forall ((h hamt)) (! (= (cnt h) (+ %s)) :pattern ((cnt h)))))"
    % " ".join("(ecnt (hamt.%d h))" % i for i in range(ENTRIES)),
    "count of one": """(assert (forall ((h hamt) (j Int)) (! (=> (and ((_ is v.keyValue) (sel h j))
      (forall ((i Int)) (! (=> (not (= i j)) (= (sel h i) v.none)) :pattern ((sel h i))))) (= (cnt h) 1))
      :pattern ((sel h j) (cnt h)))))""",
    "fields": "\n".join(
        "(assert (forall ((h hamt)) (! (= (sel h %d) (hamt.%d h)) :pattern ((sel h %d)))))" % (i, i - 1, i) for i in range(1, ENTRIES + 1)
    ),
    "index of all": """(assert (forall ((c MapContext) (h hamt) (k V) (la Int) (le Int) (lb Int) (lf Int) (i Int)) (!
      (=> (and (good c) (<= 1 le 13) (hasR c h k la le) (allatR c h lb lf i)) (= (idx c k lb lf) i))
      :pattern ((hasR c h k la le) (allatR c h lb lf i)))))""",
    "keys of entries": """
(assert (forall ((c MapContext) (h hamt) (la Int) (le Int) (j Int)) (! (=> (and (good c) (<= 1 le 13) (wf c h la le)
  (<= 1 j 32) ((_ is v.keyValue) (sel h j))) (and (has c h (keyValue.0 (v.keyValue.get (sel h j))) la le)
    (= (idx c (keyValue.0 (v.keyValue.get (sel h j))) la le) j))) :pattern ((wf c h la le) (sel h j)))))
(assert (forall ((c MapContext) (h hamt) (k V) (la Int) (le Int) (lb Int) (lf Int) (j Int)) (! (=> (and (good c) (<= 1 le 13)
  (= lb (nla la le)) (= lf (nle la le))
  (wf c h la le) (<= 1 j 32) ((_ is v.hamt) (sel h j)) (hasR c (v.hamt.get (sel h j)) k lb lf))
  (and (has c h k la le) (= (idx c k la le) j)))
  :pattern ((wf c h la le) (hasR c (v.hamt.get (sel h j)) k lb lf)))))
""",
    "same counts": """(assert (forall ((fk Fn) (fv Fn) (g hamt) (h hamt)) (! (=> (same fk fv g h) (= (cnt g) (cnt h)))
      :pattern ((sameR fk fv g h)))))""",
    "same content": """(assert (forall ((c MapContext) (fk Fn) (fv Fn) (g hamt) (h hamt)) (!
      (=> (and (good c) (wf c g 1 1) (wf c h 1 1) (canon c g 1 1) (canon c h 1 1) (lifted fk c))
        (= (same fk fv g h) (equal-content c fv g h 1 1)))
      :pattern ((sameR fk fv g h) (wfR c g 1 1)))))
(assert (forall ((c MapContext) (g hamt) (h hamt)) (!
      (=> (and (good c) (wf c g 1 1) (wf c h 1 1) (canon c g 1 1) (canon c h 1 1))
        (= (same (liftk c) (liftv c) g h) (equal-content c (liftv c) g h 1 1)))
      :pattern ((canonR c g 1 1) (canonR c h 1 1)))))""",
    "two keys": """(assert (forall ((c MapContext) (h hamt) (la Int) (le Int)) (! (=> (and (good c) (<= 1 le 13) (wf c h la le)
      (canon c h la le) (exists ((k V)) (! (has c h k la le) :pattern ((hasR c h k la le))))
      (forall ((n Int)) (! (=> ((_ is v.keyValue) (sel h n)) (exists ((j Int)) (! (and (not (= j n)) (not (= (sel h j) v.none)))
        :pattern ((sel h j))))) :pattern ((sel h n))))
      )
      (two c h la le)) :pattern ((canon c h la le)))))""",
    "count of entries": "(assert (forall ((h hamt)) (! (= (cnt h) (+ %s)) :pattern ((cnt h)))))"
    % " ".join("(ecnt (sel h %d))" % i for i in range(1, ENTRIES + 1)),
}

INDUCTION = """(and (good C) (<= 1 LE 13) (wf C G LA LE) (wf C H LA LE) (canon C G LA LE) (canon C H LA LE) (lifted FK C)
  (forall ((j Int)) (! (=> (and ((_ is v.hamt) (sel G j)) ((_ is v.hamt) (sel H j))
    (wfR C (v.hamt.get (sel G j)) (nla LA LE) (nle LA LE)) (wfR C (v.hamt.get (sel H j)) (nla LA LE) (nle LA LE))
    (canonR C (v.hamt.get (sel G j)) (nla LA LE) (nle LA LE)) (canonR C (v.hamt.get (sel H j)) (nla LA LE) (nle LA LE)))
    (= (sameR FK FV (v.hamt.get (sel G j)) (v.hamt.get (sel H j)))
      (equal-content C FV (v.hamt.get (sel G j)) (v.hamt.get (sel H j)) (nla LA LE) (nle LA LE)))) :pattern ((sel G j)) :pattern ((sel H j)))))"""
KINDS = ["none", "keyValue", "hamt"]

LEMMAS = [
    {
        "name": "the count of a node is that of its entries",
        "goals": [
            (
                "for every node",
                "(forall ((h hamt)) (! (= (cnt h) (+ %s)) :pattern ((cnt h))))"
                % " ".join("(ecnt (sel h %d))" % i for i in range(1, ENTRIES + 1)),
            )
        ],
        "reveal": ["fields", "cnt"],
    },
    {
        "name": "entries are fields",
        "goals": [("at %d" % i, "(forall ((h hamt)) (= (sel h %d) (hamt.%d h)))" % (i, i - 1)) for i in range(1, ENTRIES + 1)],
        "reveal": ["sel"],
    },
    {
        "name": "a node of one key counts as one",
        "goals": [
            (
                "at entry %d" % k,
                """(forall ((h hamt)) (=> (and ((_ is v.keyValue) (sel h %d))
                   (forall ((i Int)) (! (=> (not (= i %d)) (= (sel h i) v.none)) :pattern ((sel h i))))) (= (cnt h) 1)))"""
                % (k, k),
            )
            for k in range(1, ENTRIES + 1)
        ],
        "reveal": ["count of entries"],
    },
    {
        # By induction on nodes: the nodes below are assumed to have the property.
        "name": "keys have the index that all have",
        "goals": [
            (
                "for every node",
                """(=> (and (good C) (<= 1 LE 13) (has C H K LA LE) (allat C H LB LF I)
                   (forall ((j Int)) (! (=> (and ((_ is v.hamt) (sel H j)) (hasR C (v.hamt.get (sel H j)) K (nla LA LE) (nle LA LE))
                     (allatR C (v.hamt.get (sel H j)) LB LF I)) (= (idx C K LB LF) I)) :pattern ((sel H j)))))
                   (= (idx C K LB LF) I))""",
            )
        ],
        "constants": {"C": "MapContext", "H": "hamt", "K": "V", "LA": "Int", "LE": "Int", "LB": "Int", "LF": "Int", "I": "Int"},
    },
    {
        "name": "keys of entries are keys of the node",
        "goals": [
            (
                "when an entry is a key and a value",
                """(=> (and (good C) (<= 1 LE 13) (wf C H LA LE) (<= 1 I 32) ((_ is v.keyValue) (sel H I)))
                   (and (has C H (keyValue.0 (v.keyValue.get (sel H I))) LA LE)
                     (= (idx C (keyValue.0 (v.keyValue.get (sel H I))) LA LE) I)))""",
            ),
            (
                "when an entry is a node",
                """(=> (and (good C) (<= 1 LE 13) (wf C H LA LE) (<= 1 I 32) ((_ is v.hamt) (sel H I))
                   (hasR C (v.hamt.get (sel H I)) K (nla LA LE) (nle LA LE)))
                   (and (has C H K LA LE) (= (idx C K LA LE) I)))""",
            ),
        ],
        "constants": {"C": "MapContext", "H": "hamt", "K": "V", "LA": "Int", "LE": "Int", "I": "Int"},
        "reveal": ["index of all"],
    },
    {
        "name": "a node of more than a key has two keys",
        "goals": [
            (
                "when the entry of a key is %s" % kind,
                """(=> (and (good C) (<= 1 LE 13) (wf C H LA LE) (canon C H LA LE) (has C H K LA LE)
                   ((_ is v.%s) (sel H (idx C K LA LE)))
                   (forall ((n Int)) (! (=> ((_ is v.keyValue) (sel H n)) (exists ((j Int)) (! (and (not (= j n))
                     (not (= (sel H j) v.none))) :pattern ((sel H j))))) :pattern ((sel H n)))))
                   (two C H LA LE))""" % kind,
            )
            for kind in ["hamt", "keyValue"]
        ],
        "constants": {"C": "MapContext", "H": "hamt", "K": "V", "LA": "Int", "LE": "Int"},
        "reveal": ["keys of entries"],
    },
    {
        "name": "nodes of the same form count as many keys",
        "goals": [
            (
                "for every entry",
                """(=> (and (same FK FV G H) (<= 1 I 32) (=> (and ((_ is v.hamt) (sel G I)) ((_ is v.hamt) (sel H I))
                   (sameR FK FV (v.hamt.get (sel G I)) (v.hamt.get (sel H I)))) (= (cnt (v.hamt.get (sel G I))) (cnt (v.hamt.get (sel H I))))))
                   (= (ecnt (sel G I)) (ecnt (sel H I))))""",
            ),
            (
                "for every node",
                "(=> (and %s) (= (cnt G) (cnt H)))" % " ".join("(= (ecnt (sel G %d)) (ecnt (sel H %d)))" % (i, i) for i in range(1, ENTRIES + 1)),
                ["count of entries"],
            ),
        ],
        "constants": {"FK": "Fn", "FV": "Fn", "G": "hamt", "H": "hamt", "I": "Int"},
    },
    {
        # By induction on the first node.
        "name": "nodes are of the same form when their keys and values are equal",
        "goals": [
            (
                "keys of nodes of the same form are equal",
                "(=> (and %s (same FK FV G H)) (= (has C G K LA LE) (has C H K LA LE)))" % INDUCTION,
            ),
            (
                "values of nodes of the same form are equal",
                """(=> (and %s (same FK FV G H) (has C G K LA LE))
                   (= (ap.V.V.V FV (look C G K LA LE) (look C H K LA LE)) yes))""" % INDUCTION,
            ),
        ]
        + [
            (
                "entries of %s and of %s are the same" % (a, b),
                """(=> (and %s (equal-content C FV G H LA LE) (<= 1 I 32) ((_ is v.%s) (sel G I)) ((_ is v.%s) (sel H I)))
                   (same-entry FK FV (sel G I) (sel H I)))""" % (INDUCTION, a, b),
            )
            for a in KINDS
            for b in KINDS
        ],
        "constants": {
            "FK": "Fn", "FV": "Fn", "G": "hamt", "H": "hamt", "C": "MapContext", "LA": "Int", "LE": "Int", "K": "V", "I": "Int",
        },
        "reveal": ["keys of entries"],
    },
]

GOOD = ("the context is one of an equivalence and its hash", "(good $0)")

LOOK = """(forall ((k V)) (! (= (look $0 %(r)s k $%(la)d $%(le)d) (ite (eqk $0 $2 k) %(new)s (look $0 $1 k $%(la)d $%(le)d)))
  :pattern ((lookR $0 %(r)s k $%(la)d $%(le)d)) :pattern ((lookR $0 $1 k $%(la)d $%(le)d))))"""
HAS = """(forall ((k V)) (! (= (has $0 %(r)s k $%(la)d $%(le)d) (ite (eqk $0 $2 k) %(new)s (has $0 $1 k $%(la)d $%(le)d)))
  :pattern ((hasR $0 %(r)s k $%(la)d $%(le)d)) :pattern ((hasR $0 $1 k $%(la)d $%(le)d))))"""


CONTRACTS = {
    "prelude:_pen_prelude_hash_to_index": {
        "verified": False,
        "signature": "Int Int Int Int",
        "requires": [("the level is one of a layer", "(<= 1 $2 13)")],
    },
    "prelude:getEntry": {
        "signature": "hamt Int V",
        "ensures": [("the entry is that at the index", "(= $2 (sel $0 $1))")],
        "reveal": ["sel"],
    },
    "prelude:setEntry": {
        "signature": "hamt Int V hamt",
        "ensures": [
            (
                "the entry at the index is the given one and others are as before",
                "(forall ((j Int)) (! (= (sel $3 j) (ite (and (= j $1) (<= 1 j 32)) $2 (sel $0 j))) :pattern ((sel $3 j))))",
            ),
            (
                "keys within the node are counted",
                "(=> (<= 1 $1 32) (= (cnt $3) (+ (- (cnt $0) (ecnt (sel $0 $1))) (ecnt $2))))",
            ),
        ],
        "reveal": ["sel", "cnt"],
    },
    "prelude:newHamt": {
        "signature": "hamt",
        "ensures": [
            ("every entry is none", "(forall ((j Int)) (! (= (sel $0 j) v.none) :pattern ((sel $0 j))))"),
            ("it has no key", "(= (cnt $0) 0)"),
        ],
        "reveal": ["sel", "cnt"],
    },
    "prelude:getValue": {
        "signature": "MapContext hamt V Int Int V",
        "requires": [GOOD, ("the level is one of a layer", "(<= 1 $4 13)")],
        "ensures": [("the value is that at the key", "(= $5 (look $0 $1 $2 $3 $4))")],
    },
    "prelude:setKeyValue": {
        "signature": "MapContext hamt V V Int Int hamtUpdate",
        "requires": [GOOD, ("the level is one of a layer", "(<= 1 $5 13)")],
        "ensures": [
            ("the value is at the key and others are as before", LOOK % {"r": "(hamtUpdate.0 $6)", "la": 4, "le": 5, "new": "$3"}),
            ("the key is there and others are as before", HAS % {"r": "(hamtUpdate.0 $6)", "la": 4, "le": 5, "new": "true"}),
            ("it is resized when the key was not there", "(= (hamtUpdate.1 $6) (not (has $0 $1 $2 $4 $5)))"),
            ("keys are counted", "(= (cnt (hamtUpdate.0 $6)) (+ (cnt $1) (ite (hamtUpdate.1 $6) 1 0)))"),
            ("keys are where they are looked for", "(=> (wf $0 $1 $4 $5) (wf $0 (hamtUpdate.0 $6) $4 $5))"),
            ("the form is that of its keys", "(=> (canon $0 $1 $4 $5) (canon $0 (hamtUpdate.0 $6) $4 $5))"),
            (
                "an index that all keys have stays that of all keys",
                """(forall ((la Int) (le Int) (i Int)) (! (=> (and (allat $0 $1 la le i) (= (idx $0 $2 la le) i))
                   (allat $0 (hamtUpdate.0 $6) la le i)) :pattern ((allatR $0 (hamtUpdate.0 $6) la le i))))""",
                ["context", "places"],
            ),
        ],
    },
    "prelude:SetMap": {
        "signature": "MapContext Map V V Map",
        "requires": [GOOD],
        "ensures": [
            (
                "the value is at the key and others are as before",
                """(forall ((k V)) (! (= (look $0 (Map.0 $4) k 1 1) (ite (eqk $0 $2 k) $3 (look $0 (Map.0 $1) k 1 1)))
                   :pattern ((lookR $0 (Map.0 $4) k 1 1))))""",
            ),
            (
                "the key is there and others are as before",
                """(forall ((k V)) (! (= (has $0 (Map.0 $4) k 1 1) (or (eqk $0 $2 k) (has $0 (Map.0 $1) k 1 1)))
                   :pattern ((hasR $0 (Map.0 $4) k 1 1))))""",
            ),
            ("the size is the number of keys", "(=> (= (Map.1 $1) (cnt (Map.0 $1))) (= (Map.1 $4) (cnt (Map.0 $4))))"),
            ("the size grows when the key was not there", "(= (Map.1 $4) (+ (Map.1 $1) (ite (has $0 (Map.0 $1) $2 1 1) 0 1)))"),
            ("keys are where they are looked for", "(=> (wf $0 (Map.0 $1) 1 1) (wf $0 (Map.0 $4) 1 1))"),
            ("the form is that of its keys", "(=> (canon $0 (Map.0 $1) 1 1) (canon $0 (Map.0 $4) 1 1))"),
        ],
    },
    "prelude:GetMap": {
        "signature": "MapContext Map V V",
        "requires": [GOOD],
        "ensures": [("the value is that at the key", "(= $3 (look $0 (Map.0 $1) $2 1 1))")],
    },
    "prelude:NewMap": {
        "signature": "Map",
        "ensures": [
            ("the size is the number of keys", "(= (Map.1 $0) (cnt (Map.0 $0)) 0)"),
            ("no key is there", "(forall ((c MapContext) (k V)) (not (has c (Map.0 $0) k 1 1)))"),
            ("no value is there", "(forall ((c MapContext) (k V)) (= (look c (Map.0 $0) k 1 1) empty))"),
            ("keys are where they are looked for", "(forall ((c MapContext)) (wf c (Map.0 $0) 1 1))"),
            ("the form is that of its keys", "(forall ((c MapContext)) (canon c (Map.0 $0) 1 1))"),
        ],
    },
    "prelude:MapSize": {"signature": "Map Int", "ensures": [("it is the size", "(= $1 (Map.1 $0))")]},
    "prelude:getSingleEntry": {
        "signature": "hamt Int V V",
        "requires": [("the index is that of an entry or the end", "(<= 1 $1 33)")],
        "ensures": [
            (
                "without another entry it is the given one",
                "(=> (forall ((j Int)) (! (=> (<= $1 j 32) (= (sel $0 j) v.none)) :pattern ((sel $0 j)))) (= $3 $2))",
            ),
            (
                "the only entry is found",
                """(forall ((n Int)) (! (=> (and (= $2 v.none) (<= $1 n 32) (not (= (sel $0 n) v.none))
                   (forall ((j Int)) (! (=> (and (<= $1 j 32) (not (= j n))) (= (sel $0 j) v.none)) :pattern ((sel $0 j)))))
                   (= $3 (sel $0 n))) :pattern ((sel $0 n))))""",
            ),
            (
                "what is found is the only entry",
                """(=> (not (= $3 v.none)) (or
                   (and (= $3 $2) (forall ((j Int)) (! (=> (<= $1 j 32) (= (sel $0 j) v.none)) :pattern ((sel $0 j)))))
                   (and (= $2 v.none) (exists ((n Int)) (! (and (<= $1 n 32) (= (sel $0 n) $3)
                     (forall ((j Int)) (! (=> (and (<= $1 j 32) (not (= j n))) (= (sel $0 j) v.none)) :pattern ((sel $0 j)))))
                     :pattern ((sel $0 n)))))))""",
            ),
        ],
    },
    "prelude:normalizeHamt": {
        "signature": "hamt V",
        "ensures": [
            (
                "it is the node, or its only key and value",
                """(or (= $1 (v.hamt $0)) (and ((_ is v.keyValue) $1) (exists ((n Int)) (! (and (<= 1 n 32) (= (sel $0 n) $1)
                   (forall ((j Int)) (! (=> (not (= j n)) (= (sel $0 j) v.none)) :pattern ((sel $0 j)))))
                   :pattern ((sel $0 n))))))""",
            ),
            ("keys are counted", "(= (ecnt $1) (cnt $0))"),
            (
                "an only key and value is moved up",
                """(forall ((n Int)) (! (=> (and ((_ is v.keyValue) (sel $0 n))
                   (forall ((j Int)) (! (=> (not (= j n)) (= (sel $0 j) v.none)) :pattern ((sel $0 j)))))
                   (= $1 (sel $0 n))) :pattern ((sel $0 n))))""",
            ),
        ],
        "reveal": ["count of one"],
    },
    "prelude:deleteKey": {
        "signature": "MapContext hamt V Int Int hamtUpdate",
        "requires": [
            GOOD,
            ("the level is one of a layer", "(<= 1 $4 13)"),
            ("keys are where they are looked for", "(wf $0 $1 $3 $4)"),
        ],
        "ensures": [
            ("nothing is at the key and others are as before", LOOK % {"r": "(hamtUpdate.0 $5)", "la": 3, "le": 4, "new": "empty"}),
            ("the key is not there and others are as before", HAS % {"r": "(hamtUpdate.0 $5)", "la": 3, "le": 4, "new": "false"}),
            ("it is resized when the key was there", "(= (hamtUpdate.1 $5) (has $0 $1 $2 $3 $4))"),
            ("keys are counted", "(= (cnt (hamtUpdate.0 $5)) (- (cnt $1) (ite (hamtUpdate.1 $5) 1 0)))"),
            ("keys are where they are looked for", "(wf $0 (hamtUpdate.0 $5) $3 $4)"),
            (
                "the form is that of its keys",
                "(=> (canon $0 $1 $3 $4) (canon $0 (hamtUpdate.0 $5) $3 $4))",
                ["context", "keys", "places", "form", "two keys"],
            ),
            (
                "an index that all keys have stays that of all keys",
                """(forall ((la Int) (le Int) (i Int)) (! (=> (allat $0 $1 la le i)
                   (allat $0 (hamtUpdate.0 $5) la le i)) :pattern ((allatR $0 (hamtUpdate.0 $5) la le i))))""",
                ["context", "places"],
            ),
        ],
    },
    "prelude:DeleteMap": {
        "signature": "MapContext Map V Map",
        "requires": [GOOD, ("keys are where they are looked for", "(wf $0 (Map.0 $1) 1 1)")],
        "ensures": [
            (
                "nothing is at the key and others are as before",
                """(forall ((k V)) (! (= (look $0 (Map.0 $3) k 1 1) (ite (eqk $0 $2 k) empty (look $0 (Map.0 $1) k 1 1)))
                   :pattern ((lookR $0 (Map.0 $3) k 1 1))))""",
            ),
            (
                "the key is not there and others are as before",
                """(forall ((k V)) (! (= (has $0 (Map.0 $3) k 1 1) (and (not (eqk $0 $2 k)) (has $0 (Map.0 $1) k 1 1)))
                   :pattern ((hasR $0 (Map.0 $3) k 1 1))))""",
            ),
            ("the size is the number of keys", "(=> (= (Map.1 $1) (cnt (Map.0 $1))) (= (Map.1 $3) (cnt (Map.0 $3))))"),
            ("the size shrinks when the key was there", "(= (Map.1 $3) (- (Map.1 $1) (ite (has $0 (Map.0 $1) $2 1 1) 1 0)))"),
            ("keys are where they are looked for", "(wf $0 (Map.0 $3) 1 1)"),
            ("the form is that of its keys", "(=> (canon $0 (Map.0 $1) 1 1) (canon $0 (Map.0 $3) 1 1))"),
        ],
    },
    "prelude:equalHamts": {
        "signature": "Fn Fn hamt hamt Int V",
        "ensures": [
            ("it is true when entries from the index on are the same", "(= (= $5 yes) (same-from $0 $1 $2 $3 $4))"),
            ("it is true when nodes are the same", "(=> (= $4 1) (= (= $5 yes) (same $0 $1 $2 $3)))"),
        ],
    },
    "prelude:EqualMaps": {
        "signature": "MapContext Map Map Bool",
        "requires": [
            GOOD,
            ("keys are where they are looked for", "(and (wf $0 (Map.0 $1) 1 1) (wf $0 (Map.0 $2) 1 1))"),
            ("the form is that of its keys", "(and (canon $0 (Map.0 $1) 1 1) (canon $0 (Map.0 $2) 1 1))"),
            ("the size is the number of keys", "(and (= (Map.1 $1) (cnt (Map.0 $1))) (= (Map.1 $2) (cnt (Map.0 $2))))"),
        ],
        "ensures": [
            (
                "maps are equal when their keys and values are",
                "(= $3 (equal-content $0 (liftv $0) (Map.0 $1) (Map.0 $2) 1 1))",
            ),
            ("equal maps are of the same form", "(=> $3 (same (liftk $0) (liftv $0) (Map.0 $1) (Map.0 $2)))"),
        ],
        "reveal": ["same counts", "same content"],
    },
    "prelude:MaybeEqualMaps": {
        "signature": "Fn Map Map V",
        "ensures": [
            (
                "it is true when sizes are equal and entries are the same",
                "(= (= $3 yes) (and (= (Map.1 $1) (Map.1 $2)) (same $0 $0 (Map.0 $1) (Map.0 $2))))",
            )
        ],
    },
    "prelude:hashHamt": {
        "signature": "MapContext hamt Int Int Int",
        "relations": [
            (
                "nodes of the same form hash alike",
                """(and (= $0 $4) (= $2 $6) (= $3 $7) (good $0) (good-values $0)
                   (same-from (liftk $0) (liftv $0) $1 $5 $2))""",
                "(= $8 $9)",
            )
        ],
    },
    "prelude:HashMap": {
        "signature": "MapContext Map Int",
        "relations": [
            (
                "maps of the same form hash alike",
                "(and (= $0 $2) (good $0) (good-values $0) (same (liftk $0) (liftv $0) (Map.0 $1) (Map.0 $3)))",
                "(= $4 $5)",
            )
        ],
    },
    "prelude:iterateHamt": {
        "signature": "hamt Int Fn V",
        "ensures": [("the entries from the index on come before the rest", "(= (iseq $3) (app (entries $0 $1) (rseq $2)))")],
    },
    "prelude:IterateMap": {
        "signature": "Map V",
        "ensures": [("every entry comes in order", "(= (iseq $1) (entries (Map.0 $0) 1))")],
    },
    "prelude:MapIteratorKey": {"signature": "MapIterator V", "ensures": [("it is the key", "(= $1 (MapIterator.0 $0))")]},
    "prelude:MapIteratorValue": {"signature": "MapIterator V", "ensures": [("it is the value", "(= $1 (MapIterator.1 $0))")]},
    "prelude:MapIteratorRest": {
        "signature": "MapIterator V",
        "ensures": [("the rest follows the key and the value", "(= (iseq (v.MapIterator $0)) (cons (MapIterator.0 $0) (MapIterator.1 $0) (iseq $1)))")],
    },
    "prelude:mergeHamt": {
        "signature": "MapContext Map hamt Int Map",
        "requires": [GOOD],
        "ensures": [("every entry from the index on is set", "(= $4 (fold $0 $1 (entries $2 $3)))")],
    },
    "prelude:MergeMaps": {
        "signature": "MapContext Map Map Map",
        "requires": [GOOD],
        "ensures": [("every entry of the second map is set in the first", "(= $3 (fold $0 $1 (entries (Map.0 $2) 1)))")],
    },
}
