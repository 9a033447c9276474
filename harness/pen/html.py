"""Contracts of packages/html/Render.pen."""

from lists import EXTRA, SHARED, SPECIFICATION
from wrappers import symbols


def literal(text):
    return "s." + text.encode().hex()


SYMBOLS = {
    **{literal(text): "Str" for text in ["", "<", ">", "</", "/>", " ", '="', '"']},
    **symbols("_pen_html_encode_", {"attribute": "Str Str", "text": "Str Str"}),
    "c.Name": "Str Bool",
}

NUMBERS = "Int"

PRELUDE = (
    SPECIFICATION
    + EXTRA.split("; Whether a function")[0]
    + """
(assert (forall ((s Str)) (! (= (join EMPTY s) s) :pattern ((join EMPTY s)))))
(assert (forall ((s Str)) (! (= (join s EMPTY) s) :pattern ((join s EMPTY)))))
(assert (forall ((s Str) (t Str) (u Str)) (! (= (join (join s t) u) (join s (join t u))) :pattern ((join (join s t) u)))))
(assert (forall ((s Str) (t Str) (u Str)) (! (= (join (join s t) u) (join s (join t u))) :pattern ((join s (join t u))))))
; Strings of a sequence one after another.
(declare-fun cat (Sq) Str)
(assert (= (cat nil) EMPTY))
(assert (forall ((v V) (s Sq)) (! (= (cat (cons v s)) (join (v.string.get v) (cat s))) :pattern ((cat (cons v s))))))
(assert (forall ((s Sq) (t Sq)) (! (= (cat (app s t)) (join (cat s) (cat t))) :pattern ((cat (app s t))))))
(assert (forall ((s Sq)) (! (and (<= 0 (len s)) (= (= (len s) 0) (= s nil))) :pattern ((len s)))))

; What nodes are as text, and whether they have such, names being valid.
(declare-fun valid (V) Bool)
(declare-fun all-valid (Sq) Bool)
(declare-fun all-named (Sq) Bool)
(declare-fun html (V) Str)
(declare-fun all-html (Sq) Str)
(declare-fun attributes (Sq) Str)
(define-fun tag ((n V)) Str (Element.0 (v.Element.get n)))
(define-fun ats ((n V)) Sq (of-list (Element.1 (v.Element.get n))))
(define-fun children ((n V)) Sq (of-list (Element.2 (v.Element.get n))))
(define-fun k ((a V)) Str (Attribute.0 (v.Attribute.get a)))
(assert (forall ((n V)) (! (= (valid n) (or ((_ is v.string) n)
  (and (c.Name (tag n)) (all-named (ats n)) (all-valid (children n))))) :pattern ((valid n)))))
(assert (all-valid nil))
(assert (forall ((n V) (s Sq)) (! (= (all-valid (cons n s)) (and (valid n) (all-valid s))) :pattern ((all-valid (cons n s))))))
(assert (all-named nil))
(assert (forall ((a V) (s Sq)) (! (= (all-named (cons a s)) (and (c.Name (k a)) (all-named s))) :pattern ((all-named (cons a s))))))
(assert (= (attributes nil) EMPTY))
(assert (forall ((a V) (s Sq)) (! (= (attributes (cons a s)) (join (k a) (join OPEN
  (join (f._pen_html_encode_attribute (Attribute.1 (v.Attribute.get a))) (join QUOTE (attributes s))))))
  :pattern ((attributes (cons a s))))))
(assert (= (all-html nil) EMPTY))
(assert (forall ((n V) (s Sq)) (! (= (all-html (cons n s)) (join (html n) (all-html s))) :pattern ((all-html (cons n s))))))
(assert (forall ((n V)) (! (= (html n) (ite ((_ is v.string) n) (f._pen_html_encode_text (v.string.get n))
  (join LESS (join (tag n) (join (ite (= (ats n) nil) EMPTY (join BLANK (attributes (ats n))))
    (ite (= (children n) nil) SELF
      (join MORE (join (all-html (children n)) (join END (join (tag n) MORE))))))))))
  :pattern ((html n)))))
"""
)
for name, text in {"EMPTY": "", "OPEN": '="', "QUOTE": '"', "LESS": "<", "MORE": ">", "SELF": "/>", "END": "</", "BLANK": " "}.items():
    PRELUDE = PRELUDE.replace(name, literal(text))

M = "packages/html/Render.pen:"


def rendered(valid, text):
    return [
        ("it is an error if and only if a name is invalid", "(= ((_ is v.error) $1) (not %s))" % valid),
        ("it says what nodes say", "(=> %s %s)" % (valid, text)),
    ]


CONTRACTS = {
    **{name: {**contract, "verified": False} for name, contract in SHARED.items()},
    "prelude:ListSize": {"signature": "List Int", "ensures": [("elements are counted", "(= $1 (len (of-list $0)))")], "verified": False},
    "packages/html/validate.pen:Name": {"signature": "Str Bool", "verified": False},
    # Of the builder, of which more is in corebuilder.
    "packages/core/String.pen:Concatenate": {
        "signature": "List Str",
        "ensures": [("strings come one after another", "(= $1 (cat (of-list $0)))")],
        "verified": False,
    },
    M + "renderAttributes": {
        "signature": "List V",
        "ensures": rendered(
            "(all-named (of-list $0))",
            """(and (is-list $1) (= (cat (of-list (list-in $1))) (attributes (of-list $0)))
              (= (= (of-list (list-in $1)) nil) (= (of-list $0) nil)))""",
        ),
    },
    M + "renderChildren": {
        "signature": "List V",
        "ensures": rendered(
            "(all-valid (of-list $0))", "(and (is-list $1) (= (cat (of-list (list-in $1))) (all-html (of-list $0))))"
        ),
    },
    M + "Render": {
        "signature": "V V",
        "requires": [("it is a node", "(or ((_ is v.string) $0) ((_ is v.Element) $0))")],
        "ensures": rendered("(valid $0)", "(= $1 (v.string (html $0)))"),
    },
}
