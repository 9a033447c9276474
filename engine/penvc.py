"""Deductive verification of code written in Pen.

The functions verified are those of the modules of /repo's packages, as the
compiler of /repo's working tree compiles them on this run: the harness in
harness/compiler writes down the intermediate code which the compiler hands to
its back end (dump.rs), and that code is what this program reads.  No text is
written by hand in between.  Contracts are in harness/pen/*.py: what a function
requires and ensures, in SMT-LIB, over specification functions given there too.

Every function under contract is evaluated symbolically, path by path, with the
functions it calls replaced by their contracts (or, where they have none and do
not recurse, by their bodies).  Each path gives an obligation for each clause it
ensures and for each clause that a function called on it requires.  Obligations
are discharged by SMT solvers; all have to answer 'unsat'.

What is left out: termination (contracts are of partial correctness), the
representation of numbers (each contract file says which sort stands for it),
memory, and effects of function values, which are taken for functions of their
arguments.
"""

import concurrent.futures
import fractions
import importlib.util
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import threading
import time

SOLVERS = [
    ("z3", ["z3-new", "-smt2", "-T:{t}"], ""),
    ("z3 with other patterns", ["z3-new", "-smt2", "-T:{t}", "smt.random_seed=7", "auto_config=false", "smt.mbqi=false"], ""),
    ("z3 4.8", ["z3", "-smt2", "-T:{t}"], ""),
    ("cvc5", ["cvc5", "--lang=smt2", "--tlimit={ms}"], ""),
]


class Undecided(Exception):
    """The code is of a form that the verifier does not bring under a contract."""


# Terms: interned nodes with a sort.


class Node:
    __slots__ = ("id", "op", "args", "sort")
    table = {}

    def __repr__(self):
        return text(self)


def node(op, args, sort):
    key = (op, tuple(a.id for a in args), sort)
    found = Node.table.get(key)
    if found is None:
        found = Node()
        found.id, found.op, found.args, found.sort = len(Node.table), op, tuple(args), sort
        Node.table[key] = found
    return found


def text(n):
    """A term without sharing."""
    if n.op == "raw":
        return n.sort
    if isinstance(n.op, tuple):
        return fill(n.op[1], [text(a) for a in n.args])
    return n.op if not n.args else "(" + " ".join([n.op] + [text(a) for a in n.args]) + ")"


def fill(template, names):
    return re.sub(r"\$(\d+)", lambda m: names[int(m.group(1))], template)


def leaf(name, sort):
    return node(name, (), sort)


TRUE, FALSE = leaf("true", "Bool"), leaf("false", "Bool")


def template(text_, args):
    """A formula written in SMT-LIB with $0, $1... standing for terms."""
    return node(("t", text_), args, "Bool")


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    return a.args[0] if a.op == "not" else node("not", (a,), "Bool")


def all_(items):
    result = []
    for item in items:
        if item is FALSE:
            return FALSE
        if item is not TRUE and item not in result:
            result.append(item)
    if not result:
        return TRUE
    return result[0] if len(result) == 1 else node("and", result, "Bool")


def implies(a, b):
    if a is TRUE:
        return b
    if a is FALSE or b is TRUE:
        return TRUE
    return node("=>", (a, b), "Bool")


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a.sort == "Bool":
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
    return node("ite", (c, a, b), a.sort)


# The code of a module.


def short(name):
    """A record's sort."""
    if name.startswith("hir:"):
        parts = name.split(":")
        return "_".join(parts[1:])
    return re.sub(r"[^A-Za-z0-9_]", "_", name.split(":")[-1])


class Unit:
    """A module's code with a contract file."""

    def __init__(self, module, contracts, others):
        self.module = module
        self.contracts = contracts
        self.numbers = contracts.NUMBERS
        self.functions = {f["name"]: f for f in module["functions"]}
        self.foreign = {f[0]: f for f in module["foreign"]}
        self.records = {name: types for name, types in module["records"]}
        self.sorts = {}
        for name in self.records:
            sort = short(name)
            if sort in self.sorts.values():
                sort += "_%d" % len(self.sorts)
            self.sorts[name] = sort
        self.names = {sort: name for name, sort in self.sorts.items()}
        self.applications = {}
        known = {"Int", "Float64", "Bool", "Str", "V", "Fn", "Nothing", "Other", *self.sorts.values()}
        self.symbols = {
            name: sorts.split() for name, sorts in getattr(contracts, "SYMBOLS", {}).items() if known.issuperset(sorts.split())
        }
        self.called = {}
        self.closures = {}
        self.axioms = []
        self.counter = 0
        self.known_closures = set()
        self.others = others
        self.inlined = set()
        self.used = set()
        self.lets = 0

    # Sorts and constructors

    def sort(self, type_):
        if isinstance(type_, str):
            return {"boolean": "Bool", "number": self.numbers, "string": "Str", "none": "Nothing", "variant": "V"}[type_]
        if type_[0] == "record":
            return self.sorts[type_[1]]
        return "Fn"

    def payload(self, type_):
        """The constructor of variants for a type."""
        if isinstance(type_, str):
            return {"boolean": "v.boolean", "number": "v.number", "string": "v.string", "none": "v.none"}[type_]
        if type_[0] == "record":
            return "v." + self.sorts[type_[1]]
        raise Undecided("a function within a variant")

    def apply_symbol(self, type_):
        arguments, result = type_[1], type_[2]
        sorts = [self.sort(t) for t in arguments] + [self.sort(result)]
        name = "ap." + ".".join(sorts)
        self.applications[name] = sorts
        return name

    def function_symbol(self, name, sorts):
        symbol = self.symbol_of(name)
        if self.symbols.setdefault(symbol, sorts) != sorts or self.called.setdefault(symbol, name) != name:
            raise Undecided("two functions are named " + symbol)
        return symbol

    def symbol_of(self, name):
        symbol = (self.contract_of(name) or {}).get("symbol")
        return symbol or "c." + re.sub(r"[^A-Za-z0-9_]", "_", name.split(":")[-1])

    def preamble(self):
        lines = ["(set-logic ALL)", "(declare-sort Fn 0)", "(declare-sort Str 0)", "(declare-sort Other 0)"]
        declared, constructors = ["(Nothing 0)", "(V 0)"], ["((nothing))"]
        variant = [
            "(v.none)",
            "(v.boolean (v.boolean.get Bool))",
            "(v.number (v.number.get %s))" % self.numbers,
            "(v.string (v.string.get Str))",
            "(v.other (v.other.get Other))",
        ]
        records = []
        for name, types in self.records.items():
            sort = self.sorts[name]
            declared.append("(%s 0)" % sort)
            variant.append("(v.%s (v.%s.get %s))" % (sort, sort, sort))
            fields = " ".join("(%s.%d %s)" % (sort, i, self.sort(t)) for i, t in enumerate(types))
            records.append("((mk.%s %s))" % (sort, fields) if types else "((mk.%s))" % sort)
        constructors.append("(" + " ".join(variant) + ")")
        lines.append("(declare-datatypes (%s) (%s))" % (" ".join(declared), "\n ".join(constructors + records)))
        # Lists as values of any type, of which constructors are named after types of elements.
        lists = [sort for sort in self.sorts.values() if re.fullmatch(r"list_[0-9a-f]+", sort)]
        if lists:
            value = "(%s.0 (v.%s.get v))" % (lists[-1], lists[-1])
            for sort in lists[-2::-1]:
                value = "(ite ((_ is v.%s) v) (%s.0 (v.%s.get v)) %s)" % (sort, sort, sort, value)
            lines.append("(define-fun is-list ((v V)) Bool (or false %s))" % " ".join("((_ is v.%s) v)" % s for s in lists))
            lines.append("(define-fun list-in ((v V)) List %s)" % value)
        lines.append("(declare-fun join (Str Str) Str)")
        return lines

    def declarations(self):
        lines = []
        for name, sorts in sorted(self.applications.items()):
            lines.append("(declare-fun %s (%s) %s)" % (name, " ".join(["Fn"] + sorts[:-1]), sorts[-1]))
        for name, sorts in sorted(self.symbols.items()):
            lines.append("(declare-fun %s (%s) %s)" % (name, " ".join(sorts[:-1]), sorts[-1]))
        return lines

    # Terms

    def select(self, constructor, i, term):
        """The payload of a variant or the field of a record."""
        if term.op == constructor:
            return term.args[i]
        if constructor.startswith("v."):
            sort = {"v.boolean": "Bool", "v.number": self.numbers, "v.string": "Str", "v.none": "Nothing"}.get(constructor)
            if constructor == "v.none":
                return leaf("nothing", "Nothing")
            return self.push(lambda t: self.select(constructor, i, t), term) or node(
                constructor + ".get", (term,), sort or constructor[2:]
            )
        record = constructor[3:]
        sort = self.sort(self.records[self.names[record]][i])
        return self.push(lambda t: self.select(constructor, i, t), term) or node("%s.%d" % (record, i), (term,), sort)

    def push(self, f, term):
        """Through a choice between terms whose constructors are known."""
        if term.op == "ite" and all(self.known(a) for a in term.args[1:]):
            return ite(term.args[0], f(term.args[1]), f(term.args[2]))
        return None

    def known(self, term):
        return (isinstance(term.op, str) and (term.op.startswith("v.") and not term.op.endswith(".get") or term.op.startswith("mk."))) or (
            term.op == "ite" and all(self.known(a) for a in term.args[1:])
        )

    def is_(self, constructor, term):
        if isinstance(term.op, str) and term.op.startswith("v.") and not term.op.endswith(".get"):
            return TRUE if term.op == constructor else FALSE
        return self.push(lambda t: self.is_(constructor, t), term) or node("(_ is %s)" % constructor, (term,), "Bool")

    def number(self, bits):
        value = struct.unpack(">d", bytes.fromhex(bits))[0]
        if self.numbers == "Int":
            if value == int(value) if abs(value) < 2**53 else False:
                value = int(value)
                return leaf(str(value), "Int") if value >= 0 else leaf("(- %d)" % -value, "Int")
            self.symbols["number." + bits] = ["Int"]
            return leaf("number." + bits, "Int")
        if self.numbers == "Float64":
            raw = int(bits, 16)
            return leaf(
                "(fp #b%d #b%s #b%s)" % (raw >> 63, format(raw >> 52 & 0x7FF, "011b"), format(raw & (1 << 52) - 1, "052b")),
                "Float64",
            )
        raise Undecided("numbers")

    def fresh(self, hint, sort):
        self.counter += 1
        name = "%s!%d" % (re.sub(r"[^A-Za-z0-9_]", "_", hint), self.counter)
        return leaf(name, sort)

    # Contracts

    def contract_of(self, name):
        """A contract of a name, or of a pattern for names that the compiler makes up."""
        contract = self.contracts.CONTRACTS.get(name)
        if contract is None and name.startswith("hir:"):
            found = [c for key, c in self.contracts.CONTRACTS.items() if key.startswith("~") and re.fullmatch(key[1:], name)]
            contract = found[0] if found else None
        return contract

    def contract(self, name):
        contract = self.contract_of(name)
        if contract is None:
            return None
        function = self.functions.get(name) or self.others.get(name)
        if function is not None:
            self.check_signature(name, [t for _, t in function["arguments"]], function["result"])
        return contract

    def check_signature(self, name, arguments, result):
        contract = self.contract_of(name)
        found = [self.sort(t) for t in arguments] + [self.sort(result)]
        if found != contract["signature"].split():
            raise Undecided("%s is no longer of the type its contract is for: %s" % (name, " ".join(found)))

    # Evaluation

    def evaluate(self, e, env, path, k, ret, stack):
        """Calls k with every path through the expression and the value at its end."""
        kind = e[0]
        if path.dead():
            return
        if kind == "variable":
            k(path, self.lookup(e[1], env))
        elif kind == "boolean":
            k(path, TRUE if e[1] else FALSE)
        elif kind == "number":
            k(path, self.number(e[1]))
        elif kind == "none":
            k(path, leaf("nothing", "Nothing"))
        elif kind == "string":
            name = "s." + bytes(e[1]).hex()
            self.symbols[name] = ["Str"]
            k(path, leaf(name, "Str"))
        elif kind == "let":
            self.evaluate(
                e[3], env, path, lambda p, v: self.evaluate(e[4], {**env, e[1]: v}, p, k, ret, stack), ret, stack
            )
        elif kind == "closure":
            definition = e[1]
            self.lets += 1
            value = ("closure", definition, env, self.lets)
            self.evaluate(e[2], {**env, definition["name"]: value}, path, k, ret, stack)
        elif kind == "if":
            def branch(p, c):
                for condition, expression in ((c, e[2]), (not_(c), e[3])):
                    if condition is not FALSE:
                        self.evaluate(expression, env, p.assume(condition), k, ret, stack)
            self.evaluate(e[1], env, path, branch, ret, stack)
        elif kind == "case":
            self.evaluate(e[1], env, path, lambda p, v: self.case(e, v, env, p, k, ret, stack), ret, stack)
        elif kind == "try":
            constructor = self.payload(e[3])
            def attempt(p, v):
                test = self.is_(constructor, v)
                if test is not FALSE:
                    name = e[2]
                    payload = self.select(constructor, 0, v)
                    self.evaluate(e[4], {**env, name: payload}, p.assume(test), ret, ret, stack)
                if test is not TRUE:
                    k(p.assume(not_(test)), v)
            self.evaluate(e[1], env, path, attempt, ret, stack)
        elif kind == "arithmetic":
            self.many(e[2:4], env, path, lambda p, v: k(p, self.arithmetic(e[1], *v)), ret, stack)
        elif kind == "comparison":
            self.many(e[2:4], env, path, lambda p, v: k(p, self.comparison(e[1], *v)), ret, stack)
        elif kind == "variant":
            constructor = self.payload(e[1])
            def wrap(p, v):
                v = self.term(v, p)
                k(p, node(constructor, () if constructor == "v.none" else (v,), "V"))
            self.evaluate(e[2], env, path, wrap, ret, stack)
        elif kind == "make":
            sort = self.sorts[e[1]]
            self.many(e[2], env, path, lambda p, v: k(p, node("mk." + sort, [self.term(x, p) for x in v], sort)), ret, stack)
        elif kind == "field":
            self.evaluate(
                e[3], env, path, lambda p, v: k(p, self.select("mk." + self.sorts[e[1]], e[2], v)), ret, stack
            )
        elif kind == "update":
            sort = self.sorts[e[1]]
            def change(p, v):
                fields = {i: self.term(x, p) for (i, _), x in zip(e[3], v[1:])}
                k(p, node("mk." + sort, [fields.get(i) or self.select("mk." + sort, i, v[0]) for i in range(len(self.records[e[1]]))], sort))
            self.many([e[2]] + [x for _, x in e[3]], env, path, change, ret, stack)
        elif kind == "concatenate":
            def join(p, v):
                result = v[0]
                for x in v[1:]:
                    result = node("join", (result, x), "Str")
                k(p, result)
            self.many(e[1], env, path, join, ret, stack)
        elif kind == "call":
            if e[2][0] == "variable" and e[2][1] not in env:
                self.many(e[3], env, path, lambda p, v: self.call_global(e[2][1], e[1], v, p, k, stack), ret, stack)
            else:
                self.many([e[2]] + e[3], env, path, lambda p, v: self.call(v[0], e[1], v[1:], p, k, stack), ret, stack)
        else:
            raise Undecided(kind)

    def many(self, expressions, env, path, k, ret, stack):
        def next_(i, p, values):
            if i == len(expressions):
                k(p, values)
            else:
                self.evaluate(expressions[i], env, p, lambda q, v: next_(i + 1, q, values + [v]), ret, stack)
        next_(0, path, [])

    def lookup(self, name, env):
        if name in env:
            return env[name]
        if name in self.functions or name in self.others or name in self.foreign:
            return ("global", name)
        raise Undecided("unknown variable " + name)

    def case(self, e, value, env, path, k, ret, stack):
        alternatives = [([t for t in types], name, expression) for types, name, expression in e[2]]
        default = e[3]
        # Without a default, variants are of the types that the compiler's type checker
        # found: one of the alternatives is taken.
        for types, name, expression in alternatives:
            tests = [self.is_(self.payload(t), value) for t in types]
            test = TRUE if TRUE in tests else tests[0] if len(tests) == 1 else node("or", tests, "Bool")
            bound = self.select(self.payload(types[0]), 0, value) if len(types) == 1 else value
            if test is not FALSE:
                self.evaluate(expression, {**env, name: bound}, path.assume(test), k, ret, stack)
            path = path.assume(not_(test))
            if path.dead():
                return
        if default is not None:
            self.evaluate(default[1], {**env, default[0]: value}, path, k, ret, stack)

    def arithmetic(self, operator, a, b):
        if self.numbers == "Int":
            if operator == "Divide":
                if a.op.isdigit() and b.op.isdigit() and int(b.op) and int(a.op) % int(b.op) == 0:
                    return leaf(str(int(a.op) // int(b.op)), "Int")
                self.symbols["divide"] = ["Int", "Int", "Int"]
                return node("divide", (a, b), "Int")
            return node({"Add": "+", "Subtract": "-", "Multiply": "*"}[operator], (a, b), "Int")
        name = {"Add": "fp.add", "Subtract": "fp.sub", "Multiply": "fp.mul", "Divide": "fp.div"}[operator]
        return node(name + " RNE", (a, b), self.numbers)

    def comparison(self, operator, a, b):
        if self.numbers == "Int":
            name = {
                "Equal": "=", "LessThan": "<", "LessThanOrEqual": "<=", "GreaterThan": ">", "GreaterThanOrEqual": ">=",
            }.get(operator)
        else:
            name = {
                "Equal": "fp.eq", "LessThan": "fp.lt", "LessThanOrEqual": "fp.leq", "GreaterThan": "fp.gt",
                "GreaterThanOrEqual": "fp.geq",
            }.get(operator)
        if operator == "NotEqual":
            return not_(self.comparison("Equal", a, b))
        if a.op.isdigit() and b.op.isdigit():
            x, y = int(a.op), int(b.op)
            return TRUE if {"=": x == y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[name] else FALSE
        return node(name, (a, b), "Bool")

    def call_global(self, name, type_, values, path, k, stack):
        contract = self.contract(name)
        if contract is not None:
            if name in self.foreign:
                self.check_signature(name, type_[1], type_[2])
            self.used.add(name)
            terms = [self.term(v, path) for v in values]
            sorts = [t.sort for t in terms] + [self.sort(type_[2])]
            result = node(self.function_symbol(name, sorts), terms, sorts[-1])
            for label, clause in contract.get("requires", []):
                path.oblige("what %s requires: %s" % (name, label), template(clause, terms))
            required = all_([template(clause, terms) for _, clause in contract.get("requires", [])])
            for label, clause, *_ in contract.get("ensures", []):
                path = path.learn(implies(required, template(clause, terms + [result])))
            k(path, result)
        elif name in self.functions:
            if name in stack:
                raise Undecided("%s recurses and has no contract" % name)
            if len(stack) > 12:
                raise Undecided("calls are too deep")
            self.inlined.add(name)
            function = self.functions[name]
            self.inline(function, {}, values, path, k, stack | {name})
        elif name in self.foreign:
            terms = [self.term(v, path) for v in values]
            sorts = [t.sort for t in terms] + [self.sort(type_[2])]
            self.symbols["f." + short(name)] = sorts
            self.used.add(name)
            k(path, node("f." + short(name), terms, sorts[-1]))
        elif name in self.others:
            raise Undecided("%s of another module has no contract" % name)
        else:
            raise Undecided("unknown function " + name)

    def inline(self, function, env, values, path, k, stack):
        env = dict(env)
        for (name, _), value in zip(function["arguments"], values):
            env[name] = value
        self.evaluate(function["body"], env, path, k, k, stack)

    def call(self, function, type_, values, path, k, stack):
        if isinstance(function, tuple):
            if function[0] == "global":
                self.call_global(function[1], type_, values, path, k, stack)
            else:
                _, definition, env, identity = function
                if ("closure", identity) in stack:
                    raise Undecided("a closure recurses")
                self.inline(definition, {**env, definition["name"]: function}, values, path, k, stack | {("closure", identity)})
        else:
            symbol = self.apply_symbol(type_)
            k(path, node(symbol, [function] + [self.term(v, path) for v in values], self.sort(type_[2])))

    def term(self, value, path):
        """A value as a term; closures become constants that applications are known of."""
        if not isinstance(value, tuple):
            return value
        if value[0] == "global":
            name = value[1]
            definition = self.functions.get(name)
            if definition is None:
                raise Undecided("%s of another module as a value" % name)
            free = []
            captured = []
            key = name
            call = lambda function, values, p, k: self.call_global(
                name, ["function", [t for _, t in definition["arguments"]], definition["result"]], values, p, k, frozenset()
            )
        else:
            _, definition, env, identity = value
            free = sorted(name for name in free_variables(definition) if name in env and name != definition["name"])
            captured = [self.term(env[name], path) for name in free]
            key = (json.dumps(definition), tuple(free), tuple(c.sort for c in captured))
            call = lambda function, values, p, k: self.inline(
                definition, {**dict(zip(free, captured)), definition["name"]: function}, values, p, k, frozenset()
            )
        symbol = self.closures.setdefault(key, "closure.%d" % len(self.closures))
        self.symbols[symbol] = [c.sort for c in captured] + ["Fn"]
        function = node(symbol, captured, "Fn")
        known = (function.id, tuple(c.id for c in path.conditions))
        if known not in self.known_closures:
            self.known_closures.add(known)
            # What it does when it is called, whatever its arguments are.
            arguments = [self.fresh("a", self.sort(t)) for _, t in definition["arguments"]]
            conditions, facts = len(path.conditions), len(path.facts)
            inner = Path(self, path.conditions, path.facts, path.obligations, path.is_dead, path.bound + tuple(arguments))
            ends = []
            call(function, arguments, inner, lambda p, v: ends.append((p, self.term(v, p))))
            if ends:
                apply_ = node(
                    self.apply_symbol(["function", [t for _, t in definition["arguments"]], definition["result"]]),
                    [function] + arguments,
                    self.sort(definition["result"]),
                )
                result = None
                for p, v in reversed(ends):
                    result = v if result is None else ite(all_(p.conditions[conditions:]), v, result)
                learned = []
                for p, _ in ends:
                    for n, fact in p.facts[facts:]:
                        fact = implies(all_(p.conditions[conditions:n]), fact)
                        if fact not in learned:
                            learned.append(fact)
                self.axioms.append((path.bound + tuple(arguments), apply_, all_([node("=", (apply_, result), "Bool")] + learned)))
        return function

    # Verification of a function

    def verify(self, name):
        """The obligations of a function: (label, formulas assumed, goal)."""
        function = self.functions[name]
        contract = self.contract(name)
        terms = [leaf("x%d_%s" % (i, re.sub(r"[^A-Za-z0-9_]", "_", n)), self.sort(t)) for i, (n, t) in enumerate(function["arguments"])]
        requires = [template(clause, terms) for _, clause in contract.get("requires", [])]
        obligations = []
        path = Path(self, [], [(0, r) for r in requires], obligations)
        ends = []
        self.inline(function, {}, terms, path, lambda p, v: ends.append((p, self.term(v, p))), frozenset())
        for i, (p, value) in enumerate(ends):
            for label, clause, *sections in contract.get("ensures", []):
                p = Path(self, p.conditions, p.facts, [], False, p.bound)
                p.sections = sections[0] if sections else None
                obligations.append(("it ensures: %s (path %d of %d)" % (label, i + 1, len(ends)), template(clause, terms + [value]), p))
        for label, required, ensured in contract.get("relations", []):
            # Two calls, of which the first is that of the terms above.
            others = [leaf("y" + t.op[1:], t.sort) for t in terms]
            both = terms + others
            start = Path(self, [], [(0, template(required, both))], obligations)
            for clause in [c for _, c in contract.get("requires", [])]:
                start = start.learn(template(clause, terms)).learn(template(clause, others))
            pairs = []
            silent = Path(self, [], start.facts, [])
            self.inline(
                function, {}, terms, silent,
                lambda p, v: self.inline(
                    function, {}, others, p, lambda q, w: pairs.append((q, self.term(v, q), self.term(w, q))), frozenset()
                ),
                frozenset(),
            )
            for i, (p, v, w) in enumerate(pairs):
                p.bound = p.bound + tuple(others)
                obligations.append(("%s (paths %d of %d)" % (label, i + 1, len(pairs)), template(ensured, both + [v, w]), p))
        return terms, obligations, len(ends)

    def relations(self):
        """What relations between two calls say of functions that occur."""
        lines = []
        for name, contract in self.contracts.CONTRACTS.items():
            symbol = self.symbol_of(name)
            if contract.get("relations") and symbol in self.symbols:
                sorts = self.symbols[symbol]
                variables = ["r%d_" % i for i in range(2 * (len(sorts) - 1))]
                half = len(sorts) - 1
                calls = ["(%s)" % " ".join([symbol] + variables[:half]), "(%s)" % " ".join([symbol] + variables[half:])]
                binders = " ".join("(%s %s)" % (v, s) for v, s in zip(variables, sorts[:-1] * 2))
                for _, required, ensured in contract["relations"]:
                    required = " ".join(
                        [fill(required, variables)]
                        + [fill(c, variables[:half]) + " " + fill(c, variables[half:]) for _, c in contract.get("requires", [])]
                    )
                    lines.append(
                        "(assert (forall (%s) (! (=> (and true %s) %s) :pattern (%s %s))))"
                        % (binders, required, fill(ensured, variables + calls), *calls)
                    )
        return lines

    def query(self, terms, goal, path, extra="", reveal=()):
        """The text of a query that is unsatisfiable when the goal holds."""
        lines = self.preamble()
        body = []
        printer = Printer(body)
        constants = ["(declare-const %s %s)" % (term.op, term.sort) for term in tuple(terms) + path.bound]
        for condition in path.conditions:
            body.append("(assert %s)" % printer.name(condition))
        for _, fact in path.facts:
            body.append("(assert %s)" % printer.name(fact))
        body.append("(assert (not %s))" % printer.name(goal))
        # The function values that occur, and those that occur in what they do.
        axioms = []
        for bound, apply_, formula in self.axioms:
            pattern = text(apply_)
            words = set(re.findall(r"[^\s()]+", pattern))
            binders = " ".join("(%s %s)" % (b.op, b.sort) for b in bound if b.op in words)
            if binders:
                axioms.append("(assert (forall (%s) (! %s :pattern (%s))))" % (binders, text(formula), pattern))
            else:
                axioms.append("(assert %s)" % text(formula))
        specification = sections(self.contracts.PRELUDE, path.sections)
        for name in list(reveal) + [name for name in path.sections or [] if name in self.contracts.REVEAL]:
            specification += "\n" + self.contracts.REVEAL[name]
        used = set(re.findall(r"\bap\.[A-Za-z0-9_.]+", specification + extra))
        for name in used:
            self.applications.setdefault(name, name[3:].split("."))
        lines += self.declarations()
        lines.append(specification)
        lines += self.relations() + ["; The obligation."] + constants + axioms + body
        if extra:
            lines.append(extra)
        lines.append("(check-sat)")
        return "\n".join(lines) + "\n"


class Path:
    """Conditions and facts known at a point of a path."""

    def __init__(self, unit, conditions, facts, obligations, is_dead=False, bound=()):
        self.unit, self.conditions, self.facts, self.obligations = unit, conditions, facts, obligations
        self.is_dead = is_dead
        self.bound = bound
        self.sections = None

    def dead(self):
        return self.is_dead

    def assume(self, condition):
        if condition is TRUE or condition in self.conditions:
            return self
        dead = condition is FALSE or not_(condition) in self.conditions
        if condition.op.__class__ is str and condition.op.startswith("(_ is "):
            for other in self.conditions:
                if other.op.__class__ is str and other.op.startswith("(_ is ") and other.op != condition.op and other.args == condition.args:
                    dead = True
        return Path(self.unit, self.conditions + [condition], self.facts, self.obligations, dead, self.bound)

    def learn(self, fact):
        return Path(self.unit, self.conditions, self.facts + [(len(self.conditions), fact)], self.obligations, self.is_dead, self.bound)

    def oblige(self, label, goal):
        if not self.is_dead:
            self.obligations.append((label, goal, self))


class Printer:
    """Names every shared term that is not a leaf."""

    def __init__(self, lines):
        self.lines = lines
        self.names = {}

    def name(self, n):
        if not n.args and not isinstance(n.op, tuple):
            return n.op
        found = self.names.get(n.id)
        if found is None:
            args = [self.name(a) for a in n.args]
            if isinstance(n.op, tuple):
                return fill(n.op[1], args)
            rendered = "(" + " ".join([n.op] + args) + ")"
            if n.sort == "Bool":
                return rendered
            found = "t!%d" % len(self.names)
            self.names[n.id] = found
            self.lines.append("(declare-const %s %s)\n(assert (= %s %s))" % (found, n.sort, found, rendered))
        return found


def free_variables(definition):
    """Names that occur and may be free."""
    found = set()

    def walk(e):
        if isinstance(e, list):
            if len(e) == 2 and e[0] == "variable":
                found.add(e[1])
            for x in e:
                walk(x)
        elif isinstance(e, dict):
            walk(e["body"])

    walk(definition["body"])
    return found - {name for name, _ in definition["arguments"]}


def sections(specification, kept):
    """A specification without what it asserts in sections other than those kept."""
    if kept is None:
        return specification
    result = []
    for i, part in enumerate(re.split(r"(?m)^;; ", specification)):
        name = part.split("\n", 1)[0].strip()
        if i and name not in kept:
            part = "\n".join(form for form in forms(part.split("\n", 1)[1]) if not form.startswith("(assert"))
        elif i:
            part = part.split("\n", 1)[1]
        result.append(part)
    return "\n".join(result)


def forms(text_):
    """The forms at the top of a text."""
    text_ = re.sub(r";.*", "", text_)
    depth, start = 0, 0
    for i, character in enumerate(text_):
        if character == "(":
            if depth == 0:
                start = i
            depth += 1
        elif character == ")":
            depth -= 1
            if depth == 0:
                yield text_[start : i + 1]


# Solvers


def solve(query, seconds, directory, name, which=None):
    """Runs the solvers side by side until one of them proves the goal."""
    path = os.path.join(directory, name + ".smt2")
    with open(path, "w") as f:
        f.write(query)
    processes = []
    started = time.time()
    for solver, command, _ in SOLVERS if which is None else [SOLVERS[i] for i in which]:
        command = [part.format(t=int(seconds), ms=int(seconds * 1000)) for part in command] + [path]
        processes.append((solver, subprocess.Popen(command, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    answers = {}
    proved = None
    while len(answers) < len(processes) and proved is None and time.time() - started < seconds + 5:
        for solver, process in processes:
            if solver not in answers and process.poll() is not None:
                output = process.stdout.read().strip()
                answers[solver] = output
                if output.splitlines()[:1] == ["unsat"]:
                    proved = solver
                    break
        else:
            time.sleep(0.004)
    for _, process in processes:
        if process.poll() is None:
            process.kill()
        process.wait()
        process.stdout.close()
    return proved, time.time() - started, answers


MISSING = "there is no function of this name"


def load(path):
    if os.path.dirname(path) not in sys.path:
        sys.path.insert(0, os.path.dirname(path))
    spec = importlib.util.spec_from_file_location("contracts_" + os.path.basename(path)[:-3], path)
    module = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(module)
    return module


def run(dump, path, seconds=60, only=None, workers=4, directory=None, verbose=False, deadline=None):
    """Verifies the functions of a contract file; a list of results by function."""
    contracts = load(path)
    modules = json.load(open(dump))
    others = {}
    for module in modules:
        for function in module["functions"]:
            others.setdefault(function["name"], {"name": function["name"], "arguments": function["arguments"], "result": function["result"]})
    homes = {f["name"]: m for m in modules for f in m["functions"]}
    module = next((homes[n] for n, c in contracts.CONTRACTS.items() if c.get("verified", True) and n in homes), None)
    own = directory is None
    directory = directory or "/tmp/penvc.%d" % os.getpid()
    os.makedirs(directory, exist_ok=True)
    results = []
    try:
        jobs = []
        for name, contract in contracts.CONTRACTS.items():
            if not contract.get("verified", True) or only and not re.search(only, name):
                continue
            result = {"function": name, "obligations": [], "reason": "", "assumed": [], "inlined": []}
            results.append(result)
            try:
                if name not in homes:
                    raise Undecided(MISSING)
                unit = Unit(homes[name], contracts, others)
                terms, obligations, _ = unit.verify(name)
                for label, goal, p in obligations:
                    jobs.append((result, unit, terms, label, goal, p, contract.get("reveal", ()), contract.get("extra", "")))
                result["assumed"] = sorted(unit.used)
                result["inlined"] = sorted(unit.inlined)
                if obligations:
                    p = max((p for _, _, p in obligations), key=lambda p: len(p.facts))
                    result["vacuity"] = True
                    jobs.append((result, unit, terms, "vacuity", FALSE, Path(unit, [], [f for f in p.facts if f[0] == 0], []), contract.get("reveal", ()), contract.get("extra", "")))
            except Undecided as error:
                result["reason"] = str(error)
            except RecursionError:
                result["reason"] = "its expressions are too deep"
        for lemma in getattr(contracts, "LEMMAS", []):
            if only and not re.search(only, "lemma " + lemma["name"]):
                continue
            result = {"function": "lemma " + lemma["name"], "obligations": [], "reason": "", "assumed": [], "inlined": []}
            results.append(result)
            if module is None:
                result["reason"] = "there is no module"
                continue
            unit = Unit(module, contracts, others)
            for label, goal, *kept in lemma["goals"]:
                start = Path(unit, [], [], [])
                start.sections = kept[0] if kept else None
                constants = [leaf(n, s) for n, s in lemma.get("constants", {}).items()]
                jobs.append((result, unit, constants, label, template(goal, []), start, lemma.get("reveal", ()), ""))

        def job(item):
            number, (result, unit, terms, label, goal, p, reveal, extra) = item
            query = unit.query(terms, goal, p, extra, reveal)
            vacuity = label == "vacuity"
            refuted = sum(1 for o in result["obligations"] if not o["proved"] and not o.get("skipped"))
            if not vacuity and deadline and (refuted >= 2 or time.time() > deadline):
                result["obligations"].append({"label": label, "proved": None, "wall_s": 0, "answers": {}, "query": "", "skipped": True})
                return
            proved, wall, answers = solve(query, 3 if vacuity else seconds, directory, "q%d" % number, [0] if vacuity else None)
            if verbose:
                print("%-9s %6.2f %-10s q%d %s: %s" % ("vacuous!" if vacuity and proved else "ok" if vacuity else "proved" if proved else "FAILED", wall, proved or "", number, result["function"], label), flush=True)
            if vacuity:
                result["vacuous"] = bool(proved)
                return
            result["obligations"].append({"label": label, "proved": proved, "wall_s": wall, "answers": answers, "query": query if not proved else None})

        with concurrent.futures.ThreadPoolExecutor(workers) as executor:
            list(executor.map(job, enumerate(jobs)))
    finally:
        if own:
            shutil.rmtree(directory, ignore_errors=True)
    return results


def check(dump, path, only, budget, tier):
    """Results of a contract file for check.py."""
    outcome = []
    deadline = time.time() + budget
    seconds = 40 if tier == "quick" else 300
    limit = sys.getrecursionlimit()
    size = threading.stack_size(512 << 20)
    sys.setrecursionlimit(100000)

    def work():
        outcome.extend(run(dump, path, seconds, only, max(2, (os.cpu_count() or 4) // 3), deadline=deadline))

    thread = threading.Thread(target=work)
    thread.start()
    thread.join()
    sys.setrecursionlimit(limit)
    threading.stack_size(size)
    results = []
    name = os.path.basename(path)[:-3]
    # What was proved with contracts of functions that are no more may well need others.
    lost = sorted(f["function"] for f in outcome if f["reason"] == MISSING)
    for found in outcome:
        obligations = found["obligations"]
        failed = [o for o in obligations if not o["proved"] and not o.get("skipped")]
        skipped = [o for o in obligations if o.get("skipped")]
        reason = found["reason"]
        if found.get("vacuous"):
            reason = "what it requires is contradictory"
        # Sorts that the contracts speak of may be no more.
        if failed and not reason and all(o["answers"] and all("(error" in a for a in o["answers"].values()) for o in failed):
            reason = "its contract speaks of what is no more: " + next(iter(failed[0]["answers"].values()))[:200]
        if failed and lost and not reason:
            reason = "%d obligations not proved without the contracts of %s" % (len(failed), ", ".join(lost))
        status = "undecided" if reason else "failed" if failed else "undecided" if skipped else "proved"
        if status == "undecided" and not reason:
            reason = "%d obligations were not tried" % len(skipped)
        output = ""
        for o in failed[:3]:
            output += "%s: %s\n" % (found["function"], o["label"])
            for solver, answer in o["answers"].items():
                output += "  %s: %s\n" % (solver, answer[:300])
            if not o["answers"]:
                output += "  no solver proved it within %s s\n" % seconds
            output += o["query"].split("; The obligation.\n")[-1][:6000] + "\n"
        solvers = {}
        for o in obligations:
            if o["proved"]:
                solvers[o["proved"]] = solvers.get(o["proved"], 0) + 1
        results.append(
            {
                "harness": "%s::%s" % (name, found["function"]),
                "engine": "penvc with SMT solvers",
                "status": status,
                "obligations": len(obligations),
                "discharged": sum(1 for o in obligations if o["proved"]),
                "solvers": solvers,
                "assumed": found["assumed"],
                "inlined": found["inlined"],
                "covered": 0 if found.get("vacuous", True) else 1,
                "wall_s": round(sum(o["wall_s"] for o in obligations), 2),
                "solver_s": round(sum(o["wall_s"] for o in obligations), 2),
                "reason": reason,
                "failed": [{"obligation": o["label"], "text": "not proved", "place": found["function"], "line": "?"} for o in failed],
                "output": output,
            }
        )
    return results


if __name__ == "__main__":
    import argparse

    parser = argparse.ArgumentParser()
    parser.add_argument("dump")
    parser.add_argument("contracts")
    parser.add_argument("only", nargs="?")
    parser.add_argument("--seconds", type=float, default=30)
    parser.add_argument("--workers", type=int, default=4)
    parser.add_argument("--keep")
    options = parser.parse_args()
    sys.setrecursionlimit(100000)
    threading.stack_size(512 << 20)
    outcome = []
    thread = threading.Thread(target=lambda: outcome.extend(run(options.dump, options.contracts, options.seconds, options.only, options.workers, options.keep, True)))
    thread.start()
    thread.join()
    for result in outcome:
        proved = sum(1 for o in result["obligations"] if o["proved"])
        print("%s: %d/%d%s%s" % (result["function"], proved, len(result["obligations"]), " VACUOUS" if result.get("vacuous") else "", " not decided: " + result["reason"] if result["reason"] else ""))
