//! Programs that are not well-typed.

use crate::{
    foreign,
    machine::{Machine, Mode, Stop},
    program,
    random::{rounds, Random},
    source, stack,
};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn tokens(text: &str) -> Vec<String> {
    let mut tokens = vec![];
    let mut word = String::new();
    let mut quoted = false;

    for character in text.chars() {
        if character == '"' {
            word.push(character);
            if quoted {
                tokens.push(std::mem::take(&mut word));
            }
            quoted = !quoted;
        } else if quoted || character.is_alphanumeric() || character == '_' {
            word.push(character);
        } else {
            if !word.is_empty() {
                tokens.push(std::mem::take(&mut word));
            }
            tokens.push(character.to_string());
        }
    }
    tokens.push(word);
    tokens
}

const WORDS: &[&str] = &[
    "none", "1", "true", "\"s\"", "number", "string", "boolean", "any", "error", "x", "Main", "r0", "r1", "[none]", "[number 1]",
    "{number: string}", "+", "-", "*", "/", "==", "!=", "<", "|", "&", "!", "?", "()", ".f0", "\\() number { 1 }", "go", "size",
    "error(none)", "as", "in", "if", "else", "type",
];

/// A program with a few of its words replaced, removed, repeated or exchanged.
fn mutate(random: &mut Random, text: &str) -> String {
    let mut tokens = tokens(text);

    for _ in 0..1 + random.below(5) / 3 {
        let places = (0..tokens.len()).filter(|index| !tokens[*index].trim().is_empty()).collect::<Vec<_>>();
        if places.len() < 2 {
            break;
        }
        let place = places[random.below(places.len())];
        let other = places[random.below(places.len())];
        match random.below(15) {
            0 => drop(tokens.remove(place)),
            1 => tokens.swap(place, other),
            2 => tokens[place] = WORDS[random.below(WORDS.len())].into(),
            3 => tokens.insert(place, WORDS[random.below(WORDS.len())].into()),
            4..=13 => {
                // A word is replaced by another one of its kind.
                let kind = |token: &str| token.chars().next().map(|character| (character.is_alphabetic(), character.is_numeric(), character == '"'));
                let same = places.iter().filter(|index| kind(&tokens[**index]) == kind(&tokens[place])).collect::<Vec<_>>();
                tokens[place] = tokens[*same[random.below(same.len())]].clone();
            }
            _ => tokens[place] = tokens[other].clone(),
        }
    }
    tokens.concat()
}

/// Compiles and runs a text: it is refused or does not get stuck.
fn sound(text: &str) -> Result<bool, String> {
    let outcome = catch_unwind(AssertUnwindSafe(|| -> Result<bool, String> {
        let Ok(modules) = source::compile(text) else {
            return Ok(false);
        };
        for (stages, mode) in [(0, Mode::Lexical), (6, Mode::Counting)] {
            let linked = source::link(&modules, stages)?;
            let machine = Machine::new(&linked.iter().map(|module| &**module).collect::<Vec<_>>(), &foreign::find, mode, 300_000)
                .map_err(|stop| format!("{stop:?}"))?;
            if !machine.has_global("/Main.pen:Main") {
                continue;
            }
            match machine.call_global("/Main.pen:Main", vec![]) {
                Err(Stop::Stuck(message)) if !message.contains("arguments") => {
                    return Err(format!("the program gets stuck after {stages} stages: {message}"))
                }
                _ => {}
            }
        }
        Ok(true)
    }));
    outcome.unwrap_or_else(|panic| {
        let message = panic
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| panic.downcast_ref::<&str>().map(|message| message.to_string()))
            .unwrap_or_default();
        Err(format!("the compiler panics: {message}"))
    })
}

/// Changed programs are refused with a message or do not get stuck.
#[test]
fn refused_programs_are_refused_with_a_message() {
    stack::large(|| {
        let mut random = Random::new(20);
        let mut accepted = 0;
        let mut failures = vec![];
        let hook = std::panic::take_hook();
        std::panic::set_hook(Box::new(|_| ()));

        for _ in 0..rounds(1000) {
            let text = program::print(&program::generate(&mut random));
            if text.len() > 4_000 {
                continue;
            }
            for _ in 0..4 {
                let changed = mutate(&mut random, &text);
                match sound(&changed) {
                    Ok(yes) => accepted += yes as usize,
                    Err(message) => failures.push((changed, message)),
                }
            }
        }
        std::panic::set_hook(hook);
        failures.sort_by_key(|(text, _)| text.len());
        if std::env::var("ALL_FAILURES").is_ok() {
            let mut seen = std::collections::BTreeMap::<String, usize>::new();
            for (text, message) in &failures {
                let kind = message.chars().filter(|character| !character.is_ascii_digit()).take(100).collect::<String>();
                let count = seen.entry(kind).or_default();
                *count += 1;
                if *count <= 2 {
                    eprintln!("FAILURE {} {message}\n{text}", text.len());
                }
            }
            eprintln!("{accepted} {seen:#?}");
        }
        if let Some((text, message)) = failures.first() {
            panic!("{} programs fail, the shortest of which:\n{text}\n{message}", failures.len());
        }
        println!("NATIVE-RUNS changed-programs {accepted} of {}", rounds(1000) * 4);
        assert!(accepted > 10, "only {accepted} changed programs are accepted");
    });
}

const TYPES: &str = "
type r { a number b string }
type q { a number b string }
type f { a \\() number }
type w { a any }
type u = number | none
type e = number | error
";

/// A value of each of a few types.
const VALUES: &[(&str, &str)] = &[
    ("number", "1"),
    ("string", "\"a\""),
    ("boolean", "true"),
    ("none", "none"),
    ("r", "r{a: 1, b: \"a\"}"),
    ("q", "q{a: 1, b: \"a\"}"),
    ("[number]", "[number 1]"),
    ("[string]", "[string \"a\"]"),
    ("[u]", "[u 1]"),
    ("{number: string}", "{number: string 1: \"a\"}"),
    ("{string: number}", "{string: number \"a\": 1}"),
    ("\\() number", "\\() number { 1 }"),
    ("\\(number) number", "\\(x number) number { x }"),
    ("\\() none", "\\() none { none }"),
    ("error", "error(none)"),
];

fn compiles(text: &str) -> bool {
    match catch_unwind(AssertUnwindSafe(|| source::compile(text).is_ok())) {
        Ok(value) => value,
        Err(_) => panic!("the compiler panics at {text}"),
    }
}

fn refused(text: impl AsRef<str>) {
    let text = TYPES.to_owned() + text.as_ref();
    assert!(!compiles(&text), "a program is accepted: {text}");
}

fn accepted(text: impl AsRef<str>) {
    let text = TYPES.to_owned() + text.as_ref();
    if let Err(error) = source::compile(&text) {
        panic!("a program is refused: {error:?} {text}");
    }
}

/// A value is taken for a type exactly when it is of the type.
#[test]
fn values_are_of_their_types() {
    stack::large(|| {
        // Where a value of a given type is wanted.
        const PLACES: &[&str] = &[
            "f0 = \\(x FROM) TO { x }",
            "f0 = \\(x FROM) number { g0(x) }\n g0 = \\(y TO) number { 1 }",
            "type p { a TO }\n f0 = \\(x FROM) p { p{a: x} }",
            "type p { a TO }\n f0 = \\(x FROM, y p) p { p{...y, a: x} }",
            "f0 = \\(x FROM) [TO] { [TO x] }",
            "f0 = \\(x FROM) {number: TO} { {number: TO 1: x} }",
            "f0 = \\(x FROM) \\() TO { \\() TO { x } }",
            "f0 = \\(x FROM, b boolean) TO { if b { x } else { x } }",
            "f0 = \\(x [FROM]) [TO] { [TO y() for y in x] }",
            "f0 = \\(x FROM) TO { y = x y }",
            "f0 = \\(x [FROM]) TO { if [y, ...z] = x { y() } else { f0(x) } }",
        ];
        for place in PLACES {
            for (from, _) in VALUES {
                for (to, _) in VALUES {
                    let text = format!("{TYPES}{}", place.replace("FROM", from).replace("TO", to));
                    assert_eq!(compiles(&text), from == to, "{text}");
                }
                for (union, members) in [
                    ("number | none", &["number", "none"][..]),
                    ("u", &["number", "none"]),
                    ("e", &["number", "error"]),
                    ("r | q | string", &["r", "q", "string"]),
                    ("[number] | boolean", &["[number]", "boolean"]),
                ] {
                    let text = format!("{TYPES}{}", place.replace("FROM", from).replace("TO", union));
                    assert_eq!(compiles(&text), members.contains(from), "{text}");
                    let text = format!("{TYPES}{}", place.replace("FROM", union).replace("TO", from));
                    assert!(!compiles(&text), "{text}");
                }
                let text = format!("{TYPES}{}", place.replace("FROM", from).replace("TO", "any"));
                assert!(compiles(&text), "{text}");
                let text = format!("{TYPES}{}", place.replace("FROM", "any").replace("TO", from));
                assert!(!compiles(&text), "{text}");
            }
        }
    });
}

/// A type, with the members of a union as a set.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Type {
    Any,
    Name(&'static str),
    List(Box<Type>),
    Map(Box<Type>, Box<Type>),
    Function(Vec<Type>, Box<Type>),
    Union(std::collections::BTreeSet<Type>),
}

impl Type {
    fn union(types: &[Type]) -> Self {
        let members = types
            .iter()
            .flat_map(|type_| match type_ {
                Self::Union(members) => members.iter().cloned().collect::<Vec<_>>(),
                type_ => vec![type_.clone()],
            })
            .collect::<std::collections::BTreeSet<_>>();
        if members.len() == 1 {
            members.into_iter().next().unwrap()
        } else {
            Self::Union(members)
        }
    }

    /// A value of `self` is one of `other`.
    fn fits(&self, other: &Self) -> bool {
        match (self, other) {
            (_, Self::Any) => true,
            (Self::Union(one), Self::Union(other)) => one.is_subset(other),
            (one, Self::Union(members)) => members.contains(one),
            (one, other) => one == other,
        }
    }
}

/// Types with their texts, of which a few are written in different ways.
fn types() -> Vec<(String, Type)> {
    let name = |name: &'static str| (name.to_string(), Type::Name(name));
    let union = |types: &[&(String, Type)]| {
        (
            types.iter().map(|(text, _)| if text.starts_with('\\') { format!("({text})") } else { text.clone() }).collect::<Vec<_>>().join(" | "),
            Type::union(&types.iter().map(|(_, type_)| type_.clone()).collect::<Vec<_>>()),
        )
    };
    let list = |element: &(String, Type)| (format!("[{}]", element.0), Type::List(element.1.clone().into()));
    let map = |key: &(String, Type), value: &(String, Type)| {
        (format!("{{{}: {}}}", key.0, value.0), Type::Map(key.1.clone().into(), value.1.clone().into()))
    };
    let function = |arguments: &[&(String, Type)], result: &(String, Type)| {
        (
            format!("\\({}) {}", arguments.iter().map(|(text, _)| text.clone()).collect::<Vec<_>>().join(", "), result.0),
            Type::Function(arguments.iter().map(|(_, type_)| type_.clone()).collect(), result.1.clone().into()),
        )
    };

    let (number, none, string) = (name("number"), name("none"), name("string"));
    let (r, q) = (name("r"), name("q"));
    let u = ("u".to_string(), union(&[&number, &none]).1);
    let any = ("any".to_string(), Type::Any);
    let unions = [
        u.clone(),
        union(&[&none, &number]),
        union(&[&number, &string]),
        union(&[&none, &string]),
        union(&[&string, &u]),
        union(&[&number, &string, &none]),
        union(&[&r, &none]),
        union(&[&none, &q]),
    ];
    let mut types = vec![number.clone(), r.clone(), any.clone()];

    types.extend(unions.iter().cloned());
    for element in [&number, &any].into_iter().chain(&unions) {
        types.extend([list(element), function(&[], element), function(&[element], &number), map(&number, element)]);
        if element.1 != Type::Any {
            types.push(map(element, &number));
        }
    }
    types.extend([
        list(&list(&unions[0])),
        list(&list(&unions[2])),
        list(&map(&string, &unions[0])),
        list(&map(&string, &unions[2])),
        function(&[&number, &unions[0]], &number),
        function(&[&number, &unions[2]], &number),
        function(&[&unions[0], &number], &number),
        function(&[&number, &number], &number),
        function(&[&list(&unions[0])], &none),
        union(&[&list(&unions[0]), &none]),
        union(&[&none, &list(&unions[1])]),
        union(&[&list(&unions[2]), &none]),
        union(&[&list(&unions[0]), &list(&unions[2])]),
        union(&[&function(&[], &unions[0]), &none]),
        union(&[&function(&[], &unions[2]), &none]),
        union(&[&map(&number, &unions[0]), &none]),
        union(&[&map(&number, &unions[2]), &none]),
    ]);
    types
}

/// A value of each type is taken for another type exactly when its members are of the other.
#[test]
fn unions_are_sets_of_their_members_wherever_they_are() {
    stack::large(|| {
        let types = types();
        let mut random = Random::new(28);
        let mut runs = 0;

        for (from, one) in &types {
            for (to, other) in &types {
                let fits = one.fits(other);
                let (from, to) = (parenthesize(from), parenthesize(to));
                let mut places = vec![
                    (format!("f0 = \\(x {from}) {to} {{ x }}"), fits),
                    (format!("f0 = \\(x [{from}]) [{to}] {{ x }}"), one == other),
                    (format!("type p {{ a {to} }}\n f0 = \\(x {from}) p {{ p{{a: x}} }}"), fits),
                    (format!("f0 = \\(x \\() {from}) \\() {to} {{ x }}"), one == other),
                ];
                if !fits && random.chance(5, 6) {
                    places.truncate(1);
                }
                for (text, expected) in places {
                    runs += 1;
                    assert_eq!(compiles(&format!("{TYPES}{text}")), expected, "{text}");
                }
            }
        }
        println!("NATIVE-RUNS types {runs}");
    });
}

fn parenthesize(text: &str) -> String {
    if text.contains(['|', '\\']) { format!("({text})") } else { text.into() }
}

/// Operators and built-in functions take operands of their types only.
#[test]
fn operands_are_of_their_types() {
    stack::large(|| {
        for (type_, value) in VALUES {
            for operator in ["+", "-", "*", "/", "<", "<=", ">", ">="] {
                for text in [format!("1 {operator} x"), format!("x {operator} 1")] {
                    let text = format!("f0 = \\(x {type_}) any {{ {text} }}");
                    if *type_ == "number" { accepted(text) } else { refused(text) }
                }
            }
            let text = format!("f0 = \\(x {type_}) any {{ x + x }}");
            if ["number", "string"].contains(type_) { accepted(text) } else { refused(text) }
            for text in ["x & true", "true & x", "x | false", "false | x", "!x", "if x { 1 } else { 2 }"] {
                let text = format!("f0 = \\(x {type_}) any {{ {text} }}");
                if *type_ == "boolean" { accepted(text) } else { refused(text) }
            }
            for operator in ["==", "!="] {
                let text = format!("f0 = \\(x {type_}) boolean {{ x {operator} {value} }}");
                if type_.contains('\\') || *type_ == "error" { refused(text) } else { accepted(text) }
                for (other, _) in VALUES {
                    if other != type_ {
                        refused(format!("f0 = \\(x {type_}, y {other}) boolean {{ x {operator} y }}"));
                    }
                }
            }
            let text = format!("f0 = \\(x {type_}) any {{ size(x) }}");
            if type_.starts_with(['[', '{']) { accepted(text) } else { refused(text) }
            for name in ["keys", "values"] {
                let text = format!("f0 = \\(x {type_}) any {{ {name}(x) }}");
                if type_.starts_with('{') { accepted(text) } else { refused(text) }
            }
            let text = format!("f0 = \\(x {type_}) any {{ delete(x, 1) }}");
            if type_.starts_with("{number") { accepted(text) } else { refused(text) }
            let text = format!("f0 = \\(x {type_}) any {{ source(x) }}");
            if *type_ == "error" { accepted(text) } else { refused(text) }
            let text = format!("f0 = \\(x {type_}) any {{ go(x) }}");
            if type_.starts_with("\\()") { accepted(text) } else { refused(text) }
            for text in ["x()", "x(1)", "x(1, 1)", "x(\"a\")"] {
                let text = text.to_string();
                let right = match *type_ {
                    "\\() number" | "\\() none" => text == "x()",
                    "\\(number) number" => text == "x(1)",
                    _ => false,
                };
                let text = format!("f0 = \\(x {type_}) any {{ {text} }}");
                if right { accepted(text) } else { refused(text) }
            }
            let text = format!("f0 = \\(x {type_}) any {{ x.a }}");
            if ["r", "q"].contains(type_) { accepted(text) } else { refused(text) }
            refused(format!("f0 = \\(x {type_}) any {{ x.c }}"));
            for text in ["[number ...x]", "[number y() for y in x]", "if [y, ...z] = x { y() } else { 1 }"] {
                let text = format!("f0 = \\(x {type_}) any {{ {text} }}");
                match *type_ {
                    "[number]" => accepted(text),
                    "[string]" | "[u]" if text.contains("if") => accepted(text),
                    _ => refused(text),
                }
            }
            for text in ["if y = x[1] { y } else { 1 }", "{number: string ...x}"] {
                let text = format!("f0 = \\(x {type_}) any {{ {text} }}");
                if *type_ == "{number: string}" { accepted(text) } else { refused(text) }
            }
            // An operand that may be an error, and a function that may fail.
            refused(format!("f0 = \\(x {type_}) {type_} | error {{ x? }}").replace("error | error", "error"));
            refused(format!("f0 = \\(x {type_} | error) boolean | none {{ x? true }}").replace("error | error", "error"));
            if !type_.contains('\\') && *type_ != "error" {
                accepted(format!("f0 = \\(x {type_} | error) {type_} | error {{ x? }}"));
                refused(format!("f0 = \\(x {type_} | error) {type_} {{ x? }}"));
            }
        }
    });
}

/// Definitions, names and branches that make no sense are refused.
#[test]
fn senseless_programs_are_refused() {
    stack::large(|| {
        for text in [
            // Names
            "f0 = \\() number { x }",
            "f0 = \\() number { g0() }",
            "f0 = \\(x t) number { 1 }",
            "f0 = \\() number { Foo'Bar() }",
            "f0 = \\(x Foo'Bar) number { 1 }",
            "f0 = \\() number { x = 1 1 } g0 = \\() number { x }",
            "f0 = \\() number { if true { x = 1 x } else { x } }",
            "f0 = \\(x [number]) number { if [y, ...ys] = x { y() } else { y() } }",
            "f0 = \\(x [number]) [number] { [number z() for y in x] }",
            // Definitions
            "f0 = \\() number { 1 } f0 = \\() number { 2 }",
            "type r { c number }",
            "type t = number type t = string",
            "type t = t",
            "type t = number | t",
            "type t = s type s = t",
            "type t = [t]",
            "type t = {number: t}",
            "type t = {t: number}",
            "type t = \\() t",
            "type t = \\(t) number",
            "type t = \\(number, t) number",
            "type t = none | t",
            "type t = [none | t]",
            "type t = [s] type s = {number: \\() t}",
            "type t = s type s = v type v = none | [t]",
            "type t { a number a string }",
            // Records
            "f0 = \\() r { r{a: 1} }",
            "f0 = \\() r { r{} }",
            "f0 = \\() r { r{a: 1, b: \"a\", c: 1} }",
            "f0 = \\() r { r{a: 1, b: \"a\", a: 1} }",
            "f0 = \\() r { r{a: \"a\", b: \"a\"} }",
            "f0 = \\(x q) r { r{...x, a: 1} }",
            "f0 = \\(x r) r { r{...x, c: 1} }",
            "f0 = \\() number { number{a: 1} }",
            // Branches
            "f0 = \\(x u) number { if x = x as number { x } }",
            "f0 = \\(x u) number { if x = x as string { 1 } else { 2 } }",
            "f0 = \\(x u) number { if x = x as number { 1 } else if string { 2 } }",
            "f0 = \\(x number) number { if x = x as number { 1 } else { 2 } }",
            "f0 = \\(x any) number { if x = x as number { x } }",
            "f0 = \\(x any) number { if x = x as number { x } else { x } }",
            "f0 = \\(x u) number { if x = x as number { x } else { x } }",
            "f0 = \\(x u) number { if x = x as number { 1 } else if none { 2 } else { 3 } }",
            "f0 = \\(x u) number { if x = x as u { 1 } else { 2 } }",
            "f0 = \\(x any) number { if x = x as any { 1 } else { 2 } }",
            "f0 = \\() number { if true { 1 } else { none } }",
            // Comparison
            "f0 = \\(x f, y f) boolean { x == y }",
            "f0 = \\(x w, y w) boolean { x == y }",
            "f0 = \\(x any, y any) boolean { x == y }",
            "f0 = \\(x [\\() number]) boolean { x == x }",
            "f0 = \\(x [any]) boolean { x == x }",
            "f0 = \\(x {number: any}) boolean { x == x }",
            "f0 = \\(x {number: any}) {{number: any}: none} { {{number: any}: none x: none} }",
            "f0 = \\(x u, y string) boolean { x == y }",
            // Keys
            "f0 = \\() {f: number} { {f: number} }",
            "f0 = \\() {any: number} { {any: number} }",
            "f0 = \\() {w: number} { {w: number} }",
            // Collections
            "f0 = \\() [number] { [number 1, \"a\"] }",
            "f0 = \\() {number: string} { {number: string \"a\": \"a\"} }",
            "f0 = \\() {number: string} { {number: string 1: 1} }",
            "f0 = \\(x [[number]]) [number] { race(x, x) }",
            "f0 = \\(x [number]) [number] { race(x) }",
            "f0 = \\(x [number]) [number] { [number y() for y in x if 1] }",
            "f0 = \\(x [number]) [number] { [number y for y in x] }",
            "f0 = \\(x [number]) [number] { [number y() + z() for y, z in x] }",
            // Results
            "f0 = \\() number { x = 1 }",
            "f0 = \\() number { go(\\(x number) number { x })() }",
            "f0 = \\() number { \\() number { 1 } }",
        ] {
            refused(text);
        }
    });
}

/// What is wrong is wrong wherever an expression may be.
#[test]
fn mistakes_are_refused_wherever_they_are() {
    stack::large(|| {
        const DEFINITIONS: &str = "
            g0 = \\(x number) number { x }
            g1 = \\(x number) number | error { x }
            g2 = \\(x number, y string) number { x }
        ";
        const ARGUMENTS: &str = "m number | error, n number | none, o any, l [number], k {number: number}, s r, t [number | error]";
        // Places where a number may be, of which some are evaluated only later.
        const PLACES: &[(&str, bool)] = &[
            ("_", false),
            ("y = _ y", false),
            ("y = 1 _", false),
            ("g0(_)", false),
            ("g2(_, \"\")", false),
            ("(\\(x number) number { x })(_)", false),
            ("if g0(_) == 1 { 1 } else { 2 }", false),
            ("if 1 == g0(_) { 1 } else { 2 }", false),
            ("if g0(_) != 1 { 1 } else { 2 }", false),
            ("if !(g0(_) == 1) { 1 } else { 2 }", false),
            ("if true { _ } else { 2 }", false),
            ("if true { 1 } else { _ }", false),
            ("if true { 1 } else if g0(_) == 1 { 2 } else { 3 }", false),
            ("if true { 1 } else if true { _ } else { 3 }", false),
            ("if _ < 1 { 1 } else { 2 }", false),
            ("if 1 >= _ { 1 } else { 2 }", false),
            ("if g0(_) == 1 & true { 1 } else { 2 }", false),
            ("if true & g0(_) == 1 { 1 } else { 2 }", false),
            ("if g0(_) == 1 | true { 1 } else { 2 }", false),
            ("if true | g0(_) == 1 { 1 } else { 2 }", false),
            ("_ + 1", false),
            ("1 + _", false),
            ("_ - 1", false),
            ("1 - _", false),
            ("_ * 1", false),
            ("1 * _", false),
            ("_ / 1", false),
            ("1 / _", false),
            ("if y = n as none { _ } else { y }", false),
            ("if y = n as none { 1 } else { _ }", false),
            ("if y = n as none { 1 } else if number { _ }", false),
            ("if y = o as none { 1 } else if number { _ } else { 2 }", false),
            ("if y = o as none { 1 } else if number { 2 } else { _ }", false),
            ("if y = (if true { g0(_) } else { none }) as none { 1 } else { y }", false),
            ("if [y, ...ys] = [number _] { y() } else { 1 }", true),
            ("if [y, ...ys] = (if g0(_) == 1 { l } else { l }) { y() } else { 1 }", false),
            ("if [y, ...ys] = l { _ } else { 1 }", false),
            ("if [y, ...ys] = l { 1 } else { _ }", false),
            ("if y = k[_] { y } else { 1 }", false),
            ("if y = (if g0(_) == 1 { k } else { k })[1] { y } else { 1 }", false),
            ("if y = k[1] { _ } else { 1 }", false),
            ("if y = k[1] { y } else { _ }", false),
            ("y = [number _] 1", true),
            ("y = [number 1, _] 1", true),
            ("y = [number ...[number _]] 1", true),
            ("y = [number 1, ...[number _], 2] 1", true),
            ("y = [number _ for x in l] 1", true),
            ("y = [number x() for x in l if g0(_) == 1] 1", true),
            ("y = [number x() for x in (if g0(_) == 1 { l } else { l })] 1", true),
            ("y = [number x() + z() for x, z in l, (if g0(_) == 1 { l } else { l })] 1", true),
            ("y = [number x() + z() for x in l for z in (if g0(_) == 1 { l } else { l })] 1", true),
            ("y = {number: number _: 1} 1", false),
            ("y = {number: number 1: _} 1", false),
            ("y = {number: number ...{number: number _: 1}} 1", false),
            ("y = {number: number 1: 1, ...{number: number 1: _}, 2: 2} 1", false),
            ("r{a: _, b: \"a\"}.a", false),
            ("r{...s, a: _}.a", false),
            ("r{...(if g0(_) == 1 { s } else { s }), a: 1}.a", false),
            ("(if g0(_) == 1 { s } else { s }).a", false),
            ("y = \\() number { _ } y()", true),
            ("y = \\(x number) number { g0(_) } y(1)", true),
            ("y = go(\\() number { _ }) y()", true),
            ("y = race([[number] [number _]]) 1", true),
            ("size([number 1, g0(_)])", true),
            ("size(if g0(_) == 1 { l } else { l })", false),
            ("y = keys(if g0(_) == 1 { k } else { k }) 1", true),
            ("y = values(if g0(_) == 1 { k } else { k }) 1", true),
            ("y = delete(k, _) 1", false),
            ("y = error(g0(_)) 1", false),
            ("y = debug(g0(_)) 1", false),
        ];
        const MISTAKES: &[&str] = &[
            "z",
            "(1 + \"a\")",
            "(1 < \"a\")",
            "\"a\"",
            "none",
            "m",
            "n",
            "o",
            "s.c",
            "l.a",
            "g0(1, 2)",
            "g0()",
            "g0(\"a\")",
            "g2(\"a\", 1)",
            "g1(1)",
            "(if 1 { 1 } else { 2 })",
            "(if true { 1 } else { \"a\" })",
            "(if y = n as number { y })",
            "(if y = l as number { 1 } else { 2 })",
            "(if [y, ...ys] = l { y } else { 1 })",
            "(if y = k[\"a\"] { y } else { 1 })",
            "r{a: 1}.a",
            "r{a: 1, b: 2}.a",
            "r{...s, c: 2}.a",
            "(\\() number { none })()",
            "(1 == \"a\")",
            "size(1)",
            "1?",
            "n?",
            "(if o == o { 1 } else { 2 })",
        ];
        let mut wrong = vec![];
        for &(place, late) in PLACES {
            let compiles = |hole: &str, result: &str| {
                compiles(&format!("{TYPES}{DEFINITIONS}f0 = \\({ARGUMENTS}) {result} {{ {} }}", place.replace('_', hole)))
            };
            if !compiles("g0(1)", "number") {
                wrong.push(format!("{place} is refused"));
                continue;
            }
            for mistake in MISTAKES {
                if compiles(mistake, "number") {
                    wrong.push(format!("{mistake} is accepted at {place}"));
                }
            }
            // Errors leave functions of which results may be errors, but never what is evaluated later.
            for tried in ["m?", "g1(1)?", "(g0(1) + m?)"] {
                if compiles(tried, "number") {
                    wrong.push(format!("{tried} is accepted at {place} without an error of a result"));
                }
                if compiles(tried, "number | error") == late {
                    wrong.push(format!("{tried} is {} at {place}", if late { "accepted" } else { "refused" }));
                }
            }
        }
        assert!(wrong.is_empty(), "{}", wrong.join("\n"));
    });
}

/// What a module does not export is not seen by another one.
#[test]
fn private_definitions_are_private() {
    stack::large(|| {
        let module = "
            type T { A number b string }
            type Open { A number B string }
            type t { a number }
            type A = t
            Make = \\() T { T{A: 1, b: \"a\"} }
            MakeOpen = \\() Open { Open{A: 1, B: \"a\"} }
            MakePrivate = \\() t { t{a: 1} }
            f = \\() number { 1 }
            F = \\() number { f() }
        ";
        let compiles = |text: &str| {
            catch_unwind(|| source::compile_files(&[("Main", text), ("Other", module)]).is_ok())
                .unwrap_or_else(|_| panic!("the compiler panics at {text}"))
        };
        for text in [
            "import 'Other Main = \\() number { Other'F() }",
            "import 'Other { F } Main = \\() number { F() }",
            "import 'Other as Foo Main = \\() number { Foo'F() }",
            "import 'Other Main = \\() number { x = Other'Make() 1 }",
            "import 'Other { Make, T } f = \\(x T) T { x } Main = \\() T { f(Make()) }",
            "import 'Other Main = \\() number { Other'MakeOpen().A }",
            "import 'Other Main = \\() Other'Open { Other'Open{A: 2, B: \"b\"} }",
            "import 'Other Main = \\(x Other'Open) Other'Open { Other'Open{...x, B: \"b\"} }",
            "import 'Other f = \\(x Other'A) Other'A { x } Main = \\() number { f(Other'MakePrivate()) 1 }",
            "import 'Other type T { A number b string } f = \\(x T) number { x.A } Main = \\() number { f(T{A: 1, b: \"a\"}) }",
        ] {
            assert!(compiles(text), "{text}");
        }
        for text in [
            "import 'Other Main = \\() number { Other'f() }",
            "import 'Other { f } Main = \\() number { f() }",
            "import 'Other { t } Main = \\(x t) number { 1 }",
            "import 'Other Main = \\(x Other't) number { 1 }",
            "import 'Other Main = \\() number { F() }",
            "import 'Other { F } Main = \\() number { Other'G() }",
            "import 'Other Main = \\() string { Other'Make().b }",
            "import 'Other Main = \\() Other'T { Other'T{A: 1, b: \"b\"} }",
            "import 'Other Main = \\(x Other'T) Other'T { Other'T{...x, b: \"b\"} }",
            "import 'Other Main = \\() number { Other'MakePrivate().a }",
            "import 'Other Main = \\() Other'A { Other'A{a: 1} }",
            "import 'Other as Foo Main = \\() number { Other'F() }",
            "import 'Other type T { A number b string } f = \\(x T) number { 1 } Main = \\() number { f(Other'Make()) }",
            "import 'Missing Main = \\() number { 1 }",
        ] {
            assert!(!compiles(text), "{text}");
        }
    });
}
