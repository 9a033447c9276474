//! Packages that are written in Pen.

use crate::{
    collections::{with_program, Program},
    machine::{Mode, Value},
    random::{rounds, Random},
    stack,
};
use std::collections::BTreeMap;

const MODES: &[Mode] = &[Mode::Lexical, Mode::Counting];

fn drop_all(program: &Program, values: impl IntoIterator<Item = Value>) {
    for value in values {
        program.drop(value);
    }
}

fn bytes(program: &Program, value: &Value) -> Vec<u8> {
    program.machine.bytes(value).unwrap().to_vec()
}

fn text(program: &Program, value: &Value) -> String {
    String::from_utf8(bytes(program, value)).unwrap()
}

fn string(program: &Program, string: &str) -> Value {
    program.machine.string(string.as_bytes().to_vec())
}

/// A value of a union of a type and none or an error.
fn maybe(program: &Program, value: Value) -> Option<Value> {
    let Value::Variant(variant) = &value else { panic!("{value:?} is no variant") };
    let failed = match &variant.0 {
        mir::types::Type::None => true,
        mir::types::Type::Record(record) => record.name().ends_with("error"),
        _ => false,
    };
    if failed {
        program.drop(value);
        None
    } else {
        Some(variant.1.clone())
    }
}

const JSON: &str = r#"
import Json'Decode { Decode }
import Json'Encode { Encode }
import Json'Value { Value }

Null = \() Value { Value'New(none) }

Boolean = \(b boolean) Value { Value'New(b) }

Number = \(n number) Value { Value'New(n) }

String = \(s string) Value { Value'New(s) }

Elements = \() [Value] { [Value] }

Prepend = \(v Value, vs [Value]) [Value] { [Value v, ...vs] }

Array = \(vs [Value]) Value { Value'New(vs) }

Entries = \() {string: Value} { {string: Value} }

Insert = \(m {string: Value}, k string, v Value) {string: Value} { {string: Value ...m, k: v} }

Object = \(m {string: Value}) Value { Value'New(m) }

ToString = \(v Value) string { Encode(v) }

FromString = \(s string) Value | none {
  if v = Decode(s) as Value { v } else { none }
}

Equal = \(v Value, w Value) boolean { v == w }
"#;

/// Characters that are escaped in strings, and their escapes.
const ESCAPES: &[(char, char)] =
    &[('"', '"'), ('\\', '\\'), ('\n', 'n'), ('\r', 'r'), ('\t', 't'), ('\x08', 'b'), ('\x0c', 'f')];

#[derive(Clone, Debug, PartialEq)]
enum Json {
    Null,
    Boolean(bool),
    Number(f64),
    String(String),
    Array(Vec<Json>),
    Object(BTreeMap<String, Json>),
}

const CHARACTERS: &[char] = &['a', 'b', ' ', '"', '\\', '/', '{', ']', ',', ':', 'n', 'u', '0', 'é', '語', '😀'];

fn characters(random: &mut Random, count: usize) -> String {
    (0..random.below(count)).map(|_| CHARACTERS[random.below(CHARACTERS.len())]).collect()
}

impl Json {
    fn text(random: &mut Random, length: usize) -> String {
        let mut text = characters(random, length);
        for _ in 0..random.below(3) {
            if random.chance(1, 2) {
                text.push(ESCAPES[random.below(ESCAPES.len())].0);
            } else {
                text.extend(["b", "n", "/", "t"][random.below(4)].chars());
            }
        }
        text
    }

    fn random(random: &mut Random, depth: usize) -> Self {
        match random.below(if depth == 0 { 5 } else { 9 }) {
            0 => Self::Null,
            1 => Self::Boolean(random.chance(1, 2)),
            2 => Self::Number(match random.below(3) {
                0 => random.below(1000) as f64 - 500.0,
                1 => (random.below(1000) as f64 - 500.0) / 64.0,
                _ => random.next() as f64 / 1e8,
            }),
            3 | 4 => Self::String(Self::text(random, 6)),
            5 | 6 => Self::Array((0..random.below(4)).map(|_| Self::random(random, depth - 1)).collect()),
            _ => Self::Object(
                (0..random.below(4)).map(|_| (Self::text(random, 3), Self::random(random, depth - 1))).collect(),
            ),
        }
    }

    fn build(&self, program: &Program) -> Value {
        match self {
            Self::Null => program.call("Null", &[]),
            Self::Boolean(value) => program.call("Boolean", &[&Value::Boolean(*value)]),
            Self::Number(value) => program.call("Number", &[&Value::Number(*value)]),
            Self::String(value) => {
                let text = string(program, value);
                let value = program.call("String", &[&text]);
                program.drop(text);
                value
            }
            Self::Array(values) => {
                let mut list = program.call("Elements", &[]);
                for value in values.iter().rev() {
                    let value = value.build(program);
                    let next = program.call("Prepend", &[&value, &list]);
                    drop_all(program, [value, std::mem::replace(&mut list, next)]);
                }
                let value = program.call("Array", &[&list]);
                program.drop(list);
                value
            }
            Self::Object(entries) => {
                let mut map = program.call("Entries", &[]);
                for (key, value) in entries {
                    let (key, value) = (string(program, key), value.build(program));
                    let next = program.call("Insert", &[&map, &key, &value]);
                    drop_all(program, [key, value, std::mem::replace(&mut map, next)]);
                }
                let value = program.call("Object", &[&map]);
                program.drop(map);
                value
            }
        }
    }

    /// A text of the value, with blanks between its tokens.
    fn print(&self, random: &mut Random, text: &mut String) {
        let blank = |random: &mut Random, text: &mut String| {
            for _ in 0..random.below(3).saturating_sub(1) {
                text.push([' ', '\n', '\t', '\r'][random.below(4)]);
            }
        };
        let slash = random.chance(1, 4);
        let quote = |string: &str| {
            let mut text = String::new();
            for character in string.chars() {
                match ESCAPES.iter().find(|(other, _)| *other == character) {
                    Some((_, escape)) => text.extend(['\\', *escape]),
                    None if slash && character == '/' => text += "\\/",
                    None => text.push(character),
                }
            }
            format!("\"{text}\"")
        };

        blank(random, text);
        match self {
            Self::Null => *text += "null",
            Self::Boolean(value) => *text += &value.to_string(),
            Self::Number(value) => *text += &value.to_string(),
            Self::String(value) => *text += &quote(value),
            Self::Array(values) => {
                text.push('[');
                for (index, value) in values.iter().enumerate() {
                    if index > 0 {
                        text.push(',');
                    }
                    value.print(random, text);
                }
                if values.is_empty() {
                    blank(random, text);
                }
                text.push(']');
            }
            Self::Object(entries) => {
                text.push('{');
                for (index, (key, value)) in entries.iter().enumerate() {
                    if index > 0 {
                        text.push(',');
                    }
                    Self::String(key.clone()).print(random, text);
                    if random.chance(1, 3) {
                        text.push(' ');
                    }
                    text.push(':');
                    value.print(random, text);
                }
                text.push('}');
            }
        }
        if random.chance(1, 5) {
            text.push(' ');
        }
    }

    /// The value of a text, which is of the strict grammar.
    fn parse(text: &str) -> Option<Self> {
        let (value, rest) = Self::value(text)?;
        rest.is_empty().then_some(value)
    }

    fn value(text: &str) -> Option<(Self, &str)> {
        for (word, value) in [("null", Self::Null), ("true", Self::Boolean(true)), ("false", Self::Boolean(false))] {
            if let Some(rest) = text.strip_prefix(word) {
                return Some((value, rest));
            }
        }
        if text.starts_with('"') {
            let (value, rest) = Self::string(text)?;
            return Some((Self::String(value), rest));
        }
        if let Some(mut rest) = text.strip_prefix('[') {
            let mut values = vec![];
            while !rest.starts_with(']') {
                if !values.is_empty() {
                    rest = rest.strip_prefix(',')?;
                }
                let (value, next) = Self::value(rest)?;
                values.push(value);
                rest = next;
            }
            return Some((Self::Array(values), &rest[1..]));
        }
        if let Some(mut rest) = text.strip_prefix('{') {
            let mut entries = BTreeMap::new();
            while !rest.starts_with('}') {
                if !entries.is_empty() {
                    rest = rest.strip_prefix(',')?;
                }
                let (key, next) = Self::string(rest)?;
                let (value, next) = Self::value(next.strip_prefix(':')?)?;
                if entries.insert(key, value).is_some() {
                    return None;
                }
                rest = next;
            }
            return Some((Self::Object(entries), &rest[1..]));
        }
        let end = text.find(|character: char| !"-.0123456789".contains(character)).unwrap_or(text.len());
        Some((Self::Number(text[..end].parse().ok()?), &text[end..]))
    }

    fn string(text: &str) -> Option<(String, &str)> {
        let mut rest = text.strip_prefix('"')?.chars();
        let mut string = String::new();
        loop {
            match rest.next()? {
                '"' => return Some((string, rest.as_str())),
                '\\' => {
                    let escape = rest.next()?;
                    string.push(ESCAPES.iter().find(|(_, other)| *other == escape)?.0);
                }
                character if character < ' ' => return None,
                character => string.push(character),
            }
        }
    }
}

/// A value is encoded to a text of its own, which is decoded to the same value.
#[test]
fn json_values_survive() {
    stack::large(|| {
        let mut random = Random::new(30);
        for mode in MODES {
            with_program(JSON, *mode, |program| {
                for _ in 0..rounds(160) {
                    let json = Json::random(&mut random, 3);
                    let value = json.build(program);
                    let encoded = program.call("ToString", &[&value]);
                    let encoded_text = text(program, &encoded);
                    assert_eq!(Json::parse(&encoded_text), Some(json.clone()), "{encoded_text}");

                    let mut printed = String::new();
                    json.print(&mut random, &mut printed);
                    let printed_value = string(program, &printed);
                    for text in [&encoded, &printed_value] {
                        let decoded = maybe(program, program.call("FromString", &[text]));
                        let decoded = decoded.unwrap_or_else(|| panic!("{} is refused", self::text(program, text)));
                        assert!(program.boolean("Equal", &[&value, &decoded]), "{} is another value", self::text(program, text));
                        program.drop(decoded);
                    }
                    drop_all(program, [value, encoded, printed_value]);
                }
            });
        }
    });
}

/// A text with an error in it is refused, and different values are different.
#[test]
fn json_errors_are_refused() {
    stack::large(|| {
        let mut random = Random::new(31);
        with_program(JSON, Mode::Counting, |program| {
            for _ in 0..rounds(240) {
                let json = Json::random(&mut random, 2);
                let mut printed = String::new();
                json.print(&mut random, &mut printed);
                let characters = printed.trim().chars().collect::<Vec<_>>();
                let index = random.below(characters.len() + 1);
                let mut broken = characters[..index].to_vec();
                broken.extend(["", "]", "}", ",", "x", "\"", ":"][random.below(7)].chars());
                if index < characters.len() {
                    broken.extend(&characters[index + random.below(2)..]);
                }
                let broken = broken.into_iter().collect::<String>();
                let value = string(program, &broken);
                let decoded = maybe(program, program.call("FromString", &[&value]));
                // What is decoded is encoded to a text of the strict grammar.
                if let Some(decoded) = decoded {
                    let encoded = program.call("ToString", &[&decoded]);
                    assert!(Json::parse(&text(program, &encoded)).is_some(), "{broken} is decoded");
                    let dense = |text: &str| text.chars().filter(|character| !character.is_whitespace()).count();
                    assert!(dense(&text(program, &encoded)) <= dense(&broken) + 2, "{broken} is decoded to more");
                    drop_all(program, [encoded, decoded]);
                }
                program.drop(value);
            }
            for broken in ["", " ", "nul", "tru", "[", "]", "[1,]", "[1 2]", "{\"a\":1,}", "{\"a\"}", "{a:1}", "\"", "\"a", "1 2", "-", "{1:2}", "[,]", "01", "nullnull"] {
                let value = string(program, broken);
                assert!(maybe(program, program.call("FromString", &[&value])).is_none(), "{broken} is decoded");
                program.drop(value);
            }
            for _ in 0..rounds(160) {
                let jsons = [Json::random(&mut random, 2), Json::random(&mut random, 2)];
                let [one, other] = [0, 1].map(|index| jsons[index].build(program));
                assert_eq!(program.boolean("Equal", &[&one, &other]), jsons[0] == jsons[1], "{jsons:?}");
                drop_all(program, [one, other]);
            }
        });
    });
}

const HTML: &str = r#"
import Html'Node { Attribute, Element, Node }
import Html'Render { Render }

Text = \(s string) Node { s }

Attributes = \() [Attribute] { [Attribute] }

Attribute = \(k string, v string, ats [Attribute]) [Attribute] {
  [Attribute Attribute{Key: k, Value: v}, ...ats]
}

Children = \() [Node] { [Node] }

Child = \(n Node, ns [Node]) [Node] { [Node n, ...ns] }

Element = \(t string, ats [Attribute], ns [Node]) Node {
  Element{Tag: t, Attributes: ats, Children: ns}
}

ToString = \(n Node) string | none {
  if s = Render(n) as string { s } else { none }
}
"#;

#[derive(Clone, Debug, PartialEq)]
enum Node {
    Text(String),
    Element(String, Vec<(String, String)>, Vec<Node>),
}

impl Node {
    fn name(random: &mut Random) -> String {
        if random.chance(1, 60) {
            return random.pick(&["", "<", "a b", "a>", "A", "a\"", "a=", "é", "a/", "script\n"]).into();
        }
        random.pick(&["a", "p", "div", "data-x", "z", "az"]).into()
    }

    fn string(random: &mut Random) -> String {
        (0..random.below(5)).map(|_| random.pick(&["a", "<", ">", "&", "\"", "'", " ", "é", "&lt;", "</a>", "=", "/"])).collect()
    }

    fn random(random: &mut Random, depth: usize) -> Self {
        if depth == 0 || random.chance(1, 4) {
            return Self::Text(Self::string(random));
        }
        Self::Element(
            Self::name(random),
            (0..random.below(3)).map(|_| (Self::name(random), Self::string(random))).collect(),
            (0..random.below(4)).map(|_| Self::random(random, depth - 1)).collect(),
        )
    }

    fn valid(&self) -> bool {
        let valid = |name: &str| !name.is_empty() && name.bytes().all(|byte| byte == b'-' || byte.is_ascii_lowercase());
        match self {
            Self::Text(_) => true,
            Self::Element(tag, attributes, children) => {
                valid(tag) && attributes.iter().all(|(key, _)| valid(key)) && children.iter().all(Self::valid)
            }
        }
    }

    fn build(&self, program: &Program) -> Value {
        match self {
            Self::Text(text) => {
                let text = string(program, text);
                let value = program.call("Text", &[&text]);
                program.drop(text);
                value
            }
            Self::Element(tag, attributes, children) => {
                let mut attribute_list = program.call("Attributes", &[]);
                for (key, value) in attributes.iter().rev() {
                    let (key, value) = (string(program, key), string(program, value));
                    let next = program.call("Attribute", &[&key, &value, &attribute_list]);
                    drop_all(program, [key, value, std::mem::replace(&mut attribute_list, next)]);
                }
                let mut child_list = program.call("Children", &[]);
                for child in children.iter().rev() {
                    let child = child.build(program);
                    let next = program.call("Child", &[&child, &child_list]);
                    drop_all(program, [child, std::mem::replace(&mut child_list, next)]);
                }
                let tag = string(program, tag);
                let value = program.call("Element", &[&tag, &attribute_list, &child_list]);
                drop_all(program, [tag, attribute_list, child_list]);
                value
            }
        }
    }

    /// What a document's text says, with texts next to each other taken as one.
    fn parse(text: &str) -> Option<Vec<Self>> {
        let (nodes, rest) = Self::nodes(text)?;
        rest.is_empty().then_some(nodes)
    }

    fn unescape(text: &str, special: &[char]) -> Option<String> {
        if text.contains(special) {
            return None;
        }
        let mut parts = text.split('&');
        let mut string = parts.next()?.to_string();
        for part in parts {
            let (name, rest) = part.split_once(';')?;
            string.push_str(match name {
                "amp" => "&",
                "lt" => "<",
                "gt" => ">",
                "quot" => "\"",
                "#x27" => "'",
                _ => return None,
            });
            string += rest;
        }
        Some(string)
    }

    fn nodes(mut text: &str) -> Option<(Vec<Self>, &str)> {
        let mut nodes = vec![];
        loop {
            let end = text.find('<').unwrap_or(text.len());
            if end > 0 {
                nodes.push(Self::Text(Self::unescape(&text[..end], &['<', '>'])?));
                text = &text[end..];
            }
            let Some(rest) = text.strip_prefix('<') else { return Some((nodes, text)) };
            if rest.starts_with('/') {
                return Some((nodes, text));
            }
            let name = |text: &str| text.find(|character: char| character != '-' && !character.is_ascii_lowercase()).filter(|end| *end > 0);
            let end = name(rest)?;
            let tag = &rest[..end];
            let mut rest = &rest[end..];
            let mut attributes = vec![];
            loop {
                rest = rest.trim_start();
                let Some(end) = name(rest) else { break };
                let (value, next) = rest[end..].strip_prefix("=\"")?.split_once('"')?;
                attributes.push((rest[..end].to_string(), Self::unescape(value, &['<', '>', '"'])?));
                rest = next;
            }
            if let Some(next) = rest.strip_prefix("/>") {
                nodes.push(Self::Element(tag.into(), attributes, vec![]));
                text = next;
                continue;
            }
            let (children, next) = Self::nodes(rest.strip_prefix('>')?)?;
            text = next.strip_prefix("</")?.strip_prefix(tag)?.strip_prefix('>')?;
            nodes.push(Self::Element(tag.into(), attributes, children));
        }
    }

    fn join(nodes: &[Self]) -> Vec<Self> {
        let mut joined = vec![];
        for node in nodes {
            match (joined.last_mut(), node) {
                (_, Self::Text(text)) if text.is_empty() => {}
                (Some(Self::Text(last)), Self::Text(text)) => *last += text,
                (_, Self::Text(text)) => joined.push(Self::Text(text.clone())),
                (_, Self::Element(tag, attributes, children)) => {
                    joined.push(Self::Element(tag.clone(), attributes.clone(), Self::join(children)))
                }
            }
        }
        joined
    }
}

/// A rendered document says what its nodes say, and names that no element or
/// attribute may have are refused.
#[test]
fn html_says_what_nodes_say() {
    stack::large(|| {
        let mut random = Random::new(32);
        for mode in MODES {
            with_program(HTML, *mode, |program| {
                for _ in 0..rounds(160) {
                    let node = Node::random(&mut random, 4);
                    let value = node.build(program);
                    let rendered = maybe(program, program.call("ToString", &[&value]));
                    program.drop(value);
                    assert_eq!(rendered.is_some(), node.valid(), "{node:?}");
                    let Some(rendered) = rendered else { continue };
                    let text = text(program, &rendered);
                    assert_eq!(Node::parse(&text), Some(Node::join(&[node.clone()])), "{text}");
                    program.drop(rendered);
                }
            });
        }
    });
}

const FLAGS: &str = r#"
import Flag'Flag

Empty = \() [string] { [string] }

Prepend = \(s string, ss [string]) [string] { [string s, ...ss] }

Parse = \(ss [string]) Flag'Set | none {
  if s = Flag'Parse(ss) as Flag'Set { s } else { none }
}

Named = \(s Flag'Set, k string) string | none {
  if v = s.Named[k] { v } else { none }
}

Count = \(s Flag'Set) number { size(s.Named) }

Positional = \(s Flag'Set) [string] { s.Positional }

First = \(ss [string]) string | none {
  if [s, ..._] = ss { s() } else { none }
}

Rest = \(ss [string]) [string] {
  if [_, ...ss] = ss { ss } else { [string] }
}
"#;

/// Flags before the first positional argument or `--` are named, and the last of
/// one name counts.
#[test]
fn flags_are_told_apart() {
    stack::large(|| {
        let mut random = Random::new(33);
        for mode in MODES {
            with_program(FLAGS, *mode, |program| {
                for _ in 0..rounds(240) {
                    let arguments = (0..random.below(8))
                        .map(|_| random.pick(&["-a", "-b", "--c", "--", "x", "y", "-", "", "-é"]).to_string())
                        .collect::<Vec<_>>();
                    let mut named = BTreeMap::new();
                    let mut positional = vec![];
                    let mut rest = arguments.iter().cloned();
                    let mut fails = false;
                    while let Some(argument) = rest.next() {
                        if argument == "--" {
                            positional.extend(rest.by_ref());
                        } else if let Some(name) = argument.strip_prefix('-') {
                            match rest.next() {
                                Some(value) => drop(named.insert(name.to_string(), value)),
                                None => fails = true,
                            }
                        } else {
                            positional.push(argument);
                            positional.extend(rest.by_ref());
                        }
                    }

                    let mut list = program.call("Empty", &[]);
                    for argument in arguments.iter().rev() {
                        let argument = string(program, argument);
                        let next = program.call("Prepend", &[&argument, &list]);
                        drop_all(program, [argument, std::mem::replace(&mut list, next)]);
                    }
                    let set = maybe(program, program.call("Parse", &[&list]));
                    program.drop(list);
                    assert_eq!(set.is_none(), fails, "{arguments:?}");
                    let Some(set) = set else { continue };
                    assert_eq!(program.number("Count", &[&set]), named.len() as f64, "{arguments:?}");
                    for (name, value) in &named {
                        let name = string(program, name);
                        let found = maybe(program, program.call("Named", &[&set, &name]));
                        assert_eq!(found.as_ref().map(|value| text(program, value)).as_ref(), Some(value), "{arguments:?}");
                        drop_all(program, [name].into_iter().chain(found));
                    }
                    let found = program.elements(program.call("Positional", &[&set]), "First", "Rest");
                    let texts = found
                        .iter()
                        .map(|value| match value {
                            Value::Variant(variant) => text(program, &variant.1),
                            value => panic!("{value:?}"),
                        })
                        .collect::<Vec<_>>();
                    assert_eq!(texts, positional, "{arguments:?}");
                    drop_all(program, found.into_iter().chain([set]));
                }
            });
        }
    });
}

const NUMBERS: &str = r#"
import Core'Number
import Core'List

Empty = \() [number] { [number] }

Prepend = \(x number, xs [number]) [number] { [number x, ...xs] }

Sum = \(xs [number]) number { Number'Sum(xs) }

Range = \(x number, y number) [number] { Number'Range(x, y) }

Sequence = \(x number) [number] { Number'Sequence(x) }

Maximum = \(x number, y number) number { Number'Maximum(x, y) }

Minimum = \(x number, y number) number { Number'Minimum(x, y) }

FirstOf = \(xs [number]) number | none {
  if x = List'First([any x() for x in xs], none) as number { x } else { none }
}

LastOf = \(xs [number]) number | none {
  if x = List'Last([any x() for x in xs], none) as number { x } else { none }
}

Numbers = \(xs [number]) [number] {
  List'ToNumbers([any if x() < 10 { "" } else { x() } for x in xs])
}

Strings = \(xs [number]) [string] {
  List'ToStrings([any if x() < 10 { "" } else { x() } for x in xs])
}

Booleans = \(xs [number]) [boolean] {
  List'ToBooleans([any if x() < 10 { true } else { x() } for x in xs])
}

CountStrings = \(xs [string]) number { size(xs) }

CountBooleans = \(xs [boolean]) number { size(xs) }

First = \(xs [number]) number | none {
  if [x, ..._] = xs { x() } else { none }
}

Rest = \(xs [number]) [number] {
  if [_, ...xs] = xs { xs } else { [number] }
}
"#;

/// Operations of numbers and lists do what their names say.
#[test]
fn lists_of_numbers_are_folded() {
    stack::large(|| {
        let mut random = Random::new(34);
        for mode in MODES {
            with_program(NUMBERS, *mode, |program| {
                let numbers = |list: Value| {
                    program
                        .elements(list, "First", "Rest")
                        .into_iter()
                        .map(|value| match value {
                            Value::Variant(variant) => match variant.1 {
                                Value::Number(number) => number,
                                _ => panic!("{variant:?}"),
                            },
                            value => panic!("{value:?}"),
                        })
                        .collect::<Vec<_>>()
                };
                for _ in 0..rounds(160) {
                    let xs = (0..random.below(8)).map(|_| random.below(20) as f64).collect::<Vec<_>>();
                    let mut list = program.call("Empty", &[]);
                    for x in xs.iter().rev() {
                        let next = program.call("Prepend", &[&Value::Number(*x), &list]);
                        program.drop(std::mem::replace(&mut list, next));
                    }
                    assert_eq!(program.number("Sum", &[&list]), xs.iter().sum::<f64>(), "{xs:?}");
                    assert_eq!(program.option("FirstOf", &[&list]), xs.first().copied(), "{xs:?}");
                    assert_eq!(program.option("LastOf", &[&list]), xs.last().copied(), "{xs:?}");
                    let large = xs.iter().copied().filter(|x| *x >= 10.0).collect::<Vec<_>>();
                    assert_eq!(numbers(program.call("Numbers", &[&list])), large, "{xs:?}");
                    for (name, count) in [("Strings", "CountStrings"), ("Booleans", "CountBooleans")] {
                        let kept = program.call(name, &[&list]);
                        assert_eq!(program.number(count, &[&kept]), (xs.len() - large.len()) as f64, "{name} of {xs:?}");
                        program.drop(kept);
                    }
                    program.drop(list);

                    let sample = |random: &mut Random| match random.below(12) {
                        0 => f64::NAN,
                        1 => f64::INFINITY,
                        2 => f64::NEG_INFINITY,
                        _ => random.below(12) as f64 / 2.0 - 2.0,
                    };
                    let (x, y) = (sample(&mut random), sample(&mut random));
                    let arguments = [&Value::Number(x), &Value::Number(y)];
                    let (maximum, minimum) = (program.number("Maximum", &arguments), program.number("Minimum", &arguments));
                    if x.is_nan() || y.is_nan() {
                        assert!(maximum.is_nan() && minimum.is_nan(), "{x} {y}");
                    } else {
                        assert_eq!((maximum, minimum), (x.max(y), x.min(y)), "{x} {y}");
                        if x.is_finite() && y.is_finite() {
                            let mut range = vec![];
                            let mut next = x;
                            while next <= y {
                                range.push(next);
                                next += 1.0;
                            }
                            assert_eq!(numbers(program.call("Range", &arguments)), range, "{x} {y}");
                            let sequence = (1..=y.max(0.0) as usize).map(|x| x as f64).collect::<Vec<_>>();
                            assert_eq!(numbers(program.call("Sequence", &arguments[1..])), sequence, "{y}");
                        }
                    }
                }
            });
        }
    });
}
