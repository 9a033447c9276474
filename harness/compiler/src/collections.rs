//! Lists and maps, which are written in Pen, against their mathematical selves.

use crate::{
    foreign,
    machine::{Machine, Mode, Value},
    random::{rounds, Random},
    source::{self},
    stack,
};
use std::collections::BTreeMap;

const MAPS: &str = r#"
type Point {
  x number
  s string
}

type Flags {
  a boolean
  b boolean
  c boolean
  d boolean
  e boolean
  f boolean
  g boolean
  h boolean
  i boolean
  j boolean
  k boolean
  l boolean
}

type K = KEY

Key = \(n number, s string) K {
  MAKE
}

booleans = \(n number, p number) [boolean] {
  if p < 1 { [boolean] } else { [boolean n >= p, ...booleans(rest(n, p), p / 2)] }
}

rest = \(n number, p number) number {
  if n >= p { n - p } else { n }
}

flags = \(n number) Flags {
  a = n >= 2048
  n = rest(n, 2048)
  b = n >= 1024
  n = rest(n, 1024)
  c = n >= 512
  n = rest(n, 512)
  d = n >= 256
  n = rest(n, 256)
  e = n >= 128
  n = rest(n, 128)
  f = n >= 64
  n = rest(n, 64)
  g = n >= 32
  n = rest(n, 32)
  h = n >= 16
  n = rest(n, 16)
  i = n >= 8
  n = rest(n, 8)
  j = n >= 4
  n = rest(n, 4)
  k = n >= 2
  n = rest(n, 2)
  l = n >= 1
  n = rest(n, 1)

  Flags{a: a, b: b, c: c, d: d, e: e, f: f, g: g, h: h, i: i, j: j, k: k, l: l}
}

nones = \(n number) [none] {
  if n == 0 { [none] } else { [none none, ...nones(n - 1)] }
}

Same = \(k K, n number, s string) boolean {
  k == Key(n, s)
}

New = \() {K: number} {
  {K: number}
}

Set = \(m {K: number}, n number, s string, v number) {K: number} {
  {K: number ...m, Key(n, s): v}
}

Delete = \(m {K: number}, n number, s string) {K: number} {
  delete(m, Key(n, s))
}

Get = \(m {K: number}, n number, s string) number | none {
  if v = m[Key(n, s)] { v } else { none }
}

Merge = \(l {K: number}, r {K: number}) {K: number} {
  {K: number ...l, ...r}
}

Size = \(m {K: number}) number {
  size(m)
}

Equal = \(l {K: number}, r {K: number}) boolean {
  l == r
}

Found = \(l {K: number}, r {K: number}) boolean {
  m = {{K: number}: none l: none}

  if _ = m[r] { true } else { false }
}

Keys = \(m {K: number}) [K] {
  keys(m)
}

Values = \(m {K: number}) [number] {
  values(m)
}

First = \(l [K]) K | none {
  if [x, ..._] = l { x() } else { none }
}

Rest = \(l [K]) [K] {
  if [_, ...l] = l { l } else { [K] }
}

FirstNumber = \(l [number]) number | none {
  if [x, ..._] = l { x() } else { none }
}

RestNumber = \(l [number]) [number] {
  if [_, ...l] = l { l } else { [number] }
}
"#;

pub struct Program<'a> {
    pub machine: Machine<'a>,
}

impl Program<'_> {
    pub fn call(&self, name: &str, arguments: &[&Value]) -> Value {
        let arguments = arguments.iter().map(|value| self.machine.clone_value(value).unwrap()).collect();

        match self.machine.call_global(&format!("/Main.pen:{name}"), arguments) {
            Ok(value) => value,
            Err(stop) => panic!("{name}: {stop:?}"),
        }
    }

    pub fn drop(&self, value: Value) {
        self.machine.drop_value(&value).unwrap();
    }

    pub fn number(&self, name: &str, arguments: &[&Value]) -> f64 {
        match self.call(name, arguments) {
            Value::Number(number) => number,
            value => panic!("{name}: {value:?}"),
        }
    }

    pub fn boolean(&self, name: &str, arguments: &[&Value]) -> bool {
        match self.call(name, arguments) {
            Value::Boolean(value) => value,
            value => panic!("{name}: {value:?}"),
        }
    }

    pub fn option(&self, name: &str, arguments: &[&Value]) -> Option<f64> {
        match self.call(name, arguments) {
            Value::Variant(variant) => match &variant.1 {
                Value::Number(number) => Some(*number),
                Value::None => None,
                value => panic!("{name}: {value:?}"),
            },
            value => panic!("{name}: {value:?}"),
        }
    }

    /// The elements of a list.
    pub fn elements(&self, list: Value, first: &str, rest: &str) -> Vec<Value> {
        let mut list = list;
        let mut elements = vec![];

        loop {
            let element = self.call(first, &[&list]);
            if let Value::Variant(variant) = &element {
                if matches!(variant.1, Value::None) {
                    self.drop(list);
                    return elements;
                }
            }
            elements.push(element);
            let next = self.call(rest, &[&list]);
            self.drop(std::mem::replace(&mut list, next));
        }
    }
}

pub fn with_program(source: &str, mode: Mode, run: impl FnOnce(&Program)) {
    let modules = source::compile(source).unwrap_or_else(|error| panic!("{error:?}"));
    let stages = if mode == Mode::Lexical { 0 } else { source::STAGES.len() };
    let modules = source::link(&modules, stages).unwrap();
    let modules = modules.iter().map(|module| &**module).collect::<Vec<_>>();
    let machine = Machine::new(&modules, &foreign::find, mode, 200_000_000).unwrap();
    let program = Program { machine };

    run(&program);
    if mode == Mode::Counting {
        assert_eq!(program.machine.leaks(), Vec::<String>::new());
    }
}

#[derive(Clone)]
struct Keys {
    type_: &'static str,
    make: &'static str,
}

const KEYS: &[Keys] = &[
    Keys { type_: "number", make: "n" },
    Keys { type_: "string", make: "s" },
    Keys { type_: "number | string | none", make: "if n == 0 { none } else { if n > 9 { n } else { s } }" },
    Keys { type_: "Point", make: "Point{x: n, s: s}" },
    Keys { type_: "[number]", make: "if n > 20 { [number n, n + 1] } else { [number n] }" },
    Keys { type_: "Point | boolean | none", make: "if n == 0 { true } else { if n == 1 { false } else { if n == 2 { none } else { Point{x: n, s: s} } } }" },
    Keys { type_: "[none]", make: "nones(n)" },
    Keys { type_: "[number] | none", make: "if n == 0 { none } else { if n == 1 { [number] } else { [number n] } }" },
    Keys { type_: "[[number]]", make: "if n == 0 { [[number]] } else { if n == 1 { [[number] [number]] } else { if n == 2 { [[number] [number], [number]] } else { [[number] [number n], [number n]] } } }" },
    Keys { type_: "[boolean]", make: "booleans(n * 6553, 131072)" },
    Keys { type_: "Flags", make: "flags(n * 102)" },
    Keys { type_: "{number: string}", make: "{number: string n: s, 1: s}" },
    Keys {
        type_: "number | string | none | boolean | [number] | Point | {number: string}",
        make: r#"if n == 0 { "" } else { if n == 1 { 0 } else { if n == 2 { none } else { if n == 3 { true } else { if n == 4 { false } else { if n == 5 { [number] } else { if n == 6 { [number 0] } else { if n == 7 { [number 0, 0] } else { if n == 8 { 1 } else { if n == 9 { "\x00" } else { if n == 10 { Point{x: 0, s: ""} } else { if n == 11 { {number: string} } else { if n == 12 { {number: string 0: ""} } else { if n == 13 { -1 } else { if n == 14 { 2 } else { if n == 15 { 3 } else { if n == 16 { 5 } else { if n == 17 { "\x00\x00\x00\x00\x00\x00\x00\x00" } else { if n == 18 { "0" } else { if n == 19 { Point{x: 1, s: ""} } else { n } } } } } } } } } } } } } } } } } } } }"#,
    },
];

fn maps(keys: &Keys, mode: Mode, same_bits: u64, range: usize, operations: usize, random: &mut Random) {
    let source = MAPS.replace("KEY", keys.type_).replace("MAKE", keys.make);
    let text = |program: &Program, key: usize| program.machine.string(format!("key {key}").into_bytes());

    with_program(&source, mode, |program| {
        foreign::set_same_bits(same_bits);

        let with_key = |name: &str, map: &Value, key: usize, rest: &[&Value]| {
            let string = text(program, key);
            let number = Value::Number(key as f64);
            let mut arguments = vec![map, &number, &string];
            arguments.extend(rest);
            let value = program.call(name, &arguments);
            program.drop(string);
            value
        };
        // The language does not say which of two spread maps has precedence.
        let first_wins = {
            let empty = program.call("New", &[]);
            let [one, other] = [1.0, 2.0].map(|value| with_key("Set", &empty, 0, &[&Value::Number(value)]));
            let merged = program.call("Merge", &[&one, &other]);
            let string = text(program, 0);
            let first_wins = program.option("Get", &[&merged, &Value::Number(0.0), &string]) == Some(1.0);
            for value in [empty, one, other, merged, string] {
                program.drop(value);
            }
            first_wins
        };
        let mut versions = vec![(program.call("New", &[]), BTreeMap::<usize, f64>::new())];
        let mut history = vec![];

        for _ in 0..operations {
            let index = if random.chance(4, 5) { versions.len() - 1 } else { random.below(versions.len()) };
            let (map, model) = &versions[index];
            let mut model = model.clone();
            let key = random.below(range);
            let map = match random.below(12) {
                0..=5 => {
                    let value = random.below(100) as f64;
                    history.push(format!("{index}: set {key}"));
                    model.insert(key, value);
                    with_key("Set", map, key, &[&Value::Number(value)])
                }
                6..=10 => {
                    let key = match model.keys().nth(random.below(model.len().max(1))) {
                        Some(found) if random.chance(3, 4) => *found,
                        _ => key,
                    };
                    history.push(format!("{index}: delete {key}"));
                    model.remove(&key);
                    with_key("Delete", map, key, &[])
                }
                _ => {
                    let other = random.below(versions.len());
                    history.push(format!("{index}: merge {other}"));
                    for (key, value) in &versions[other].1 {
                        if !(first_wins && model.contains_key(key)) {
                            model.insert(*key, *value);
                        }
                    }
                    program.call("Merge", &[map, &versions[other].0])
                }
            };
            versions.push((map, model));

            if versions.len() > 6 {
                let (map, _) = versions.remove(random.below(5));
                program.drop(map);
                history.push("forget".into());
            }
            // Each version is still what it was.
            let last = versions.len() - 1;
            for (map, model) in [&versions[last], &versions[random.below(versions.len())]] {
                let context = || format!("keys {}, same bits {same_bits:x}, {history:?}", keys.type_);
                assert_eq!(program.number("Size", &[map]), model.len() as f64, "size, {}", context());
                for _ in 0..3 {
                    let key = random.below(range);
                    let string = text(program, key);
                    let value = program.option("Get", &[map, &Value::Number(key as f64), &string]);
                    program.drop(string);
                    assert_eq!(value, model.get(&key).copied(), "get {key}, {}", context());
                }
            }
        }

        for (map, model) in &versions {
            let context = || format!("keys {}, same bits {same_bits:x}, {history:?}", keys.type_);
            for key in 0..range {
                let string = text(program, key);
                let value = program.option("Get", &[map, &Value::Number(key as f64), &string]);
                program.drop(string);
                assert_eq!(value, model.get(&key).copied(), "get {key}, {}", context());
            }
            let mut values = program
                .elements(program.call("Values", &[map]), "FirstNumber", "RestNumber")
                .iter()
                .map(|value| match value {
                    Value::Variant(variant) => match variant.1 {
                        Value::Number(number) => number,
                        _ => panic!("{value:?}"),
                    },
                    _ => panic!("{value:?}"),
                })
                .collect::<Vec<_>>();
            let mut expected = model.values().copied().collect::<Vec<_>>();
            values.sort_by(f64::total_cmp);
            expected.sort_by(f64::total_cmp);
            assert_eq!(values, expected, "values, {}", context());

            // The same map built from nothing in another order is equal.
            let mut order = model.iter().collect::<Vec<_>>();
            random.shuffle(&mut order);
            let mut rebuilt = program.call("New", &[]);
            for (key, value) in order {
                let next = with_key("Set", &rebuilt, *key, &[&Value::Number(*value)]);
                program.drop(std::mem::replace(&mut rebuilt, next));
            }
            assert!(program.boolean("Equal", &[map, &rebuilt]), "equal, {}", context());
            assert!(program.boolean("Found", &[map, &rebuilt]), "equal maps are equal keys, {}", context());
            if let Some(key) = model.keys().nth(random.below(model.len().max(1))) {
                let other = with_key("Set", &rebuilt, *key, &[&Value::Number(-1.0)]);
                assert!(!program.boolean("Equal", &[map, &other]), "another value, {}", context());
                program.drop(other);
                let other = with_key("Delete", &rebuilt, *key, &[]);
                assert!(!program.boolean("Equal", &[map, &other]), "a key less, {}", context());
                program.drop(other);
            }
            program.drop(rebuilt);
        }
        for (map, _) in versions {
            program.drop(map);
        }
        foreign::set_same_bits(0);
    });
}

#[test]
fn maps_of_numbers_are_maps() {
    stack::large(|| {
        let mut random = Random::new(1);
        for round in 0..rounds(8) {
            for same_bits in [0, 0, 0x3ff, 0x7fff, 0x3fffffff, 0xfffffffffff] {
                let mode = if round % 2 == 0 { Mode::Counting } else { Mode::Lexical };
                maps(&KEYS[0], mode, same_bits, 12, 60, &mut random);
            }
            maps(&KEYS[0], Mode::Counting, 0, 600, 600, &mut random);
        }
    });
}

#[test]
fn maps_of_other_keys_are_maps() {
    stack::large(|| {
        let mut random = Random::new(2);
        for _ in 0..rounds(6) {
            for keys in &KEYS[1..] {
                maps(keys, Mode::Counting, 0, 40, 60, &mut random);
            }
        }
    });
}
