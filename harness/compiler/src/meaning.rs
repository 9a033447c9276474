//! Compiled programs against what their sources say.

use crate::{
    foreign,
    machine::{Machine, Mode, Stop, Value},
    program::{self, Evaluator, Program, Type, V},
    random::{rounds, Random},
    source, stack,
};

const FUEL: u64 = 3_000;

/// A program that comes to an end.
struct Case {
    program: Program,
    text: String,
    value: V,
    output: Vec<u8>,
}

fn case(random: &mut Random) -> Case {
    loop {
        let program = program::generate(random);
        let mut evaluator = Evaluator::new(&program, FUEL, true);
        let Some(value) = evaluator.main() else {
            continue;
        };
        if evaluator.not_a_number {
            continue;
        }
        let output = std::mem::take(&mut evaluator.output);
        let text = program::print(&program);
        if text.len() > 20_000 {
            continue;
        }
        return Case { text, value, output, program };
    }
}

fn compile(case: &Case) -> Result<source::Modules, String> {
    source::compile(&case.text).map_err(|error| format!("a well-typed program is refused: {error:?}"))
}

/// Runs a check on random programs, and reports the shortest one that fails.
fn check(stream: u64, count: usize, check: impl Fn(&Case) -> Result<(), String>) {
    let mut random = Random::new(stream);
    let mut failures = vec![];

    for _ in 0..rounds(count) {
        let case = case(&mut random);
        if let Err(message) = check(&case) {
            failures.push((case.text, message));
        }
    }
    failures.sort_by_key(|(text, _)| text.len());
    if std::env::var("ALL_FAILURES").is_ok() {
        let mut seen = std::collections::BTreeMap::<String, usize>::new();
        for (text, message) in &failures {
            let kind = message.chars().filter(|character| !character.is_ascii_digit()).take(64).collect::<String>();
            let count = seen.entry(kind).or_default();
            *count += 1;
            if *count <= 3 {
                eprintln!("FAILURE {} {message}\n{text}", text.len());
            }
        }
        eprintln!("{seen:#?}");
    }
    println!("NATIVE-RUNS programs-of-stream-{stream} {} of {}", rounds(count), rounds(count));
    if let Some((text, message)) = failures.first() {
        panic!("{} programs fail, the shortest of which:\n{text}\n{message}", failures.len());
    }
}

/// The difference between a value of the machine and what it should be.
fn compare(machine: &Machine, case: &Case, value: &Value, type_: &Type, expected: &V) -> Result<(), String> {
    let differ = || Err(format!("{expected:?} is expected, but {value:?} is found"));

    match (type_, value, expected) {
        (Type::Union(_), Value::Variant(variant), V::Variant(expected)) => {
            let kind = match (&variant.0, &expected.0) {
                (mir::types::Type::None, Type::None)
                | (mir::types::Type::Boolean, Type::Boolean)
                | (mir::types::Type::Number, Type::Number)
                | (mir::types::Type::ByteString, Type::String) => true,
                (mir::types::Type::Record(record), Type::Record(index)) => {
                    record.name().ends_with(&format!(":r{index}"))
                }
                (mir::types::Type::Record(record), Type::List(_) | Type::Error) => !record.name().starts_with('/'),
                _ => false,
            };
            if !kind {
                return Err(format!("a variant of {:?} is expected, but {:?} is found", expected.0, variant.0));
            }
            let payload = match &expected.0 {
                Type::List(_) => machine.fields(&variant.1).map_err(|stop| format!("{stop:?}"))?[0].clone(),
                Type::Error => return Ok(()),
                _ => variant.1.clone(),
            };
            compare(machine, case, &payload, &expected.0, &expected.1)
        }
        (Type::None, Value::None, V::None) => Ok(()),
        (Type::Boolean, Value::Boolean(value), V::Boolean(expected)) if value == expected => Ok(()),
        (Type::Number, Value::Number(value), V::Number(expected)) if value.to_bits() == expected.to_bits() => Ok(()),
        (Type::String, value, V::String(expected)) if machine.bytes(value).is_ok_and(|bytes| bytes[..] == expected[..]) => {
            Ok(())
        }
        (Type::Record(index), value, V::Record(expected)) => {
            let fields = machine.fields(value).map_err(|stop| format!("{stop:?}"))?;
            for (field, type_) in case.program.records[*index].iter().enumerate() {
                compare(machine, case, &fields[field], type_, &expected[field])?;
            }
            Ok(())
        }
        (Type::List(element), value, V::List(expected)) => {
            let failed = |stop: Stop| format!("{stop:?}");
            let mut list = machine.clone_value(value).map_err(failed)?;
            let mut index = 0;
            loop {
                let deconstructed = machine.call_global("prelude:FirstRest", vec![list]).map_err(failed)?;
                let Value::Variant(variant) = &deconstructed else { return differ() };
                if matches!(variant.1, Value::None) {
                    break;
                }
                let Some(expected) = expected.get(index) else { return Err("a list is too long".into()) };
                index += 1;
                let copy = machine.clone_value(&variant.1).map_err(failed)?;
                let first = machine.call_global("prelude:First", vec![copy]).map_err(failed)?;
                let first = machine.call(first, vec![]).map_err(failed)?;
                let wanted = match element.as_ref() {
                    Type::Union(_) => expected.clone(),
                    type_ => V::Variant(std::rc::Rc::new((type_.clone(), expected.clone()))),
                };
                compare(machine, case, &first, &Type::Union(vec![]), &wanted)?;
                machine.drop_value(&first).map_err(failed)?;
                list = machine.call_global("prelude:Rest", vec![variant.1.clone()]).map_err(failed)?;
            }
            if index == expected.len() { Ok(()) } else { Err("a list is too short".into()) }
        }
        _ => differ(),
    }
}

fn run(case: &Case, modules: &source::Modules, stages: usize, mode: Mode) -> Result<(), String> {
    let modules = source::link(modules, stages)?;
    let machine = Machine::new(&modules.iter().map(|module| &**module).collect::<Vec<_>>(), &foreign::find, mode, 30_000_000)
        .map_err(|stop| format!("{stop:?}"))?;
    let value = machine.call_global("/Main.pen:Main", vec![]).map_err(|stop| match stop {
        Stop::Stuck(message) => format!("the program gets stuck: {message}"),
        Stop::Exhausted => "the program does not come to an end".into(),
    })?;
    compare(&machine, case, &value, &case.program.result, &case.value)?;
    if *machine.output.borrow() != case.output {
        return Err(format!(
            "{:?} is printed instead of {:?}",
            String::from_utf8_lossy(&machine.output.borrow()),
            String::from_utf8_lossy(&case.output)
        ));
    }
    machine.drop_value(&value).map_err(|stop| format!("{stop:?}"))?;
    if mode == Mode::Counting && !machine.leaks().is_empty() {
        return Err(format!("values are not released: {:?}", machine.leaks()));
    }
    Ok(())
}

/// Well-typed programs compile, and do what the language says.
#[test]
fn compiled_programs_do_what_their_sources_say() {
    stack::large(|| check(10, 1500, |case| run(case, &compile(case)?, 0, Mode::Lexical)));
}

/// Each stage of the compiler's back end keeps what programs do.
#[test]
fn stages_keep_what_programs_do() {
    stack::large(|| {
        check(11, 600, |case| {
            let modules = compile(case)?;
            for stages in 1..=5 {
                run(case, &modules, stages, if stages <= 3 { Mode::Lexical } else { Mode::Environments })
                    .map_err(|error| format!("after {}: {error}", source::STAGES[stages - 1]))?;
            }
            Ok(())
        })
    });
}

/// Compiled programs release each value once, after its last use.
#[test]
fn compiled_programs_release_what_they_use() {
    stack::large(|| check(12, 900, |case| run(case, &compile(case)?, 6, Mode::Counting)));
}

