//! The repository's own Pen tests, run on the machine.

use crate::{
    foreign,
    machine::{Machine, Mode, Stop},
    source::{self, Package},
    stack,
};

/// Functions that this crate has no contract of.
const ABSENT: &[&str] = &["_pen_core_parse_number"];

/// The tests of a module, each of which passes and releases what it used.
fn passes(package: &str, module: &str) {
    let components = module.split('/').map(String::from).collect::<Vec<_>>();
    let mut modules = source::Modules::new();
    let (test, information) = source::compile_test(&Package(package.into()), &components, &mut modules)
        .unwrap_or_else(|error| panic!("{package}/{module} is refused: {error:?}"));
    let mut passed = 0;

    for (mode, stages) in [(Mode::Lexical, 0), (Mode::Environments, 5), (Mode::Counting, 6)] {
        let mut linked = source::link(&modules, stages).unwrap();
        linked.push(source::transform(&test, stages).unwrap().into());
        let linked = linked.iter().map(|module| &**module).collect::<Vec<_>>();

        for function in information.functions() {
            let place = format!("{} of {package}/{module} after {stages} stages", function.name());
            let machine = Machine::new(&linked, &foreign::find, mode, 30_000_000).unwrap();
            match machine.call_foreign(function.foreign_name(), vec![]) {
                Ok(value) => {
                    let message = String::from_utf8_lossy(&machine.bytes(&value).unwrap()).into_owned();
                    assert_eq!(message, "", "{place} fails");
                    machine.drop_value(&value).unwrap();
                    if mode == Mode::Counting {
                        assert_eq!(machine.leaks(), Vec::<String>::new(), "{place} does not release");
                    }
                    passed += 1;
                }
                Err(Stop::Stuck(message)) if ABSENT.iter().any(|name| message.contains(name)) => {}
                Err(stop) => panic!("{place}: {stop:?}"),
            }
        }
    }
    assert!(passed > 0, "{package}/{module} has no tests");
}

#[test]
fn tests_of_the_language_pass() {
    stack::large(|| {
        for name in ["list", "map", "function", "record", "union", "string"] {
            passes("test/prelude", &format!("{name}.test"));
        }
        passes("test/reflect", "any.test");
    });
}

#[test]
fn tests_of_packages_pass() {
    stack::large(|| {
        passes("packages/test", "Assert.test");
        for name in ["Boolean", "Character", "Number", "String", "String/Byte", "String/Byte/View"] {
            passes("packages/core", &format!("{name}.test"));
        }
        passes("packages/json", "Decode.test");
        passes("packages/json", "Encode.test");
        passes("packages/html", "Render.test");
        passes("packages/html", "validate.test");
        passes("packages/flag", "Flag.test");
    });
}
