//! Writes down what modules written in Pen compile to, for the verifier of their
//! contracts (`engine/penvc.py`): the compiler's own output before its back end,
//! whole.

use crate::source::{self, Modules, Package};
use mir::{
    ir::*,
    types::{self, Type},
};
use std::fmt::Write;

fn string(text: &str) -> String {
    let mut result = String::from("\"");
    for character in text.chars() {
        match character {
            '"' | '\\' => {
                result.push('\\');
                result.push(character);
            }
            character if (character as u32) < 32 => write!(result, "\\u{:04x}", character as u32).unwrap(),
            character => result.push(character),
        }
    }
    result + "\""
}

fn list(items: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", items.into_iter().collect::<Vec<_>>().join(","))
}

fn node(name: &str, items: impl IntoIterator<Item = String>) -> String {
    list(std::iter::once(string(name)).chain(items))
}

fn type_(type_: &Type) -> String {
    match type_ {
        Type::Boolean => string("boolean"),
        Type::ByteString => string("string"),
        Type::Function(type_) => function_type(type_),
        Type::None => string("none"),
        Type::Number => string("number"),
        Type::Record(record) => node("record", [string(record.name())]),
        Type::Variant => string("variant"),
    }
}

fn function_type(type_: &types::Function) -> String {
    node("function", [list(type_.arguments().iter().map(self::type_)), self::type_(type_.result())])
}

fn definition(definition: &FunctionDefinition) -> String {
    format!(
        "{{\"name\":{},\"arguments\":{},\"result\":{},\"body\":{}}}",
        string(definition.name()),
        list(definition.arguments().iter().map(|argument| list([string(argument.name()), type_(argument.type_())]))),
        type_(definition.result_type()),
        expression(definition.body()),
    )
}

fn expression(value: &Expression) -> String {
    match value {
        Expression::ArithmeticOperation(operation) => node(
            "arithmetic",
            [string(&format!("{:?}", operation.operator())), expression(operation.lhs()), expression(operation.rhs())],
        ),
        Expression::Boolean(value) => node("boolean", [value.to_string()]),
        Expression::ByteString(value) => node("string", [list(value.value().iter().map(u8::to_string))]),
        Expression::Call(call) => node(
            "call",
            [function_type(call.type_()), expression(call.function()), list(call.arguments().iter().map(expression))],
        ),
        Expression::Case(case) => node(
            "case",
            [
                expression(case.argument()),
                list(case.alternatives().iter().map(|alternative| {
                    list([
                        list(alternative.types().iter().map(type_)),
                        string(alternative.name()),
                        expression(alternative.expression()),
                    ])
                })),
                case.default_alternative().map_or("null".into(), |alternative| {
                    list([string(alternative.name()), expression(alternative.expression())])
                }),
            ],
        ),
        Expression::CloneVariables(clone) => expression(clone.expression()),
        Expression::DropVariables(drop) => expression(drop.expression()),
        Expression::ComparisonOperation(operation) => node(
            "comparison",
            [string(&format!("{:?}", operation.operator())), expression(operation.lhs()), expression(operation.rhs())],
        ),
        Expression::If(if_) => {
            node("if", [expression(if_.condition()), expression(if_.then()), expression(if_.else_())])
        }
        Expression::Let(let_) => node(
            "let",
            [string(let_.name()), type_(let_.type_()), expression(let_.bound_expression()), expression(let_.expression())],
        ),
        Expression::LetRecursive(let_) => {
            node("closure", [definition(let_.definition()), expression(let_.expression())])
        }
        Expression::Synchronize(synchronize) => expression(synchronize.expression()),
        Expression::None => node("none", []),
        Expression::Number(number) => node("number", [string(&format!("{:016x}", number.to_bits()))]),
        Expression::Record(record) => {
            node("make", [string(record.type_().name()), list(record.fields().iter().map(expression))])
        }
        Expression::RecordField(field) => {
            node("field", [string(field.type_().name()), field.index().to_string(), expression(field.record())])
        }
        Expression::RecordUpdate(update) => node(
            "update",
            [
                string(update.type_().name()),
                expression(update.record()),
                list(
                    update
                        .fields()
                        .iter()
                        .map(|field| list([field.index().to_string(), expression(field.expression())])),
                ),
            ],
        ),
        Expression::StringConcatenation(concatenation) => {
            node("concatenate", [list(concatenation.operands().iter().map(expression))])
        }
        Expression::TryOperation(operation) => node(
            "try",
            [
                expression(operation.operand()),
                string(operation.name()),
                type_(operation.type_()),
                expression(operation.then()),
            ],
        ),
        Expression::TypeInformationFunction(information) => node("information", [expression(information.variant())]),
        Expression::Variable(variable) => node("variable", [string(variable.name())]),
        Expression::Variant(variant) => node("variant", [type_(variant.type_()), expression(variant.payload())]),
    }
}

fn module(module: &Module) -> String {
    format!(
        "{{\"records\":{},\"foreign\":{},\"functions\":{},\"public\":{}}}",
        list(module.type_definitions().iter().map(|definition| {
            list([string(definition.name()), list(definition.type_().fields().iter().map(type_))])
        })),
        list(module.foreign_declarations().iter().map(|declaration| {
            list([string(declaration.name()), string(declaration.foreign_name()), function_type(declaration.type_())])
        })),
        list(module.function_definitions().iter().map(|function| definition(function.definition()))),
        list(
            module
                .function_definitions()
                .iter()
                .filter(|function| function.is_public())
                .map(|function| string(function.definition().name())),
        ),
    )
}

/// The prelude and packages' modules, each of which is a directory and a name.
pub fn modules(names: &[(&str, &str)]) -> String {
    let mut modules = Modules::new();
    for (package, name) in names {
        let components = name.split('/').map(String::from).collect::<Vec<_>>();
        source::compile_module(&Package((*package).into()), &components, &mut modules)
            .unwrap_or_else(|error| panic!("{package}/{name} is refused: {error:?}"));
    }
    list(
        source::prelude()
            .iter()
            .chain(modules.values())
            .map(|compiled| module(&source::transform(&compiled.module, 0).unwrap())),
    )
}

#[cfg(test)]
#[test]
fn modules_are_written_down() {
    crate::stack::large(|| {
        let text = modules(&[
            ("packages/core", "List"),
            ("packages/core", "Number"),
            ("packages/core", "Boolean"),
            ("packages/core", "String"),
            ("packages/core", "Bit"),
            ("packages/core", "Character"),
            ("packages/core", "String/Byte"),
            ("packages/core", "String/Byte/View"),
            ("packages/core", "String/Utf8"),
            ("packages/ffi", "any"),
            ("packages/ffi", "list"),
            ("packages/regex", "Expression"),
            ("packages/test", "Assert"),
            ("packages/test", "State"),
            ("packages/random", "Random"),
            ("packages/flag", "Flag"),
            ("packages/html", "Render"),
            ("packages/json", "Encode"),
            ("packages/json", "Decode"),
        ]);
        if let Ok(path) = std::env::var("PEN_DUMP") {
            std::fs::write(path, text).unwrap();
        }
    });
}
