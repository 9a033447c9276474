//! Random programs of the whole grammar.

use crate::random::Random;
use ast::{types::Type, *};
use position::Position;

pub fn at() -> Position {
    Position::new("", 1, 1, "")
}

const NAMES: &[&str] = &["x", "y", "foo", "_bar", "a1", "X", "Foo", "iff", "format", "type_", "ele", "imports", "in_", "as1"];
const TYPES: &[&str] = &["number", "none", "t", "Foo'Bar", "boolean", "any", "error"];
const QUALIFIED: &[&str] = &["x", "y", "foo", "Foo'bar", "Foo'Bar", "_a'b", "z9", "none"];
pub const OPERATORS: &[BinaryOperator] = &[
    BinaryOperator::Or,
    BinaryOperator::And,
    BinaryOperator::Equal,
    BinaryOperator::NotEqual,
    BinaryOperator::LessThan,
    BinaryOperator::LessThanOrEqual,
    BinaryOperator::GreaterThan,
    BinaryOperator::GreaterThanOrEqual,
    BinaryOperator::Add,
    BinaryOperator::Subtract,
    BinaryOperator::Multiply,
    BinaryOperator::Divide,
];

pub fn name(random: &mut Random) -> String {
    random.pick(NAMES).into()
}

fn times<T>(random: &mut Random, least: usize, most: usize, mut make: impl FnMut(&mut Random) -> T) -> Vec<T> {
    let count = least + random.below(most - least + 1);
    (0..count).map(|_| make(random)).collect()
}

pub fn module(random: &mut Random, size: usize) -> Module {
    Module::new(
        times(random, 0, 3, import),
        times(random, 0, 2, foreign_import),
        times(random, 0, 3, |random| type_definition(random)),
        times(random, 0, 3, |random| {
            FunctionDefinition::new(name(random), lambda(random, size), random.chance(4).then(|| ()).map(|_| ForeignExport::new(convention(random))), at())
        }),
        at(),
    )
}

fn convention(random: &mut Random) -> CallingConvention {
    if random.chance(2) {
        CallingConvention::C
    } else {
        CallingConvention::Native
    }
}

fn import(random: &mut Random) -> Import {
    let path: ModulePath = if random.chance(2) {
        ExternalModulePath::new(name(random), times(random, 1, 3, |random| random.pick(&["Foo", "Bar", "B"]).to_string())).into()
    } else {
        InternalModulePath::new(times(random, 1, 3, name)).into()
    };
    let prefix = random.chance(3).then(|| name(random));
    let names = times(random, 0, 3, |random| UnqualifiedName::new(name(random), at()));
    Import::new(path, prefix, names, at())
}

fn foreign_import(random: &mut Random) -> ForeignImport {
    ForeignImport::new(name(random), convention(random), type_(random, 2), at())
}

fn type_definition(random: &mut Random) -> TypeDefinition {
    if random.chance(2) {
        TypeAlias::new(name(random), type_(random, 3), at()).into()
    } else {
        RecordDefinition::new(
            name(random),
            times(random, 0, 3, |random| types::RecordField::new(name(random), type_(random, 2), at())),
            at(),
        )
        .into()
    }
}

pub fn type_(random: &mut Random, size: usize) -> Type {
    if size == 0 {
        return types::Reference::new(random.pick(TYPES), at()).into();
    }
    match random.below(7) {
        0 => types::Function::new(times(random, 0, 2, |random| type_(random, size - 1)), type_(random, size - 1), at()).into(),
        1 => types::List::new(type_(random, size - 1), at()).into(),
        2 => types::Map::new(type_(random, size - 1), type_(random, size - 1), at()).into(),
        3 | 4 => types::Union::new(type_(random, size - 1), type_(random, size - 1), at()).into(),
        _ => type_(random, 0),
    }
}

pub fn lambda(random: &mut Random, size: usize) -> Lambda {
    Lambda::new(
        times(random, 0, 2, |random| Argument::new(name(random), type_(random, 1), at())),
        type_(random, 2),
        block(random, size),
        at(),
    )
}

pub fn block(random: &mut Random, size: usize) -> Block {
    let statements = if size == 0 {
        vec![]
    } else {
        times(random, 0, 2, |random| Statement::new(random.chance(2).then(|| name(random)), expression(random, size - 1), at()))
    };
    Block::new(statements, expression(random, size.saturating_sub(1)), at())
}

pub fn number(random: &mut Random) -> Number {
    Number::new(
        match random.below(4) {
            0 => NumberRepresentation::Binary(random.pick(&["0", "1", "101", "0010"]).into()),
            1 => NumberRepresentation::Hexadecimal(random.pick(&["0", "fa", "1e5", "deadbeef", "0b1"]).into()),
            _ => NumberRepresentation::FloatingPoint(random.pick(&["0", "1", "42", "3.25", "-1", "-0.5", "1e3", "-2e-7", "+4", "10"]).into()),
        },
        at(),
    )
}

fn string(random: &mut Random) -> ByteString {
    ByteString::new(
        times(random, 0, 3, |random| random.pick(&["a", " ", "#", "\\\"", "\\n", "\\t", "\\r", "\\\\", "\\xfF", "あ", "'", "{", "  ", "//", "\t"]).to_string()).concat(),
        at(),
    )
}

pub fn expression(random: &mut Random, size: usize) -> Expression {
    if size == 0 {
        return match random.below(5) {
            0 => number(random).into(),
            1 => string(random).into(),
            _ => Variable::new(random.pick(QUALIFIED), at()).into(),
        };
    }
    let size = size - 1;
    match random.below(20) {
        0..=4 => BinaryOperation::new(OPERATORS[random.below(OPERATORS.len())], expression(random, size), expression(random, size), at()).into(),
        5 | 6 => Call::new(expression(random, size), times(random, 0, 3, |random| expression(random, size)), at()).into(),
        7 => If::new(times(random, 1, 2, |random| IfBranch::new(expression(random, size), block(random, size))), block(random, size), at()).into(),
        8 => IfList::new(expression(random, size), name(random), name(random), block(random, size), block(random, size), at()).into(),
        9 => IfMap::new(name(random), expression(random, size), expression(random, size), block(random, size), block(random, size), at()).into(),
        10 => IfType::new(
            name(random),
            expression(random, size),
            times(random, 1, 2, |random| IfTypeBranch::new(type_(random, 2), block(random, size))),
            random.chance(2).then(|| block(random, size)),
            at(),
        )
        .into(),
        11 => lambda(random, size).into(),
        12 => List::new(type_(random, 1), times(random, 0, 3, |random| {
            let element = expression(random, size);
            if random.chance(3) { ListElement::Multiple(element) } else { ListElement::Single(element) }
        }), at()).into(),
        13 => ListComprehension::new(type_(random, 1), expression(random, size), times(random, 1, 2, |random| {
            ListComprehensionBranch::new(
                times(random, 1, 2, name),
                times(random, 1, 2, |random| expression(random, size)),
                random.chance(2).then(|| expression(random, size)),
                at(),
            )
        }), at()).into(),
        14 => Map::new(type_(random, 1), type_(random, 1), times(random, 0, 3, |random| {
            if random.chance(3) {
                MapElement::Multiple(expression(random, size))
            } else {
                MapEntry::new(expression(random, size), expression(random, size), at()).into()
            }
        }), at()).into(),
        15 => {
            let record = random.chance(3).then(|| expression(random, size));
            let mut fields = times(random, record.is_some() as usize, 3, |random| RecordField::new(name(random), expression(random, size), at()));
            fields.sort_by(|one, other| one.name().cmp(other.name()));
            fields.dedup_by(|one, other| one.name() == other.name());
            Record::new(random.pick(QUALIFIED), record, fields, at()).into()
        }
        16 => {
            // Numbers have no fields.
            let record = match expression(random, size) {
                Expression::Number(_) => expression(random, 0),
                record => record,
            };
            match record {
                Expression::Number(_) => record,
                record => RecordDeconstruction::new(record, name(random), at()).into(),
            }
        }
        17 => UnaryOperation::new(UnaryOperator::Not, expression(random, size), at()).into(),
        18 => UnaryOperation::new(UnaryOperator::Try, expression(random, size), at()).into(),
        _ => expression(random, 0),
    }
}

/// A module of one function whose body is an expression.
pub fn function(random: &mut Random, size: usize) -> Module {
    let body = Block::new(vec![], expression(random, size), at());
    let lambda = Lambda::new(vec![], types::Reference::new("t", at()), body, at());
    Module::new(vec![], vec![], vec![], vec![FunctionDefinition::new("f", lambda, None, at())], at())
}

/// A module without functions.
pub fn declarations(random: &mut Random) -> Module {
    Module::new(times(random, 0, 3, import), times(random, 0, 2, foreign_import), times(random, 0, 3, type_definition), vec![], at())
}
