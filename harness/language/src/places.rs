//! Contracts of positions: of trees, and of errors.

use crate::{
    generate,
    print::{self, Blanks},
    random::{rounds, Random},
};
use ast::*;
use position::Position;

/// The text at a position, after checking the line that the position quotes.
fn at<'a>(text: &'a str, position: &Position) -> &'a str {
    assert_eq!(position.path(), "path");
    let line = text.split('\n').nth(position.line_number() - 1).expect("line of a position");
    assert_eq!(position.line(), line, "quoted line of a position");
    &line[position.column_number() - 1..]
}

fn expect(text: &str, position: &Position, start: &str) {
    let found = at(text, position);
    assert!(found.starts_with(start), "position of {start:?} is at {found:?} in line {} of:\n{text}", position.line_number());
}

fn block(text: &str, block: &Block) {
    expect(text, block.position(), "{");
    for statement in block.statements() {
        if let Some(name) = statement.name() {
            expect(text, statement.position(), name);
        }
        expression(text, statement.expression());
    }
    expression(text, block.expression());
}

fn lambda(text: &str, lambda: &Lambda) {
    expect(text, lambda.position(), "\\(");
    for argument in lambda.arguments() {
        expect(text, argument.position(), argument.name());
        type_(text, argument.type_());
    }
    type_(text, lambda.result_type());
    block(text, lambda.body());
}

fn type_(text: &str, value: &types::Type) {
    match value {
        types::Type::Function(function) => {
            expect(text, function.position(), "\\(");
            function.arguments().iter().for_each(|argument| type_(text, argument));
            type_(text, function.result());
        }
        types::Type::List(list) => {
            expect(text, list.position(), "[");
            type_(text, list.element());
        }
        types::Type::Map(map) => {
            expect(text, map.position(), "{");
            type_(text, map.key());
            type_(text, map.value());
        }
        types::Type::Record(_) => {}
        types::Type::Reference(reference) => expect(text, reference.position(), reference.name()),
        types::Type::Union(union) => {
            type_(text, union.lhs());
            type_(text, union.rhs());
        }
    }
}

fn expression(text: &str, value: &Expression) {
    match value {
        Expression::BinaryOperation(operation) => {
            expect(text, operation.position(), print::operator(operation.operator()));
            expression(text, operation.lhs());
            expression(text, operation.rhs());
        }
        Expression::Call(call) => {
            expect(text, call.position(), "(");
            expression(text, call.function());
            call.arguments().iter().for_each(|argument| expression(text, argument));
        }
        Expression::If(if_) => {
            expect(text, if_.position(), "if");
            for branch in if_.branches() {
                expression(text, branch.condition());
                block(text, branch.block());
            }
            block(text, if_.else_());
        }
        Expression::IfList(if_) => {
            expect(text, if_.position(), "if");
            expression(text, if_.list());
            block(text, if_.then());
            block(text, if_.else_());
        }
        Expression::IfMap(if_) => {
            expect(text, if_.position(), "if");
            expression(text, if_.map());
            expression(text, if_.key());
            block(text, if_.then());
            block(text, if_.else_());
        }
        Expression::IfType(if_) => {
            expect(text, if_.position(), "if");
            expression(text, if_.argument());
            for branch in if_.branches() {
                type_(text, branch.type_());
                block(text, branch.block());
            }
            if_.else_().into_iter().for_each(|else_| block(text, else_));
        }
        Expression::Lambda(value) => lambda(text, value),
        Expression::List(list) => {
            expect(text, list.position(), "[");
            type_(text, list.type_());
            for element in list.elements() {
                match element {
                    ListElement::Multiple(element) | ListElement::Single(element) => expression(text, element),
                }
            }
        }
        Expression::ListComprehension(comprehension) => {
            expect(text, comprehension.position(), "[");
            expression(text, comprehension.element());
            for branch in comprehension.branches() {
                expect(text, branch.position(), "for");
                branch.iteratees().iter().for_each(|iteratee| expression(text, iteratee));
                branch.condition().into_iter().for_each(|condition| expression(text, condition));
            }
        }
        Expression::Map(map) => {
            expect(text, map.position(), "{");
            for element in map.elements() {
                match element {
                    MapElement::Multiple(element) => expression(text, element),
                    MapElement::Single(entry) => {
                        expression(text, entry.key());
                        expression(text, entry.value());
                    }
                }
            }
        }
        Expression::Number(number) => {
            let found = at(text, number.position());
            let start = match number.value() {
                NumberRepresentation::Binary(digits) => format!("0b{digits}"),
                NumberRepresentation::Hexadecimal(digits) => format!("0x{digits}"),
                NumberRepresentation::FloatingPoint(digits) => digits.clone(),
            };
            assert!(found.to_lowercase().starts_with(&start), "position of {start:?} is at {found:?} in:\n{text}");
        }
        Expression::Record(record) => {
            expect(text, record.position(), record.type_name());
            record.record().into_iter().for_each(|record| expression(text, record));
            for field in record.fields() {
                expect(text, field.position(), field.name());
                expression(text, field.expression());
            }
        }
        Expression::RecordDeconstruction(operation) => {
            expect(text, operation.position(), ".");
            expression(text, operation.expression());
        }
        Expression::String(string) => expect(text, string.position(), &format!("\"{}\"", string.value())),
        Expression::UnaryOperation(operation) => {
            expect(text, operation.position(), if operation.operator() == UnaryOperator::Not { "!" } else { "?" });
            expression(text, operation.expression());
        }
        Expression::Variable(variable) => expect(text, variable.position(), variable.name()),
    }
}

/// Everything in a tree is where its position says.
#[test]
fn positions_are_where_things_are() {
    for index in 0..rounds(3000, 120000) {
        let mut random = Random::new(30 << 32 | index as u64);
        let size = random.below(4);
        let module = generate::module(&mut random, size);
        let tokens = print::tokens(&module, &mut random);
        let (text, _) = print::spell(&tokens, Blanks::Comments, &mut random);
        let module = parse::parse(&text, "path").unwrap();
        for import in module.imports() {
            expect(&text, import.position(), "import");
            for name in import.unqualified_names() {
                expect(&text, name.position(), name.name());
            }
        }
        for import in module.foreign_imports() {
            expect(&text, import.position(), "import");
        }
        for definition in module.type_definitions() {
            expect(&text, definition.position(), "type");
            match definition {
                TypeDefinition::RecordDefinition(definition) => {
                    for field in definition.fields() {
                        expect(&text, field.position(), field.name());
                        type_(&text, field.type_());
                    }
                }
                TypeDefinition::TypeAlias(alias) => type_(&text, alias.type_()),
            }
        }
        for definition in module.function_definitions() {
            expect(&text, definition.position(), if definition.foreign_export().is_some() { "foreign" } else { definition.name() });
            lambda(&text, definition.lambda());
        }
    }
}

/// What is no program is refused, with an error that quotes a line of it and
/// points into it.
#[test]
fn broken_programs_are_refused_at_a_place() {
    let mut refused = 0;
    for index in 0..rounds(6000, 240000) {
        let mut random = Random::new(31 << 32 | index as u64);
        let size = random.below(3);
        let module = generate::module(&mut random, size);
        let tokens = print::tokens(&module, &mut random);
        let (text, _) = print::spell(&tokens, if random.chance(2) { Blanks::Comments } else { Blanks::Space }, &mut random);
        let mut text = text.chars().collect::<Vec<_>>();
        for _ in 0..1 + random.below(3) {
            let place = random.below(text.len() + 1);
            match random.below(4) {
                0 if place < text.len() => {
                    text.remove(place);
                }
                1 => text.truncate(place),
                2 if place < text.len() => {
                    let other = text[random.below(text.len())];
                    text[place] = other;
                }
                _ => {
                    let character = random.pick(&["\"", "(", "}", "#", "あ", "\\", "=", "\0", "0", "'", "\n", "."]).chars().next().unwrap();
                    text.insert(place, character);
                }
            }
        }
        let text = text.into_iter().collect::<String>();
        let _ = parse::parse_comments(&text, "path").map_err(|error| quotes(&text, &error.to_string()));
        match parse::parse(&text, "path") {
            Ok(module) => {
                let comments = parse::parse_comments(&text, "path").unwrap_or_default();
                format::format(&module, &comments);
            }
            Err(error) => {
                quotes(&text, &error.to_string());
                refused += 1;
            }
        }
    }
    assert!(refused > 100);
}

/// An error report is a message, the path, the line and a mark below.
fn quotes(text: &str, report: &str) {
    let lines = report.split('\n').collect::<Vec<_>>();
    assert_eq!(lines.len(), 4, "{report}");
    assert_eq!(lines[1], "path");
    let (place, quoted) = lines[2].split_once('\t').unwrap();
    let numbers = place.split(':').collect::<Vec<_>>();
    let line_number = numbers[0].parse::<usize>().unwrap();
    let column_number = numbers[1].parse::<usize>().unwrap();
    let line = text.split('\n').nth(line_number - 1).unwrap_or_else(|| panic!("no line {line_number} in:\n{text}"));
    assert_eq!(quoted, line);
    assert!(column_number >= 1 && column_number - 1 <= line.len(), "{report}");
    assert_eq!(lines[3], format!("{}\t{}^", " ".repeat(place.len()), " ".repeat(column_number - 1)));
}

/// The part of a program before an error has no error of its own: what follows
/// a program is refused where it starts.
#[test]
fn errors_point_at_what_is_wrong() {
    for index in 0..rounds(1500, 60000) {
        let mut random = Random::new(32 << 32 | index as u64);
        let module = generate::declarations(&mut random);
        let tokens = print::tokens(&module, &mut random);
        let (mut text, _) = print::spell(&tokens, Blanks::Space, &mut random);
        text.push('\n');
        let line_number = text.split('\n').count();
        let column_number = 1 + random.below(4);
        text += &" ".repeat(column_number - 1);
        text += "%";
        let error = parse::parse(&text, "path").unwrap_err().to_string();
        quotes(&text, &error);
        let place = error.split('\n').nth(2).unwrap().split('\t').next().unwrap().to_string();
        let line = place.split(':').next().unwrap().parse::<usize>().unwrap();
        assert!(line <= line_number, "{error}");
    }
}

/// Messages are printed at the position that they are about.
#[test]
fn messages_are_printed_under_their_places() {
    for index in 0..rounds(2000, 80000) {
        let mut random = Random::new(33 << 32 | index as u64);
        let line = (0..random.below(12)).map(|_| random.pick(&["x", " ", "(", "é", "\""])).collect::<String>();
        let line_number = 1 + random.next() as usize % 10usize.pow(random.below(7) as u32);
        let column_number = 1 + random.below(200);
        let position = Position::new("a/b.pen", line_number, column_number, line.clone());
        let place = format!("{line_number}:{column_number}:");
        let margin = format!("{}\t{}", " ".repeat(place.len()), " ".repeat(column_number - 1));
        let expected = format!("a/b.pen\n{place}\t{line}\n{margin}^");
        assert_eq!(position.to_string(), expected);
        assert_eq!(position::format(&position), expected);
        assert_eq!(position::format_message(&position, "message"), format!("{expected}\n{margin}message"));
    }
}
