//! Contract of operator priorities: an operation is split at its loosest
//! operator, the last of them where there are several.

use crate::{
    generate::OPERATORS,
    print,
    random::{rounds, Random},
};
use ast::*;

fn tree(operands: &[Expression], operators: &[BinaryOperator]) -> Expression {
    if operators.is_empty() {
        return operands[0].clone();
    }
    let rank = |operator: BinaryOperator| match operator {
        BinaryOperator::Or => 0,
        BinaryOperator::And => 1,
        BinaryOperator::Add | BinaryOperator::Subtract => 3,
        BinaryOperator::Multiply | BinaryOperator::Divide => 4,
        _ => 2,
    };
    let loosest = operators.iter().map(|&operator| rank(operator)).min().unwrap();
    let place = operators.iter().rposition(|&operator| rank(operator) == loosest).unwrap();
    BinaryOperation::new(
        operators[place],
        tree(&operands[..=place], &operators[..place]),
        tree(&operands[place + 1..], &operators[place + 1..]),
        crate::generate::at(),
    )
    .into()
}

/// The operands x0, x1, ... decorated by operators that bind more tightly.
fn operand(index: usize, decoration: usize) -> (String, Expression) {
    let name = format!("x{index}");
    let variable: Expression = Variable::new(&name, crate::generate::at()).into();
    let at = crate::generate::at;
    match decoration {
        0 => (name, variable),
        1 => (format!("!{name}"), UnaryOperation::new(UnaryOperator::Not, variable, at()).into()),
        2 => (format!("{name}?"), UnaryOperation::new(UnaryOperator::Try, variable, at()).into()),
        3 => (
            format!("!{name}?"),
            UnaryOperation::new(UnaryOperator::Not, UnaryOperation::new(UnaryOperator::Try, variable, at()), at()).into(),
        ),
        4 => (format!("{name}.y"), RecordDeconstruction::new(variable, "y", at()).into()),
        5 => (
            format!("!{name}(y).z?"),
            UnaryOperation::new(
                UnaryOperator::Not,
                UnaryOperation::new(
                    UnaryOperator::Try,
                    RecordDeconstruction::new(Call::new(variable, vec![Variable::new("y", at()).into()], at()), "z", at()),
                    at(),
                ),
                at(),
            )
            .into(),
        ),
        _ => (
            format!("({name} - y)"),
            BinaryOperation::new(BinaryOperator::Subtract, variable, Variable::new("y", at()), at()).into(),
        ),
    }
}

fn check(operators: &[BinaryOperator], decorations: &[usize]) {
    let operands = decorations.iter().enumerate().map(|(index, &decoration)| operand(index, decoration)).collect::<Vec<_>>();
    let mut text = operands[0].0.clone();
    for (operator, operand) in operators.iter().zip(&operands[1..]) {
        text += &format!(" {} {}", print::operator(*operator), operand.0);
    }
    let source = format!("f = \\() t {{\n{text}\n}}\n");
    let module = parse::parse(&source, "path").unwrap_or_else(|error| panic!("refused: {error}"));
    let trees = operands.into_iter().map(|operand| operand.1).collect::<Vec<_>>();
    assert!(
        module.function_definitions()[0].lambda().body().expression() == &tree(&trees, operators),
        "grouped otherwise: {text} as {}",
        print::meaning(&module)
    );
}

/// All chains of up to four operators.
#[test]
fn chains_of_operators_group_by_priority() {
    for length in 0..=4 {
        for mut number in 0..OPERATORS.len().pow(length) {
            let operators = (0..length)
                .map(|_| {
                    let operator = OPERATORS[number % OPERATORS.len()];
                    number /= OPERATORS.len();
                    operator
                })
                .collect::<Vec<_>>();
            check(&operators, &vec![0; operators.len() + 1]);
        }
    }
}

#[test]
fn long_chains_of_operators_group_by_priority() {
    for index in 0..rounds(3000, 200000) {
        let mut random = Random::new(20 << 32 | index as u64);
        let length = 1 + random.below(14);
        let operators = (0..length).map(|_| OPERATORS[random.below(OPERATORS.len())]).collect::<Vec<_>>();
        let decorations = (0..=length).map(|_| random.below(10)).collect::<Vec<_>>();
        check(&operators, &decorations);
    }
}
