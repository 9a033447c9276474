//! Prints programs by the grammar of the language, apart from the formatter.
//!
//! A printed program is a list of tokens with random blanks between them.

use crate::random::Random;
use ast::{types::Type, *};

#[derive(Clone, Debug)]
pub struct Token {
    text: String,
    /// No blank may come before.
    glued: bool,
}

#[derive(Clone, Copy, Debug, Eq, PartialEq)]
pub enum Style {
    /// One space between tokens, parentheses around everything, order of
    /// imports and grouping of unions left out.
    Meaning,
    /// Random blanks, comments, separators at ends of lists and parentheses.
    Free,
}

pub struct Printer<'a> {
    tokens: Vec<Token>,
    random: Option<&'a mut Random>,
}

/// The priorities of the language's documentation, from the loosest.
fn priority(operator: BinaryOperator) -> usize {
    match operator {
        BinaryOperator::Or => 1,
        BinaryOperator::And => 2,
        BinaryOperator::Equal
        | BinaryOperator::NotEqual
        | BinaryOperator::LessThan
        | BinaryOperator::LessThanOrEqual
        | BinaryOperator::GreaterThan
        | BinaryOperator::GreaterThanOrEqual => 3,
        BinaryOperator::Add | BinaryOperator::Subtract => 4,
        BinaryOperator::Multiply | BinaryOperator::Divide => 5,
    }
}

const PREFIX: usize = 6;
const SUFFIX: usize = 7;

pub fn operator(operator: BinaryOperator) -> &'static str {
    match operator {
        BinaryOperator::Or => "|",
        BinaryOperator::And => "&",
        BinaryOperator::Equal => "==",
        BinaryOperator::NotEqual => "!=",
        BinaryOperator::LessThan => "<",
        BinaryOperator::LessThanOrEqual => "<=",
        BinaryOperator::GreaterThan => ">",
        BinaryOperator::GreaterThanOrEqual => ">=",
        BinaryOperator::Add => "+",
        BinaryOperator::Subtract => "-",
        BinaryOperator::Multiply => "*",
        BinaryOperator::Divide => "/",
    }
}

/// What a program means to the compiler, as text.
pub fn meaning(module: &Module) -> String {
    let mut printer = Printer { tokens: vec![], random: None };
    printer.module(module);
    printer.tokens.iter().map(|token| token.text.as_str()).collect::<Vec<_>>().join(" ")
}

pub fn tokens(module: &Module, random: &mut Random) -> Vec<Token> {
    let mut printer = Printer { tokens: vec![], random: Some(random) };
    printer.module(module);
    printer.tokens
}

#[derive(Clone, Copy, Debug, Eq, PartialEq)]
pub enum Blanks {
    /// Spaces and line ends.
    Space,
    /// Also comments, anywhere.
    Comments,
    /// Single spaces.
    Single,
}

/// Text of tokens, and the comments in it.
pub fn spell(tokens: &[Token], blanks: Blanks, random: &mut Random) -> (String, Vec<String>) {
    let mut text = String::new();
    let mut comments = vec![];
    for (index, token) in tokens.iter().enumerate() {
        if !token.glued && index > 0 {
            let last = text.chars().last().unwrap_or(' ');
            let next = token.text.chars().next().unwrap();
            let free = ",([{".contains(last) || ",)]}".contains(next);
            if blanks == Blanks::Single {
                text.push(' ');
            } else if !(free && random.chance(2)) {
                blank(&mut text, &mut comments, blanks, random);
            }
        }
        text.push_str(&token.text);
    }
    if blanks != Blanks::Single && random.chance(2) {
        blank(&mut text, &mut comments, blanks, random);
    }
    (text, comments)
}

fn blank(text: &mut String, comments: &mut Vec<String>, blanks: Blanks, random: &mut Random) {
    loop {
        match random.below(if blanks == Blanks::Comments { 14 } else { 12 }) {
            0..=7 => text.push(' '),
            8..=9 => text.push('\n'),
            10 => text.push_str("\r\n"),
            11 => text.push('\t'),
            _ => {
                let comment = random.pick(&["", " foo", "bar", " \"x", " a # b", "#", "  \\(x) 'あ", " x  "]);
                text.push('#');
                text.push_str(comment);
                text.push('\n');
                comments.push(comment.trim_end().into());
            }
        }
        if !random.chance(4) {
            return;
        }
    }
}

impl Printer<'_> {
    fn push(&mut self, text: impl Into<String>) {
        self.tokens.push(Token { text: text.into(), glued: false });
    }

    fn glue(&mut self, text: impl Into<String>) {
        self.tokens.push(Token { text: text.into(), glued: true });
    }

    fn all(&mut self, texts: &[&str]) {
        for &text in texts {
            self.push(text);
        }
    }

    fn chance(&mut self, one_in: usize) -> bool {
        self.random.as_mut().map(|random| random.chance(one_in)).unwrap_or(false)
    }

    fn separated<T>(&mut self, values: &[T], mut print: impl FnMut(&mut Self, &T)) {
        for (index, value) in values.iter().enumerate() {
            if index > 0 {
                self.push(",");
            }
            print(self, value);
        }
        if !values.is_empty() && self.chance(3) {
            self.push(",");
        }
    }

    fn convention(&mut self, convention: CallingConvention) {
        if convention == CallingConvention::C {
            self.push("\"c\"");
        }
    }

    pub fn module(&mut self, module: &Module) {
        let mut imports = module.imports().iter().collect::<Vec<_>>();
        if self.random.is_none() {
            imports.sort_by_key(|import| format!("{:?}", import.module_path()));
        }
        for import in imports {
            self.push("import");
            self.module_path(import.module_path());
            if let Some(prefix) = import.prefix() {
                self.all(&["as", prefix]);
            }
            let mut names = import.unqualified_names().iter().map(|name| name.name()).collect::<Vec<_>>();
            if self.random.is_none() {
                names.sort();
            }
            if !names.is_empty() {
                self.push("{");
                self.separated(&names, |printer, &name| printer.push(name));
                self.push("}");
            }
        }
        for import in module.foreign_imports() {
            self.all(&["import", "foreign"]);
            self.convention(import.calling_convention());
            self.push(import.name());
            self.type_(import.type_());
        }
        for definition in module.type_definitions() {
            self.push("type");
            match definition {
                TypeDefinition::RecordDefinition(definition) => {
                    self.all(&[definition.name(), "{"]);
                    for field in definition.fields() {
                        self.push(field.name());
                        self.type_(field.type_());
                    }
                    self.push("}");
                }
                TypeDefinition::TypeAlias(alias) => {
                    self.all(&[alias.name(), "="]);
                    self.type_(alias.type_());
                }
            }
        }
        for definition in module.function_definitions() {
            if let Some(export) = definition.foreign_export() {
                self.push("foreign");
                self.convention(export.calling_convention());
            }
            self.all(&[definition.name(), "="]);
            self.lambda(definition.lambda());
        }
    }

    fn module_path(&mut self, path: &ModulePath) {
        match path {
            ModulePath::External(path) => {
                let text = [path.package()].into_iter().chain(path.components().iter().map(|component| component.as_str())).collect::<Vec<_>>().join("'");
                self.push(text);
            }
            ModulePath::Internal(path) => {
                let text = path.components().iter().map(|component| format!("'{component}")).collect::<String>();
                self.push(text);
            }
        }
    }

    pub fn type_(&mut self, type_: &Type) {
        if self.chance(10) {
            self.push("(");
            self.type_(type_);
            self.push(")");
            return;
        }
        match type_ {
            Type::Function(function) => {
                self.push("\\(");
                self.separated(function.arguments(), |printer, argument| printer.type_(argument));
                self.push(")");
                self.type_(function.result());
            }
            Type::Union(union) => {
                if self.random.is_none() {
                    let mut members = vec![];
                    flatten(type_, &mut members);
                    for (index, member) in members.iter().enumerate() {
                        if index > 0 {
                            self.push("|");
                        }
                        self.atomic_type(member);
                    }
                } else {
                    if matches!(union.lhs(), Type::Union(_)) && !self.chance(8) {
                        self.type_without_parentheses(union.lhs());
                    } else {
                        self.atomic_type(union.lhs());
                    }
                    self.push("|");
                    self.atomic_type(union.rhs());
                }
            }
            _ => self.atomic_type(type_),
        }
    }

    fn type_without_parentheses(&mut self, type_: &Type) {
        if let Type::Union(union) = type_ {
            if matches!(union.lhs(), Type::Union(_)) {
                self.type_without_parentheses(union.lhs());
            } else {
                self.atomic_type(union.lhs());
            }
            self.push("|");
            self.atomic_type(union.rhs());
        }
    }

    fn atomic_type(&mut self, type_: &Type) {
        match type_ {
            Type::List(list) => {
                self.push("[");
                self.type_(list.element());
                self.push("]");
            }
            Type::Map(map) => {
                self.push("{");
                self.type_(map.key());
                self.push(":");
                self.type_(map.value());
                self.push("}");
            }
            Type::Reference(reference) => self.push(reference.name()),
            Type::Record(record) => self.push(record.name()),
            Type::Function(_) | Type::Union(_) => {
                self.push("(");
                self.type_(type_);
                self.push(")");
            }
        }
    }

    fn lambda(&mut self, lambda: &Lambda) {
        self.push("\\(");
        self.separated(lambda.arguments(), |printer, argument| {
            printer.push(argument.name());
            printer.type_(argument.type_());
        });
        self.push(")");
        self.type_(lambda.result_type());
        self.block(lambda.body());
    }

    fn block(&mut self, block: &Block) {
        self.push("{");
        for statement in block.statements() {
            if let Some(name) = statement.name() {
                self.all(&[name, "="]);
                self.expression(statement.expression(), 0);
            } else {
                self.guarded(statement.expression(), &["-", "+", "{"]);
            }
        }
        self.guarded(block.expression(), &["-", "+", "{"]);
        self.push("}");
    }

    /// An expression in a place where some first characters mean something else.
    fn guarded(&mut self, expression: &Expression, excluded: &[&str]) {
        let start = self.tokens.len();
        self.expression(expression, 0);
        let first = self.tokens[start].text.clone();
        if excluded.iter().any(|prefix| first.starts_with(prefix)) {
            self.tokens.insert(start, Token { text: "(".into(), glued: false });
            self.push(")");
        }
    }

    /// Prints an expression that binds at least as tightly as a level.
    pub fn expression(&mut self, expression: &Expression, level: usize) {
        let own = match expression {
            Expression::BinaryOperation(operation) => priority(operation.operator()),
            Expression::UnaryOperation(operation) => match operation.operator() {
                UnaryOperator::Not => PREFIX,
                UnaryOperator::Try => SUFFIX,
            },
            _ => SUFFIX,
        };
        if own < level || self.random.is_none() || self.chance(12) {
            self.push("(");
            self.bare(expression);
            self.push(")");
        } else {
            self.bare(expression);
        }
    }

    fn bare(&mut self, expression: &Expression) {
        match expression {
            Expression::BinaryOperation(operation) => {
                let level = priority(operation.operator());
                self.expression(operation.lhs(), level);
                self.push(operator(operation.operator()));
                self.expression(operation.rhs(), level + 1);
            }
            Expression::Call(call) => {
                self.expression(call.function(), SUFFIX);
                self.glue("(");
                self.separated(call.arguments(), |printer, argument| printer.expression(argument, 0));
                self.push(")");
            }
            Expression::If(if_) => {
                for branch in if_.branches() {
                    self.push("if");
                    self.guarded(branch.condition(), &["["]);
                    self.block(branch.block());
                    self.push("else");
                }
                self.block(if_.else_());
            }
            Expression::IfList(if_) => {
                self.all(&["if", "[", if_.first_name(), ",", "...", if_.rest_name(), "]", "="]);
                self.expression(if_.list(), 0);
                self.block(if_.then());
                self.push("else");
                self.block(if_.else_());
            }
            Expression::IfMap(if_) => {
                self.all(&["if", if_.name(), "="]);
                self.expression(if_.map(), 0);
                self.push("[");
                self.expression(if_.key(), 0);
                self.push("]");
                self.block(if_.then());
                self.push("else");
                self.block(if_.else_());
            }
            Expression::IfType(if_) => {
                self.all(&["if", if_.name(), "="]);
                self.expression(if_.argument(), 0);
                self.push("as");
                for (index, branch) in if_.branches().iter().enumerate() {
                    if index > 0 {
                        self.all(&["else", "if"]);
                    }
                    self.type_(branch.type_());
                    self.block(branch.block());
                }
                if let Some(block) = if_.else_() {
                    self.push("else");
                    self.block(block);
                }
            }
            Expression::Lambda(lambda) => self.lambda(lambda),
            Expression::List(list) => {
                self.push("[");
                self.type_(list.type_());
                self.separated(list.elements(), |printer, element| match element {
                    ListElement::Multiple(expression) => {
                        printer.push("...");
                        printer.expression(expression, 0);
                    }
                    ListElement::Single(expression) => printer.expression(expression, 0),
                });
                self.push("]");
            }
            Expression::ListComprehension(comprehension) => {
                self.push("[");
                self.type_(comprehension.type_());
                self.expression(comprehension.element(), 0);
                for branch in comprehension.branches() {
                    self.push("for");
                    self.separated(branch.names(), |printer, name| printer.push(name));
                    self.push("in");
                    for (index, iteratee) in branch.iteratees().iter().enumerate() {
                        if index > 0 {
                            self.push(",");
                        }
                        self.expression(iteratee, 0);
                    }
                    if let Some(condition) = branch.condition() {
                        self.push("if");
                        self.expression(condition, 0);
                    }
                }
                self.push("]");
            }
            Expression::Map(map) => {
                self.push("{");
                self.type_(map.key_type());
                self.push(":");
                self.type_(map.value_type());
                self.separated(map.elements(), |printer, element| match element {
                    MapElement::Multiple(expression) => {
                        printer.push("...");
                        printer.expression(expression, 0);
                    }
                    MapElement::Single(entry) => {
                        printer.expression(entry.key(), 0);
                        printer.push(":");
                        printer.expression(entry.value(), 0);
                    }
                });
                self.push("}");
            }
            Expression::Number(number) => match number.value() {
                NumberRepresentation::Binary(digits) => self.push(format!("0b{digits}")),
                NumberRepresentation::Hexadecimal(digits) => {
                    let digits = if self.chance(2) { digits.to_uppercase() } else { digits.clone() };
                    self.push(format!("0x{digits}"))
                }
                NumberRepresentation::FloatingPoint(digits) => self.push(digits.clone()),
            },
            Expression::Record(record) => {
                self.all(&[record.type_name(), "{"]);
                if let Some(old) = record.record() {
                    self.push("...");
                    self.expression(old, 0);
                    self.push(",");
                }
                self.separated(record.fields(), |printer, field| {
                    printer.all(&[field.name(), ":"]);
                    printer.expression(field.expression(), 0);
                });
                self.push("}");
            }
            Expression::RecordDeconstruction(operation) => {
                if matches!(operation.expression(), Expression::Number(_)) {
                    self.push("(");
                    self.bare(operation.expression());
                    self.push(")");
                } else {
                    self.expression(operation.expression(), SUFFIX);
                }
                self.all(&[".", operation.name()]);
            }
            Expression::String(string) => self.push(format!("\"{}\"", string.value())),
            Expression::UnaryOperation(operation) => match operation.operator() {
                UnaryOperator::Not => {
                    self.push("!");
                    self.expression(operation.expression(), PREFIX);
                }
                UnaryOperator::Try => {
                    self.expression(operation.expression(), SUFFIX);
                    self.push("?");
                }
            },
            Expression::Variable(variable) => self.push(variable.name()),
        }
    }
}

fn flatten<'a>(type_: &'a Type, members: &mut Vec<&'a Type>) {
    match type_ {
        Type::Union(union) => {
            flatten(union.lhs(), members);
            flatten(union.rhs(), members);
        }
        _ => members.push(type_),
    }
}
