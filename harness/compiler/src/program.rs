//! Random well-typed programs, their source texts and what they mean.
//!
//! A program is generated as a tree that says each conversion between types, which
//! sources leave to the compiler. What a tree means is defined by the evaluator
//! below, after the language reference in `doc/`.

use crate::random::Random;
use std::{cell::RefCell, fmt::Write, rc::Rc};

#[derive(Clone, Debug, Eq, Ord, PartialEq, PartialOrd)]
pub enum Type {
    None,
    Boolean,
    Number,
    String,
    Error,
    Record(usize),
    List(Box<Type>),
    Map(Box<Type>, Box<Type>),
    Function(Vec<Type>, Box<Type>),
    /// Two members or more, which are sorted and none of which is a union.
    Union(Vec<Type>),
    Any,
}

pub fn union(members: impl IntoIterator<Item = Type>) -> Type {
    let mut all = vec![];
    for member in members {
        match member {
            Type::Union(members) => all.extend(members),
            member => all.push(member),
        }
    }
    all.sort();
    all.dedup();
    match all.len() {
        1 => all.remove(0),
        _ => Type::Union(all),
    }
}

impl Type {
    pub fn members(&self) -> Vec<Type> {
        match self {
            Self::Union(members) => members.clone(),
            type_ => vec![type_.clone()],
        }
    }

    fn variant(&self) -> bool {
        matches!(self, Self::Union(_) | Self::Any)
    }
}

type B = Box<E>;

#[derive(Clone, Debug)]
pub enum E {
    Number(f64),
    String(Vec<u8>),
    Boolean(bool),
    None,
    Variable(String),
    Arithmetic(char, B, B),
    Compare(&'static str, B, B),
    Equal(bool, B, B),
    Concatenate(B, B),
    Not(B),
    And(B, B),
    Or(B, B),
    If(B, Block, Block),
    Call(B, Vec<E>),
    Lambda(Rc<Lambda>),
    Record(usize, Vec<(usize, E)>),
    Update(usize, B, Vec<(usize, E)>),
    Field(usize, B),
    /// Elements, some of which are lists to spread.
    List(Type, Vec<(bool, E)>),
    Comprehension(Type, B, Vec<Clause>),
    IfList(String, String, B, Block, Block),
    IfMap(String, B, B, Block, Block),
    /// The flag says whether only one type is left for the last block.
    IfType(String, B, Vec<(Type, Block)>, Option<(bool, Block)>),
    Map(Type, Type, Vec<Entry>),
    Size(B),
    Delete(B, B),
    Error(B),
    Source(B),
    /// The flag says whether one type is left beside the error.
    Try(bool, B),
    Coerce(Type, Type, B),
    Go(B),
    Debug(B),
}

#[derive(Clone, Debug)]
pub struct Block {
    pub statements: Vec<(Option<String>, E)>,
    pub result: B,
}

#[derive(Debug)]
pub struct Lambda {
    pub arguments: Vec<(String, Type)>,
    pub result: Type,
    pub body: Block,
}

#[derive(Clone, Debug)]
pub struct Clause {
    pub names: Vec<String>,
    pub lists: Vec<E>,
    pub condition: Option<E>,
}

#[derive(Clone, Debug)]
pub enum Entry {
    Single(E, E),
    Spread(E),
}

#[derive(Debug)]
pub struct Program {
    /// Types of each record's fields.
    pub records: Vec<Vec<Type>>,
    pub aliases: Vec<Type>,
    pub functions: Vec<Rc<Lambda>>,
    /// The result of the last function, which takes no argument.
    pub result: Type,
}

// Generation

struct Signature {
    arguments: Vec<Type>,
    result: Type,
    pure_: bool,
}

struct Generator<'a> {
    random: &'a mut Random,
    records: Vec<Vec<Type>>,
    signatures: Vec<Signature>,
    names: usize,
    /// How many more expressions the program may have before they are made short.
    budget: usize,
    /// Variables that the expressions being made ask for, and how many more they may ask for.
    demands: Vec<(usize, Vec<(String, Type)>)>,
}

#[derive(Clone)]
struct Scope {
    variables: Vec<(String, Type)>,
    /// The result type of the function around, if it may be left.
    exit: Option<Type>,
    pure_: bool,
    /// Functions before this one may be called.
    callable: usize,
    /// The current function, if it may be called with one less.
    current: Option<usize>,
}

pub fn generate(random: &mut Random) -> Program {
    let mut generator = Generator { random, records: vec![], signatures: vec![], names: 0, budget: 0, demands: vec![] };

    let size = [8, 20, 60, 150][generator.random.below(4)];
    for index in 0..generator.random.below(4).min(size / 8) {
        let mut fields = (0..generator.random.below(4)).map(|_| generator.type_(2)).collect::<Vec<_>>();
        if generator.random.chance(1, 3) {
            fields.push(union([Type::None, Type::Record(index)]));
        }
        if !fields.is_empty() && generator.random.chance(1, 3) {
            let field = generator.random.below(fields.len());
            fields.push(fields[field].clone());
        }
        generator.records.push(fields);
    }
    let mut functions = vec![];
    let mut aliases = (0..generator.random.below(4)).map(|_| generator.type_(2)).collect::<Vec<_>>();
    aliases.sort();
    aliases.dedup();

    for index in 0..generator.random.below(4).min(size / 8) {
        let arguments = std::iter::once(Type::Number)
            .chain((0..generator.random.below(3)).map(|_| generator.type_(2)))
            .collect::<Vec<_>>();
        let result = generator.result_type();
        let pure_ = generator.random.chance(1, 2);
        generator.signatures.push(Signature { arguments, result, pure_ });
        generator.budget = size / 2;
        functions.push(generator.function(index));
    }
    let result = generator.observable(2);
    generator.signatures.push(Signature { arguments: vec![], result: result.clone(), pure_: false });
    let index = functions.len();
    let exit = generator.exit(&result);
    let scope = Scope { variables: vec![], exit, pure_: false, callable: index, current: None };
    generator.budget = size;
    let body = generator.block(&result, 5, &scope);
    functions.push(Rc::new(Lambda { arguments: vec![], result: result.clone(), body }));

    let records = std::mem::take(&mut generator.records);
    Program { records, aliases, functions, result }
}

impl Generator<'_> {
    fn name(&mut self) -> String {
        self.names += 1;
        // Names hide others at times.
        if self.random.chance(1, 8) {
            format!("x{}", self.random.below(self.names))
        } else if self.random.chance(1, 8) {
            // ... and those of functions, too.
            format!("g{}", self.random.below(self.signatures.len()))
        } else {
            format!("x{}", self.names)
        }
    }

    fn exit(&self, result: &Type) -> Option<Type> {
        (matches!(result, Type::Union(members) if members.contains(&Type::Error))).then(|| result.clone())
    }

    fn scalar(&mut self) -> Type {
        match self.random.below(4) {
            0 => Type::None,
            1 => Type::Boolean,
            2 => Type::String,
            _ => Type::Number,
        }
    }

    fn type_(&mut self, depth: usize) -> Type {
        if depth == 0 {
            return self.scalar();
        }
        match self.random.below(14) {
            0 | 1 if !self.records.is_empty() => Type::Record(self.random.below(self.records.len())),
            2 | 3 => Type::List(self.type_(depth - 1).into()),
            4 => Type::Map(self.key(depth - 1).into(), self.type_(depth - 1).into()),
            5 | 6 => Type::Function(
                (0..self.random.below(3)).map(|_| self.type_(depth - 1)).collect(),
                self.type_(depth - 1).into(),
            ),
            7..=9 => self.union(depth),
            10 => Type::Any,
            11 => Type::Error,
            _ => self.scalar(),
        }
    }

    fn union(&mut self, depth: usize) -> Type {
        let members = (0..2 + self.random.below(3))
            .map(|_| self.type_(depth - 1))
            .filter(|type_| type_ != &Type::Any)
            .collect::<Vec<_>>();
        if members.is_empty() { Type::Number } else { union(members) }
    }

    fn result_type(&mut self) -> Type {
        let type_ = self.type_(2);
        if type_ != Type::Any && self.random.chance(1, 3) { union([type_, Type::Error]) } else { type_ }
    }

    fn key(&mut self, depth: usize) -> Type {
        for _ in 0..10 {
            let type_ = self.type_(depth);
            if self.comparable(&type_) {
                return type_;
            }
        }
        Type::Number
    }

    /// A type whose values this harness can look into.
    fn observable(&mut self, depth: usize) -> Type {
        for _ in 0..50 {
            let type_ = self.result_type_of(depth);
            if self.shown(&type_, &mut vec![]) {
                return type_;
            }
        }
        Type::Number
    }

    fn result_type_of(&mut self, depth: usize) -> Type {
        if self.random.chance(1, 4) { self.result_type() } else { self.type_(depth) }
    }

    fn shown(&self, type_: &Type, seen: &mut Vec<usize>) -> bool {
        match type_ {
            Type::Any | Type::Function(..) | Type::Map(..) => false,
            Type::Error => false,
            Type::List(element) => self.shown(element, seen),
            Type::Union(members) => members.iter().all(|type_| type_ == &Type::Error || self.shown(type_, seen)),
            Type::Record(index) => {
                if seen.contains(index) {
                    return true;
                }
                seen.push(*index);
                self.records[*index].iter().all(|type_| self.shown(type_, seen))
            }
            _ => true,
        }
    }

    fn comparable(&self, type_: &Type) -> bool {
        self.comparable_in(type_, &mut vec![])
    }

    fn comparable_in(&self, type_: &Type, seen: &mut Vec<usize>) -> bool {
        match type_ {
            Type::Any | Type::Function(..) | Type::Error => false,
            Type::List(element) => self.comparable_in(element, seen),
            Type::Map(key, value) => self.comparable_in(key, seen) && self.comparable_in(value, seen),
            Type::Union(members) => members.iter().all(|type_| self.comparable_in(type_, seen)),
            Type::Record(index) => {
                if seen.contains(index) {
                    return true;
                }
                seen.push(*index);
                self.records.get(*index).is_some_and(|fields| fields.iter().all(|type_| self.comparable_in(type_, seen)))
            }
            _ => true,
        }
    }

    fn function(&mut self, index: usize) -> Rc<Lambda> {
        let types = self.signatures[index].arguments.clone();
        let result = self.signatures[index].result.clone();
        let mut arguments: Vec<(String, Type)> = vec![];
        for type_ in types {
            let name = if arguments.is_empty() { "n".into() } else { self.name() };
            if arguments.iter().any(|(other, _)| other == &name) {
                self.names += 1;
                arguments.push((format!("x{}", self.names), type_));
            } else {
                arguments.push((name, type_));
            }
        }
        let scope = Scope {
            variables: arguments.clone(),
            exit: self.exit(&result),
            pure_: self.signatures[index].pure_,
            callable: index,
            current: None,
        };
        let base = self.block(&result, 2, &scope);
        let step = self.block(&result, 4, &Scope { current: Some(index), ..scope });
        let body = Block {
            statements: vec![],
            result: E::If(
                E::Compare("<=", E::Variable("n".into()).into(), E::Number(0.0).into()).into(),
                base,
                step,
            )
            .into(),
        };
        Rc::new(Lambda { arguments, result, body })
    }

    fn block(&mut self, type_: &Type, depth: usize, scope: &Scope) -> Block {
        let mut scope = scope.clone();
        let mut statements = vec![];

        for _ in 0..self.random.below(3) {
            if depth == 0 {
                break;
            }
            if !scope.pure_ && self.random.chance(1, 4) {
                // The compiler has arguments of `debug` evaluated twice, which is a known finding.
                let scope = Scope { pure_: true, ..scope.clone() };
                let argument = self.expression(&Type::Number, depth - 1, &scope);
                statements.push((None, E::Debug(argument.into())));
                continue;
            }
            let type_ = self.type_(2);
            let expression = self.exact(&type_, depth - 1, &scope);
            let name = self.name();
            if name == "n" {
                continue;
            }
            scope.variables.retain(|(other, _)| other != &name);
            scope.variables.push((name.clone(), type_));
            statements.push((Some(name), expression));
        }
        let result = self.expression(type_, depth, &scope).into();

        Block { statements, result }
    }

    fn lambda(&mut self, arguments: &[Type], result: &Type, depth: usize, scope: &Scope) -> E {
        let arguments = loop {
            let arguments = arguments.iter().map(|type_| (self.name(), type_.clone())).collect::<Vec<_>>();
            let mut names = arguments.iter().map(|(name, _)| name).collect::<Vec<_>>();
            names.sort();
            names.dedup();
            if names.len() == arguments.len() {
                break arguments;
            }
        };
        let mut scope = scope.clone();
        for (name, type_) in &arguments {
            scope.variables.retain(|(other, _)| other != name);
            scope.variables.push((name.clone(), type_.clone()));
        }
        scope.exit = self.exit(result);
        let body = self.block(result, depth, &scope);
        E::Lambda(Rc::new(Lambda { arguments, result: result.clone(), body }))
    }

    /// A number that a recursive call is given, which is small.
    fn count(&mut self, scope: &Scope, index: usize) -> E {
        if scope.current == Some(index) {
            E::Arithmetic('-', E::Variable("n".into()).into(), E::Number(1.0).into())
        } else {
            E::Number(self.random.below(3) as f64)
        }
    }

    fn call(&mut self, index: usize, depth: usize, scope: &Scope) -> E {
        let types = self.signatures[index].arguments.clone();
        let arguments = types
            .iter()
            .enumerate()
            .map(|(position, type_)| {
                if position == 0 { self.count(scope, index) } else { self.expression(type_, depth.saturating_sub(1), scope) }
            })
            .collect();
        E::Call(E::Variable(format!("g{index}")).into(), arguments)
    }

    /// An expression which the compiler takes to be of a type by itself. Only where a
    /// type is said in a source are values converted to it.
    fn exact(&mut self, type_: &Type, depth: usize, scope: &Scope) -> E {
        let expression = self.expression(type_, depth, scope);

        match &expression {
            E::Variable(_) | E::Call(..) | E::Field(..) | E::Source(_) => expression,
            _ if !type_.variant() => expression,
            _ => {
                let body = Block { statements: vec![], result: E::Variable("c".into()).into() };
                let lambda = Lambda { arguments: vec![("c".into(), type_.clone())], result: type_.clone(), body };
                E::Call(E::Lambda(lambda.into()).into(), vec![expression])
            }
        }
    }

    /// An expression with variables that something in it asks for, which is used there
    /// and hardly anywhere else.
    fn demanding(&mut self, type_: &Type, depth: usize, scope: &Scope) -> E {
        let mut inner = Scope { exit: self.exit(type_), ..scope.clone() };
        if self.random.chance(1, 2) {
            inner.variables.retain(|(name, _)| name == "n" || name.starts_with('g'));
        }
        let count = 1 + self.random.below(3);
        self.demands.push((count, vec![]));
        let result = match self.random.below(4) {
            0 | 1 => E::Call(self.lambda(&[], type_, depth, &inner).into(), vec![]),
            2 => self.literal(type_, depth, &inner),
            _ => {
                let Block { statements, result } = self.block(type_, depth, &inner);
                let arguments = self.demands.pop().unwrap().1;
                return self.supplied(arguments, Block { statements, result }, type_, scope);
            }
        };
        let arguments = self.demands.pop().unwrap().1;
        self.supplied(arguments, Block { statements: vec![], result: result.into() }, type_, scope)
    }

    fn supplied(&mut self, arguments: Vec<(String, Type)>, body: Block, type_: &Type, scope: &Scope) -> E {
        let values = arguments.iter().map(|(_, type_)| self.expression(type_, 1, scope)).collect();
        E::Call(E::Lambda(Lambda { arguments, result: type_.clone(), body }.into()).into(), values)
    }

    fn demanded(&mut self, type_: &Type) -> Option<E> {
        let count = self.demands.last()?.0;
        let frame = &self.demands.last()?.1;
        if let Some((name, _)) = frame.iter().find(|(_, other)| other == type_) {
            let name = name.clone();
            if self.random.chance(1, 2) {
                return Some(E::Variable(name));
            }
        }
        if count == 0 || !self.random.chance(1, 3) {
            return None;
        }
        self.names += 1;
        let name = format!("d{}", self.names);
        let (count, frame) = self.demands.last_mut()?;
        *count -= 1;
        frame.push((name.clone(), type_.clone()));
        Some(E::Variable(name))
    }

    fn expression(&mut self, type_: &Type, depth: usize, scope: &Scope) -> E {
        if let Some(variable) = self.demanded(type_) {
            return variable;
        }
        if depth > 1 && self.budget > 3 && self.random.chance(1, 8) {
            self.budget -= 1;
            return self.demanding(type_, depth - 1, scope);
        }
        let found = scope.variables.iter().filter(|(_, other)| other == type_).collect::<Vec<_>>();
        if !found.is_empty() && self.random.chance(if depth == 0 { 3 } else { 1 }, 4) {
            return E::Variable(found[self.random.below(found.len())].0.clone());
        }
        self.budget = self.budget.saturating_sub(1);
        if depth == 0 || self.budget == 0 {
            return self.literal(type_, 0, scope);
        }
        let deep = depth - 1;

        for _ in 0..4 {
            match self.random.below(16) {
                0 => {
                    let condition = self.expression(&Type::Boolean, deep, scope).into();
                    return E::If(condition, self.block(type_, deep, scope), self.block(type_, deep, scope));
                }
                1 | 2 => {
                    // A function of the program, whose argument counts down.
                    let last = scope.current.map_or(scope.callable, |index| index + 1);
                    let found = (0..last)
                        .filter(|index| {
                            let signature = &self.signatures[*index];
                            let name = format!("g{index}");
                            &signature.result == type_
                                && (!scope.pure_ || signature.pure_)
                                && scope.variables.iter().all(|(other, _)| other != &name)
                        })
                        .collect::<Vec<_>>();
                    if let Some(index) = found.get(self.random.below(found.len().max(1))) {
                        return self.call(*index, deep, scope);
                    }
                }
                3 => {
                    // A function at hand.
                    let found = scope
                        .variables
                        .iter()
                        .filter(|(_, other)| matches!(other, Type::Function(_, result) if **result == *type_))
                        .cloned()
                        .collect::<Vec<_>>();
                    if let Some((name, Type::Function(arguments, _))) = found.get(self.random.below(found.len().max(1))) {
                        let arguments = arguments.iter().map(|type_| self.expression(type_, deep, scope)).collect();
                        return E::Call(E::Variable(name.clone()).into(), arguments);
                    }
                }
                4 => {
                    let arguments = (0..self.random.below(3)).map(|_| self.type_(1)).collect::<Vec<_>>();
                    let function = self.lambda(&arguments, type_, deep, scope);
                    let arguments = arguments.iter().map(|type_| self.expression(type_, deep, scope)).collect();
                    return E::Call(function.into(), arguments);
                }
                5 => {
                    // A field of a record.
                    let found = self
                        .records
                        .iter()
                        .enumerate()
                        .flat_map(|(index, fields)| fields.iter().enumerate().map(move |(field, other)| (index, field, other)))
                        .filter(|(_, _, other)| other == &type_)
                        .map(|(index, field, _)| (index, field))
                        .collect::<Vec<_>>();
                    if let Some((index, field)) = found.get(self.random.below(found.len().max(1))) {
                        let record = self.expression(&Type::Record(*index), deep, scope);
                        return E::Field(*field, record.into());
                    }
                }
                6 | 7 => {
                    // An element of a list.
                    let list = Type::List(type_.clone().into());
                    let list = self.expression(&list, deep, scope);
                    let [first, rest] = [self.name(), self.name()];
                    if first == rest {
                        continue;
                    }
                    let mut inner = scope.clone();
                    inner.variables.retain(|(name, _)| name != &first && name != &rest);
                    inner.variables.push((first.clone(), Type::Function(vec![], type_.clone().into())));
                    inner.variables.push((rest.clone(), Type::List(type_.clone().into())));
                    let then = if self.random.chance(1, 2) {
                        let call = E::Call(E::Variable(first.clone()).into(), vec![]);
                        Block { statements: vec![], result: call.into() }
                    } else {
                        self.block(type_, deep, &inner)
                    };
                    return E::IfList(first, rest, list.into(), then, self.block(type_, deep, scope));
                }
                8 => {
                    // A value of a map.
                    let key = self.key(1);
                    let map = self.expression(&Type::Map(key.clone().into(), type_.clone().into()), deep, scope);
                    let key = self.expression(&key, deep, scope);
                    // A name that hides another one hides it in the block of no value too,
                    // which is a known finding.
                    let name = loop {
                        let name = self.name();
                        if scope.variables.iter().all(|(other, _)| other != &name) {
                            break name;
                        }
                    };
                    let mut inner = scope.clone();
                    inner.variables.retain(|(other, _)| other != &name);
                    inner.variables.push((name.clone(), type_.clone()));
                    return E::IfMap(
                        name,
                        map.into(),
                        key.into(),
                        self.block(type_, deep, &inner),
                        self.block(type_, deep, scope),
                    );
                }
                9..=11 => {
                    return self.if_type(type_, deep, scope);
                }
                12 => {
                    if let Some(exit) = &scope.exit {
                        if type_ == &Type::Any || type_.members().contains(&Type::Error) {
                            continue;
                        }
                        let _ = exit;
                        let operand = self.exact(&union([type_.clone(), Type::Error]), deep, scope);
                        return E::Try(!type_.variant(), operand.into());
                    }
                }
                13 => {
                    let mut inner = scope.clone();
                    inner.pure_ = true;
                    let function = self.lambda(&[], type_, deep, &inner);
                    return E::Call(E::Go(function.into()).into(), vec![]);
                }
                _ => return self.literal(type_, depth, scope),
            }
        }
        self.literal(type_, depth, scope)
    }

    fn if_type(&mut self, type_: &Type, deep: usize, scope: &Scope) -> E {
        let argument_type = loop {
            let type_ = if self.random.chance(1, 5) { Type::Any } else { self.union(2) };
            if type_.variant() {
                break type_;
            }
        };
        let argument = self.exact(&argument_type, deep, scope);
        let name = self.name();
        let bind = |type_: &Type| {
            let mut inner = scope.clone();
            inner.variables.retain(|(other, _)| other != &name);
            inner.variables.push((name.clone(), type_.clone()));
            inner
        };
        let mut branches = vec![];
        let mut els = None;

        match &argument_type {
            Type::Union(members) => {
                let mut members = members.clone();
                self.random.shuffle(&mut members);
                while !members.is_empty() {
                    if !branches.is_empty() && self.random.chance(1, 4) {
                        let rest = union(members.drain(..));
                        els = Some((!rest.variant(), self.block(type_, deep, &bind(&rest))));
                        break;
                    }
                    let count = 1 + self.random.below(2.min(members.len()));
                    let branch = union(members.drain(..count));
                    if branch == argument_type {
                        // A branch for everything is refused as it needs no test.
                        let members = branch.members();
                        for member in members {
                            let block = self.block(type_, deep, &bind(&member));
                            branches.push((member, block));
                        }
                        continue;
                    }
                    let block = self.block(type_, deep, &bind(&branch));
                    branches.push((branch, block));
                }
            }
            _ => {
                let mut seen: Vec<Type> = vec![];
                for _ in 0..1 + self.random.below(3) {
                    let branch = self.type_(2);
                    if branch == Type::Any || branch.members().iter().any(|type_| seen.contains(type_)) {
                        continue;
                    }
                    seen.extend(branch.members());
                    let block = self.block(type_, deep, &bind(&branch));
                    branches.push((branch, block));
                }
                if branches.is_empty() {
                    let block = self.block(type_, deep, &bind(&Type::Number));
                    branches.push((Type::Number, block));
                }
                els = Some((false, self.block(type_, deep, &bind(&Type::Any))));
            }
        }
        E::IfType(name, argument.into(), branches, els)
    }

    fn literal(&mut self, type_: &Type, depth: usize, scope: &Scope) -> E {
        let deep = depth.saturating_sub(1);

        match type_ {
            Type::None => E::None,
            Type::Boolean => match self.random.below(if depth == 0 { 1 } else { 8 }) {
                1 => E::Not(self.expression(type_, deep, scope).into()),
                2 => E::And(self.expression(type_, deep, scope).into(), self.expression(type_, deep, scope).into()),
                3 => E::Or(self.expression(type_, deep, scope).into(), self.expression(type_, deep, scope).into()),
                4 => {
                    let operator = self.random.pick(&["<", "<=", ">", ">="]);
                    let operator = ["<", "<=", ">", ">="].into_iter().find(|other| *other == operator).unwrap();
                    E::Compare(
                        operator,
                        self.expression(&Type::Number, deep, scope).into(),
                        self.expression(&Type::Number, deep, scope).into(),
                    )
                }
                5..=7 => {
                    let operand = self.key(2);
                    let negative = self.random.chance(1, 2);
                    E::Equal(
                        negative,
                        self.exact(&operand, deep, scope).into(),
                        self.exact(&operand, deep, scope).into(),
                    )
                }
                _ => E::Boolean(self.random.chance(1, 2)),
            },
            Type::Number => match self.random.below(if depth == 0 { 1 } else { 6 }) {
                1..=3 => {
                    let operator = ['+', '-', '*'][self.random.below(3)];
                    E::Arithmetic(
                        operator,
                        self.expression(type_, deep, scope).into(),
                        self.expression(type_, deep, scope).into(),
                    )
                }
                4 => E::Arithmetic(
                    '/',
                    self.expression(type_, deep, scope).into(),
                    E::Number((1 + self.random.below(4)) as f64).into(),
                ),
                5 => {
                    let collection = if self.random.chance(1, 2) {
                        Type::List(self.type_(1).into())
                    } else {
                        Type::Map(self.key(1).into(), self.type_(1).into())
                    };
                    E::Size(self.expression(&collection, deep, scope).into())
                }
                _ => E::Number(match self.random.below(8) {
                    0 => 0.5,
                    1 => -1.0,
                    2 => 1e3,
                    _ => self.random.below(5) as f64,
                }),
            },
            Type::String => match self.random.below(if depth == 0 { 1 } else { 4 }) {
                1 | 2 => E::Concatenate(
                    self.expression(type_, deep, scope).into(),
                    self.expression(type_, deep, scope).into(),
                ),
                _ => E::String(match self.random.below(7) {
                    6 => (0..self.random.below(5))
                        .map(|_| {
                            // Texts that look like escape sequences.
                            [b'\\', b'\\', b'n', b'r', b't', b'x', b'4', b'1', b'"', b'\n', b'\r', b'\t', b'\\', 0x80][self.random.below(14)]
                        })
                        .collect(),
                    0 => vec![],
                    1 => b"a".to_vec(),
                    2 => b"ab".to_vec(),
                    3 => "\u{e9}\n\"\\".as_bytes().to_vec(),
                    4 => vec![0, 255, b'x'],
                    _ => b"b".to_vec(),
                }),
            },
            Type::Error => {
                let argument = self.expression(&Type::Any, deep, scope);
                E::Error(argument.into())
            }
            Type::Any => {
                if depth > 1 && self.random.chance(1, 6) {
                    return E::Source(self.expression(&Type::Error, deep, scope).into());
                }
                let from = loop {
                    let from = if depth == 0 { self.scalar() } else { self.type_(2) };
                    if from != Type::Any {
                        break from;
                    }
                };
                let value = self.expression(&from, deep, scope);
                E::Coerce(from, Type::Any, value.into())
            }
            Type::Union(members) => {
                let mut members = members.clone();
                if depth == 0 && members.iter().any(|type_| type_ == &Type::None) {
                    return E::Coerce(Type::None, type_.clone(), E::None.into());
                }
                self.random.shuffle(&mut members);
                if members.len() > 2 && self.random.chance(1, 4) {
                    members.truncate(1 + self.random.below(2));
                } else {
                    members.truncate(1);
                }
                let from = union(members);
                let value = self.expression(&from, deep, scope);
                E::Coerce(from, type_.clone(), value.into())
            }
            Type::Function(arguments, result) => {
                let pure_ = Scope { pure_: true, ..scope.clone() };
                self.lambda(arguments, result, deep, &pure_)
            }
            Type::Record(index) => {
                let index = *index;
                let fields = self.records[index].clone();
                if let Some(expression) = self.repeated(index, &fields, depth, scope) {
                    return expression;
                }
                if depth > 1 && !fields.is_empty() && self.random.chance(1, 3) {
                    let record = self.expression(type_, deep, scope);
                    let mut indices = (0..fields.len()).collect::<Vec<_>>();
                    self.random.shuffle(&mut indices);
                    indices.truncate(1 + self.random.below(fields.len()));
                    let fields = indices
                        .into_iter()
                        .map(|field| (field, self.expression(&fields[field], deep, &Scope { pure_: true, ..scope.clone() })))
                        .collect();
                    return E::Update(index, record.into(), fields);
                }
                let mut indices = (0..fields.len()).collect::<Vec<_>>();
                self.random.shuffle(&mut indices);
                let fields = indices
                    .into_iter()
                    .map(|field| (field, self.expression(&fields[field], deep, &Scope { pure_: true, ..scope.clone() })))
                    .collect();
                E::Record(index, fields)
            }
            Type::List(element) => {
                // Elements are evaluated when they are needed, and a function cannot be left from them.
                let lazy = Scope { pure_: true, exit: None, ..scope.clone() };
                if depth > 1 && self.random.chance(1, 3) {
                    return self.comprehension(element, deep, &lazy);
                }
                let elements = (0..self.random.below(4))
                    .map(|_| {
                        if depth > 0 && self.random.chance(1, 3) {
                            (true, self.expression(type_, deep, &lazy))
                        } else {
                            (false, self.expression(element, deep, &lazy))
                        }
                    })
                    .collect();
                E::List((**element).clone(), elements)
            }
            Type::Map(key, value) => {
                if depth > 1 && self.random.chance(1, 5) {
                    let map = self.expression(type_, deep, scope);
                    return E::Delete(map.into(), self.expression(key, deep, scope).into());
                }
                let pure_ = Scope { pure_: true, ..scope.clone() };
                let mut entries = vec![];
                if depth > 0 && self.random.chance(1, 3) {
                    entries.push(Entry::Spread(self.expression(type_, deep, &pure_)));
                }
                for _ in 0..self.random.below(3) {
                    entries.push(Entry::Single(
                        self.expression(key, deep, &pure_),
                        self.expression(value, deep, &pure_),
                    ));
                }
                E::Map((**key).clone(), (**value).clone(), entries)
            }
        }
    }

    /// A record of which fields of one type have the same variable.
    fn repeated(&mut self, index: usize, fields: &[Type], depth: usize, scope: &Scope) -> Option<E> {
        let repeated = fields
            .iter()
            .filter(|type_| fields.iter().filter(|other| other == type_).count() > 1)
            .cloned()
            .collect::<Vec<_>>();
        if depth < 2 || repeated.is_empty() || !self.random.chance(1, 2) {
            return None;
        }
        let type_ = repeated[self.random.below(repeated.len())].clone();
        let name = self.name();
        let mut inner = Scope { exit: None, pure_: true, ..scope.clone() };
        inner.variables.retain(|(other, _)| other != &name);
        inner.variables.push((name.clone(), type_.clone()));
        let update = self.random.chance(1, 2);
        let mut indices = (0..fields.len()).collect::<Vec<_>>();
        self.random.shuffle(&mut indices);
        if update {
            indices.retain(|field| fields[*field] == type_ || self.random.chance(1, 2));
        }
        let values = indices
            .into_iter()
            .map(|field| {
                let value = if fields[field] == type_ && self.random.chance(4, 5) {
                    E::Variable(name.clone())
                } else {
                    self.expression(&fields[field], depth - 2, &inner)
                };
                (field, value)
            })
            .collect();
        let result = if update {
            E::Update(index, self.expression(&Type::Record(index), depth - 2, &inner).into(), values)
        } else {
            E::Record(index, values)
        };
        Some(self.supplied(vec![(name, type_)], Block { statements: vec![], result: result.into() }, &Type::Record(index), scope))
    }

    fn comprehension(&mut self, element: &Type, depth: usize, scope: &Scope) -> E {
        // The last clause is the outermost one.
        let mut inner = scope.clone();
        let mut clauses = vec![];

        for _ in 0..1 + self.random.below(2) {
            let mut names = vec![];
            let mut lists = vec![];
            let mut bound = vec![];
            for _ in 0..1 + self.random.below(2) {
                let type_ = self.type_(1);
                lists.push(self.expression(&Type::List(type_.clone().into()), depth.saturating_sub(1), &inner));
                let name = loop {
                    let name = self.name();
                    if !names.contains(&name) {
                        break name;
                    }
                };
                names.push(name.clone());
                bound.push((name, Type::Function(vec![], type_.into())));
            }
            inner.variables.retain(|(name, _)| !names.contains(name));
            inner.variables.extend(bound);
            let condition = self
                .random
                .chance(1, 3)
                .then(|| self.expression(&Type::Boolean, depth.saturating_sub(1), &inner));
            clauses.insert(0, Clause { names, lists, condition });
        }
        let value = self.expression(element, depth, &inner);
        E::Comprehension(element.clone(), value.into(), clauses)
    }
}

// Source text

pub fn print(program: &Program) -> String {
    let printer = Printer { program, uses: RefCell::new(0) };
    let mut text = String::new();

    for (index, fields) in program.records.iter().enumerate() {
        writeln!(text, "type r{index} {{").unwrap();
        for (field, type_) in fields.iter().enumerate() {
            writeln!(text, "  f{field} {}", printer.type_(type_)).unwrap();
        }
        writeln!(text, "}}\n").unwrap();
    }
    for (index, type_) in program.aliases.iter().enumerate() {
        writeln!(text, "type a{index} = {}\n", printer.type_without(type_, index)).unwrap();
    }
    for (index, function) in program.functions.iter().enumerate() {
        let name = if index + 1 == program.functions.len() { "Main".into() } else { format!("g{index}") };
        writeln!(text, "{name} = {}\n", printer.lambda(function, 0)).unwrap();
    }
    text
}

struct Printer<'a> {
    program: &'a Program,
    uses: RefCell<usize>,
}

impl Printer<'_> {
    fn type_(&self, type_: &Type) -> String {
        self.type_without(type_, self.program.aliases.len())
    }

    fn type_without(&self, type_: &Type, last: usize) -> String {
        *self.uses.borrow_mut() += 1;
        if *self.uses.borrow() % 3 != 0 {
            if let Some(index) = self.program.aliases[..last].iter().position(|other| other == type_) {
                return format!("a{index}");
            }
        }
        match type_ {
            Type::None => "none".into(),
            Type::Boolean => "boolean".into(),
            Type::Number => "number".into(),
            Type::String => "string".into(),
            Type::Error => "error".into(),
            Type::Any => "any".into(),
            Type::Record(index) => format!("r{index}"),
            Type::List(element) => format!("[{}]", self.type_without(element, last)),
            Type::Map(key, value) => format!("{{{}: {}}}", self.type_without(key, last), self.type_without(value, last)),
            Type::Function(arguments, result) => format!(
                "\\({}) {}",
                arguments.iter().map(|type_| self.type_without(type_, last)).collect::<Vec<_>>().join(", "),
                self.type_without(result, last)
            ),
            Type::Union(members) => {
                let mut members = members.clone();
                let middle = *self.uses.borrow() % members.len();
                members.rotate_left(middle);
                members
                    .iter()
                    .map(|type_| match type_ {
                        Type::Function(..) => format!("({})", self.type_without(type_, last)),
                        type_ => self.type_without(type_, last),
                    })
                    .collect::<Vec<_>>()
                    .join(" | ")
            }
        }
    }

    fn lambda(&self, lambda: &Lambda, depth: usize) -> String {
        format!(
            "\\({}) {} {}",
            lambda
                .arguments
                .iter()
                .map(|(name, type_)| format!("{name} {}", self.type_(type_)))
                .collect::<Vec<_>>()
                .join(", "),
            self.type_(&lambda.result),
            self.block(&lambda.body, depth)
        )
    }

    fn block(&self, block: &Block, depth: usize) -> String {
        let space = "  ".repeat(depth + 1);
        let mut text = "{\n".to_string();

        for (name, expression) in &block.statements {
            let expression = self.top(expression, depth + 1);
            match name {
                Some(name) => writeln!(text, "{space}{name} = {expression}").unwrap(),
                None => writeln!(text, "{space}{expression}").unwrap(),
            }
        }
        let result = self.top(&block.result, depth + 1);
        if !block.statements.is_empty() && result.starts_with(['(', '[', '{', '-']) {
            writeln!(text, "{space}y = {result}\n{space}y").unwrap();
        } else {
            writeln!(text, "{space}{result}").unwrap();
        }
        text + &"  ".repeat(depth) + "}"
    }

    fn fields(&self, fields: &[(usize, E)], depth: usize) -> String {
        fields.iter().map(|(field, value)| format!("f{field}: {}", self.top(value, depth))).collect::<Vec<_>>().join(", ")
    }

    /// An expression where nothing is around it that it could be mixed with.
    fn top(&self, expression: &E, depth: usize) -> String {
        let of = |expression: &E| self.operand(expression, depth);
        let top = |expression: &E| self.top(expression, depth);
        let block = |block: &Block| self.block(block, depth);

        match expression {
            E::Number(number) => number.to_string(),
            E::String(bytes) => {
                let mut text = "\"".to_string();
                for byte in bytes {
                    match byte {
                        b'\n' => text += "\\n",
                        b'\r' => text += "\\r",
                        b'\t' => text += "\\t",
                        b'"' => text += "\\\"",
                        b'\\' => text += "\\\\",
                        b' '..=b'~' => text.push(*byte as char),
                        byte => write!(text, "\\x{byte:02x}").unwrap(),
                    }
                }
                text + "\""
            }
            E::Boolean(value) => value.to_string(),
            E::None => "none".into(),
            E::Variable(name) => name.clone(),
            E::Arithmetic(operator, lhs, rhs) => format!("{} {operator} {}", of(lhs), of(rhs)),
            E::Compare(operator, lhs, rhs) => format!("{} {operator} {}", of(lhs), of(rhs)),
            E::Equal(negative, lhs, rhs) => format!("{} {} {}", of(lhs), if *negative { "!=" } else { "==" }, of(rhs)),
            E::Concatenate(lhs, rhs) => format!("{} + {}", of(lhs), of(rhs)),
            E::Not(operand) => format!("!{}", of(operand)),
            E::And(lhs, rhs) => format!("{} & {}", of(lhs), of(rhs)),
            E::Or(lhs, rhs) => format!("{} | {}", of(lhs), of(rhs)),
            E::If(condition, then, els) => format!("if {} {} else {}", of(condition), block(then), block(els)),
            E::Call(function, arguments) => {
                format!("{}({})", of(function), arguments.iter().map(top).collect::<Vec<_>>().join(", "))
            }
            E::Lambda(lambda) => self.lambda(lambda, depth),
            E::Record(index, fields) => format!("r{index}{{{}}}", self.fields(fields, depth)),
            E::Update(index, record, fields) => format!("r{index}{{...{}, {}}}", of(record), self.fields(fields, depth)),
            E::Field(field, record) => format!("{}.f{field}", of(record)),
            E::List(type_, elements) => format!(
                "[{}{}]",
                self.type_(type_),
                elements
                    .iter()
                    .enumerate()
                    .map(|(index, (spread, element))| {
                        let element = if *spread { format!("...{}", of(element)) } else { of(element) };
                        format!("{} {element}", if index == 0 { "" } else { "," })
                    })
                    .collect::<String>()
            ),
            E::Comprehension(type_, element, clauses) => format!(
                "[{} {}{}]",
                self.type_(type_),
                of(element),
                clauses
                    .iter()
                    .map(|clause| format!(
                        " for {} in {}{}",
                        clause.names.join(", "),
                        clause.lists.iter().map(of).collect::<Vec<_>>().join(", "),
                        clause.condition.as_ref().map(|condition| format!(" if {}", of(condition))).unwrap_or_default()
                    ))
                    .collect::<String>()
            ),
            E::IfList(first, rest, list, then, els) => {
                format!("if [{first}, ...{rest}] = {} {} else {}", of(list), block(then), block(els))
            }
            E::IfMap(name, map, key, then, els) => {
                format!("if {name} = {}[{}] {} else {}", of(map), top(key), block(then), block(els))
            }
            E::IfType(name, argument, branches, els) => {
                let mut text = format!("if {name} = {} as", of(argument));
                for (index, (type_, then)) in branches.iter().enumerate() {
                    if index > 0 {
                        text += " else if";
                    }
                    write!(text, " {} {}", self.type_(type_), block(then)).unwrap();
                }
                if let Some((_, els)) = els {
                    write!(text, " else {}", block(els)).unwrap();
                }
                text
            }
            E::Map(key, value, entries) => format!(
                "{{{}: {}{}}}",
                self.type_(key),
                self.type_(value),
                entries
                    .iter()
                    .enumerate()
                    .map(|(index, entry)| {
                        let entry = match entry {
                            Entry::Single(key, value) => format!("{}: {}", of(key), of(value)),
                            Entry::Spread(map) => format!("...{}", of(map)),
                        };
                        format!("{} {entry}", if index == 0 { "" } else { "," })
                    })
                    .collect::<String>()
            ),
            E::Size(collection) => format!("size({})", top(collection)),
            E::Delete(map, key) => format!("delete({}, {})", top(map), top(key)),
            E::Error(source) => format!("error({})", top(source)),
            E::Source(error) => format!("source({})", top(error)),
            E::Try(_, operand) => format!("{}?", of(operand)),
            E::Coerce(_, _, value) => top(value),
            E::Go(function) => format!("go({})", top(function)),
            E::Debug(value) => format!("debug({})", top(value)),
        }
    }

    fn operand(&self, expression: &E, depth: usize) -> String {
        match expression {
            E::Number(number) if *number < 0.0 => format!("({number})"),
            E::Coerce(_, _, value) => self.operand(value, depth),
            E::Number(_)
            | E::String(_)
            | E::Boolean(_)
            | E::None
            | E::Variable(_)
            | E::Call(..)
            | E::Record(..)
            | E::Update(..)
            | E::Field(..)
            | E::Size(_)
            | E::Delete(..)
            | E::Error(_)
            | E::Source(_)
            | E::Try(..)
            | E::Go(_) => self.top(expression, depth),
            _ => format!("({})", self.top(expression, depth)),
        }
    }
}

// Meaning

#[derive(Clone, Debug)]
pub enum V {
    None,
    Boolean(bool),
    Number(f64),
    String(Rc<[u8]>),
    Record(Rc<[V]>),
    List(Rc<[V]>),
    Map(Rc<[(V, V)]>),
    Error(Rc<V>),
    Function(Rc<Closure>),
    Global(usize),
    /// A function with no argument.
    Constant(Rc<V>),
    /// A value of a union or `any`.
    Variant(Rc<(Type, V)>),
}

#[derive(Debug)]
pub struct Closure {
    lambda: Rc<Lambda>,
    environment: Environment,
}

type Environment = Option<Rc<Binding>>;

#[derive(Debug)]
pub struct Binding {
    name: String,
    value: V,
    next: Environment,
}

fn bind(environment: &Environment, name: &str, value: V) -> Environment {
    Some(Rc::new(Binding { name: name.into(), value, next: environment.clone() }))
}

pub enum Exit {
    Return(V),
    Exhausted,
}

pub struct Evaluator<'a> {
    program: &'a Program,
    fuel: u64,
    pub output: Vec<u8>,
    /// Whether a number that is not equal to itself came up.
    pub not_a_number: bool,
    /// Whether two spread maps or a spread map after an entry had the same keys.
    pub first_wins: bool,
}

pub fn equal(one: &V, other: &V) -> bool {
    match (one, other) {
        (V::None, V::None) => true,
        (V::Boolean(one), V::Boolean(other)) => one == other,
        (V::Number(one), V::Number(other)) => one == other,
        (V::String(one), V::String(other)) => one == other,
        (V::Record(one), V::Record(other)) | (V::List(one), V::List(other)) => {
            one.len() == other.len() && one.iter().zip(other.iter()).all(|(one, other)| equal(one, other))
        }
        (V::Map(one), V::Map(other)) => {
            one.len() == other.len()
                && one.iter().all(|(key, value)| {
                    other.iter().any(|(other_key, other_value)| equal(key, other_key) && equal(value, other_value))
                })
        }
        (V::Variant(one), V::Variant(other)) => one.0 == other.0 && equal(&one.1, &other.1),
        _ => false,
    }
}

impl<'a> Evaluator<'a> {
    pub fn new(program: &'a Program, fuel: u64, first_wins: bool) -> Self {
        Self { program, fuel, output: vec![], not_a_number: false, first_wins }
    }

    pub fn main(&mut self) -> Option<V> {
        self.call(V::Global(self.program.functions.len() - 1), vec![]).ok()
    }

    fn call(&mut self, function: V, arguments: Vec<V>) -> Result<V, Exit> {
        let (lambda, mut environment) = match function {
            V::Constant(value) => return Ok((*value).clone()),
            V::Global(index) => (self.program.functions[index].clone(), None),
            V::Function(closure) => (closure.lambda.clone(), closure.environment.clone()),
            value => panic!("{value:?} is called"),
        };
        for ((name, _), value) in lambda.arguments.iter().zip(arguments) {
            environment = bind(&environment, name, value);
        }
        match self.block(&lambda.body, &environment) {
            Err(Exit::Return(value)) => Ok(value),
            result => result,
        }
    }

    fn block(&mut self, block: &Block, environment: &Environment) -> Result<V, Exit> {
        let mut environment = environment.clone();

        for (name, expression) in &block.statements {
            let value = self.run(expression, &environment)?;
            if let Some(name) = name {
                environment = bind(&environment, name, value);
            }
        }
        self.run(&block.result, &environment)
    }

    fn number(&mut self, expression: &E, environment: &Environment) -> Result<f64, Exit> {
        match self.run(expression, environment)? {
            V::Number(number) => Ok(number),
            value => panic!("{value:?} is no number"),
        }
    }

    fn boolean(&mut self, expression: &E, environment: &Environment) -> Result<bool, Exit> {
        match self.run(expression, environment)? {
            V::Boolean(value) => Ok(value),
            value => panic!("{value:?} is no boolean"),
        }
    }

    fn list(&mut self, expression: &E, environment: &Environment) -> Result<Rc<[V]>, Exit> {
        match self.run(expression, environment)? {
            V::List(elements) => Ok(elements),
            value => panic!("{value:?} is no list"),
        }
    }

    fn map(&mut self, expression: &E, environment: &Environment) -> Result<Rc<[(V, V)]>, Exit> {
        match self.run(expression, environment)? {
            V::Map(entries) => Ok(entries),
            value => panic!("{value:?} is no map"),
        }
    }

    fn iterate(
        &mut self,
        clauses: &[Clause],
        element: &E,
        environment: &Environment,
        elements: &mut Vec<V>,
    ) -> Result<(), Exit> {
        let Some((clause, inner)) = clauses.split_last() else {
            elements.push(self.run(element, environment)?);
            return Ok(());
        };
        let lists = clause.lists.iter().map(|list| self.list(list, environment)).collect::<Result<Vec<_>, _>>()?;

        for index in 0..lists.iter().map(|list| list.len()).min().unwrap() {
            let mut environment = environment.clone();
            for (name, list) in clause.names.iter().zip(&lists) {
                environment = bind(&environment, name, V::Constant(list[index].clone().into()));
            }
            if let Some(condition) = &clause.condition {
                if !self.boolean(condition, &environment)? {
                    continue;
                }
            }
            self.iterate(inner, element, &environment, elements)?;
        }
        Ok(())
    }

    fn run(&mut self, expression: &E, environment: &Environment) -> Result<V, Exit> {
        if self.fuel == 0 {
            return Err(Exit::Exhausted);
        }
        self.fuel -= 1;

        Ok(match expression {
            E::Number(number) => V::Number(*number),
            E::String(bytes) => V::String(bytes.as_slice().into()),
            E::Boolean(value) => V::Boolean(*value),
            E::None => V::None,
            E::Variable(name) => {
                let mut entry = environment.as_ref();
                while let Some(binding) = entry {
                    if &binding.name == name {
                        return Ok(binding.value.clone());
                    }
                    entry = binding.next.as_ref();
                }
                match name.strip_prefix('g').and_then(|index| index.parse().ok()) {
                    Some(index) => V::Global(index),
                    None => panic!("{name} is not bound"),
                }
            }
            E::Arithmetic(operator, lhs, rhs) => {
                let lhs = self.number(lhs, environment)?;
                let rhs = self.number(rhs, environment)?;
                let number = match operator {
                    '+' => lhs + rhs,
                    '-' => lhs - rhs,
                    '*' => lhs * rhs,
                    _ => lhs / rhs,
                };
                self.not_a_number |= number.is_nan();
                V::Number(number)
            }
            E::Compare(operator, lhs, rhs) => {
                let lhs = self.number(lhs, environment)?;
                let rhs = self.number(rhs, environment)?;
                V::Boolean(match *operator {
                    "<" => lhs < rhs,
                    "<=" => lhs <= rhs,
                    ">" => lhs > rhs,
                    _ => lhs >= rhs,
                })
            }
            E::Equal(negative, lhs, rhs) => {
                let lhs = self.run(lhs, environment)?;
                let rhs = self.run(rhs, environment)?;
                V::Boolean(equal(&lhs, &rhs) != *negative)
            }
            E::Concatenate(lhs, rhs) => match (self.run(lhs, environment)?, self.run(rhs, environment)?) {
                (V::String(lhs), V::String(rhs)) => V::String([&lhs[..], &rhs[..]].concat().into()),
                values => panic!("{values:?} are no strings"),
            },
            E::Not(operand) => V::Boolean(!self.boolean(operand, environment)?),
            E::And(lhs, rhs) => V::Boolean(self.boolean(lhs, environment)? && self.boolean(rhs, environment)?),
            E::Or(lhs, rhs) => V::Boolean(self.boolean(lhs, environment)? || self.boolean(rhs, environment)?),
            E::If(condition, then, els) => {
                if self.boolean(condition, environment)? {
                    self.block(then, environment)?
                } else {
                    self.block(els, environment)?
                }
            }
            E::Call(function, arguments) => {
                let function = self.run(function, environment)?;
                let arguments =
                    arguments.iter().map(|argument| self.run(argument, environment)).collect::<Result<Vec<_>, _>>()?;
                self.call(function, arguments)?
            }
            E::Lambda(lambda) => {
                V::Function(Rc::new(Closure { lambda: lambda.clone(), environment: environment.clone() }))
            }
            E::Record(index, fields) => {
                let mut values = vec![V::None; self.program.records[*index].len()];
                for (field, value) in fields {
                    values[*field] = self.run(value, environment)?;
                }
                V::Record(values.into())
            }
            E::Update(_, record, fields) => {
                let V::Record(values) = self.run(record, environment)? else { panic!("no record") };
                let mut values = values.to_vec();
                for (field, value) in fields {
                    values[*field] = self.run(value, environment)?;
                }
                V::Record(values.into())
            }
            E::Field(field, record) => match self.run(record, environment)? {
                V::Record(values) => values[*field].clone(),
                value => panic!("{value:?} is no record"),
            },
            E::List(_, elements) => {
                let mut values = vec![];
                for (spread, element) in elements {
                    if *spread {
                        values.extend(self.list(element, environment)?.iter().cloned());
                    } else {
                        values.push(self.run(element, environment)?);
                    }
                }
                self.pay(values.len())?;
                V::List(values.into())
            }
            E::Comprehension(_, element, clauses) => {
                let mut elements = vec![];
                self.iterate(clauses, element, environment, &mut elements)?;
                V::List(elements.into())
            }
            E::IfList(first, rest, list, then, els) => {
                let list = self.list(list, environment)?;
                match list.split_first() {
                    Some((element, others)) => {
                        let environment = bind(environment, first, V::Constant(element.clone().into()));
                        let environment = bind(&environment, rest, V::List(others.into()));
                        self.block(then, &environment)?
                    }
                    None => self.block(els, environment)?,
                }
            }
            E::IfMap(name, map, key, then, els) => {
                let map = self.map(map, environment)?;
                let key = self.run(key, environment)?;
                match map.iter().find(|(other, _)| equal(other, &key)) {
                    Some((_, value)) => self.block(then, &bind(environment, name, value.clone()))?,
                    None => self.block(els, environment)?,
                }
            }
            E::IfType(name, argument, branches, els) => {
                let value = self.run(argument, environment)?;
                let V::Variant(variant) = &value else { panic!("{value:?} is no variant") };
                for (type_, block) in branches {
                    if type_.members().contains(&variant.0) {
                        let value = if type_.variant() { value.clone() } else { variant.1.clone() };
                        return self.block(block, &bind(environment, name, value));
                    }
                }
                let (single, els) = els.as_ref().expect("a branch for each type");
                let value = if *single { variant.1.clone() } else { value.clone() };
                self.block(els, &bind(environment, name, value))?
            }
            E::Map(_, _, entries) => {
                let mut values: Vec<(V, V)> = vec![];
                let set = |values: &mut Vec<(V, V)>, key: V, value: V, wins: bool| {
                    match values.iter_mut().find(|(other, _)| equal(other, &key)) {
                        Some(entry) => {
                            if wins {
                                entry.1 = value;
                            }
                        }
                        None => values.push((key, value)),
                    }
                };
                for entry in entries {
                    match entry {
                        Entry::Single(key, value) => {
                            let key = self.run(key, environment)?;
                            let value = self.run(value, environment)?;
                            set(&mut values, key, value, true);
                        }
                        Entry::Spread(map) => {
                            for (key, value) in self.map(map, environment)?.iter() {
                                set(&mut values, key.clone(), value.clone(), !self.first_wins);
                            }
                        }
                    }
                }
                self.pay(values.len())?;
                V::Map(values.into())
            }
            E::Size(collection) => V::Number(match self.run(collection, environment)? {
                V::List(elements) => elements.len() as f64,
                V::Map(entries) => entries.len() as f64,
                value => panic!("{value:?} has no size"),
            }),
            E::Delete(map, key) => {
                let map = self.map(map, environment)?;
                let key = self.run(key, environment)?;
                V::Map(map.iter().filter(|(other, _)| !equal(other, &key)).cloned().collect())
            }
            E::Error(source) => {
                let value = self.run(source, environment)?;
                match &value {
                    V::Variant(variant) if variant.0 == Type::Error => variant.1.clone(),
                    _ => V::Error(value.into()),
                }
            }
            E::Source(error) => match self.run(error, environment)? {
                V::Error(value) => (*value).clone(),
                value => panic!("{value:?} is no error"),
            },
            E::Try(single, operand) => {
                let value = self.run(operand, environment)?;
                let V::Variant(variant) = &value else { panic!("{value:?} is no variant") };
                if variant.0 == Type::Error {
                    return Err(Exit::Return(value));
                }
                if *single { variant.1.clone() } else { value }
            }
            E::Coerce(from, _, value) => {
                let value = self.run(value, environment)?;
                if from.variant() { value } else { V::Variant(Rc::new((from.clone(), value))) }
            }
            E::Go(function) => {
                let function = self.run(function, environment)?;
                V::Constant(self.call(function, vec![])?.into())
            }
            E::Debug(value) => {
                let number = self.number(value, environment)?;
                self.output.extend(format!("{number}\n").bytes());
                V::None
            }
        })
    }

    fn pay(&mut self, amount: usize) -> Result<(), Exit> {
        if self.fuel < amount as u64 {
            return Err(Exit::Exhausted);
        }
        self.fuel -= amount as u64;
        Ok(())
    }
}
