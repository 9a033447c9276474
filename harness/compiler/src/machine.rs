//! A machine that runs programs of the compiler's mid-level representation.
//!
//! Each operation does what `lib/mir-fmm` generates for it. With counting off,
//! values live for ever. With counting on, every string, closure and record has a
//! reference count which only the operations that the generated code counts with
//! change; a value whose count falls to zero is released, and touching it then
//! stops the machine.

use fnv::FnvHashMap;
use mir::{
    ir::*,
    types::{self, Type},
};
use std::{cell::RefCell, rc::Rc};

pub type Reference = usize;

#[derive(Clone, Debug)]
pub enum Value {
    None,
    Boolean(bool),
    Number(f64),
    Literal(Rc<[u8]>),
    String(Reference),
    Function(Reference),
    Record(Reference),
    Variant(Rc<(Type, Value)>),
}

/// How much of the generated code's bookkeeping a machine follows.
#[derive(Clone, Copy, Debug, Eq, PartialEq)]
pub enum Mode {
    /// Functions see the variables around them.
    Lexical,
    /// Functions see their environments.
    Environments,
    /// Functions see their environments, and references are counted.
    Counting,
}

#[derive(Debug)]
pub enum Stop {
    /// The program did something that no compiled program may do.
    Stuck(String),
    /// The program took too long for this machine.
    Exhausted,
}

enum Exit {
    Return(Value),
    Stop(Stop),
}

impl From<Stop> for Exit {
    fn from(stop: Stop) -> Self {
        Self::Stop(stop)
    }
}

fn stuck<T>(message: impl Into<String>) -> Result<T, Stop> {
    Err(Stop::Stuck(message.into()))
}

pub type Foreign = fn(&Machine, &[Value]) -> Result<Value, Stop>;

enum Body<'a> {
    String(Vec<u8>),
    Record(types::Record, Vec<Value>),
    Closure { definition: &'a FunctionDefinition, module: usize, environment: Vec<Value>, scope: Scope<'a>, global: bool },
    /// A thunk whose value is known.
    Evaluated(Value),
    Foreign(Foreign),
    Released,
}

struct Object<'a> {
    count: usize,
    fixed: bool,
    shared: bool,
    body: Body<'a>,
}

struct Entry<'a> {
    name: &'a str,
    value: Value,
    next: Scope<'a>,
}

type Scope<'a> = Option<Rc<Entry<'a>>>;

fn bind<'a>(scope: &Scope<'a>, name: &'a str, value: Value) -> Scope<'a> {
    Some(Rc::new(Entry { name, value, next: scope.clone() }))
}

pub struct Machine<'a> {
    mode: Mode,
    heap: RefCell<Vec<Object<'a>>>,
    free: RefCell<Vec<Reference>>,
    globals: Vec<FnvHashMap<&'a str, Value>>,
    public: FnvHashMap<String, Value>,
    exports: FnvHashMap<String, Value>,
    information: FnvHashMap<Type, Value>,
    fallbacks: Vec<Option<Value>>,
    fuel: RefCell<u64>,
    depth: RefCell<u64>,
    pub output: RefCell<Vec<u8>>,
}

const DEPTH: u64 = 20_000;

impl<'a> Machine<'a> {
    /// Links modules. Functions of one are seen by another when they are public.
    pub fn new(modules: &[&'a Module], foreign: &dyn Fn(&str) -> Option<Foreign>, mode: Mode, fuel: u64) -> Result<Self, Stop> {
        let mut machine = Self {
            mode,
            heap: Default::default(),
            free: Default::default(),
            globals: vec![],
            public: Default::default(),
            exports: Default::default(),
            information: Default::default(),
            fallbacks: vec![],
            fuel: fuel.into(),
            depth: 0.into(),
            output: Default::default(),
        };
        let mut exports = FnvHashMap::<String, Value>::default();

        for (index, module) in modules.iter().enumerate() {
            let mut globals = FnvHashMap::default();
            for definition in module.function_definitions() {
                let value = Value::Function(machine.allocate_fixed(Body::Closure {
                    definition: definition.definition(),
                    module: index,
                    environment: vec![],
                    scope: None,
                    global: true,
                }));
                let name = definition.definition().name();
                if definition.is_public() && machine.public.insert(name.into(), value.clone()).is_some() {
                    return stuck(format!("two public functions are called {name}"));
                }
                if globals.insert(name, value).is_some() {
                    return stuck(format!("two functions of a module are called {name}"));
                }
            }
            for definition in module.foreign_definitions() {
                exports.insert(definition.foreign_name().into(), globals[definition.name()].clone());
            }
            machine.globals.push(globals);
        }
        for (index, module) in modules.iter().enumerate() {
            for declaration in module.function_declarations() {
                if machine.globals[index].contains_key(declaration.name()) {
                    continue;
                }
                let Some(value) = machine.public.get(declaration.name()) else {
                    continue;
                };
                machine.globals[index].insert(declaration.name(), value.clone());
            }
            for declaration in module.foreign_declarations() {
                let name = declaration.foreign_name();
                let value = if let Some(value) = exports.get(name) {
                    value.clone()
                } else if let Some(function) = foreign(name) {
                    Value::Function(machine.allocate_fixed(Body::Foreign(function)))
                } else {
                    continue;
                };
                machine.globals[index].insert(declaration.name(), value);
            }
            for (type_, name) in module.type_information().information() {
                if let Some(value) = machine.globals[index].get(name.as_str()) {
                    machine.information.insert(type_.clone(), value.clone());
                }
            }
            let fallback = machine.globals[index].get(module.type_information().fallback()).cloned();
            machine.fallbacks.push(fallback);
        }
        machine.exports = exports;
        Ok(machine)
    }

    /// Calls a function by the name that foreign code knows it by.
    pub fn call_foreign(&self, name: &str, arguments: Vec<Value>) -> Result<Value, Stop> {
        match self.exports.get(name) {
            Some(function) => self.call(function.clone(), arguments),
            None => stuck(format!("{name} is not exported")),
        }
    }

    pub fn call_global(&self, name: &str, arguments: Vec<Value>) -> Result<Value, Stop> {
        match self.public.get(name) {
            Some(function) => self.call(function.clone(), arguments),
            None => stuck(format!("{name} is not a public function")),
        }
    }

    pub fn has_global(&self, name: &str) -> bool {
        self.public.contains_key(name)
    }

    /// Values which nothing refers to any more but which have not been released.
    /// Global constants keep what they were evaluated to.
    pub fn leaks(&self) -> Vec<String> {
        let heap = self.heap.borrow();
        let mut kept = vec![false; heap.len()];
        let mut pending = heap
            .iter()
            .filter_map(|object| match (&object.body, object.fixed) {
                (Body::Evaluated(value), true) => Self::reference(value),
                _ => None,
            })
            .collect::<Vec<_>>();

        while let Some(reference) = pending.pop() {
            if std::mem::replace(&mut kept[reference], true) {
                continue;
            }
            match &heap[reference].body {
                Body::Record(_, fields) => pending.extend(fields.iter().filter_map(Self::reference)),
                Body::Closure { environment, .. } => pending.extend(environment.iter().filter_map(Self::reference)),
                Body::Evaluated(value) => pending.extend(Self::reference(value)),
                _ => {}
            }
        }
        heap.iter()
            .enumerate()
            .filter(|(index, object)| !object.fixed && !kept[*index])
            .filter_map(|(index, object)| {
                Some(match &object.body {
                    Body::Released => return None,
                    Body::String(bytes) => format!("{index}: string {:?} x{}", String::from_utf8_lossy(bytes), object.count),
                    Body::Record(_, fields) => format!("{index}: record {fields:?} x{}", object.count),
                    Body::Closure { definition, .. } => format!("{index}: closure {} x{}", definition.name(), object.count),
                    Body::Evaluated(value) => format!("{index}: thunk {value:?} x{}", object.count),
                    Body::Foreign(_) => format!("{index}: foreign"),
                })
            })
            .collect()
    }

    fn allocate(&self, body: Body<'a>) -> Reference {
        let object = Object { count: 1, fixed: false, shared: false, body };
        let mut heap = self.heap.borrow_mut();
        heap.push(object);
        heap.len() - 1
    }

    fn allocate_fixed(&self, body: Body<'a>) -> Reference {
        let reference = self.allocate(body);
        self.heap.borrow_mut()[reference].fixed = true;
        reference
    }

    pub fn record(&self, name: &str, fields: Vec<Value>) -> Value {
        Value::Record(self.allocate(Body::Record(types::Record::new(name), fields)))
    }

    pub fn string(&self, bytes: Vec<u8>) -> Value {
        if bytes.is_empty() {
            Value::Literal(Rc::new([]))
        } else {
            Value::String(self.allocate(Body::String(bytes)))
        }
    }

    pub fn bytes(&self, value: &Value) -> Result<Vec<u8>, Stop> {
        match value {
            Value::Literal(bytes) => Ok(bytes.to_vec()),
            Value::String(reference) => match &self.heap.borrow()[*reference].body {
                Body::String(bytes) => Ok(bytes.clone()),
                Body::Released => stuck("a released string is read"),
                _ => stuck("no string"),
            },
            value => stuck(format!("no string: {value:?}")),
        }
    }

    pub fn record_name(&self, value: &Value) -> Option<String> {
        match value {
            Value::Record(reference) => match &self.heap.borrow()[*reference].body {
                Body::Record(type_, _) => Some(type_.name().into()),
                _ => None,
            },
            _ => None,
        }
    }

    pub fn fields(&self, value: &Value) -> Result<Vec<Value>, Stop> {
        match value {
            Value::Record(reference) => match &self.heap.borrow()[*reference].body {
                Body::Record(_, fields) => Ok(fields.clone()),
                Body::Released => stuck("a released record is read"),
                _ => stuck("no record"),
            },
            value => stuck(format!("no record: {value:?}")),
        }
    }

    fn reference(value: &Value) -> Option<Reference> {
        match value {
            Value::String(reference) | Value::Function(reference) | Value::Record(reference) => Some(*reference),
            Value::Variant(variant) => Self::reference(&variant.1),
            _ => None,
        }
    }

    pub fn clone_value(&self, value: &Value) -> Result<Value, Stop> {
        if self.mode == Mode::Counting {
            if let Some(reference) = Self::reference(value) {
                let object = &mut self.heap.borrow_mut()[reference];
                if matches!(object.body, Body::Released) {
                    return stuck(format!("a released value is cloned: {value:?}"));
                }
                if !object.fixed {
                    object.count += 1;
                }
            }
        }
        Ok(value.clone())
    }

    pub fn drop_value(&self, value: &Value) -> Result<(), Stop> {
        if self.mode != Mode::Counting {
            return Ok(());
        }
        let mut pending = vec![value.clone()];
        while let Some(value) = pending.pop() {
            let Some(reference) = Self::reference(&value) else {
                continue;
            };
            let object = &mut self.heap.borrow_mut()[reference];
            if matches!(object.body, Body::Released) {
                return stuck(format!("a released value is dropped: {value:?}"));
            }
            if object.fixed {
                continue;
            }
            object.count -= 1;
            if object.count == 0 {
                match std::mem::replace(&mut object.body, Body::Released) {
                    Body::Record(_, fields) => pending.extend(fields),
                    Body::Closure { environment, .. } => pending.extend(environment),
                    Body::Evaluated(value) => pending.push(value),
                    _ => {}
                }
            }
        }
        Ok(())
    }

    fn synchronize(&self, value: &Value) -> Result<(), Stop> {
        let mut pending = vec![value.clone()];
        while let Some(value) = pending.pop() {
            let Some(reference) = Self::reference(&value) else {
                continue;
            };
            let object = &mut self.heap.borrow_mut()[reference];
            if matches!(object.body, Body::Released) {
                return stuck("a released value is shared");
            }
            if object.shared || object.fixed {
                continue;
            }
            object.shared = true;
            match &object.body {
                Body::Record(_, fields) => pending.extend(fields.iter().cloned()),
                Body::Closure { environment, .. } => pending.extend(environment.iter().cloned()),
                Body::Evaluated(value) => pending.push(value.clone()),
                _ => {}
            }
        }
        Ok(())
    }

    /// Whether everything that a value reaches is marked as shared.
    pub fn is_shared(&self, value: &Value) -> bool {
        let mut pending = vec![value.clone()];
        let mut seen = std::collections::HashSet::new();
        while let Some(value) = pending.pop() {
            let Some(reference) = Self::reference(&value) else {
                continue;
            };
            let object = &self.heap.borrow()[reference];
            if object.fixed || !seen.insert(reference) {
                continue;
            }
            if !object.shared {
                return false;
            }
            match &object.body {
                Body::Record(_, fields) => pending.extend(fields.iter().cloned()),
                Body::Closure { environment, .. } => pending.extend(environment.iter().cloned()),
                Body::Evaluated(value) => pending.push(value.clone()),
                _ => {}
            }
        }
        true
    }

    /// Calls a function, which takes over the handles to itself and its arguments.
    pub fn call(&self, function: Value, arguments: Vec<Value>) -> Result<Value, Stop> {
        let Value::Function(reference) = function else {
            return stuck(format!("{function:?} is called"));
        };
        {
            let mut depth = self.depth.borrow_mut();
            *depth += 1;
            if *depth > DEPTH {
                return Err(Stop::Exhausted);
            }
        }
        let result = self.call_closure(reference, arguments);
        *self.depth.borrow_mut() -= 1;
        result
    }

    fn call_closure(&self, reference: Reference, arguments: Vec<Value>) -> Result<Value, Stop> {
        enum Target<'a> {
            Foreign(Foreign),
            Evaluated(Value),
            Closure(&'a FunctionDefinition, usize, Vec<Value>, Scope<'a>, bool),
        }

        let target = match &self.heap.borrow()[reference].body {
            Body::Foreign(function) => Target::Foreign(*function),
            Body::Evaluated(value) => Target::Evaluated(value.clone()),
            Body::Closure { definition, module, environment, scope, global } => {
                Target::Closure(definition, *module, environment.clone(), scope.clone(), *global)
            }
            Body::Released => return stuck("a released closure is called"),
            _ => return stuck("no closure is called"),
        };
        let function = Value::Function(reference);

        match target {
            Target::Foreign(foreign) => {
                let value = foreign(self, &arguments)?;
                for argument in &arguments {
                    self.drop_value(argument)?;
                }
                Ok(value)
            }
            Target::Evaluated(value) => {
                let value = self.clone_value(&value)?;
                self.drop_value(&function)?;
                Ok(value)
            }
            Target::Closure(definition, module, environment, mut scope, global) => {
                if arguments.len() != definition.arguments().len() {
                    return stuck(format!("{} is called with {} arguments", definition.name(), arguments.len()));
                }
                if self.mode != Mode::Lexical && environment.len() != definition.environment().len() {
                    return stuck(format!("{} has another environment", definition.name()));
                }
                if definition.is_thunk() {
                    self.clone_value(&function)?;
                }
                for (argument, value) in definition.environment().iter().zip(&environment) {
                    scope = bind(&scope, argument.name(), self.clone_value(value)?);
                }
                if !global {
                    scope = bind(&scope, definition.name(), function.clone());
                }
                for (argument, value) in definition.arguments().iter().zip(arguments) {
                    self.check_type(&value, argument.type_(), definition.name())?;
                    scope = bind(&scope, argument.name(), value);
                }
                let value = match self.run(definition.body(), &scope, module) {
                    Ok(value) | Err(Exit::Return(value)) => value,
                    Err(Exit::Stop(stop)) => return Err(stop),
                };
                self.check_type(&value, definition.result_type(), definition.name())?;
                if definition.is_thunk() {
                    for value in &environment {
                        self.drop_value(value)?;
                    }
                    let stored = self.clone_value(&value)?;
                    self.heap.borrow_mut()[reference].body = Body::Evaluated(stored);
                    self.drop_value(&function)?;
                }
                Ok(value)
            }
        }
    }

    fn check_type(&self, value: &Value, type_: &Type, place: &str) -> Result<(), Stop> {
        let right = match type_ {
            Type::None => matches!(value, Value::None),
            Type::Boolean => matches!(value, Value::Boolean(_)),
            Type::Number => matches!(value, Value::Number(_)),
            Type::ByteString => matches!(value, Value::Literal(_) | Value::String(_)),
            Type::Function(_) => matches!(value, Value::Function(_)),
            Type::Record(record) => self.record_name(value).is_some_and(|name| name == record.name()),
            Type::Variant => matches!(value, Value::Variant(_)),
        };
        if right {
            Ok(())
        } else {
            stuck(format!("{value:?} is no {type_:?} in {place}"))
        }
    }

    fn variable(&self, name: &str, scope: &Scope<'a>, module: usize) -> Result<Value, Stop> {
        let mut entry = scope.as_ref();
        while let Some(here) = entry {
            if here.name == name {
                return Ok(here.value.clone());
            }
            entry = here.next.as_ref();
        }
        match self.globals[module].get(name) {
            Some(value) => Ok(value.clone()),
            None => stuck(format!("{name} is not bound")),
        }
    }

    fn local(name: &str, scope: &Scope<'a>) -> Option<Value> {
        let mut entry = scope.as_ref();
        while let Some(here) = entry {
            if here.name == name {
                return Some(here.value.clone());
            }
            entry = here.next.as_ref();
        }
        None
    }

    fn run(&self, expression: &'a Expression, scope: &Scope<'a>, module: usize) -> Result<Value, Exit> {
        {
            let mut fuel = self.fuel.borrow_mut();
            if *fuel == 0 {
                return Err(Stop::Exhausted.into());
            }
            *fuel -= 1;
        }
        let run = |expression: &'a Expression| self.run(expression, scope, module);

        Ok(match expression {
            Expression::ArithmeticOperation(operation) => {
                let lhs = run(operation.lhs())?;
                let rhs = run(operation.rhs())?;
                let (Value::Number(lhs), Value::Number(rhs)) = (&lhs, &rhs) else {
                    return Ok(stuck(format!("arithmetic on {lhs:?} and {rhs:?}"))?);
                };
                Value::Number(match operation.operator() {
                    ArithmeticOperator::Add => lhs + rhs,
                    ArithmeticOperator::Subtract => lhs - rhs,
                    ArithmeticOperator::Multiply => lhs * rhs,
                    ArithmeticOperator::Divide => lhs / rhs,
                })
            }
            Expression::Boolean(value) => Value::Boolean(*value),
            Expression::ByteString(string) => Value::Literal(string.value().into()),
            Expression::None => Value::None,
            Expression::Number(number) => Value::Number(*number),
            Expression::Call(call) => {
                let function = run(call.function())?;
                let arguments = call.arguments().iter().map(run).collect::<Result<Vec<_>, _>>()?;
                for (argument, type_) in arguments.iter().zip(call.type_().arguments()) {
                    self.check_type(argument, type_, "an argument")?;
                }
                let value = self.call(function, arguments)?;
                self.check_type(&value, call.type_().result(), "a result")?;
                value
            }
            Expression::Case(case) => {
                let argument = run(case.argument())?;
                let Value::Variant(variant) = &argument else {
                    return Ok(stuck(format!("case on {argument:?}"))?);
                };
                for alternative in case.alternatives() {
                    if alternative.types().contains(&variant.0) {
                        let value = if alternative.types().len() == 1 { variant.1.clone() } else { argument.clone() };
                        return self.run(alternative.expression(), &bind(scope, alternative.name(), value), module);
                    }
                }
                match case.default_alternative() {
                    Some(alternative) => {
                        return self.run(alternative.expression(), &bind(scope, alternative.name(), argument), module)
                    }
                    None => stuck(format!(
                        "no alternative for {:?} among {:?}",
                        variant.0,
                        case.alternatives().iter().map(|alternative| alternative.types()).collect::<Vec<_>>()
                    ))?,
                }
            }
            Expression::CloneVariables(clone) => {
                for name in clone.variables().keys() {
                    if let Some(value) = Self::local(name, scope) {
                        self.clone_value(&value)?;
                    } else {
                        self.variable(name, scope, module)?;
                    }
                }
                run(clone.expression())?
            }
            Expression::DropVariables(drop) => {
                for name in drop.variables().keys() {
                    if let Some(value) = Self::local(name, scope) {
                        self.drop_value(&value)?;
                    } else {
                        self.variable(name, scope, module)?;
                    }
                }
                run(drop.expression())?
            }
            Expression::ComparisonOperation(operation) => {
                let lhs = run(operation.lhs())?;
                let rhs = run(operation.rhs())?;
                let order = match (&lhs, &rhs) {
                    (Value::Number(lhs), Value::Number(rhs)) => lhs.partial_cmp(rhs),
                    (Value::Boolean(lhs), Value::Boolean(rhs)) => lhs.partial_cmp(rhs),
                    _ => stuck(format!("{lhs:?} is compared with {rhs:?}"))?,
                };
                Value::Boolean(match operation.operator() {
                    ComparisonOperator::Equal => order.is_some_and(|order| order.is_eq()),
                    ComparisonOperator::NotEqual => !order.is_some_and(|order| order.is_eq()),
                    ComparisonOperator::LessThan => order.is_some_and(|order| order.is_lt()),
                    ComparisonOperator::GreaterThan => order.is_some_and(|order| order.is_gt()),
                    ComparisonOperator::LessThanOrEqual => order.is_some_and(|order| order.is_le()),
                    ComparisonOperator::GreaterThanOrEqual => order.is_some_and(|order| order.is_ge()),
                })
            }
            Expression::If(if_) => match run(if_.condition())? {
                Value::Boolean(true) => run(if_.then())?,
                Value::Boolean(false) => run(if_.else_())?,
                value => stuck(format!("{value:?} is a condition"))?,
            },
            Expression::Let(let_) => {
                let value = run(let_.bound_expression())?;
                self.check_type(&value, let_.type_(), let_.name())?;
                self.run(let_.expression(), &bind(scope, let_.name(), value), module)?
            }
            Expression::LetRecursive(let_) => {
                let definition = let_.definition();
                let environment = if self.mode == Mode::Lexical {
                    vec![]
                } else {
                    definition
                        .environment()
                        .iter()
                        .map(|variable| self.variable(variable.name(), scope, module))
                        .collect::<Result<Vec<_>, _>>()?
                };
                for (argument, value) in definition.environment().iter().zip(&environment) {
                    self.check_type(value, argument.type_(), definition.name())?;
                }
                let closure =
                    Value::Function(self.allocate(Body::Closure {
                        definition,
                        module,
                        environment,
                        scope: if self.mode == Mode::Lexical { scope.clone() } else { None },
                        global: false,
                    }));
                self.run(let_.expression(), &bind(scope, definition.name(), closure), module)?
            }
            Expression::Synchronize(synchronize) => {
                let value = run(synchronize.expression())?;
                self.check_type(&value, synchronize.type_(), "synchronization")?;
                self.synchronize(&value)?;
                value
            }
            Expression::Record(record) => {
                let fields = record.fields().iter().map(run).collect::<Result<Vec<_>, _>>()?;
                Value::Record(self.allocate(Body::Record(record.type_().clone(), fields)))
            }
            Expression::RecordField(field) => {
                let record = run(field.record())?;
                let value = match self.fields(&record)?.get(field.index()) {
                    Some(value) => self.clone_value(value)?,
                    None => stuck("a field is missing")?,
                };
                self.drop_value(&record)?;
                value
            }
            Expression::RecordUpdate(update) => {
                let record = run(update.record())?;
                let updates = update
                    .fields()
                    .iter()
                    .map(|field| Ok((field.index(), run(field.expression())?)))
                    .collect::<Result<Vec<_>, Exit>>()?;
                let mut fields = self.fields(&record)?;
                let Value::Record(reference) = record else {
                    return Ok(stuck("no record")?);
                };
                let unique = {
                    let object = &self.heap.borrow()[reference];
                    self.mode == Mode::Counting && !object.fixed && object.count == 1
                };
                if updates.iter().any(|(index, _)| *index >= fields.len()) {
                    return Ok(stuck("a field is missing")?);
                }
                if unique {
                    for (index, value) in updates {
                        self.drop_value(&fields[index])?;
                        fields[index] = value;
                    }
                    self.heap.borrow_mut()[reference].body = Body::Record(update.type_().clone(), fields);
                    record
                } else {
                    for (index, value) in updates.iter() {
                        fields[*index] = value.clone();
                    }
                    for (index, value) in fields.iter().enumerate() {
                        if !updates.iter().any(|(updated, _)| *updated == index) {
                            self.clone_value(value)?;
                        }
                    }
                    self.drop_value(&record)?;
                    Value::Record(self.allocate(Body::Record(update.type_().clone(), fields)))
                }
            }
            Expression::StringConcatenation(concatenation) => {
                let operands = concatenation.operands().iter().map(run).collect::<Result<Vec<_>, _>>()?;
                let mut bytes = vec![];
                for operand in &operands {
                    bytes.extend(self.bytes(operand)?);
                }
                for operand in &operands {
                    self.drop_value(operand)?;
                }
                // The generated code makes a new block even for no bytes.
                Value::String(self.allocate(Body::String(bytes)))
            }
            Expression::TryOperation(operation) => {
                let operand = run(operation.operand())?;
                let Value::Variant(variant) = &operand else {
                    return Ok(stuck(format!("{operand:?} is tried"))?);
                };
                if &variant.0 == operation.type_() {
                    let value =
                        self.run(operation.then(), &bind(scope, operation.name(), variant.1.clone()), module)?;
                    return Err(Exit::Return(value));
                }
                operand
            }
            Expression::TypeInformationFunction(information) => {
                let value = run(information.variant())?;
                let Value::Variant(variant) = &value else {
                    return Ok(stuck(format!("{value:?} has no type information"))?);
                };
                let function = match (self.information.get(&variant.0), &self.fallbacks[module]) {
                    (Some(function), _) | (None, Some(function)) => function.clone(),
                    (None, None) => stuck(format!("no type information for {:?}", variant.0))?,
                };
                self.drop_value(&value)?;
                function
            }
            Expression::Variable(variable) => self.variable(variable.name(), scope, module)?,
            Expression::Variant(variant) => {
                let value = run(variant.payload())?;
                if variant.type_() == &Type::Variant {
                    return Ok(stuck("a variant of a variant")?);
                }
                self.check_type(&value, variant.type_(), "a variant")?;
                Value::Variant(Rc::new((variant.type_().clone(), value)))
            }
        })
    }

}
