//! Compiles Pen sources with the compiler's own stages, in the order in which
//! `lib/app` runs them.

use fnv::FnvHashMap;
use hir_mir::{
    CompileConfiguration, HashConfiguration, ListTypeConfiguration, MapTypeConfiguration,
    MapTypeIterationConfiguration, NumberTypeConfiguration, StringTypeConfiguration,
};
use mir::analysis::{
    alpha_conversion, environment_inference, lambda_lifting, normalization, optimization,
    reference_count, type_check, variant_type_collection,
};
use std::{cell::OnceCell, collections::BTreeMap, rc::Rc};

pub fn repository() -> String {
    std::env::var("PEN_REPOSITORY").unwrap_or_else(|_| "/repo".into())
}

const PRELUDE: &str = "prelude:";

/// The configuration that `cmd/pen` compiles with.
pub fn configuration() -> CompileConfiguration {
    let name = |name: &str| PRELUDE.to_owned() + name;

    CompileConfiguration {
        list_type: ListTypeConfiguration {
            empty_function_name: name("EmptyList"),
            concatenate_function_name: name("ConcatenateLists"),
            equal_function_name: name("EqualLists"),
            maybe_equal_function_name: name("MaybeEqualLists"),
            prepend_function_name: name("PrependToList"),
            deconstruct_function_name: name("FirstRest"),
            lazy_function_name: name("LazyList"),
            first_function_name: name("First"),
            rest_function_name: name("Rest"),
            list_type_name: name("List"),
            first_rest_type_name: name("FirstRest"),
            size_function_name: name("ListSize"),
            debug_function_name: name("DebugList"),
        },
        map_type: MapTypeConfiguration {
            context_function_name: name("NewMapContext"),
            context_type_name: name("MapContext"),
            empty_function_name: name("NewMap"),
            empty_type_name: name("Empty"),
            equal_function_name: name("EqualMaps"),
            maybe_equal_function_name: name("MaybeEqualMaps"),
            get_function_name: name("GetMap"),
            map_type_name: name("Map"),
            merge_function_name: name("MergeMaps"),
            delete_function_name: name("DeleteMap"),
            set_function_name: name("SetMap"),
            size_function_name: name("MapSize"),
            debug_function_name: name("DebugMap"),
            hash: HashConfiguration {
                combine_function_name: name("CombineHashes"),
                number_hash_function_name: name("HashNumber"),
                string_hash_function_name: name("HashString"),
                list_hash_function_name: name("HashList"),
                map_hash_function_name: name("HashMap"),
            },
            iteration: MapTypeIterationConfiguration {
                iterator_type_name: name("MapIterator"),
                iterate_function_name: name("IterateMap"),
                key_function_name: name("MapIteratorKey"),
                value_function_name: name("MapIteratorValue"),
                rest_function_name: name("MapIteratorRest"),
            },
        },
        number_type: NumberTypeConfiguration { debug_function_name: name("DebugNumber") },
        string_type: StringTypeConfiguration { equal_function_name: name("EqualStrings") },
        spawn_function_name: "_pen_spawn".into(),
        race_function_name: "_pen_race".into(),
        debug_function_name: "_pen_debug".into(),
    }
}

#[derive(Debug)]
pub enum Refusal {
    Syntax(parse::ParseError),
    /// A source is refused with a message for its author.
    Error(String),
}

#[derive(Clone)]
pub struct Compiled {
    pub module: Rc<mir::ir::Module>,
    pub interface: Rc<interface::Module>,
}

thread_local! {
    static PRELUDE_MODULES: OnceCell<Vec<Compiled>> = const { OnceCell::new() };
    static PRELUDE_STAGES: std::cell::RefCell<BTreeMap<usize, Vec<Rc<mir::ir::Module>>>> = const { std::cell::RefCell::new(BTreeMap::new()) };
    static PACKAGE_MODULES: std::cell::RefCell<BTreeMap<String, Compiled>> = const { std::cell::RefCell::new(BTreeMap::new()) };
}

pub fn prelude() -> Vec<Compiled> {
    PRELUDE_MODULES.with(|cell| {
        cell.get_or_init(|| {
            let directory = repository() + "/packages/prelude";
            let mut paths = std::fs::read_dir(&directory)
                .expect("prelude")
                .map(|entry| entry.expect("entry").path())
                .filter(|path| path.extension().is_some_and(|extension| extension == "pen"))
                .collect::<Vec<_>>();
            paths.sort();
            paths
                .iter()
                .map(|path| {
                    let source = std::fs::read_to_string(path).expect("source");
                    let ast = parse::parse(&source, &path.display().to_string()).expect("prelude syntax");
                    let hir = ast_hir::compile_prelude(&ast, PRELUDE).expect("prelude names");
                    let (module, interface) = hir_mir::compile_prelude(&hir).expect("prelude types");
                    Compiled { module: module.into(), interface: interface.into() }
                })
                .collect()
        })
        .clone()
    })
}

fn prelude_interfaces() -> Vec<interface::Module> {
    prelude().iter().map(|module| (*module.interface).clone()).collect()
}

/// Sources of one package, from which modules import each other.
pub trait Sources {
    fn read(&self, components: &[String]) -> Option<String>;
    fn name(&self) -> String;
}

pub struct Package(pub String);

impl Sources for Package {
    fn read(&self, components: &[String]) -> Option<String> {
        std::fs::read_to_string(format!("{}/{}/{}.pen", repository(), self.0, components.join("/"))).ok()
    }

    fn name(&self) -> String {
        self.0.clone()
    }
}

pub struct Files(pub Vec<(String, String)>);

impl Sources for Files {
    fn read(&self, components: &[String]) -> Option<String> {
        let name = components.join("/");
        self.0.iter().find(|(path, _)| path == &name).map(|(_, source)| source.clone())
    }

    fn name(&self) -> String {
        String::new()
    }
}

/// A program's modules in the order in which they were compiled.
pub type Modules = BTreeMap<String, Compiled>;

fn refuse(error: impl std::fmt::Display) -> Refusal {
    Refusal::Error(error.to_string())
}

fn interfaces(
    sources: &dyn Sources,
    ast: &ast::Module,
    modules: &mut Modules,
) -> Result<FnvHashMap<ast::ModulePath, interface::Module>, Refusal> {
    let mut interfaces = FnvHashMap::default();

    for import in ast.imports() {
        let compiled = match import.module_path() {
            ast::ModulePath::Internal(path) => compile_module(sources, path.components(), modules)?,
            ast::ModulePath::External(path) => compile_package(
                &Package(format!("packages/{}", path.package().to_lowercase())),
                path.components(),
                modules,
            )?,
        };
        interfaces.insert(import.module_path().clone(), (*compiled.interface).clone());
    }
    Ok(interfaces)
}

fn compile_package(sources: &Package, components: &[String], modules: &mut Modules) -> Result<Compiled, Refusal> {
    let name = format!("{}/{}", sources.name(), components.join("/"));
    if let Some(compiled) = PACKAGE_MODULES.with(|modules| modules.borrow().get(&name).cloned()) {
        // Its own imports are compiled too.
        if !modules.contains_key(&name) {
            let ast = parse(sources, components)?;
            modules.insert(name, compiled.clone());
            interfaces(sources, &ast, modules)?;
        }
        return Ok(compiled);
    }
    let compiled = compile_module(sources, components, modules)?;
    PACKAGE_MODULES.with(|modules| modules.borrow_mut().insert(name, compiled.clone()));
    Ok(compiled)
}

fn parse(sources: &dyn Sources, components: &[String]) -> Result<ast::Module, Refusal> {
    let path = format!("{}/{}.pen", sources.name(), components.join("/"));
    let Some(source) = sources.read(components) else {
        return Err(Refusal::Error(format!("no module {path}")));
    };

    parse::parse(&source, &path).map_err(Refusal::Syntax)
}

pub fn compile_module(sources: &dyn Sources, components: &[String], modules: &mut Modules) -> Result<Compiled, Refusal> {
    let name = format!("{}/{}", sources.name(), components.join("/"));
    if let Some(compiled) = modules.get(&name) {
        return Ok(compiled.clone());
    }
    let ast = parse(sources, components)?;
    let interfaces = interfaces(sources, &ast, modules)?;
    let hir =
        ast_hir::compile(&ast, &format!("{name}.pen:"), &interfaces, &prelude_interfaces()).map_err(refuse)?;
    let (module, interface) = hir_mir::compile(&hir, &configuration()).map_err(refuse)?;
    let compiled = Compiled { module: module.into(), interface: interface.into() };

    modules.insert(name, compiled.clone());
    Ok(compiled)
}

/// Compiles a test module, as `pen test` does.
pub fn compile_test(
    sources: &dyn Sources,
    components: &[String],
    modules: &mut Modules,
) -> Result<(mir::ir::Module, test_info::Module), Refusal> {
    let name = format!("{}/{}", sources.name(), components.join("/"));
    let ast = parse(sources, components)?;
    let interfaces = interfaces(sources, &ast, modules)?;
    let hir =
        ast_hir::compile(&ast, &format!("{name}.pen:"), &interfaces, &prelude_interfaces()).map_err(refuse)?;

    hir_mir::compile_test(
        &hir,
        &configuration(),
        &hir_mir::TestModuleConfiguration { test_function_prefix: "_pen_test_".into() },
    )
    .map_err(refuse)
}

/// Compiles one source.
pub fn compile(source: &str) -> Result<Modules, Refusal> {
    compile_files(&[("Main", source)])
}

/// Compiles a program of modules, of which the first one imports the others.
pub fn compile_files(files: &[(&str, &str)]) -> Result<Modules, Refusal> {
    let mut modules = Modules::new();
    let sources = Files(files.iter().map(|(name, source)| (name.to_string(), source.to_string())).collect());

    compile_module(&sources, &[files[0].0.to_string()], &mut modules)?;
    Ok(modules)
}

/// A program's modules and the prelude's after the first stages.
pub fn link(modules: &Modules, stages: usize) -> Result<Vec<Rc<mir::ir::Module>>, String> {
    let prelude = PRELUDE_STAGES.with(|cache| -> Result<_, String> {
        if let Some(modules) = cache.borrow().get(&stages) {
            return Ok(modules.clone());
        }
        let modules = prelude()
            .iter()
            .map(|module| Ok(transform(&module.module, stages)?.into()))
            .collect::<Result<Vec<Rc<_>>, String>>()?;
        cache.borrow_mut().insert(stages, modules.clone());
        Ok(modules)
    })?;
    let modules = modules
        .values()
        .map(|module| Ok(transform(&module.module, stages)?.into()))
        .collect::<Result<Vec<_>, String>>()?;

    Ok([prelude, modules].concat())
}

/// The stages that a module goes through before code is generated from it.
pub const STAGES: &[&str] = &[
    "string concatenation",
    "alpha conversion",
    "normalization",
    "environment inference",
    "lambda lifting",
    "reference count",
];

/// Runs the first stages, in the order of `mir_fmm::compile`.
pub fn transform(module: &mir::ir::Module, stages: usize) -> Result<mir::ir::Module, String> {
    let mut module = module.clone();
    type_check::check(&module).map_err(|error| error.to_string())?;

    for stage in 0..stages {
        module = match stage {
            0 => optimization::string_concatenation::transform(&module),
            1 => alpha_conversion::transform(&module),
            2 => normalization::transform(&module),
            3 => environment_inference::transform(&module),
            4 => lambda_lifting::transform(&module),
            _ => reference_count::transform(&module).map_err(|error| error.to_string())?,
        };
    }
    if stages >= 3 {
        type_check::check(&module).map_err(|error| error.to_string())?;
    }
    // Code generation looks up the information of each type that a variant may have.
    for type_ in &variant_type_collection::collect(&module) {
        if type_ != &mir::types::Type::Variant && !module.type_information().information().contains_key(type_) {
            return Err(format!("no type information for {type_:?}"));
        }
    }
    Ok(module)
}
