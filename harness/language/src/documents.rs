//! Contract of package documentation.

use crate::random::{rounds, Random};
use ast::*;
use std::collections::{BTreeMap, HashSet};

struct Definition {
    /// Lines of comments right above.
    comments: Vec<String>,
    name: String,
    public: bool,
    source: String,
    shown: String,
}

fn comments(random: &mut Random, most: usize) -> Vec<String> {
    (0..random.below(most + 1)).map(|index| random.pick(&["Foo bar.", "baz", "a # b", "\"c", ""]).to_string() + &index.to_string()).collect()
}

fn name(random: &mut Random, index: usize) -> (String, bool) {
    let public = random.chance(2);
    (format!("{}{index}", if public { random.pick(&["Foo", "X", "BarBaz"]) } else { random.pick(&["foo", "_X", "barBaz"]) }), public)
}

fn definition(random: &mut Random, index: usize, function: bool) -> Definition {
    let (name, public) = name(random, index);
    let (source, shown) = if function {
        let signature = random.pick(&["\\() none", "\\(x number) number | none", "\\(x number, y \\() none) [number]", "\\(x {string: foo}) \\() none"]);
        (format!("{name} = {signature} {{\n  x\n}}"), signature.to_string())
    } else {
        match random.below(4) {
            0 => (format!("type {name} {{}}"), format!("type {name} {{}}")),
            1 => {
                let text = format!("type {name} {{\n  Foo number\n  Bar \\() none\n}}");
                (text.clone(), text)
            }
            2 => (
                format!("type {name} {{\n  {}\n}}", random.pick(&["foo number\n  Bar none", "Foo number\n  _secret none\n  Baz none", "Foo number\n  secret none"])),
                format!("type {name} {{\n  # ...\n}}"),
            ),
            _ => {
                let text = format!("type {name} = {}", random.pick(&["number", "foo | none", "\\(number) none", "[foo]"]));
                (text.clone(), text)
            }
        }
    };
    Definition { comments: comments(random, 3), name, public, source, shown }
}

fn commented(lines: &[String]) -> String {
    lines.iter().map(|line| format!("# {line}\n")).collect()
}

fn section(definitions: &[Definition], private: &HashSet<String>, title: &str, kind: &str) -> String {
    let shown = definitions.iter().filter(|definition| definition.public && !private.contains(&definition.name)).collect::<Vec<_>>();
    let mut text = format!("### {title}\n");
    if shown.is_empty() {
        text += &format!("\nNo {kind} are defined.\n");
    }
    for definition in shown {
        text += &format!("\n#### `{}`\n", definition.name);
        if !definition.comments.is_empty() {
            text += &format!("\n{}\n", definition.comments.join("\n"));
        }
        text += &format!("\n```pen\n{}\n```\n", definition.shown);
    }
    text
}

/// The documentation of a package shows its public modules, each with its
/// comment and its public definitions with theirs, and nothing else.
#[test]
fn documents_show_what_is_public() {
    for index in 0..rounds(1500, 60000) {
        let mut random = Random::new(40 << 32 | index as u64);
        let random = &mut random;
        let mut modules = BTreeMap::new();
        let mut sections = BTreeMap::new();
        let mut private = HashSet::new();
        for number in 0..random.below(4) {
            let components = (0..1 + random.below(2)).map(|index| name(random, 10 * number + index)).collect::<Vec<_>>();
            let public = components.iter().all(|component| component.1);
            let path: ModulePath = ExternalModulePath::new("Pack", components.iter().map(|component| component.0.clone()).collect()).into();
            let types = (0..random.below(4)).map(|index| definition(random, index, false)).collect::<Vec<_>>();
            let functions = (0..random.below(4)).map(|index| definition(random, index, true)).collect::<Vec<_>>();
            for definition in types.iter().chain(&functions) {
                if random.chance(8) {
                    private.insert(definition.name.clone());
                }
            }
            let head = comments(random, 3);
            let mut source = commented(&head);
            if !head.is_empty() {
                source += "\n";
                if random.chance(3) {
                    source += "# apart\n\n";
                }
            }
            if random.chance(2) {
                source += "import Foo'Bar\n\n";
            }
            for definition in types.iter().chain(&functions) {
                if random.chance(4) {
                    source += "# left alone\n\n";
                }
                source += &commented(&definition.comments);
                source += &definition.source;
                source += "\n\n";
            }
            // Without a comment at its head, what opens a module's first definition does not describe the module,
            // unless it is apart from it.
            if head.is_empty() && source.starts_with('#') && source.starts_with("# left alone") {
                source = format!("\n{source}");
            }
            let module = parse::parse(&source, "path").unwrap();
            let comments = parse::parse_comments(&source, "path").unwrap();
            if public {
                sections.insert(path.clone(), (head, types, functions, source));
            }
            modules.insert(path, (module, comments));
        }
        let document = doc::generate(
            &doc::Package { name: "Pack".into(), url: "https://foo.com/bar".into(), description: "Nice.".into(), type_: "library".into() },
            &modules,
            &doc::Configuration { language: "pen".into(), private_names: private.clone() },
        );
        let mut expected = "# `Pack` package\n\nNice.\n\n```json\n{\n  \"type\": \"library\"\n}\n```\n\n## Install\n\n```json\n{\n  \"dependencies\": {\n    \"Pack\": \"https://foo.com/bar\"\n  } \n}\n```\n".to_string();
        let mut sources = String::new();
        for (path, (head, types, functions, source)) in &sections {
            expected += &format!("\n## `{path}` module\n");
            if !head.is_empty() {
                expected += &format!("\n{}\n", head.join("\n"));
            }
            expected += &format!("\n{}", section(types, &private, "Types", "types"));
            expected += &format!("\n{}", section(functions, &private, "Functions", "functions"));
            sources += source;
        }
        assert!(document == expected, "document:\n{document}\nexpected:\n{expected}\nprivate: {private:?}\nsources:\n{sources}");
    }
}
