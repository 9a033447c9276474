//! Turns proof harnesses into ordinary tests of the compiled code.
use proc_macro::TokenStream;

fn name(item: &TokenStream) -> String {
    let mut tokens = item.clone().into_iter();
    while let Some(token) = tokens.next() {
        if token.to_string() == "fn" {
            return tokens.next().unwrap().to_string();
        }
    }
    panic!("not a function")
}

#[proc_macro_attribute]
pub fn proof(_: TokenStream, item: TokenStream) -> TokenStream {
    let text = item.to_string();
    let name = name(&item);
    // Stubs only exist for the verifier. Two of them merely simplify.
    let squeezed: String = text.chars().filter(|character| !character.is_whitespace()).collect();
    let run = if squeezed.matches("kani::stub(").count() != squeezed.matches("kani::stub(core::result::unwrap_failed,").count() + squeezed.matches("free_stub)").count() {
        String::new()
    } else {
        format!("#[test] fn native_{name}() {{ ::kani::native::run(concat!(module_path!(), \"::{name}\"), {name}) }}")
    };
    let mut output: TokenStream = run.parse().unwrap();
    output.extend(item);
    output
}

#[proc_macro_attribute]
pub fn unwind(_: TokenStream, item: TokenStream) -> TokenStream {
    item
}

#[proc_macro_attribute]
pub fn stub(_: TokenStream, item: TokenStream) -> TokenStream {
    item
}

#[proc_macro_attribute]
pub fn solver(_: TokenStream, item: TokenStream) -> TokenStream {
    item
}

/// Supports structs without type parameters.
#[proc_macro_derive(Arbitrary)]
pub fn arbitrary(item: TokenStream) -> TokenStream {
    use proc_macro::{Delimiter, TokenTree};
    let tokens: Vec<TokenTree> = item.into_iter().collect();
    let position = tokens.iter().position(|token| token.to_string() == "struct").expect("a struct");
    let name = tokens[position + 1].to_string();
    let fields = tokens[position + 2..].iter().find_map(|token| match token {
        TokenTree::Group(group) => Some(group.clone()),
        _ => None,
    });
    let body = match fields {
        None => String::new(),
        Some(group) => {
            let mut depth = 0;
            let mut fields = vec![String::new()];
            for token in group.stream() {
                match token.to_string().as_str() {
                    "<" => depth += 1,
                    ">" => depth -= 1,
                    "," if depth == 0 => {
                        fields.push(String::new());
                        continue;
                    }
                    _ => {}
                }
                let last = fields.last_mut().unwrap();
                last.push(' ');
                last.push_str(&token.to_string());
            }
            let fields: Vec<_> = fields.iter().map(|field| field.trim()).filter(|field| !field.is_empty()).collect();
            if group.delimiter() == Delimiter::Brace {
                let text: String = fields
                    .iter()
                    .map(|field| format!("{}: ::kani::any(),", field.split(':').next().unwrap().trim().trim_start_matches("pub ").trim()))
                    .collect();
                format!("{{ {text} }}")
            } else {
                format!("({})", "::kani::any(),".repeat(fields.len()))
            }
        }
    };
    format!("impl ::kani::Arbitrary for {name} {{ fn any() -> Self {{ {name}{body} }} }}").parse().unwrap()
}
