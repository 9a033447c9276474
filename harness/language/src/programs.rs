//! Contracts of parser and formatter on random programs.

use crate::{
    generate,
    print::{self, Blanks},
    random::{rounds, Random},
};
use ast::{Comment, Module};

/// Checks random programs and reports the shortest that fails.
fn programs(stream: u64, quick: usize, blanks: Blanks, check: impl Fn(&Module, &str, &[String]) -> Result<(), String>) {
    let mut shortest: Option<(usize, String)> = None;
    let mut failures = 0;
    for index in 0..rounds(quick, 40 * quick) {
        let mut random = Random::new(stream << 32 | index as u64);
        let size = random.below(4);
        let module = if random.chance(2) {
            generate::module(&mut random, size)
        } else {
            generate::function(&mut random, size)
        };
        let tokens = print::tokens(&module, &mut random);
        let (text, comments) = print::spell(&tokens, blanks, &mut random);
        if let Err(message) = check(&module, &text, &comments) {
            failures += 1;
            if shortest.as_ref().map(|(length, _)| text.len() < *length).unwrap_or(true) {
                shortest = Some((text.len(), format!("{message}\nprogram:\n{text}")));
            }
        }
    }
    if let Some((_, message)) = shortest {
        panic!("{failures} programs fail, the shortest of them:\n{message}");
    }
}

fn parse(text: &str) -> Result<Module, String> {
    parse::parse(text, "path").map_err(|error| format!("refused: {error}"))
}

fn parse_comments(text: &str) -> Result<Vec<Comment>, String> {
    parse::parse_comments(text, "path").map_err(|error| format!("comments refused: {error}"))
}

fn ensure(condition: bool, message: impl FnOnce() -> String) -> Result<(), String> {
    if condition {
        Ok(())
    } else {
        Err(message())
    }
}

/// Programs are read as the trees that the grammar gives them.
#[test]
fn programs_parse_as_their_trees() {
    programs(1, 4000, Blanks::Comments, |module, text, _| {
        let parsed = parse(text)?;
        ensure(&parsed == module, || format!("read as:\n{}\ninstead of:\n{}", print::meaning(&parsed), print::meaning(module)))
    });
}

/// Comments are found in order, wherever they are.
#[test]
fn comments_parse_in_order() {
    programs(2, 4000, Blanks::Comments, |_, text, comments| {
        let parsed = parse_comments(text)?;
        let found = parsed.iter().map(|comment| comment.line().trim_end()).collect::<Vec<_>>();
        ensure(found == comments, || format!("comments {found:?}"))?;
        for comment in &parsed {
            let line = text.split('\n').nth(comment.position().line_number() - 1).unwrap_or_default();
            ensure(line.trim_end().ends_with(&format!("#{}", comment.line().trim_end())), || format!("misplaced {comment:?}"))?;
        }
        Ok(())
    });
}

fn formatted(text: &str) -> Result<String, String> {
    Ok(format::format(&parse(text)?, &parse_comments(text)?))
}

/// Formatting keeps the meaning of a program.
fn keeps_meaning(stream: u64, blanks: Blanks) {
    programs(stream, 4000, blanks, |module, text, _| {
        let formatted = formatted(text)?;
        let again = parse(&formatted).map_err(|error| format!("formatted program refused: {error}\nformatted:\n{formatted}"))?;
        let (one, other) = (print::meaning(&again), print::meaning(module));
        ensure(one == other, || format!("means:\n{one}\ninstead of:\n{other}\nformatted:\n{formatted}"))
    });
}

#[test]
fn formatting_keeps_meaning() {
    keeps_meaning(3, Blanks::Space);
}

#[test]
fn formatting_keeps_meaning_among_comments() {
    keeps_meaning(4, Blanks::Comments);
}

/// Formatting keeps every comment, once and in order.
#[test]
fn formatting_keeps_comments() {
    programs(5, 4000, Blanks::Comments, |_, text, comments| {
        let formatted = formatted(text)?;
        let parsed = parse_comments(&formatted).map_err(|error| format!("formatted: {error}\n{formatted}"))?;
        // Comments that come together on a line become one.
        let squeeze = |text: String| text.replace(['#', ' '], "");
        let mut found = squeeze(parsed.iter().map(|comment| comment.line()).collect());
        let mut comments = squeeze(comments.concat());
        // Comments inside types and lists may change places.
        let sort = |text: String| {
            let mut characters = text.chars().collect::<Vec<_>>();
            characters.sort();
            characters.into_iter().collect::<String>()
        };
        found = sort(found);
        comments = sort(comments);
        ensure(found == comments, || format!("comments {found:?} instead of {comments:?}\nformatted:\n{formatted}"))
    });
}

/// Formatting declarations twice is formatting them once.
#[test]
fn formatting_declarations_is_stable() {
    for index in 0..rounds(4000, 160000) {
        let mut random = Random::new(6 << 32 | index as u64);
        let module = generate::declarations(&mut random);
        let tokens = print::tokens(&module, &mut random);
        let text = print::spell(&tokens, Blanks::Space, &mut random).0;
        let once = formatted(&text).unwrap();
        let twice = formatted(&once).unwrap();
        assert!(once == twice, "formatted once:\n{once}\ntwice:\n{twice}\nprogram:\n{text}");
    }
}
