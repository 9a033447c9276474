//! Contracts of operations on strings as text, executed on all short strings
//! of a small alphabet with encodings of every length.
#[cfg(test)]
mod bounded {
    extern crate std;

    use super::super::*;
    use crate::contracts::*;
    use ffi::ByteString;
    use std::{format, prelude::v1::*, string::String, vec, vec::Vec};

    const LETTERS: [char; 5] = ['a', 'B', ' ', 'é', '🗿'];

    fn texts(length: usize) -> Vec<Vec<char>> {
        let mut texts = vec![vec![]];
        let mut last = 0;
        for _ in 0..length {
            let end = texts.len();
            for index in last..end {
                for letter in LETTERS {
                    let mut text: Vec<char> = texts[index].clone();
                    text.push(letter);
                    texts.push(text);
                }
            }
            last = end;
        }
        texts
    }

    fn string(text: &[char]) -> ByteString {
        text.iter().collect::<String>().into()
    }

    fn same(one: ByteString, other: &[char], what: &str, of: &[char]) {
        assert!(one == string(other), "{what} of {of:?}: {:?} instead of {other:?}", String::from_utf8_lossy(one.as_slice()));
    }

    fn list(list: ffi::List) -> Vec<ByteString> {
        elements(&list).iter().map(|any| <&Text>::try_from(any).unwrap().0.clone()).collect()
    }

    fn position(text: &[char], pattern: &[char]) -> Option<usize> {
        (0..=text.len()).find(|&index| text[index..].starts_with(pattern))
    }

    fn split(text: &[char], pattern: &[char]) -> Vec<Vec<char>> {
        match position(text, pattern) {
            None => vec![text.to_vec()],
            Some(index) => {
                let mut parts = vec![text[..index].to_vec()];
                parts.extend(split(&text[index + pattern.len()..], pattern));
                parts
            }
        }
    }

    #[test]
    fn lengths_and_characters() {
        for text in texts(5) {
            assert!(f64::from(_pen_core_utf8_length(string(&text))) == text.len() as f64, "{text:?}");
            let characters = list(_pen_core_utf8_characters(string(&text)));
            assert!(characters == text.iter().map(|&letter| string(&[letter])).collect::<Vec<_>>(), "{text:?}");
        }
    }

    #[test]
    fn slices() {
        let bounds = [-1.0, 0.0, 0.5, 1.0, 1.5, 2.0, 3.0, 4.0, 5.0, 6.0, 1e300, f64::INFINITY, f64::NEG_INFINITY];
        for text in texts(4) {
            for start in bounds {
                for end in bounds {
                    let first = if start >= 1.0 { start as usize } else { 1 };
                    let last = if end >= text.len() as f64 { text.len() } else if end >= 1.0 { end as usize } else { 0 };
                    let expected = if first <= last { &text[first - 1..last] } else { &[] };
                    same(
                        _pen_core_utf8_slice(string(&text), start.into(), end.into()),
                        expected,
                        &format!("slice {start} {end}"),
                        &text,
                    );
                }
            }
        }
    }

    #[test]
    fn searches() {
        for text in texts(4) {
            for pattern in texts(2) {
                let found = position(&text, &pattern);
                let arguments = || (string(&text), string(&pattern));
                let call = |function: extern "C" fn(ByteString, ByteString) -> ffi::Boolean| {
                    let (text, pattern) = arguments();
                    bool::from(function(text, pattern))
                };
                assert!(call(_pen_core_utf8_contains) == found.is_some(), "{text:?} {pattern:?}");
                assert!(call(_pen_core_utf8_starts_with) == text.starts_with(&pattern), "{text:?} {pattern:?}");
                assert!(call(_pen_core_utf8_ends_with) == text.ends_with(&pattern), "{text:?} {pattern:?}");
                if !pattern.is_empty() {
                    let (one, other) = arguments();
                    let index: f64 = _pen_core_utf8_find(one, other).into();
                    assert!(index == found.map_or(-1.0, |index| index as f64 + 1.0), "{text:?} {pattern:?}");
                }
            }
        }
    }

    #[test]
    fn splits_and_replacements() {
        for text in texts(4) {
            for pattern in texts(2) {
                if pattern.is_empty() {
                    continue;
                }
                let parts = split(&text, &pattern);
                let strings = list(_pen_core_utf8_split(string(&text), string(&pattern)));
                assert!(strings == parts.iter().map(|part| string(part)).collect::<Vec<_>>(), "{text:?} {pattern:?}");
                for replacement in texts(1) {
                    let expected = parts.join(&replacement[..]);
                    same(
                        _pen_core_utf8_replace(string(&text), string(&pattern), string(&replacement)),
                        &expected,
                        &format!("replacement of {pattern:?} by {replacement:?}"),
                        &text,
                    );
                }
            }
        }
    }

    #[test]
    fn trims_and_cases() {
        for text in texts(4) {
            let start = text.iter().position(|&letter| letter != ' ').unwrap_or(text.len());
            let end = text.iter().rposition(|&letter| letter != ' ').map_or(0, |index| index + 1);
            same(_pen_core_utf8_trim_start(string(&text)), &text[start..], "trim start", &text);
            same(_pen_core_utf8_trim_end(string(&text)), &text[..end], "trim end", &text);
            same(_pen_core_utf8_trim(string(&text)), if start < end { &text[start..end] } else { &[] }, "trim", &text);
            let lower = text.iter().map(|&letter| if letter == 'B' { 'b' } else { letter }).collect::<Vec<_>>();
            same(_pen_core_utf8_to_lowercase(string(&text)), &lower, "lower case", &text);
            let upper = text
                .iter()
                .map(|&letter| match letter {
                    'a' => 'A',
                    'é' => 'É',
                    letter => letter,
                })
                .collect::<Vec<_>>();
            same(_pen_core_utf8_to_uppercase(string(&text)), &upper, "upper case", &text);
            for pattern in texts(2) {
                if pattern.is_empty() {
                    continue;
                }
                let mut rest = &text[..];
                while rest.starts_with(&pattern) {
                    rest = &rest[pattern.len()..];
                }
                same(
                    _pen_core_utf8_trim_start_matches(string(&text), string(&pattern)),
                    rest,
                    &format!("trim start of {pattern:?}"),
                    &text,
                );
                let mut rest = &text[..];
                while rest.ends_with(&pattern) {
                    rest = &rest[..rest.len() - pattern.len()];
                }
                same(
                    _pen_core_utf8_trim_end_matches(string(&text), string(&pattern)),
                    rest,
                    &format!("trim end of {pattern:?}"),
                    &text,
                );
            }
        }
    }

    /// What is no text is left as it is, and contains and matches nothing.
    #[test]
    fn broken_text() {
        let text = || ByteString::from("a b");
        for bytes in [&[0xff][..], &[b'a', 0x80], &[0xc3], &[0xed, 0xa0, 0x80], &[b' ', 0xc0, 0x80, b' ']] {
            let broken = || ByteString::from(bytes);
            assert!(f64::from(_pen_core_utf8_length(broken())).is_nan());
            assert!(elements(&_pen_core_utf8_characters(broken())).is_empty());
            assert!(_pen_core_utf8_slice(broken(), 1.0.into(), 9.0.into()) == ByteString::default());
            for (one, other) in [(broken(), text()), (text(), broken()), (broken(), broken())] {
                assert!(!bool::from(_pen_core_utf8_contains(one.clone(), other.clone())));
                assert!(!bool::from(_pen_core_utf8_starts_with(one.clone(), other.clone())));
                assert!(!bool::from(_pen_core_utf8_ends_with(one.clone(), other.clone())));
                assert!(f64::from(_pen_core_utf8_find(one.clone(), other.clone())) == -1.0);
                assert!(list(_pen_core_utf8_split(one.clone(), other.clone())) == [one.clone()]);
                assert!(_pen_core_utf8_replace(one.clone(), other.clone(), text()) == one);
                assert!(_pen_core_utf8_trim_start_matches(one.clone(), other.clone()) == one);
                assert!(_pen_core_utf8_trim_end_matches(one.clone(), other.clone()) == one);
            }
            assert!(_pen_core_utf8_replace(text(), text(), broken()) == text());
            assert!(_pen_core_utf8_trim(broken()) == broken());
            assert!(_pen_core_utf8_trim_start(broken()) == broken());
            assert!(_pen_core_utf8_trim_end(broken()) == broken());
            assert!(_pen_core_utf8_to_lowercase(broken()) == broken());
            assert!(_pen_core_utf8_to_uppercase(broken()) == broken());
        }
    }
}
