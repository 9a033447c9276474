//! Contracts of HTML escaping.
#[cfg(test)]
mod bounded {
    use super::super::*;

    const LETTERS: [&str; 11] = ["<", ">", "&", "\"", "'", "/", ";", "a", "é", "amp", "#"];

    fn texts(length: usize) -> Vec<String> {
        let mut texts = vec![String::new()];
        let mut last = 0;
        for _ in 0..length {
            let end = texts.len();
            for index in last..end {
                for letter in LETTERS {
                    texts.push(format!("{}{letter}", texts[index]));
                }
            }
            last = end;
        }
        texts
    }

    /// What a browser reads.
    fn decode(text: &str) -> String {
        let mut decoded = String::new();
        let mut rest = text;
        'text: while !rest.is_empty() {
            for (entity, character) in [
                ("&lt;", "<"),
                ("&gt;", ">"),
                ("&amp;", "&"),
                ("&quot;", "\""),
                ("&#x27;", "'"),
                ("&#39;", "'"),
                ("&apos;", "'"),
                ("&#x2F;", "/"),
                ("&#x2f;", "/"),
            ] {
                if let Some(after) = rest.strip_prefix(entity) {
                    decoded.push_str(character);
                    rest = after;
                    continue 'text;
                }
            }
            let character = rest.chars().next().unwrap();
            assert!(character != '&', "an entity that no browser knows in {text:?}");
            decoded.push(character);
            rest = &rest[character.len_utf8()..];
        }
        decoded
    }

    fn check(original: &str, encoded: ffi::ByteString, forbidden: &[char]) {
        let encoded = core::str::from_utf8(encoded.as_slice()).unwrap();
        assert!(!encoded.contains(forbidden), "{original:?} is encoded as {encoded:?}");
        assert!(decode(encoded) == original, "{original:?} is encoded as {encoded:?}");
    }

    #[test]
    fn text_has_no_markup_and_decodes_back() {
        for text in texts(4) {
            check(&text, _pen_html_encode_text(text.as_str().into()), &['<', '>']);
        }
    }

    #[test]
    fn attributes_have_no_quotes_and_decode_back() {
        for text in texts(4) {
            check(&text, _pen_html_encode_attribute(text.as_str().into()), &['<', '>', '"', '\'']);
        }
    }
}
