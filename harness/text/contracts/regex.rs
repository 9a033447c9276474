//! Contracts of regular expressions: what compiled programs get is what the
//! expression matched.
#[cfg(test)]
mod bounded {
    use super::super::*;
    use crate::runtime::*;

    fn expression(pattern: &str) -> Option<Expression> {
        match Regex::new(pattern) {
            Ok(regex) => Some(Expression(ffi::Arc::new(ExpressionInner(Arc::new(regex)).into()))),
            Err(_) => None,
        }
    }

    #[test]
    fn captures_are_listed_in_order() {
        let strings = ["", "a", "b", "ab", "ba", "aab", "xaby", "éa", "aé"];
        for pattern in ["a", "^a", "(a)(b)?", "(x)?(a+)(b)?(y)?", "é", "(a)|(b)", ""] {
            let regex = Regex::new(pattern).unwrap();
            for string in strings {
                let matched = regex.captures(string);
                let result: bool =
                    _pen_regex_expression_matches(expression(pattern).unwrap(), string.into()).into();
                assert!(result == matched.is_some(), "{pattern:?} {string:?}");
                let list = elements(&_pen_regex_expression_match(expression(pattern).unwrap(), string.into()));
                match matched {
                    None => assert!(list.is_empty()),
                    Some(matched) => {
                        assert!(list.len() == matched.len(), "{pattern:?} {string:?}");
                        for (any, capture) in list.iter().zip(matched.iter()) {
                            match capture {
                                None => assert!(<&Nothing>::try_from(any).is_ok(), "{pattern:?} {string:?}"),
                                Some(capture) => {
                                    let text = <&Text>::try_from(any).unwrap();
                                    assert!(text.0.as_slice() == capture.as_str().as_bytes(), "{pattern:?} {string:?}");
                                }
                            }
                        }
                    }
                }
            }
        }
        let broken = || ffi::ByteString::from(&[0xff][..]);
        assert!(!bool::from(_pen_regex_expression_matches(expression("").unwrap(), broken())));
        assert!(elements(&_pen_regex_expression_match(expression("").unwrap(), broken())).is_empty());
    }
}
