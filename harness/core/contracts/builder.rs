//! Contracts of string builders.
use super::*;

#[kani::proof]
#[kani::unwind(8)]
#[kani::stub(std::alloc::dealloc, crate::contracts::free_stub)]
#[kani::stub(core::result::unwrap_failed, crate::contracts::unwrap_failed)]
fn bounded_join_of_two_strings() {
    let one: [u8; 2] = kani::any();
    let two: [u8; 1] = kani::any();
    let between: [u8; 1] = kani::any();
    let builder = _pen_core_string_builder_create();
    let builder = _pen_core_string_builder_append(builder, one.as_slice().into());
    let builder = _pen_core_string_builder_append(builder, two.as_slice().into());
    let string = _pen_core_string_builder_build(builder, between.as_slice().into());
    let bytes = string.as_slice();
    assert!(bytes.len() == 4, "a join is as long as its parts and what separates them");
    assert!(bytes[0] == one[0] && bytes[1] == one[1]);
    assert!(bytes[2] == between[0] && bytes[3] == two[0]);
    kani::cover!(one[0] != two[0]);
    core::mem::forget(string);
}

#[cfg(test)]
mod bounded {
    extern crate std;

    use super::super::*;
    use std::{vec, vec::Vec};

    fn join(strings: &[Vec<u8>], separator: &[u8]) {
        let mut builder = _pen_core_string_builder_create();
        for string in strings {
            builder = _pen_core_string_builder_append(builder, string.clone().into());
        }
        let string = _pen_core_string_builder_build(builder, separator.into());
        let mut expected = vec![];
        for (index, string) in strings.iter().enumerate() {
            if index > 0 {
                expected.extend_from_slice(separator);
            }
            expected.extend_from_slice(string);
        }
        assert!(string.as_slice() == expected, "join of {strings:?} with {separator:?}");
    }

    #[test]
    fn joins() {
        for separator in [&[][..], b",", b"--"] {
            for count in 0..40 {
                for length in 0..4 {
                    for step in 0..3 {
                        let strings = (0..count)
                            .map(|index| vec![index as u8; (length + index * step) % 5])
                            .collect::<Vec<_>>();
                        join(&strings, separator);
                    }
                }
            }
        }
    }
}
