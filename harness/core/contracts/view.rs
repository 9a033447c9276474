//! Contracts of views: ranges of strings that are read without copying.
use super::*;
use crate::contracts::*;

const MAX_LENGTH: usize = if cfg!(kani) { 1 << 40 } else { 1 << 6 };
const MAX_PREFIX: usize = 3;

#[kani::proof]
#[kani::stub(std::alloc::dealloc, crate::contracts::free_stub)]
fn string_of_a_view_has_the_bytes_selected() {
    let bytes = any_slice(MAX_LENGTH);
    let start: f64 = kani::any();
    let end: f64 = kani::any();
    kani::assume(!end.is_nan());
    let string = _pen_core_view_to_string(bytes.into(), start.into(), end.into());
    same_bytes(string.as_slice(), selection(bytes, start, end));
    kani::cover!(string.as_slice().len() > 1 << 32);
    kani::cover!(start < 1.0 && string.as_slice().len() == 2);
    kani::cover!(start > 1.0 && string.as_slice().len() == 2);
    kani::cover!(string.as_slice().is_empty());
    core::mem::forget(string);
}

#[kani::proof]
#[kani::stub(std::alloc::dealloc, crate::contracts::free_stub)]
#[kani::unwind(6)]
fn bounded_prefix_of_a_view_is_looked_for_in_its_range() {
    let bytes = any_slice(MAX_LENGTH);
    let prefix = any_slice(MAX_PREFIX);
    let start: f64 = kani::any();
    let end: f64 = kani::any();
    kani::assume(!end.is_nan());
    let result: bool = _pen_core_view_starts_with(bytes.into(), start.into(), end.into(), prefix.into()).into();
    let range = selection(bytes, start, end);
    let mut expected = prefix.len() <= range.len();
    let mut index = 0;
    while index < prefix.len() {
        expected = expected && range[index] == prefix[index];
        index += 1;
    }
    assert!(result == expected);
    kani::cover!(result && prefix.len() == MAX_PREFIX);
    kani::cover!(!result && prefix.len() > range.len());
}
