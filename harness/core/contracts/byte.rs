//! Contracts of operations on strings as byte arrays.
use super::*;
use crate::contracts::*;

const MAX_LENGTH: usize = if cfg!(kani) { 1 << 40 } else { 1 << 6 };

#[kani::proof]
#[kani::stub(std::alloc::dealloc, crate::contracts::free_stub)]
fn length_is_the_number_of_bytes() {
    let bytes = any_slice(MAX_LENGTH);
    assert!(f64::from(_pen_core_byte_length(bytes.into())) == bytes.len() as f64);
    kani::cover!(bytes.len() > 1 << 32);
}

#[kani::proof]
#[kani::stub(std::alloc::dealloc, crate::contracts::free_stub)]
fn slice_has_the_bytes_selected() {
    let bytes = any_slice(MAX_LENGTH);
    let start: f64 = kani::any();
    let end: f64 = kani::any();
    kani::assume(!end.is_nan());
    let slice = _pen_core_byte_slice(bytes.into(), start.into(), end.into());
    same_bytes(slice.as_slice(), selection(bytes, start, end));
    kani::cover!(slice.as_slice().len() > 1 << 32);
    kani::cover!(start < 1.0 && slice.as_slice().len() == 2);
    kani::cover!(start > 1.0 && slice.as_slice().len() == 2);
    kani::cover!(slice.as_slice().is_empty());
    core::mem::forget(slice);
}
