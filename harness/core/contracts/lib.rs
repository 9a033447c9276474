//! What the contracts of this package share.
extern crate std;

use core::alloc::Layout;

extern "C" {
    fn free(pointer: *mut u8);
}

/// Releases a block whatever its layout, as the runtime's allocator does.
pub unsafe fn free_stub(pointer: *mut u8, _: Layout) {
    free(pointer)
}

/// A slice of any length and any content.
pub fn any_slice(maximum: usize) -> &'static [u8] {
    let length: usize = kani::any();
    kani::assume(length <= maximum);
    if length == 0 {
        return &[];
    }
    unsafe {
        let pointer = std::alloc::alloc(Layout::from_size_align_unchecked(length, 1));
        if !cfg!(kani) {
            for index in 0..length {
                *pointer.add(index) = index as u8;
            }
        }
        core::slice::from_raw_parts(pointer, length)
    }
}

/// Compares lengths, and bytes at an arbitrary index.
pub fn same_bytes(one: &[u8], other: &[u8]) {
    assert!(one.len() == other.len(), "the length is as specified");
    let index: usize = kani::any();
    if index < one.len() && index < other.len() {
        assert!(one[index] == other[index], "the bytes are as specified");
    }
}

/// The bytes at the positions from one number to another, counting from one.
pub fn selection(bytes: &[u8], start: f64, end: f64) -> &[u8] {
    let first = if start >= 1.0 { start as u64 } else { 1 };
    let last = if end >= bytes.len() as f64 {
        bytes.len() as u64
    } else if end >= 1.0 {
        end as u64
    } else {
        0
    };
    if first <= last {
        &bytes[first as usize - 1..last as usize]
    } else {
        &[]
    }
}

#[cfg(test)]
#[path = "../../runtime.rs"]
mod runtime;

#[cfg(test)]
pub use runtime::*;

/// Panics without formatting the error.
pub fn unwrap_failed(_: &str, _: &dyn core::fmt::Debug) -> ! {
    panic!("unwrapped an error")
}
