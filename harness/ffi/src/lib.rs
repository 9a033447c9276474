#![allow(dead_code, static_mut_refs, improper_ctypes_definitions)]
#[cfg(any(kani, test))]
mod any;
#[cfg(any(kani, test))]
mod arc;
#[cfg(any(kani, test))]
mod async_stack;
#[cfg(any(kani, test))]
mod future;
#[cfg(any(kani, test))]
mod stack;
#[cfg(any(kani, test))]
mod string;
#[cfg(any(kani, test))]
mod waker;

extern "C" {
    fn free(pointer: *mut u8);
}

/// Releases a block whatever its layout: handles of erased types do not know
/// the size of their block, and the allocator never asks for it.
pub unsafe fn free_stub(pointer: *mut u8, _: core::alloc::Layout) {
    free(pointer)
}

#[cfg(test)]
mod witness;
