//! The root of the packages' sources, and stand-ins for what compiled programs
//! provide.
#![allow(dead_code, unused_attributes)]
mod html;
mod json;
mod regex_;
mod state;

#[cfg(test)]
#[path = "../../runtime.rs"]
pub mod runtime;

extern "C" {
    fn free(pointer: *mut u8);
}

/// Releases a block whatever its layout, as the runtime's allocator does.
pub unsafe fn free_stub(pointer: *mut u8, _: core::alloc::Layout) {
    free(pointer)
}
