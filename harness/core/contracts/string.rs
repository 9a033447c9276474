//! Contract of prefixes of strings.
use super::*;
use crate::contracts::*;

const MAX_LENGTH: usize = if cfg!(kani) { 1 << 40 } else { 1 << 6 };
const MAX_PREFIX: usize = 3;

#[kani::proof]
#[kani::stub(std::alloc::dealloc, crate::contracts::free_stub)]
#[kani::unwind(6)]
fn bounded_prefix_is_compared_byte_by_byte() {
    let bytes = any_slice(MAX_LENGTH);
    let prefix = any_slice(MAX_PREFIX);
    let result: bool = _pen_core_string_starts_with(bytes.into(), prefix.into()).into();
    let mut expected = prefix.len() <= bytes.len();
    let mut index = 0;
    while index < prefix.len() {
        expected = expected && bytes[index] == prefix[index];
        index += 1;
    }
    assert!(result == expected);
    kani::cover!(result && prefix.len() == MAX_PREFIX);
    kani::cover!(!result && prefix.len() > bytes.len());
}
