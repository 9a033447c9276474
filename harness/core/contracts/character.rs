//! Contracts of characters and their code points.
use super::*;

#[kani::proof]
#[kani::unwind(10)]
#[kani::stub(std::alloc::dealloc, crate::contracts::free_stub)]
fn code_point_becomes_its_encoding() {
    let point: u32 = kani::any();
    let string = _pen_core_character_from_code_point((point as f64).into());
    let bytes = string.as_slice();
    // RFC 3629
    let x = point;
    let continuation = |shift: u32| 0x80 | (x >> shift & 0x3f) as u8;
    if x < 0x80 {
        assert!(bytes.len() == 1 && bytes[0] == x as u8);
    } else if x < 0x800 {
        assert!(bytes.len() == 2 && bytes[0] == 0xc0 | (x >> 6) as u8 && bytes[1] == continuation(0));
    } else if (0xd800..0xe000).contains(&x) || x > 0x10ffff {
        assert!(bytes.is_empty(), "what is no character becomes an empty string");
    } else if x < 0x10000 {
        assert!(
            bytes.len() == 3
                && bytes[0] == 0xe0 | (x >> 12) as u8
                && bytes[1] == continuation(6)
                && bytes[2] == continuation(0)
        );
    } else {
        assert!(
            bytes.len() == 4
                && bytes[0] == 0xf0 | (x >> 18) as u8
                && bytes[1] == continuation(12)
                && bytes[2] == continuation(6)
                && bytes[3] == continuation(0)
        );
    }
    kani::cover!(bytes.len() == 4);
    kani::cover!(bytes.is_empty());
    core::mem::forget(string);
}

/// A character whose encoding has a number of bytes, and that encoding.
fn encoded<const N: usize>(from: u32, to: u32) {
    let x: u32 = kani::any();
    kani::assume(from <= x && x < to && !(0xd800..0xe000).contains(&x));
    let mut bytes = [0; N];
    let mut index = N - 1;
    while index > 0 {
        bytes[index] = 0x80 | (x >> (6 * (N - 1 - index)) & 0x3f) as u8;
        index -= 1;
    }
    let mark = if N == 1 { 0 } else { !0u8 << (8 - N) };
    bytes[0] = mark | (x >> (6 * (N - 1))) as u8;
    let point: f64 = _pen_core_character_to_code_point(bytes.as_slice().into()).into();
    assert!(point == x as f64);
    kani::cover!(x == to - 1);
    kani::cover!(x == from);
}

#[kani::proof]
#[kani::unwind(10)]
#[kani::stub(std::alloc::dealloc, crate::contracts::free_stub)]
fn character_of_1_byte_becomes_its_code_point() {
    encoded::<1>(0, 0x80);
}

#[kani::proof]
#[kani::unwind(10)]
#[kani::stub(std::alloc::dealloc, crate::contracts::free_stub)]
fn character_of_2_bytes_becomes_its_code_point() {
    encoded::<2>(0x80, 0x800);
}

#[kani::proof]
#[kani::unwind(10)]
#[kani::stub(std::alloc::dealloc, crate::contracts::free_stub)]
fn character_of_3_bytes_becomes_its_code_point() {
    encoded::<3>(0x800, 0x10000);
}

#[kani::proof]
#[kani::unwind(10)]
#[kani::stub(std::alloc::dealloc, crate::contracts::free_stub)]
fn character_of_4_bytes_becomes_its_code_point() {
    encoded::<4>(0x10000, 0x110000);
}

#[kani::proof]
#[kani::unwind(10)]
#[kani::stub(std::alloc::dealloc, crate::contracts::free_stub)]
fn broken_encoding_has_no_code_point() {
    let first: u8 = kani::any();
    // Neither ASCII nor the first byte of a longer encoding that is complete.
    kani::assume(first >= 0x80);
    let point: f64 = _pen_core_character_to_code_point([first].as_slice().into()).into();
    assert!(point.is_nan());
    let point: f64 = _pen_core_character_to_code_point(ffi::ByteString::default()).into();
    assert!(point.is_nan());
    kani::cover!(first == 0xff);
}
