//! Contracts of the bit operations: 64-bit integers are carried in the bits of
//! numbers.
use super::*;

fn number(bits: u64) -> ffi::Number {
    f64::from_bits(bits).into()
}

fn bits(number: ffi::Number) -> u64 {
    f64::from(number).to_bits()
}

#[kani::proof]
fn logical_operations_are_bitwise() {
    let x: u64 = kani::any();
    let y: u64 = kani::any();
    assert!(bits(_pen_core_bit_and(number(x), number(y))) == x & y);
    assert!(bits(_pen_core_bit_or(number(x), number(y))) == x | y);
    assert!(bits(_pen_core_bit_xor(number(x), number(y))) == x ^ y);
    assert!(bits(_pen_core_bit_not(number(x))) == !x);
    kani::cover!(true);
}

#[kani::proof]
fn shifts_move_bits_by_the_count() {
    let x: u64 = kani::any();
    let count: u8 = kani::any();
    kani::assume(count < 64);
    let index: u8 = kani::any();
    kani::assume(index < 64);
    let left = bits(_pen_core_bit_left_shift(number(x), (count as f64).into()));
    let right = bits(_pen_core_bit_right_shift(number(x), (count as f64).into()));
    let bit = |x: u64, index: i16| (0..64).contains(&index) && (x >> index) & 1 == 1;
    assert!(bit(left, index as i16) == bit(x, index as i16 - count as i16), "a left shift moves every bit up");
    assert!(bit(right, index as i16) == bit(x, index as i16 + count as i16), "a right shift moves every bit down");
    kani::cover!(count == 63);
    kani::cover!(count == 0);
}

#[kani::proof]
fn integers_survive_the_way_into_bits_and_back() {
    let integer: u64 = kani::any();
    kani::assume(integer <= 1 << 53);
    let x = ffi::Number::from(integer as f64);
    let raw = _pen_core_bit_to_integer_64(x);
    assert!(bits(raw) == integer, "an integer becomes its own bits");
    assert!(f64::from(_pen_core_bit_from_integer_64(raw)) == integer as f64, "and comes back");
    kani::cover!(integer == 1 << 53);
    kani::cover!(integer == 0);
}

#[kani::proof]
fn every_bit_pattern_is_read_as_the_nearest_number() {
    let integer: u64 = kani::any();
    let value = f64::from(_pen_core_bit_from_integer_64(number(integer)));
    // The nearest number differs by at most half a unit in the last place.
    assert!(value >= 0.0 && value <= 18446744073709551616.0);
    let error = (value as u128).abs_diff(integer as u128);
    assert!(error <= 1024);
    assert!(integer > 1 << 53 || error == 0);
    kani::cover!(error == 1024);
}
