//! Contracts of hashes, which maps and sets of every program are made of, and
//! of what else compiled code takes for granted.
extern crate std;

use super::*;
use core::alloc::Layout;

extern "C" {
    fn free(pointer: *mut u8);
}

/// Releases a block whatever its layout, as the runtime's allocator does.
pub unsafe fn free_stub(pointer: *mut u8, _: Layout) {
    free(pointer)
}

fn number(bits: u64) -> ffi::Number {
    f64::from_bits(bits).into()
}

fn bits(number: ffi::Number) -> u64 {
    f64::from(number).to_bits()
}

fn index(hash: u64, layer: f64, level: u8) -> f64 {
    _pen_prelude_hash_to_index(number(hash), layer.into(), (level as f64).into()).into()
}

/// A node of a map has 32 entries, counted from one.
#[kani::proof]
#[kani::unwind(12)]
fn index_is_an_entry_of_a_node() {
    let hash: u64 = kani::any();
    let layer: f64 = kani::any();
    let level: u8 = kani::any();
    kani::assume((1..=13).contains(&level));
    let index = index(hash, layer, level);
    assert!((1.0..=32.0).contains(&index), "an index is between 1 and 32");
    assert!(index as u8 as f64 == index, "an index is an integer");
    kani::cover!(level == 13);
    kani::cover!(level == 1 && index == 32.0);
}

/// The indexes of a hash at the levels of the first layer are the digits of its
/// combination with something that does not depend on the hash.  Such combinations of
/// different hashes differ, as is proved below, so that no two keys of different hashes
/// ever leave the first layer.
#[kani::proof]
#[kani::unwind(15)]
fn levels_use_up_every_bit_of_a_hash() {
    let mut digits = 0;
    let mut level = 1;
    while level <= 13 {
        digits |= (index(0, 1.0, level) as u64 - 1) << (5 * (level as u32 - 1));
        level += 1;
    }
    // There is one such value, since combining is one to one in its second argument.
    let rest: u64 = kani::any();
    kani::assume(bits(_pen_prelude_combine_hashes(number(0), number(rest))) == digits);

    let hash: u64 = kani::any();
    let level: u8 = kani::any();
    kani::assume((1..=13).contains(&level));
    let digit = index(hash, 1.0, level) as u64 - 1;
    let combined = bits(_pen_prelude_combine_hashes(number(hash), number(rest)));
    assert!(digit == (combined >> (5 * (level as u32 - 1))) & 31, "an index is a digit of the hash in its layer");
    kani::cover!(digit == 31);
}

/// Combining is one to one in each argument: it loses no difference.
#[kani::proof]
fn combination_tells_first_hashes_apart() {
    let [one, other, rest]: [u64; 3] = kani::any();
    kani::assume(one != other);
    let x = bits(_pen_prelude_combine_hashes(number(one), number(rest)));
    let y = bits(_pen_prelude_combine_hashes(number(other), number(rest)));
    assert!(x != y, "a combination depends on its first hash");
    kani::cover!(x == 0);
}

#[kani::proof]
fn combination_tells_second_hashes_apart() {
    let [one, other, rest]: [u64; 3] = kani::any();
    kani::assume(one != other);
    let x = bits(_pen_prelude_combine_hashes(number(rest), number(one)));
    let y = bits(_pen_prelude_combine_hashes(number(rest), number(other)));
    assert!(x != y, "a combination depends on its second hash");
    kani::cover!(x == 0);
}

/// Equal numbers hash alike, as do all NaNs.
#[kani::proof]
#[kani::unwind(12)]
fn equal_numbers_hash_alike() {
    let one: f64 = kani::any();
    let other: f64 = kani::any();
    kani::assume(one == other || one.is_nan() && other.is_nan());
    let x = bits(_pen_prelude_hash_number(one.into()));
    let y = bits(_pen_prelude_hash_number(other.into()));
    assert!(x == y, "equal numbers hash alike");
    kani::cover!(one.to_bits() != other.to_bits() && one == 0.0);
    kani::cover!(one.to_bits() != other.to_bits() && one.is_nan());
    kani::cover!(one == 1.0);
}

const N: usize = 3;

fn any_bytes() -> ([u8; N], usize) {
    let length: usize = kani::any();
    kani::assume(length <= N);
    (kani::any(), length)
}

fn same(one: &[u8], other: &[u8]) -> bool {
    let mut same = one.len() == other.len();
    let mut index = 0;
    while index < one.len() && index < other.len() {
        same = same && one[index] == other[index];
        index += 1;
    }
    same
}

#[kani::proof]
#[kani::unwind(10)]
#[kani::stub(std::alloc::dealloc, crate::contracts::free_stub)]
fn bounded_strings_are_equal_by_content() {
    let (one, length) = any_bytes();
    let one = &one[..length];
    let (other, length) = any_bytes();
    let other = &other[..length];
    let equal: bool = _pen_prelude_equal_strings(one.into(), other.into()).into();
    assert!(equal == same(one, other));
    kani::cover!(equal && length == N);
    kani::cover!(!equal && length == one.len());
}

#[cfg(test)]
mod witness {
    extern crate std;

    use super::super::*;
    use super::{bits, same};
    use std::{collections::HashMap, vec::Vec};

    fn hash(bytes: &[u8]) -> u64 {
        bits(_pen_prelude_hash_string(bytes.into()))
    }

    /// All strings of up to two bytes, and long ones that differ in one byte.
    #[test]
    fn strings_hash_by_content() {
        let mut strings = Vec::<Vec<u8>>::from([std::vec![]]);
        for one in 0..=255u8 {
            strings.push(std::vec![one]);
            for other in 0..=255u8 {
                strings.push(std::vec![one, other]);
            }
        }
        for length in 3..80 {
            strings.push(std::vec![7; length]);
            for index in 0..length {
                let mut string = std::vec![7; length];
                string[index] = 8;
                strings.push(string);
            }
        }
        let mut hashes = HashMap::new();
        for string in &strings {
            let first = hash(string);
            assert!(first == hash(&string.clone()), "equal strings hash alike");
            // No two of these collide in 64 bits unless content is ignored.
            if let Some(other) = hashes.insert(first, string) {
                panic!("{string:?} and {other:?} hash alike");
            }
            assert!(bool::from(_pen_prelude_equal_strings(string.as_slice().into(), string.as_slice().into())));
        }
        for pair in strings[strings.len() - 3000..].windows(2) {
            let equal: bool = _pen_prelude_equal_strings(pair[0].as_slice().into(), pair[1].as_slice().into()).into();
            assert!(equal == same(&pair[0], &pair[1]));
        }
    }

    #[test]
    fn numbers_hash_apart() {
        let mut hashes = HashMap::new();
        for index in 0..200000u32 {
            let number = (index as f64 - 100000.0) / 8.0;
            if let Some(other) = hashes.insert(bits(_pen_prelude_hash_number(number.into())), number) {
                panic!("{number} and {other} hash alike");
            }
        }
    }

    fn printed(number: f64) {
        let text = _pen_prelude_debug_number(number.into());
        let text = core::str::from_utf8(text.as_slice()).unwrap();
        let back: f64 = text.parse().unwrap();
        assert!(back.to_bits() == number.to_bits() || back.is_nan() && number.is_nan(), "{number:?} is printed as {text}");
    }

    #[test]
    fn debugged_numbers_parse_back() {
        let mut state = 1u64;
        for index in 0..40000u64 {
            state = state.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            printed(f64::from_bits(state ^ state >> 29));
            printed(index as f64);
            printed(index as f64 / 7.0);
        }
        for number in [0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN_POSITIVE, 5e-324] {
            printed(number);
        }
    }
}
