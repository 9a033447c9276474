//! Contracts of `ByteString`: byte strings hold exactly the bytes they were
//! made from, for every length and every content.
use core::{
    alloc::Layout,
    hash::{Hash, Hasher},
};
use pen_ffi::{ArcBuffer, ByteString};

// CBMC's objects are at most 2^47 bytes; every machine this runs on has less.
const MAX_LENGTH: usize = if cfg!(kani) { 1 << 40 } else { 1 << 12 };

/// A slice of any length and any content.
fn any_slice() -> &'static [u8] {
    let length: usize = kani::any();
    kani::assume(length <= MAX_LENGTH);
    if length == 0 {
        return &[];
    }
    unsafe {
        let pointer = std::alloc::alloc(Layout::from_size_align_unchecked(length, 1));
        core::slice::from_raw_parts(pointer, length)
    }
}

fn same_bytes(one: &[u8], other: &[u8]) {
    assert!(one.len() == other.len(), "a byte string has the length it was made with");
    let index: usize = kani::any();
    if index < one.len() && index < other.len() {
        assert!(one[index] == other[index], "a byte string has the bytes it was made with");
    }
}

#[kani::proof]
fn bytes_are_kept_for_every_length() {
    let bytes = any_slice();
    let string = ByteString::from(bytes);
    same_bytes(string.as_slice(), bytes);
    let other = string.clone();
    same_bytes(other.as_slice(), bytes);
    kani::cover!(bytes.is_empty());
    kani::cover!(bytes.len() == 1);
    kani::cover!(bytes.len() > 1 << 32);
    core::mem::forget((string, other));
}

#[kani::proof]
fn buffer_has_the_length_asked_for() {
    let length: usize = kani::any();
    kani::assume(length <= MAX_LENGTH);
    let mut buffer = ArcBuffer::new(length);
    assert!(buffer.as_slice().len() == length);
    assert!(buffer.as_slice_mut().len() == length);
    // Every byte is writable, and a write changes that byte only.
    let index: usize = kani::any();
    let other: usize = kani::any();
    if index < length && other < length && other != index {
        let before = buffer.as_slice()[other];
        let value = kani::any();
        buffer.as_slice_mut()[index] = value;
        assert!(buffer.as_slice()[index] == value);
        assert!(buffer.as_slice()[other] == before);
        assert!(buffer.as_slice().len() == length);
        kani::cover!(index == length - 1);
    }
    core::mem::forget(buffer);
    kani::cover!(length == 0);
}

#[kani::proof]
fn default_is_empty() {
    assert!(ByteString::default().as_slice().is_empty());
    assert!(ArcBuffer::default().as_slice().is_empty());
    kani::cover!(true);
}

const N: usize = 3;

fn bounded() -> ([u8; N], usize) {
    let length: usize = kani::any();
    kani::assume(length <= N);
    (kani::any(), length)
}

fn equal(one: &[u8], other: &[u8]) -> bool {
    if one.len() != other.len() {
        return false;
    }
    let mut index = 0;
    while index < one.len() {
        if one[index] != other[index] {
            return false;
        }
        index += 1;
    }
    true
}

#[derive(PartialEq)]
struct Recorder {
    bytes: [u8; 2 * N + 16],
    length: usize,
}

impl Hasher for Recorder {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, bytes: &[u8]) {
        for &byte in bytes {
            self.bytes[self.length] = byte;
            self.length += 1;
        }
    }
}

fn record(string: &ByteString) -> Recorder {
    let mut recorder = Recorder {
        bytes: [0; 2 * N + 16],
        length: 0,
    };
    string.hash(&mut recorder);
    recorder
}

#[kani::proof]
#[kani::unwind(23)]
fn bounded_equality_and_hash_are_by_content() {
    let (one, one_length) = bounded();
    let (other, other_length) = bounded();
    let one = &one[..one_length];
    let other = &other[..other_length];
    let x = ByteString::from(one);
    let y = ByteString::from(other);
    assert!((x == y) == equal(one, other), "byte strings are equal exactly when their bytes are");
    if x == y {
        assert!(record(&x) == record(&y), "equal byte strings hash alike");
    }
    kani::cover!(x == y && one_length > 1);
    kani::cover!(x != y && one_length == other_length);
    core::mem::forget((x, y));
}

#[kani::proof]
#[kani::unwind(10)]
fn bounded_conversions_keep_bytes() {
    let (bytes, length) = bounded();
    let bytes = &bytes[..length];
    let string = ByteString::from(bytes.to_vec());
    assert!(equal(string.as_slice(), bytes));
    core::mem::forget(string);
    if let Ok(text) = core::str::from_utf8(bytes) {
        let string = ByteString::from(text);
        assert!(equal(string.as_slice(), bytes));
        core::mem::forget(string);
        let string = ByteString::from(String::from(text));
        assert!(equal(string.as_slice(), bytes));
        core::mem::forget(string);
        kani::cover!(length == N);
    }
}

#[kani::proof]
#[kani::unwind(10)]
fn character_becomes_its_encoding() {
    let character: char = kani::any();
    let string = ByteString::from(character);
    let mut buffer = [0; 4];
    let encoding = character.encode_utf8(&mut buffer).as_bytes();
    assert!(equal(string.as_slice(), encoding));
    kani::cover!(string.as_slice().len() == 4);
    core::mem::forget(string);
}
