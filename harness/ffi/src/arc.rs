//! Contracts of the reference-counted block (`pen_ffi::Arc`), stated over the
//! ABI view of a block: the machine word in front of the payload.
//!
//! The state of the block is ANY value of that word, so every contract below
//! holds for every history that leads to it.
use core::{
    alloc::Layout,
    mem::{forget, ManuallyDrop},
    sync::atomic::Ordering,
};
use pen_ffi::Arc;

pub const STATIC: isize = isize::MIN;

/// Abstract state: how many handles exist, and whether they may be shared
/// between threads. `None` is the state of a static block.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct State {
    pub holders: u64,
    pub shared: bool,
}

pub fn view(count: isize) -> Option<State> {
    if count == STATIC {
        None
    } else if count >= 0 {
        Some(State {
            holders: count as u64 + 1,
            shared: false,
        })
    } else {
        Some(State {
            holders: count.unsigned_abs() as u64,
            shared: true,
        })
    }
}

static mut DROPS: usize = 0;
static mut FREES: usize = 0;
static mut FREED: *mut u8 = core::ptr::null_mut();

pub struct Payload {
    value: u64,
}

impl Drop for Payload {
    fn drop(&mut self) {
        unsafe { DROPS += 1 }
    }
}

unsafe fn dealloc_stub(pointer: *mut u8, _layout: Layout) {
    FREES += 1;
    FREED = pointer;
}

fn word<T>(arc: &Arc<T>) -> *mut isize {
    unsafe { (&**arc as *const T as *mut isize).sub(1) }
}

/// An arbitrary live block.
fn block<T>(payload: T) -> (Arc<T>, isize) {
    let arc = Arc::new(payload);
    let count: isize = kani::any();
    unsafe { *word(&arc) = count };
    (arc, count)
}

#[kani::proof]
fn new_is_sole_handle() {
    let value = kani::any();
    let arc = Arc::new(Payload { value });
    let state = view(unsafe { *word(&arc) }).unwrap();
    assert!(state.holders == 1, "a new value has exactly one handle");
    assert!(!state.shared);
    assert!(arc.value == value, "a new handle reads the value it was given");
    assert!(unsafe { DROPS } == 0);
    forget(arc);
    kani::cover!(true);
}

#[kani::proof]
#[kani::stub(std::alloc::dealloc, dealloc_stub)]
fn clone_adds_one_handle() {
    let value = kani::any();
    let (arc, count) = block(Payload { value });
    // 2^63 handles cannot exist in an address space.
    kani::assume(count != isize::MAX && count != isize::MIN + 1);
    let arc = ManuallyDrop::new(arc);
    let other = ManuallyDrop::new((*arc).clone());
    let before = view(count);
    let after = view(unsafe { *word(&arc) });
    match before {
        None => assert!(after.is_none(), "cloning a static value leaves it static"),
        Some(state) => {
            let after = after.unwrap();
            assert!(after.holders == state.holders + 1, "cloning adds exactly one handle");
            assert!(after.shared == state.shared, "cloning keeps the sharing mode");
        }
    }
    assert!(core::ptr::eq(&**arc as *const Payload, &**other as *const Payload));
    assert!(other.value == value);
    assert!(unsafe { DROPS == 0 && FREES == 0 });
    kani::cover!(before.is_none());
    kani::cover!(before.is_some() && before.unwrap().shared);
    kani::cover!(before.is_some() && !before.unwrap().shared);
}

#[kani::proof]
#[kani::stub(std::alloc::dealloc, dealloc_stub)]
fn drop_removes_one_handle() {
    let value = kani::any();
    let (arc, count) = block(Payload { value });
    let before = view(count);
    let word = word(&arc);
    drop(arc);
    match before {
        None => unsafe {
            assert!(*word == STATIC, "dropping a static handle changes nothing");
            assert!(DROPS == 0 && FREES == 0, "a static value is never destroyed");
        },
        Some(state) if state.holders == 1 => unsafe {
            assert!(DROPS == 1, "the last handle destroys the value exactly once");
            assert!(FREES == 1 && FREED == word as *mut u8, "the last handle frees the block exactly once");
        },
        Some(state) => unsafe {
            let after = view(*word).unwrap();
            assert!(after.holders == state.holders - 1, "dropping removes exactly one handle");
            assert!(after.shared == state.shared);
            assert!(DROPS == 0 && FREES == 0, "the value outlives every handle but the last");
        },
    }
    kani::cover!(before.is_none());
    kani::cover!(count == 0);
    kani::cover!(count == -1);
    kani::cover!(count > 0);
    kani::cover!(count < -1);
}

#[kani::proof]
#[kani::stub(std::alloc::dealloc, dealloc_stub)]
fn get_mut_only_for_sole_handle() {
    let value = kani::any();
    let (arc, count) = block(Payload { value });
    let mut arc = ManuallyDrop::new(arc);
    let address = &**arc as *const Payload;
    let granted = match Arc::get_mut(&mut arc) {
        Some(payload) => {
            assert!(core::ptr::eq(payload, address), "the mutable access is to the value itself");
            payload.value = !value;
            true
        }
        None => false,
    };
    let sole = matches!(view(count), Some(State { holders: 1, .. }));
    assert!(!granted || sole, "mutable access is never granted while another handle exists");
    assert!(granted || !sole, "the sole handle is granted mutable access");
    assert!(arc.value == if granted { !value } else { value });
    assert!(unsafe { *word(&arc) } == count, "asking for mutable access changes no handle count");
    assert!(unsafe { DROPS == 0 && FREES == 0 });
    kani::cover!(count == 0);
    kani::cover!(count == -1);
    kani::cover!(count == STATIC);
    kani::cover!(count > 0);
}

#[kani::proof]
#[kani::stub(std::alloc::dealloc, dealloc_stub)]
fn synchronize_keeps_handles() {
    let value = kani::any();
    let (arc, count) = block(Payload { value });
    // 2^63 handles cannot exist in an address space.
    kani::assume(count != isize::MAX);
    let before = view(count);
    let word = word(&arc);
    // The method consumes one handle.
    Arc::synchronize(arc);
    match before {
        None => unsafe {
            assert!(*word == STATIC);
            assert!(DROPS == 0 && FREES == 0);
        },
        Some(state) if state.holders == 1 => unsafe {
            assert!(DROPS == 1 && FREES == 1 && FREED == word as *mut u8);
        },
        Some(state) => unsafe {
            let after = view(*word);
            assert!(after.is_some(), "a counted value never becomes static");
            let after = after.unwrap();
            assert!(after.shared, "a synchronized value is in the shared mode");
            assert!(after.holders == state.holders - 1, "synchronizing keeps the other handles");
            assert!(DROPS == 0 && FREES == 0);
        },
    }
    kani::cover!(before.is_none());
    kani::cover!(count == 0);
    kani::cover!(count > 1);
    kani::cover!(count < -1);
}

#[kani::proof]
fn static_value_is_read_only_and_immortal() {
    let value: u64 = kani::any();
    let arc = Arc::new(value);
    unsafe { *word(&arc) = STATIC };
    let mut other = arc.clone();
    assert!(Arc::get_mut(&mut other).is_none());
    Arc::synchronize(other.clone());
    drop(other);
    assert!(*arc == value);
    assert!(unsafe { *word(&arc) } == STATIC);
    kani::cover!(true);
}

/// One handle's whole life against the real allocator model: no use after
/// free, no double free, no out-of-bounds access.
fn life<T: Copy + PartialEq + kani::Arbitrary>() {
    let value: T = kani::any();
    let arc = Arc::new(value);
    let mut other = arc.clone();
    assert!(*arc == value && *other == value);
    assert!(Arc::get_mut(&mut other).is_none());
    if kani::any() {
        Arc::synchronize(arc.clone());
    }
    drop(arc);
    assert!(*other == value);
    let new: T = kani::any();
    *Arc::get_mut(&mut other).unwrap() = new;
    assert!(*other == new);
    drop(other);
    kani::cover!(true);
}

extern "C" {
    fn free(pointer: *mut u8);
}

/// The crate relies on its allocator ignoring the layout on release, as the
/// runtime's allocator (malloc and free) does. This keeps every other check of
/// the allocator model: live block, block start, no double release.
unsafe fn free_stub(pointer: *mut u8, _layout: Layout) {
    free(pointer)
}

#[kani::proof]
#[kani::stub(std::alloc::dealloc, free_stub)]
fn life_u8() {
    life::<u8>()
}

#[kani::proof]
#[kani::stub(std::alloc::dealloc, free_stub)]
fn life_u64() {
    life::<u64>()
}

#[kani::proof]
#[kani::stub(std::alloc::dealloc, free_stub)]
#[kani::unwind(40)]
fn life_bytes() {
    life::<[u8; 5]>()
}

#[kani::proof]
#[kani::stub(std::alloc::dealloc, free_stub)]
#[kani::unwind(40)]
fn life_words() {
    life::<[u64; 4]>()
}

#[kani::proof]
#[kani::stub(std::alloc::dealloc, free_stub)]
fn zero_sized_value() {
    struct Unit;
    impl Drop for Unit {
        fn drop(&mut self) {
            unsafe { DROPS += 1 }
        }
    }
    let mut arc = Arc::new(());
    let other = arc.clone();
    assert!(*arc == *other);
    let _ = Arc::get_mut(&mut arc);
    Arc::synchronize(other.clone());
    drop(other);
    drop(arc);
    kani::cover!(true);
}

// Interference. Between any two steps of an operation on a shared block, other
// threads holding their own handles may clone, drop or ask for mutable access.
// The stubs perform an arbitrary such step before every atomic access; the
// ghost variable `HOLDERS` is the number of handles that really exist.

static mut HOLDERS: isize = 0;
static mut WORD: *mut isize = core::ptr::null_mut();
static mut RELEASED: bool = false;
static mut ACQUIRED: bool = false;
static mut STEPS: u8 = 0;

unsafe fn interfere() {
    // Every other handle may appear or vanish; ours (one) stays.
    if STEPS < 3 && kani::any() {
        let holders: isize = kani::any();
        kani::assume(holders >= 1 && holders < isize::MAX);
        // Nobody else can clone once ours is the only handle.
        kani::assume(HOLDERS > 1 || holders == HOLDERS);
        let word = WORD;
        // The others only change the word by what they add or remove.
        *word = (*word).wrapping_sub(holders - HOLDERS);
        HOLDERS = holders;
        STEPS += 1;
    }
}

unsafe fn is_shared_word<T>(pointer: *const T) -> bool {
    pointer as *const isize == WORD as *const isize
}

fn note(ordering: Ordering) {
    unsafe {
        RELEASED |= matches!(ordering, Ordering::Release | Ordering::AcqRel | Ordering::SeqCst);
        ACQUIRED |= matches!(ordering, Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst);
    }
}

unsafe fn load_stub<T: Copy, const VOLATILE: bool>(pointer: *const T, ordering: Ordering) -> T {
    if is_shared_word(pointer) {
        interfere();
        note(ordering);
    }
    *pointer
}

unsafe fn store_stub<T: Copy, const VOLATILE: bool>(pointer: *mut T, value: T, ordering: Ordering) {
    if is_shared_word(pointer) {
        interfere();
        note(ordering);
    }
    *pointer = value;
}

unsafe fn swap_stub<T: Copy>(pointer: *mut T, value: T, ordering: Ordering) -> T {
    if is_shared_word(pointer) {
        interfere();
        note(ordering);
    }
    let old = *pointer;
    *pointer = value;
    old
}

unsafe fn add_stub<T: Copy, U: Copy>(pointer: *mut T, value: U, ordering: Ordering) -> T {
    if is_shared_word(pointer) {
        interfere();
        note(ordering);
    }
    let old = *pointer;
    // The only atomic additions in this crate are to handle counts.
    let pointer = pointer as *mut isize;
    *pointer = (*pointer).wrapping_add(core::mem::transmute_copy::<U, isize>(&value));
    old
}

unsafe fn sub_stub<T: Copy, U: Copy>(pointer: *mut T, value: U, ordering: Ordering) -> T {
    if is_shared_word(pointer) {
        interfere();
        note(ordering);
    }
    let old = *pointer;
    let pointer = pointer as *mut isize;
    *pointer = (*pointer).wrapping_sub(core::mem::transmute_copy::<U, isize>(&value));
    old
}

unsafe fn exchange_stub<T: Copy>(
    pointer: *mut T,
    old: T,
    new: T,
    success: Ordering,
    failure: Ordering,
) -> Result<T, T> {
    let shared = is_shared_word(pointer);
    if shared {
        interfere();
    }
    let current = *pointer;
    if *(pointer as *mut isize) == core::mem::transmute_copy::<T, isize>(&old) {
        if shared {
            note(success);
        }
        *pointer = new;
        Ok(current)
    } else {
        if shared {
            note(failure);
        }
        Err(current)
    }
}

fn fence_stub(ordering: Ordering) {
    note(ordering)
}

static mut DESTROYED_AFTER_ACQUIRE: bool = false;

struct SharedPayload {
    value: u64,
}

impl Drop for SharedPayload {
    fn drop(&mut self) {
        unsafe {
            DROPS += 1;
            DESTROYED_AFTER_ACQUIRE = ACQUIRED;
        }
    }
}

unsafe fn shared_block(value: u64) -> Arc<SharedPayload> {
    let arc = Arc::new(SharedPayload { value });
    let holders: isize = kani::any();
    kani::assume(holders >= 1 && holders < isize::MAX);
    WORD = word(&arc);
    *WORD = -holders;
    HOLDERS = holders;
    arc
}

#[kani::proof]
#[kani::stub(std::alloc::dealloc, dealloc_stub)]
#[kani::stub(core::sync::atomic::atomic_load, load_stub)]
#[kani::stub(core::sync::atomic::atomic_store, store_stub)]
#[kani::stub(core::sync::atomic::atomic_swap, swap_stub)]
#[kani::stub(core::sync::atomic::atomic_add, add_stub)]
#[kani::stub(core::sync::atomic::atomic_sub, sub_stub)]
#[kani::stub(core::sync::atomic::atomic_compare_exchange, exchange_stub)]
#[kani::stub(core::sync::atomic::atomic_compare_exchange_weak, exchange_stub)]
#[kani::unwind(5)]
#[kani::stub(core::sync::atomic::fence, fence_stub)]
fn shared_clone_under_interference() {
    let value = kani::any();
    let arc = ManuallyDrop::new(unsafe { shared_block(value) });
    let other = ManuallyDrop::new((*arc).clone());
    unsafe {
        HOLDERS += 1;
        assert!(*WORD == -HOLDERS, "no handle is lost or invented under concurrent updates");
        assert!(DROPS == 0 && FREES == 0);
        kani::cover!(STEPS > 1);
        kani::cover!(STEPS == 0);
    }
    assert!(other.value == value);
}

#[kani::proof]
#[kani::stub(std::alloc::dealloc, dealloc_stub)]
#[kani::stub(core::sync::atomic::atomic_load, load_stub)]
#[kani::stub(core::sync::atomic::atomic_store, store_stub)]
#[kani::stub(core::sync::atomic::atomic_swap, swap_stub)]
#[kani::stub(core::sync::atomic::atomic_add, add_stub)]
#[kani::stub(core::sync::atomic::atomic_sub, sub_stub)]
#[kani::stub(core::sync::atomic::atomic_compare_exchange, exchange_stub)]
#[kani::stub(core::sync::atomic::atomic_compare_exchange_weak, exchange_stub)]
#[kani::unwind(5)]
#[kani::stub(core::sync::atomic::fence, fence_stub)]
fn shared_drop_under_interference() {
    let value = kani::any();
    let arc = unsafe { shared_block(value) };
    drop(arc);
    unsafe {
        HOLDERS -= 1;
        assert!(RELEASED, "giving up a shared handle publishes its writes");
        if HOLDERS == 0 {
            assert!(DROPS == 1 && FREES == 1 && FREED == WORD as *mut u8, "the last handle destroys the value once");
            assert!(DESTROYED_AFTER_ACQUIRE, "the destroying handle sees every other handle's writes");
        } else {
            assert!(*WORD == -HOLDERS, "no handle is lost or invented under concurrent updates");
            assert!(DROPS == 0 && FREES == 0, "the value outlives every handle but the last");
        }
        kani::cover!(HOLDERS == 0 && STEPS > 0);
        kani::cover!(HOLDERS == 0 && STEPS == 0);
        kani::cover!(HOLDERS > 0 && STEPS > 1);
    }
}

#[kani::proof]
#[kani::stub(std::alloc::dealloc, dealloc_stub)]
#[kani::stub(core::sync::atomic::atomic_load, load_stub)]
#[kani::stub(core::sync::atomic::atomic_store, store_stub)]
#[kani::stub(core::sync::atomic::atomic_swap, swap_stub)]
#[kani::stub(core::sync::atomic::atomic_add, add_stub)]
#[kani::stub(core::sync::atomic::atomic_sub, sub_stub)]
#[kani::stub(core::sync::atomic::atomic_compare_exchange, exchange_stub)]
#[kani::stub(core::sync::atomic::atomic_compare_exchange_weak, exchange_stub)]
#[kani::unwind(5)]
#[kani::stub(core::sync::atomic::fence, fence_stub)]
fn shared_get_mut_under_interference() {
    let value = kani::any();
    let mut arc = ManuallyDrop::new(unsafe { shared_block(value) });
    let granted = Arc::get_mut(&mut arc).is_some();
    unsafe {
        if granted {
            assert!(HOLDERS == 1, "mutable access is never granted while another handle exists");
            assert!(ACQUIRED, "mutable access sees every former handle's writes");
        }
        assert!(*WORD == -HOLDERS);
        assert!(DROPS == 0 && FREES == 0);
        kani::cover!(granted);
        kani::cover!(!granted && STEPS > 0);
    }
}
