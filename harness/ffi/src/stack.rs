//! Contracts of `cps::Stack`, for every capacity, every size and every content.
use core::{alloc::Layout, mem::ManuallyDrop};
use pen_ffi::cps::Stack;

const MAX_SIZE: usize = if cfg!(kani) { 1 << 40 } else { 1 << 12 };
const ALIGNMENT: usize = 8;

/// The ABI view of a stack, which compiled programs rely on.
#[repr(C)]
#[derive(Clone, Copy)]
struct View {
    base: *mut u8,
    size: usize,
    capacity: usize,
}

fn view(stack: &Stack) -> View {
    assert!(core::mem::size_of::<Stack>() == core::mem::size_of::<View>());
    unsafe { *(stack as *const Stack as *const View) }
}

/// The representation invariant.
fn well_formed(view: View) -> bool {
    view.size % ALIGNMENT == 0
        && view.size <= view.capacity
        && view.capacity % ALIGNMENT == 0
        && view.capacity > 0
}

/// An arbitrary well-formed stack.
fn any_stack() -> ManuallyDrop<Stack> {
    let capacity: usize = kani::any();
    kani::assume(capacity >= 1 && capacity <= MAX_SIZE);
    let mut stack = ManuallyDrop::new(Stack::new(capacity));
    let size: usize = kani::any();
    let mut state = view(&stack);
    state.size = size;
    kani::assume(well_formed(state));
    unsafe { *(&mut *stack as *mut Stack as *mut View) = state };
    stack
}

#[kani::proof]
fn new_stack_is_well_formed() {
    let capacity: usize = kani::any();
    kani::assume(capacity <= MAX_SIZE);
    let stack = ManuallyDrop::new(Stack::new(capacity));
    let state = view(&stack);
    assert!(state.size == 0, "a new stack is empty");
    assert!(state.capacity >= capacity, "a new stack has the capacity asked for");
    assert!(well_formed(state));
    kani::cover!(capacity == 0);
    kani::cover!(capacity == 9);
}

fn push_pop<T: Copy + PartialEq + kani::Arbitrary>() {
    let mut stack = any_stack();
    let before = view(&stack);
    let index: usize = kani::any();
    let old = if index < before.size {
        Some(unsafe { *before.base.add(index) })
    } else {
        None
    };
    let value: T = kani::any();
    stack.push(value);
    let after = view(&stack);
    assert!(well_formed(after), "pushing keeps the stack well formed");
    assert!(after.size >= before.size + core::mem::size_of::<T>());
    assert!(after.capacity >= before.capacity);
    assert!((after.base as usize + before.size) % core::mem::align_of::<T>() == 0, "values are aligned");
    if let Some(old) = old {
        assert!(unsafe { *after.base.add(index) } == old, "pushing keeps every value below");
    }
    assert!(stack.pop::<T>() == value, "popping returns the value pushed last");
    let last = view(&stack);
    assert!(last.size == before.size, "popping undoes the push");
    assert!(well_formed(last));
    if let Some(old) = old {
        assert!(unsafe { *last.base.add(index) } == old, "popping keeps every value below");
    }
    kani::cover!(
        (after.capacity > before.capacity || core::mem::size_of::<T>() == 0) && old.is_some()
    );
    kani::cover!(after.capacity == before.capacity);
}

macro_rules! push_pop {
    ($($name:ident: $type:ty, $bound:literal;)*) => {
        $(
            #[kani::proof]
            #[kani::unwind($bound)]
            fn $name() {
                push_pop::<$type>()
            }
        )*
    };
}

#[derive(Clone, Copy, PartialEq, kani::Arbitrary)]
struct Pair(u64, u8);

#[derive(Clone, Copy, PartialEq, kani::Arbitrary)]
struct Words(u64, u64, u64, u64, u64);

// A capacity is at least a word and doubles, so the bounds below are never
// reached: Kani proves that too.
push_pop! {
    push_pop_unit: (), 3;
    push_pop_u8: u8, 3;
    push_pop_u32: u32, 3;
    push_pop_u64: u64, 3;
    push_pop_pointer: usize, 3;
    push_pop_pair: Pair, 4;
    push_pop_words: Words, 5;
}

#[kani::proof]
#[kani::unwind(5)]
fn values_of_mixed_types_come_back_in_reverse_order() {
    let mut stack = ManuallyDrop::new(Stack::new(8));
    let (a, b, c): (u64, u8, Pair) = (kani::any(), kani::any(), kani::any());
    stack.push(a);
    stack.push(b);
    assert!(stack.pop::<u8>() == b);
    stack.push(c);
    stack.push(b);
    assert!(stack.pop::<u8>() == b);
    assert!(stack.pop::<Pair>() == c);
    assert!(stack.pop::<u64>() == a);
    assert!(view(&stack).size == 0);
    kani::cover!(true);
}

static mut FREED: *mut u8 = core::ptr::null_mut();
static mut FREES: usize = 0;
static mut LAYOUT: (usize, usize) = (0, 0);

unsafe fn dealloc_stub(pointer: *mut u8, layout: Layout) {
    FREES += 1;
    FREED = pointer;
    LAYOUT = (layout.size(), layout.align());
}

#[kani::proof]
#[kani::stub(std::alloc::dealloc, dealloc_stub)]
fn dropping_releases_the_block_once() {
    let stack = any_stack();
    let state = view(&stack);
    drop(ManuallyDrop::into_inner(stack));
    unsafe {
        assert!(FREES == 1 && FREED == state.base, "a dropped stack releases its block once");
        assert!(LAYOUT.0 == state.capacity, "with the size it was allocated with");
    }
    kani::cover!(state.size > 0);
}
