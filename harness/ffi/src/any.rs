//! Contracts of values whose type is erased: `Any`, the types that
//! `#[pen_ffi::any]` generates conversions for, and closures.
use core::mem::forget;
use pen_ffi::{Any, Closure};

static mut LIVE: [isize; 3] = [0; 3];
static mut DROPPED: [usize; 3] = [0; 3];

macro_rules! counted {
    ($name:ident, $index:literal, $type:ty) => {
        #[pen_ffi::any(crate = "pen_ffi")]
        pub struct $name(pub $type);

        impl $name {
            fn make(value: $type) -> Self {
                unsafe { LIVE[$index] += 1 };
                Self(value)
            }
        }

        impl Clone for $name {
            fn clone(&self) -> Self {
                Self::make(self.0)
            }
        }

        impl Drop for $name {
            fn drop(&mut self) {
                unsafe {
                    LIVE[$index] -= 1;
                    DROPPED[$index] += 1;
                }
            }
        }
    };
}

counted!(Wide, 0, u64);
counted!(Narrow, 1, u16);
counted!(Other, 2, u64);

fn reset() {
    unsafe {
        LIVE = [0; 3];
        DROPPED = [0; 3];
    }
}

fn live(index: usize) -> isize {
    unsafe { LIVE[index] }
}

macro_rules! erased {
    ($clone:ident, $take:ident, $read:ident, $write:ident, $name:ident, $index:literal, $type:ty, $other:ident) => {
        #[kani::proof]
        fn $clone() {
            reset();
            let value: $type = kani::any();
            let any = Any::from($name::make(value));
            assert!(live($index) == 1, "erasing a value neither copies nor drops it");
            let other = any.clone();
            assert!(live($index) == 2, "cloning an erased value clones the value once");
            let inner: Option<&$name> = (&other).try_into().ok();
            assert!(inner.is_some());
            assert!(inner.unwrap().0 == value, "a clone holds an equal value");
            if kani::any() {
                drop(any);
                assert!(live($index) == 1, "dropping an erased value drops the value once");
                drop(other);
            } else {
                drop(other);
                assert!(live($index) == 1, "dropping an erased value drops the value once");
                drop(any);
            }
            assert!(live($index) == 0, "every erased value is dropped");
            assert!(unsafe { DROPPED[$index] } == 2);
            kani::cover!(true);
        }

        #[kani::proof]
        fn $take() {
            reset();
            let value: $type = kani::any();
            let any = Any::from($name::make(value));
            if kani::any() {
                let result: Option<$name> = any.try_into().ok();
                assert!(result.is_some(), "an erased value is taken back as its own type");
                assert!(live($index) == 1, "taking a value back neither copies nor drops it");
                let result = result.unwrap();
                assert!(result.0 == value, "the value taken back is the one erased");
                drop(result);
            } else {
                let result: Result<$other, ()> = any.try_into();
                assert!(result.is_err(), "a value is never taken back as another type");
                kani::cover!(true);
            }
            assert!(live($index) == 0, "an erased value is dropped exactly once");
            assert!(unsafe { DROPPED[$index] } == 1);
        }

        #[kani::proof]
        fn $read() {
            reset();
            let value: $type = kani::any();
            let any = Any::from($name::make(value));
            {
                let inner: Result<&$name, ()> = (&any).try_into();
                assert!(inner.is_ok() && inner.unwrap().0 == value, "an erased value is read as its own type");
                let inner: Result<&$other, ()> = (&any).try_into();
                assert!(inner.is_err(), "a value is never read as another type");
            }
            assert!(live($index) == 1, "reading does not consume");
            drop(any);
            assert!(live($index) == 0);
            kani::cover!(true);
        }

        #[kani::proof]
        fn $write() {
            reset();
            let value: $type = kani::any();
            let new: $type = kani::any();
            let mut any = Any::from($name::make(value));
            {
                let inner: Result<&mut $other, ()> = (&mut any).try_into();
                assert!(inner.is_err(), "a value is never written as another type");
            }
            {
                let inner: Result<&mut $name, ()> = (&mut any).try_into();
                assert!(inner.is_ok());
                inner.unwrap().0 = new;
            }
            let inner: Result<&$name, ()> = (&any).try_into();
            assert!(inner.unwrap().0 == new, "a write through an erased value is seen");
            drop(any);
            assert!(live($index) == 0);
            assert!(unsafe { DROPPED[$index] } == 1);
            kani::cover!(value != new);
        }
    };
}

erased!(wide_clone_and_drop, wide_take, wide_read, wide_write, Wide, 0, u64, Other);
erased!(narrow_clone_and_drop, narrow_take, narrow_read, narrow_write, Narrow, 1, u16, Wide);
erased!(other_clone_and_drop, other_take, other_read, other_write, Other, 2, u64, Wide);

#[derive(Clone)]
struct Captured(u64, u8);

impl Drop for Captured {
    fn drop(&mut self) {
        unsafe { DROPPED[0] += 1 }
    }
}

extern "C" fn entry() {}

#[kani::proof]
#[kani::stub(std::alloc::dealloc, crate::free_stub)]
fn closure_keeps_its_function_and_captures() {
    reset();
    let (a, b): (u64, u8) = kani::any();
    let closure = Closure::new(entry as *const u8, Captured(a, b));
    let other = closure.clone();
    for closure in [&closure, &other] {
        assert!(closure.entry_function() == entry as *const u8, "a closure keeps its function");
        let captured = unsafe { &*closure.payload() };
        assert!(captured.0 == a && captured.1 == b, "a closure keeps its captured values");
    }
    let typed: bool = kani::any();
    let payload = closure.payload() as *const Captured;
    if typed {
        drop(closure);
    } else {
        let opaque = closure.into_opaque();
        assert!(opaque.entry_function() == entry as *const u8);
        assert!(opaque.payload() as *const Captured == payload, "an opaque closure keeps its captured values");
        drop(opaque);
    }
    assert!(unsafe { DROPPED[0] } == 0, "captured values live as long as any handle");
    if kani::any() {
        drop(other);
    } else {
        drop(other.into_opaque());
    }
    assert!(unsafe { DROPPED[0] } == 1, "captured values are dropped exactly once");
    kani::cover!(typed);
    kani::cover!(!typed);
}

static mut METADATA_DROPS: usize = 0;

/// The ABI view of a closure's block.
#[repr(C)]
struct Block {
    entry: *const u8,
    metadata: *const Metadata,
}

#[repr(C)]
struct Metadata {
    drop: extern "C" fn(*mut Block),
    synchronize: extern "C" fn(*mut Block),
}

extern "C" fn foreign_drop(_: *mut Block) {
    unsafe { METADATA_DROPS += 1 }
}

extern "C" fn foreign_synchronize(_: *mut Block) {}

static METADATA: Metadata = Metadata {
    drop: foreign_drop,
    synchronize: foreign_synchronize,
};

/// A closure that compiled code made, or evaluated and changed, is dropped the
/// way its block says.
#[kani::proof]
#[kani::stub(std::alloc::dealloc, crate::free_stub)]
fn closure_is_dropped_as_its_block_says() {
    unsafe { METADATA_DROPS = 0 };
    reset();
    let closure = Closure::new(entry as *const u8, Captured(kani::any(), kani::any()));
    let block = unsafe { (closure.payload() as *mut Block).sub(1) };
    unsafe {
        assert!((*block).entry == entry as *const u8, "compiled code finds the function in front of captured values");
        (*block).metadata = &METADATA;
        (*block).entry = foreign_drop as *const u8;
    }
    assert!(closure.entry_function() == foreign_drop as *const u8, "the function that compiled code set is seen");
    drop(closure);
    assert!(unsafe { METADATA_DROPS } == 1, "a closure is dropped as its block says");
    assert!(unsafe { DROPPED[0] } == 0);
    kani::cover!(true);
}

#[kani::proof]
fn payload_bits_survive() {
    extern "C" fn clone(x: u64) -> u64 {
        x
    }
    extern "C" fn nothing(_: u64) {}
    static INFORMATION: pen_ffi::TypeInformation = pen_ffi::TypeInformation::new(clone, nothing, nothing);
    let payload: u64 = kani::any();
    let any = Any::new(&INFORMATION, payload);
    assert!(*any.payload() == payload);
    assert!(*any.clone().payload() == payload);
    assert!(core::ptr::eq(any.type_information(), &INFORMATION));
    assert!(core::ptr::eq(any.clone().type_information(), &INFORMATION), "a clone has the type of its original");
    forget(any);
    kani::cover!(true);
}
