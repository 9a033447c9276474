use core::task::{RawWaker, RawWakerVTable, Waker};

pub static mut WAKES: usize = 0;

fn clone(_: *const ()) -> RawWaker {
    RawWaker::new(core::ptr::null(), &TABLE)
}

fn wake(_: *const ()) {
    unsafe { WAKES += 1 }
}

fn nothing(_: *const ()) {}

static TABLE: RawWakerVTable = RawWakerVTable::new(clone, wake, wake, nothing);

pub fn waker() -> Waker {
    unsafe { Waker::from_raw(RawWaker::new(core::ptr::null(), &TABLE)) }
}
